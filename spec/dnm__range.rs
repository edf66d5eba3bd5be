//! Reference models for ranges and their pointers.
use super::*;

pub fn range_text<'a>(r: &DNMRange<'a>) -> &'a str {
  let from = r.dnm.byte_offsets[r.start];
  let to = r.dnm.byte_offsets[r.end];
  &r.dnm.plaintext[from..to]
}
pub fn range_text_truncated<'a>(r: &DNMRange<'a>) -> &'a str { r.get_plaintext().trim_end() }
pub fn first_node(r: &DNMRange) -> RoNode { r.dnm.back_map[r.start].0 }
pub fn same_range<'a>(r: &DNMRange<'a>) -> DNMRange<'a> { DNMRange { start: r.start, end: r.end, dnm: r.dnm } }

/// one character per step from either side; nothing left means the empty range at the end
macro_rules! trimmed { ($name: ident, $op: tt) => {
pub fn $name<'a>(r: &DNMRange<'a>) -> DNMRange<'a> {
  let text = r.get_plaintext();
  let mut start = r.start;
  let mut end = r.end;
  for c in text.chars() {
    if !c.is_whitespace() {
      break;
    }
    start += 1;
  }
  for c in text.chars().rev() {
    if !c.is_whitespace() {
      break;
    }
    end -= 1;
  }
  if start $op end {
    DNMRange { start, end, dnm: r.dnm }
  } else {
    DNMRange { start: r.end, end: r.end, dnm: r.dnm }
  }
}
}}
trimmed!(trimmed, <);
// equal bounds only occur for the empty range
trimmed!(trimmed_or_equal, <=);
pub fn subrange<'a>(r: &DNMRange<'a>, rel_start: usize, rel_end: usize) -> DNMRange<'a> {
  DNMRange { start: rel_start + r.start, end: rel_end + r.start, dnm: r.dnm }
}
/// the characters the first and the last byte belong to
pub fn byte_subrange<'a>(r: &DNMRange<'a>, rel_start: usize, rel_end: usize) -> DNMRange<'a> {
  let base = r.dnm.byte_offsets[r.start];
  let first = r.byte_offset_bisection(base + rel_start, r.start, r.end);
  let last = r.byte_offset_bisection(base + rel_end - 1, r.start, r.end);
  DNMRange { start: first, end: last + 1, dnm: r.dnm }
}
pub fn bisection(r: &DNMRange, target: usize, lower: usize, upper: usize) -> usize {
  if lower == upper {
    return lower;
  }
  if upper == lower + 1 {
    return if target < r.dnm.byte_offsets[upper] { lower } else { upper };
  }
  let middle = (lower + upper) / 2;
  if target < r.dnm.byte_offsets[middle] {
    r.byte_offset_bisection(target, lower, middle)
  } else {
    r.byte_offset_bisection(target, middle, upper)
  }
}
pub fn empty_range(r: &DNMRange) -> bool { r.end == r.start }

/// start and end of the pointer; the end lies behind the last character
pub fn pointer(r: &DNMRange) -> String {
  if !r.dnm.parameters.support_back_mapping {
    panic!("no back map");
  }
  let (from, from_offset) = r.dnm.back_map[r.start];
  let (to, to_offset) = match r.dnm.back_map.get(r.end) {
    Some(entry) => *entry,
    None => {
      let (node, offset) = r.dnm.back_map[r.end - 1];
      if offset < 0 {
        (node, offset)
      } else {
        (node, offset + 1)
      }
    },
  };
  DNMRange::create_arange(
    &DNMRange::serialize_offset(r.dnm.root_node, from, from_offset, false),
    &DNMRange::serialize_offset(r.dnm.root_node, to, to_offset, true),
  )
}
pub fn arange(from: &str, to: &str) -> String { format!("arange({},{})", from, to) }
/// character numbers are one-based; a node replaced as a whole has no character number
pub fn pointer_part(root: RoNode, node: RoNode, offset: i32, is_end: bool) -> String {
  let path = DNMRange::serialize_node(root, node, is_end);
  if offset >= 0 {
    format!("string-index({},{})", path, offset + 1)
  } else {
    path
  }
}
pub fn pointer_part_str(root: RoNode, node: RoNode, offset: i32, is_end: bool) -> String {
  let path = DNMRange::serialize_node(root, node, is_end);
  if offset >= 0 {
    format!("string-index({},{})", path, &(offset + 1).to_string())
  } else {
    path
  }
}
/// by id, else the path from the parent with the number among siblings of its kind
pub fn node_path(root: RoNode, node: RoNode, is_end: bool) -> String {
  if let Some(id) = node.get_property("id") {
    return format!("//*[@id=\"{}\"]", id);
  }
  if node == root {
    return "/".to_string();
  }
  if node.is_text_node() {
    let parent = node.get_parent().unwrap();
    let base = DNMRange::serialize_node(root, parent, false);
    let number = get_node_number(parent, node, &|n: RoNode| n.is_text_node()).unwrap();
    return format!("{}/text()[{}]", base, number);
  }
  let act = if is_end { get_next_sibling(root, node).unwrap_or(node) } else { node };
  let parent = act.get_parent().unwrap();
  let base = DNMRange::serialize_node(root, parent, false);
  let step = if act.is_text_node() {
    "text()".to_string()
  } else {
    match act.get_namespace() {
      None => act.get_name(),
      Some(ns) => {
        let prefix = ns.get_prefix();
        if prefix.is_empty() {
          format!("*[local-name() = '{}']", act.get_name())
        } else {
          format!("{}:{}", prefix, act.get_name())
        }
      },
    }
  };
  let number = get_node_number(parent, act, &|n: RoNode| n.get_name() == act.get_name()).unwrap();
  format!("{}/{}[{}]", base, step, number)
}
pub fn read_range<'a>(string: &str, dnm: &'a DNM, xpath_context: &Context) -> DNMRange<'a> {
  assert_eq!(&(string[0..7]), "arange(");
  assert_eq!(&(string[string.len() - 1..string.len()]), ")");
  let comma = match string.find("),") {
    Some(k) => k + 1,
    None => match string.find("],") {
      Some(k) => k + 1,
      None => panic!("malformed"),
    },
  };
  let start = DNMRange::xpointer_to_offset(&string[7..comma], dnm, xpath_context);
  let end = DNMRange::xpointer_to_offset(&string[comma + 1..string.len() - 1], dnm, xpath_context);
  DNMRange { start, end, dnm }
}
pub fn read_offset(string: &str, dnm: &DNM, xpath_context: &Context) -> usize {
  if string.len() > 13 && &(string[0..13]) == "string-index(" {
    let comma = string.find(',').unwrap();
    let node_set = xpath_context.evaluate(&string[13..comma]).unwrap();
    assert_eq!(node_set.get_number_of_nodes(), 1);
    let node = node_set.get_readonly_nodes_as_vec()[0];
    match dnm.get_range_of_node(node) {
      Err(_) => get_position_of_lowest_parent(node, dnm),
      Ok(range) => {
        let offset = string[comma + 1..string.len() - 1].parse::<i32>().unwrap() - 1;
        let mut pos = range.start;
        while pos < range.end && dnm.back_map[pos].1 < offset {
          pos += 1;
        }
        pos
      },
    }
  } else {
    let node_set = xpath_context.evaluate(string).unwrap();
    assert_eq!(node_set.get_number_of_nodes(), 1);
    get_position_of_lowest_parent(node_set.get_readonly_nodes_as_vec()[0], dnm)
  }
}
pub fn lowest_parent(node: RoNode, dnm: &DNM) -> usize {
  if let Ok(range) = dnm.get_range_of_node(node) {
    range.start
  } else {
    get_position_of_lowest_parent(node.get_parent().unwrap(), dnm)
  }
}
pub fn next_node(root: RoNode, node: RoNode) -> Option<RoNode> {
  if let Some(next) = node.get_next_sibling() {
    Some(next)
  } else if node == root {
    None
  } else {
    get_next_sibling(root, node.get_parent().unwrap())
  }
}
/// one more than the siblings of the kind before it; an error when it is no child
pub fn number_among(parent: RoNode, target: RoNode, rule: &dyn Fn(RoNode) -> bool) -> Result<i32, ()> {
  let mut cur = parent.get_first_child().expect("no children");
  let mut count = 1i32;
  while cur != target {
    if rule(cur) {
      count += 1;
    }
    match cur.get_next_sibling() {
      Some(n) => cur = n,
      None => return Err(()),
    }
  }
  Ok(count)
}
