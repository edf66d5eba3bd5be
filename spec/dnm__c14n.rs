//! Reference models for the canonical form and the normalised text.
use super::*;
use lazy_static::lazy_static;

lazy_static! {
  /// numbers, and words joined by underscores, separated by white space
  static ref LEXEMES: Regex = Regex::new(r"(?:(?:NUM|(?:(?:\S+_)+(?:\S+)))(\s|$))+").unwrap();
}

pub fn canonical_text(dnm: &DNM, node: RoNode) -> String {
  let mut out = String::new();
  dnm.canonical_internal(node, None, &mut out);
  out
}
pub fn canonical_document(dnm: &DNM) -> String { dnm.node_c14n_basic(dnm.root_node) }
pub fn hashed_document(dnm: &DNM) -> String { dnm.node_hash_basic(dnm.root_node) }
/// a fresh digest of the canonical text
pub fn hashed(dnm: &DNM, node: RoNode) -> String {
  let mut hasher = MD5_HASHER.lock().unwrap();
  hasher.reset();
  hasher.input_str(&dnm.node_c14n_basic(node));
  hasher.result_str()
}
pub fn hashed_text_first(dnm: &DNM, node: RoNode) -> String {
  let text = dnm.node_c14n_basic(node);
  let mut hasher = MD5_HASHER.lock().unwrap();
  hasher.reset();
  hasher.input_str(&text);
  hasher.result_str()
}
pub fn hashed_reset_late(dnm: &DNM, node: RoNode) -> String {
  let mut hasher = MD5_HASHER.lock().unwrap();
  let text = dnm.node_c14n_basic(node);
  hasher.reset();
  hasher.input_str(&text);
  hasher.result_str()
}
pub fn hashed_locally(dnm: &DNM, node: RoNode) -> String {
  let mut hasher = Md5::new();
  hasher.input_str(&dnm.node_c14n_basic(node));
  hasher.result_str()
}

fn line(indent: Option<u32>) -> String {
  match indent {
    None => String::new(),
    Some(level) => {
      let mut s = String::new() + "\n";
      s += &(1..level).map(|_| " ").collect::<String>();
      s
    },
  }
}
fn children_first(dnm: &DNM, node: RoNode, indent: Option<u32>, out: &mut String) {
  if let Some(first) = node.get_first_child() {
    dnm.canonical_internal(first, indent, out);
    let mut last = first;
    while let Some(next) = last.get_next_sibling() {
      dnm.canonical_internal(next, indent, out);
      last = next;
    }
  }
}
fn children_loop(dnm: &DNM, node: RoNode, indent: Option<u32>, out: &mut String) {
  let mut child = node.get_first_child();
  while let Some(c) = child {
    dnm.canonical_internal(c, indent, out);
    child = c.get_next_sibling();
  }
}
/// text that is not blank; elements with their name and their sorted classes, without mathematical
/// annotations; the wrapper element of mathematics has no tags of its own
macro_rules! canonical { ($name: ident, $children: ident) => {
pub fn $name(dnm: &DNM, node: RoNode, indent: Option<u32>, out: &mut String) {
  let new_line = line(indent);
  let deeper = indent.map(|level| level + 2);
  match node.get_type() {
    Some(TextNode) => {
      if let Ok(range) = dnm.get_range_of_node(node) {
        let text = range.get_plaintext();
        if !text.trim().is_empty() {
          out.push_str(&new_line);
          out.push_str(text);
        }
      }
    },
    Some(ElementNode) => {
      let name = node.get_name();
      if name == "annotation" || name == "annotation-xml" {
        return;
      }
      if name != "semantics" {
        out.push_str(&new_line);
        out.push_str("<");
        out.push_str(&name);
        let class = node.get_property("class").unwrap_or_default();
        let mut classes: Vec<_> = class.split_whitespace().collect();
        if !classes.is_empty() {
          classes.sort_unstable();
          out.push_str(" class=\"");
          for c in classes {
            out.push_str(c);
            out.push(' ');
          }
          out.pop();
          out.push('"');
        }
        out.push_str(">");
      }
      $children(dnm, node, deeper, out);
      if name != "semantics" {
        out.push_str(&new_line);
        out.push_str("</");
        out.push_str(&name);
        out.push_str(">");
      }
    },
    _ => {},
  }
}
}}
canonical!(canonical, children_first);
canonical!(canonical_loop, children_loop);

pub fn titlecase(s: &str) -> String {
  let mut s: String = s.to_string();
  if let Some(first) = s.get_mut(0..1) {
    first.make_ascii_uppercase();
  }
  s
}
/// every line that is not empty, with runs of lexemes replaced, starting in upper case
pub fn normalized(text: &str) -> String {
  let mut sentences: Vec<String> = Vec::new();
  for line in text.split('\n') {
    if !line.is_empty() {
      sentences.push(make_ascii_titlecase(&LEXEMES.replace_all(line, "mathformula ")));
    }
  }
  sentences.join(" . ")
}
