CASES = []
def bug(n, *e): CASES.append((n, list(e), ['P33'], 'bug'))
def same(n, *e): CASES.append((n, list(e), ['P33'], 'same'))
R = 'dnm/range.rs'; T = 'tokenizer.rs'; M = 'patterns/matching.rs'; D = 'util/data_helpers.rs'
# loops that stay where they are
bug('number-no-step', (R, '        cur = n;\n', '        let _ = n;\n'))
bug('number-step-when', (R, '        cur = n;\n', '        if rule(n) {\n          cur = n;\n        }\n'))
bug('offset-no-step', (R, '            pos += 1;\n', '            pos += 0;\n'))
bug('child-no-step', ('dnm/mod.rs', '        child_node = child;\n', '        let _ = child;\n'))
bug('c14n-no-step', ('dnm/c14n.rs', '            child_node = child;\n', ''))
bug('peek-blank', (T, "          while text_iterator.peek().unwrap_or(&'.').is_whitespace()\n            ||", "          while text_iterator.peek().unwrap_or(&' ').is_whitespace()\n            ||"))
bug('peek-blank-2', (T, "            while text_iterator.peek().unwrap_or(&'.').is_whitespace() {", "            while text_iterator.peek().map_or(true, |c| c.is_whitespace()) {"))
bug('peek-no-next', (T, "            while text_iterator.peek().unwrap_or(&'.').is_whitespace() {\n              text_iterator.next();\n", "            while text_iterator.peek().unwrap_or(&'.').is_whitespace() {\n"))
bug('first-again', ('dnm/mod.rs', 'while let Some(child) = child_node.get_next_sibling() {', 'while let Some(child) = node.get_first_child() {'))
# recursion that stays
bug('bisect-no-pair', (R, '    } else if upper_char == lower_char + 1 {', '    } else if upper_char == lower_char + 1 && target_byte == 0 {'))
bug('bisect-same', (R, 'self.byte_offset_bisection(target_byte, middle_char, upper_char)', 'self.byte_offset_bisection(target_byte, lower_char, upper_char)'))
bug('lowest-self', (R, 'get_position_of_lowest_parent(node.get_parent().unwrap(), dnm)', 'get_position_of_lowest_parent(node, dnm)'))
bug('sibling-self', (R, 'get_next_sibling(root_node, node.get_parent().unwrap())', 'get_next_sibling(root_node, node)'))
bug('node-self', (R, "          let base = DNMRange::serialize_node(root_node, parent, false /* don't take next */);\n          format!(\n            \"{}/text()[{}]\",", "          let base = DNMRange::serialize_node(root_node, node, false /* don't take next */);\n          format!(\n            \"{}/text()[{}]\","))
bug('marked-self', (M, 'match_word(pf, pattern, word, range)', 'match_word(pf, rule, word, range)'))
# the same
same('number-while', (R, "    match cur.get_next_sibling() {\n      None => {\n        return Err(());\n      },\n      Some(n) => {\n        cur = n;\n      },\n    }\n", "    cur = cur.get_next_sibling().ok_or(())?;\n"))
same('child-loop', ('dnm/mod.rs', """    if let Some(child) = node.get_first_child() {
      self.recurse_node_create(child);
      let mut child_node = child;
      while let Some(child) = child_node.get_next_sibling() {
        self.recurse_node_create(child);
        child_node = child;
      }
    }
""", """    let mut next = node.get_first_child();
    while let Some(child) = next {
      self.recurse_node_create(child);
      next = child.get_next_sibling();
    }
"""))
same('child-for', ('dnm/mod.rs', """    if let Some(child) = node.get_first_child() {
      self.recurse_node_create(child);
      let mut child_node = child;
      while let Some(child) = child_node.get_next_sibling() {
        self.recurse_node_create(child);
        child_node = child;
      }
    }
""", """    for child in node.get_child_nodes() {
      self.recurse_node_create(child);
    }
"""))
same('lowest-loop', (R, """  match dnm.get_range_of_node(node) {
    Ok(range) => range.start,
    Err(_) => get_position_of_lowest_parent(node.get_parent().unwrap(), dnm),
  }
""", """  let mut current = node;
  loop {
    if let Ok(range) = dnm.get_range_of_node(current) {
      return range.start;
    }
    current = current.get_parent().unwrap();
  }
"""))
same('sibling-loop', (R, """  match node.get_next_sibling() {
    None => {
      if node == root_node {
        dbg!("DNMRange::serialize: Warning: Can't annotate last node in document properly");
        None
      } else {
        get_next_sibling(root_node, node.get_parent().unwrap())
      }
    },
    Some(n) => Some(n),
  }
""", """  let mut node = node;
  loop {
    if let Some(n) = node.get_next_sibling() {
      return Some(n);
    }
    if node == root_node {
      dbg!("DNMRange::serialize: Warning: Can't annotate last node in document properly");
      return None;
    }
    node = node.get_parent().unwrap();
  }
"""))
same('bisect-loop', (R, """    let middle_char = (lower_char + upper_char) / 2;
    if self.dnm.byte_offsets[middle_char] > target_byte {
      self.byte_offset_bisection(target_byte, lower_char, middle_char)
    } else {
      self.byte_offset_bisection(target_byte, middle_char, upper_char)
    }
""", """    let middle_char = lower_char + (upper_char - lower_char) / 2;
    if self.dnm.byte_offsets[middle_char] > target_byte {
      self.byte_offset_bisection(target_byte, lower_char, middle_char)
    } else {
      self.byte_offset_bisection(target_byte, middle_char, upper_char)
    }
"""))
same('offset-for', (R, """          while pos < range.end && dnm.back_map[pos].1 < offset {
            pos += 1;
          }
""", """          loop {
            if pos >= range.end || dnm.back_map[pos].1 >= offset {
              break;
            }
            pos += 1;
          }
"""))
same('filter-walk', ('parallel_data.rs', """    if let Some(range) = self.walker.next() {
      if range.is_empty() {
        self.next()
      } else {
        Some(ItemDNMRange {
          range,
          document: self.document,
        })
      }
    } else {
      None
    }
""", """    while let Some(range) = self.walker.next() {
      if !range.is_empty() {
        return Some(ItemDNMRange {
          range,
          document: self.document,
        });
      }
    }
    None
"""))
same('heading-loop', (D, '    normalize_heading_title(&simple_heading)\n', '    let again = simple_heading.into_owned();\n    normalize_heading_title(&again)\n'))
same('rename-pos', (M, 'PosPattern::PosRef(o) => match_pos(pf, &pf.pos_rules[o].pattern, pos)', 'PosPattern::PosRef(o) => {\n      let referred = &pf.pos_rules[o];\n      match_pos(pf, &referred.pattern, pos)\n    }'))
