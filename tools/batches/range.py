F='dnm/range.rs'
T=['P17','P18']
CASES=[
 ('trim-bytes',[(F,'trimmed_start += 1','trimmed_start += c.len_utf8()')],T,'bug'),
 ('trim-start-end',[(F,'      trimmed_start = self.end;\n','      trimmed_start = self.start;\n')],T,'bug'),
 ('trim-gt',[(F,'trimmed_start >= trimmed_end','trimmed_start > trimmed_end')],T,'same'),
 ('subrange-rel',[(F,'end: self.start + rel_end','end: self.end.min(self.start + rel_end)')],T,'bug'),
 ('bisect-le',[(F,'self.dnm.byte_offsets[middle_char] > target_byte','self.dnm.byte_offsets[middle_char] >= target_byte')],T,'bug'),
 ('byte-end',[(F,'+ rel_end - 1,','+ rel_end,')],T,'bug'),
 ('ser-end-false',[(F,'node2, offset2, true','node2, offset2, false')],T,'bug'),
 ('ser-oneb',[(F,'&(offset + 1).to_string()','&offset.to_string()')],T,'bug'),
 ('ser-neg',[(F,'if offset < 0 {\n      DNMRange::ser','if offset <= 0 {\n      DNMRange::ser')],T,'bug'),
 ('ser-idquote',[(F,'//*[@id=\\"{x}\\"]','//*[@id={x}]')],T,'bug'),
 ('num-all',[(F,'if rule(cur) {\n      count','if true || rule(cur) {\n      count')],T,'bug'),
 ('num-target',[(F,'let mut count = 1i32','let mut count = 0i32')],T,'bug'),
 ('sib-up',[(F,'get_next_sibling(root_node, node.get_parent().unwrap())','None')],T,'bug'),
 ('read-minus',[(F,'parse::<i32>().unwrap() - 1','parse::<i32>().unwrap() - 0')],T,'bug'),
 ('read-lt',[(F,'dnm.back_map[pos].1 < offset','dnm.back_map[pos].1 <= offset')],T,'bug'),
 ('lowest-end',[(F,'Ok(range) => range.start,\n    Err','Ok(range) => range.end,\n    Err')],T,'bug'),
 ('revert-ser-end',[(F,'''match self.dnm.back_map.get(self.end) {
      Some(&entry) => entry,
      None => match self.dnm.back_map[self.end - 1] {
        (node, offset) if offset < 0 => (node, offset),
        (node, offset) => (node, offset + 1),
      },
    };''','self.dnm.back_map[self.end];')],T,'bug'),
 ('node-let',[(F,'if node == root_node {\n          return "/".to_string();\n        }','let at_root = node == root_node;\n        if at_root {\n          return String::from("/");\n        }')],T,'same'),
 ('trim-while',[(F,'''    for c in range_text.chars() {
      if c.is_whitespace() {
        trimmed_start += 1;
      } else {
        break;
      }
    }''','''    trimmed_start += range_text.chars().take_while(|c| c.is_whitespace()).count();''')],T,'same'),
 ('num-from-0',[(F,'let mut count = 1i32','let mut count = 0i32'),(F,'  Ok(count)\n','  Ok(count + 1)\n')],T,'same'),
 ('num-loop',[(F,'''  while cur != target {
    if rule(cur) {
      count += 1;
    }
    match cur.get_next_sibling() {
      None => {
        return Err(());
      },
      Some(n) => {
        cur = n;
      },
    }
  }
  Ok(count)''','''  loop {
    if cur == target {
      return Ok(count);
    }
    count += if rule(cur) { 1 } else { 0 };
    cur = cur.get_next_sibling().ok_or(())?;
  }''')],T,'same'),
]
