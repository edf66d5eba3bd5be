"""As outsider.py, for the modules only rustfmt reads in the crate's own build."""
CASES = []
def bug(n, *e): CASES.append((n, list(e), None, 'bug'))
def same(n, *e): CASES.append((n, list(e), None, 'same'))
M = 'dnm/mod.rs'; C = 'dnm/c14n.rs'; R = 'dnm/range.rs'; H = 'util/data_helpers.rs'; W = 'util/path_helpers.rs'; K = 'util/token_model.rs'; Z = 'tokenizer.rs'
src = {f: open('/repo/src/' + f).read() for f in (M, C, R, H, W, K, Z)}
def body(f, start, end):
    s = src[f]; i = s.index(start) + len(start); j = s.index(end, i); return s[i:j]
# --- dnm/mod
same('new-plain', (M, '''    for c in &dnm.runtime.chars {
      dnm.byte_offsets.push(dnm.plaintext.len());
      dnm.plaintext.push(*c);
    }
    dnm.byte_offsets.push(dnm.plaintext.len()); // to have the length of the last char as well
''', '''    dnm.plaintext = dnm.runtime.chars.iter().collect();
    dnm.byte_offsets = dnm.plaintext.char_indices().map(|(at, _)| at).collect();
    dnm.byte_offsets.push(dnm.plaintext.len()); // to have the length of the last char as well
'''))
same('new-offset-var', (M, '''    for c in &dnm.runtime.chars {
      dnm.byte_offsets.push(dnm.plaintext.len());
      dnm.plaintext.push(*c);
    }
    dnm.byte_offsets.push(dnm.plaintext.len()); // to have the length of the last char as well
''', '''    let mut offset = 0;
    dnm.byte_offsets.push(offset);
    for c in &dnm.runtime.chars {
      dnm.plaintext.push(*c);
      offset += c.len_utf8();
      dnm.byte_offsets.push(offset);
    }
'''))
bug('new-offset-chars', (M, '''      dnm.byte_offsets.push(dnm.plaintext.len());
      dnm.plaintext.push(*c);
    }''', '''      dnm.byte_offsets.push(dnm.byte_offsets.len());
      dnm.plaintext.push(*c);
    }'''))
same('new-helper', (M, '''    // generate plaintext
    assert_eq!(dnm.plaintext.len(), 0);
    for c in &dnm.runtime.chars {
      dnm.byte_offsets.push(dnm.plaintext.len());
      dnm.plaintext.push(*c);
    }
    dnm.byte_offsets.push(dnm.plaintext.len()); // to have the length of the last char as well

    dnm
  }
''', '''    dnm.generate_plaintext();
    dnm
  }

  /// generate plaintext
  fn generate_plaintext(&mut self) {
    assert!(self.plaintext.is_empty());
    for &c in self.runtime.chars.iter() {
      self.byte_offsets.push(self.plaintext.len());
      self.plaintext.push(c);
    }
    self.byte_offsets.push(self.plaintext.len()); // to have the length of the last char as well
  }
'''))
same('text-offsets-if', (M, '''    let mut offsets: Vec<i32> = if self.parameters.support_back_mapping {
      (0i32..(string.chars().count() as i32)).collect()
    } else {
      Vec::new()
    };''', '''    let mut offsets: Vec<i32> = Vec::new();
    if self.parameters.support_back_mapping {
      offsets.extend(0..string.chars().count() as i32);
    }'''))
same('text-offsets-enum', (M, '''    let mut offsets: Vec<i32> = if self.parameters.support_back_mapping {
      (0i32..(string.chars().count() as i32)).collect()
    } else {''', '''    let mut offsets: Vec<i32> = if self.parameters.support_back_mapping {
      string.chars().enumerate().map(|(i, _)| i as i32).collect()
    } else {'''))
same('text-extend-map', (M, '''      for offset in offsets {
        self.back_map.push((node, offset));
      }''', '''      self.back_map.extend(offsets.into_iter().map(|offset| (node, offset)));'''))
same('ws-zip', (M, '''      if c.is_whitespace() {
        if !self.runtime.had_whitespace {
          self.runtime.had_whitespace = true;
          new_string.push(' ');
          if self.parameters.support_back_mapping {
            new_offsets.push(offsets[i]);
          }
        }
      } else {
        new_string.push(c);
        self.runtime.had_whitespace = false;
        if self.parameters.support_back_mapping {
          new_offsets.push(offsets[i]);
        }
      }
''', '''      let blank = c.is_whitespace();
      if blank && self.runtime.had_whitespace {
        continue;
      }
      self.runtime.had_whitespace = blank;
      new_string.push(if blank { ' ' } else { c });
      if self.parameters.support_back_mapping {
        new_offsets.push(offsets[i]);
      }
'''))
bug('ws-reset', (M, '''        new_string.push(c);
        self.runtime.had_whitespace = false;
''', '''        new_string.push(c);
        self.runtime.had_whitespace = c == '-';
'''))
same('ws-body-wrap', (M, '''    if !self.parameters.normalize_white_spaces {
      return;
    }
    let mut new_string = String::new();''', '''    let keep = !self.parameters.normalize_white_spaces;
    if keep {
      return;
    }
    let mut new_string = String::with_capacity(string.len());'''))
same('uni-offset-zip', (M, '''    for (i, co) in string.chars().enumerate() {
      for cn in unidecode_char(co).chars() {
        new_string.push(cn);
        new_offsets.push(offsets[i]);
      }
    }
''', '''    for (co, &offset) in string.chars().zip(offsets.iter()) {
      for cn in unidecode_char(co).chars() {
        new_string.push(cn);
        new_offsets.push(offset);
      }
    }
'''))
same('uni-pushstr', (M, '''      for cn in unidecode_char(co).chars() {
        new_string.push(cn);
        new_offsets.push(offsets[i]);
      }
''', '''      let replacement = unidecode_char(co);
      new_string.push_str(replacement);
      for _ in replacement.chars() {
        new_offsets.push(offsets[i]);
      }
'''))
bug('uni-pushstr-len', (M, '''      for cn in unidecode_char(co).chars() {
        new_string.push(cn);
        new_offsets.push(offsets[i]);
      }
''', '''      let replacement = unidecode_char(co);
      new_string.push_str(replacement);
      if !replacement.is_empty() {
        new_offsets.push(offsets[i]);
      }
'''))
same('stem-match', (M, '''    if self.parameters.stem_words_full {
      *string = rustmorpha::full_stem(string);
    } else if self.parameters.stem_words_once {
      *string = rustmorpha::stem(string);
    }
''', '''    match (self.parameters.stem_words_full, self.parameters.stem_words_once) {
      (true, _) => *string = rustmorpha::full_stem(string),
      (false, true) => *string = rustmorpha::stem(string),
      (false, false) => {},
    }
'''))
same('node-iter-children', (M, '''    if let Some(child) = node.get_first_child() {
      self.recurse_node_create(child);
      let mut child_node = child;
      while let Some(child) = child_node.get_next_sibling() {
        self.recurse_node_create(child);
        child_node = child;
      }
    }
    record_node_map!''', '''    let mut next = node.get_first_child();
    while let Some(child) = next {
      self.recurse_node_create(child);
      next = child.get_next_sibling();
    }
    record_node_map!'''))
same('node-children-api', (M, '''    if let Some(child) = node.get_first_child() {
      self.recurse_node_create(child);
      let mut child_node = child;
      while let Some(child) = child_node.get_next_sibling() {
        self.recurse_node_create(child);
        child_node = child;
      }
    }
    record_node_map!''', '''    for child in std::iter::successors(node.get_first_child(), |child| child.get_next_sibling()) {
      self.recurse_node_create(child);
    }
    record_node_map!'''))
same('node-rules-collect', (M, '''      let mut rules = Vec::new();
      // First class rules, as more specific
      for classname in node.get_class_names() {
        let class_rule = self.parameters.special_tag_class_options.get(&classname);
        rules.push(class_rule);
      }
      // Then element rules as more general
      rules.push(self.parameters.special_tag_name_options.get(&name));

      for rule in rules {
''', '''      let mut rules: Vec<_> = node
        .get_class_names()
        .iter()
        .map(|classname| self.parameters.special_tag_class_options.get(classname))
        .collect();
      // Then element rules as more general
      rules.push(self.parameters.special_tag_name_options.get(&name));

      for rule in rules {
'''))
same('node-rules-flatten', (M, '''      for rule in rules {
        // iterate over applying rules
        match rule {
          Some(&SpecialTagsOption::Enter) => break,
          Some(SpecialTagsOption::Normalize(token)) => {''', '''      if let Some(rule) = rules.into_iter().flatten().next() {
        // the first applying rule
        match rule {
          SpecialTagsOption::Enter => {},
          SpecialTagsOption::Normalize(token) => {'''), (M, '''          Some(SpecialTagsOption::FunctionNormalize(f)) => {''', '''          SpecialTagsOption::FunctionNormalize(f) => {'''), (M, '''          Some(&SpecialTagsOption::Skip) => {
            record_node_map!(self, node, offset_start);
            return;
          },
          None => continue,
''', '''          SpecialTagsOption::Skip => {
            record_node_map!(self, node, offset_start);
            return;
          },
'''))
bug('node-rules-last', (M, '      for rule in rules {\n', '      for rule in rules.into_iter().rev() {\n'))
same('token-macro', (M, '''    if !$dnm.parameters.support_back_mapping {
      $dnm.runtime.chars.extend($token.chars());
    } else {
      for c in $token.chars() {
        $dnm.runtime.chars.push(c);
        $dnm.back_map.push(($node, -1));
      }
    }
''', '''    for c in $token.chars() {
      $dnm.runtime.chars.push(c);
      if $dnm.parameters.support_back_mapping {
        $dnm.back_map.push(($node, -1));
      }
    }
'''))
same('range-of-map', (M, '''    match self.node_map.get(&node.to_hashable()) {
      Some(&(start, end)) => Ok(DNMRange {
        start,
        end,
        dnm: self,
      }),
      None => Err("not found in node map".into()),
    }
''', '''    self
      .node_map
      .get(&node.to_hashable())
      .map(|&(start, end)| DNMRange { start, end, dnm: self })
      .ok_or_else(|| "not found in node map".into())
'''))
# --- c14n
same('c14n-join', (C, '''            canonical_node.push_str(" class=\\"");
            for class_value in classes_split {
              canonical_node.push_str(class_value);
              canonical_node.push(' ');
            }
            canonical_node.pop();
            canonical_node.push('"');
''', '''            canonical_node.push_str(" class=\\"");
            canonical_node.push_str(&classes_split.join(" "));
            canonical_node.push('"');
'''))
same('c14n-format', (C, '''            canonical_node.push_str(" class=\\"");
            for class_value in classes_split {
              canonical_node.push_str(class_value);
              canonical_node.push(' ');
            }
            canonical_node.pop();
            canonical_node.push('"');
''', '''            canonical_node.push_str(&format!(" class=\\"{}\\"", classes_split.join(" ")));
'''))
same('c14n-close', (C, '''          canonical_node.push_str("</");
          canonical_node.push_str(&name);
          canonical_node.push('>');
''', '''          canonical_node.push_str(&format!("</{name}>"));
'''))
same('c14n-guard', (C, '''        if (name == "annotation") || (name == "annotation-xml") {
          return;
        }
''', '''        if matches!(name.as_str(), "annotation" | "annotation-xml") {
          return;
        }
        let unwrapped = name == "semantics";
'''), (C, '''        // Open the current node
        if name != "semantics" {''', '''        // Open the current node
        if !unwrapped {'''), (C, '''        // Close the current node
        if name != "semantics" {''', '''        // Close the current node
        if !unwrapped {'''))
bug('c14n-prefix', (C, '''        if (name == "annotation") || (name == "annotation-xml") {''', '''        if name.starts_with("annotation") {'''))
bug('c14n-dedup', (C, '            classes_split.sort_unstable();\n', '            classes_split.sort_unstable();\n            classes_split.dedup();\n'))
same('c14n-child', (C, '''        if let Some(child) = node.get_first_child() {
          self.canonical_internal(child, next_indent_level, canonical_node);
          let mut child_node = child;

          while let Some(child) = child_node.get_next_sibling() {
            self.canonical_internal(child, next_indent_level, canonical_node);
            child_node = child;
          }
        }
''', '''        let mut child = node.get_first_child();
        while let Some(current) = child {
          self.canonical_internal(current, next_indent_level, canonical_node);
          child = current.get_next_sibling();
        }
'''))
same('c14n-indent', (C, '''    let indent_string = match indent {
      Some(level) => String::new() + "\\n" + &(1..level).map(|_| " ").collect::<String>(),
      None => String::new(),
    };
''', '''    let indent_string = indent
      .map(|level| {
        let mut s = String::from("\\n");
        for _ in 1..level {
          s.push(' ');
        }
        s
      })
      .unwrap_or_default();
'''))
same('c14n-titlecase', (C, body(C, 'pub fn make_ascii_titlecase(s: &str) -> String {\n', '}\n\npub fn rebuild'), '''  let mut owned = s.to_owned();
  match owned.get_mut(..1) {
    Some(first) => first.make_ascii_uppercase(),
    None => {},
  }
  owned
'''))
same('c14n-hash', (C, '''    hasher.input_str(&self.node_c14n_basic(node));
    hasher.result_str()
''', '''    let canonical = self.node_c14n_basic(node);
    hasher.input_str(canonical.as_str());
    let digest = hasher.result_str();
    digest
'''))
same('rebuild-filter-map', (C, '''    .filter(|line| !line.is_empty())
    .map(|line| MATH_LEXEMES_RE.replace_all(line, "mathformula "))
    .map(|line| make_ascii_titlecase(&line))
''', '''    .filter_map(|line| {
      if line.is_empty() {
        None
      } else {
        let replaced = MATH_LEXEMES_RE.replace_all(line, "mathformula ");
        Some(make_ascii_titlecase(&replaced))
      }
    })
'''))
bug('rebuild-trim', (C, '    .filter(|line| !line.is_empty())\n', '    .filter(|line| !line.trim().is_empty())\n'))
# --- range
TRIM = body(R, '    let mut trimmed_start = self.start;\n', '    DNMRange {\n      start: trimmed_start')
same('trim-takewhile', (R, '''    for c in range_text.chars() {
      if c.is_whitespace() {
        trimmed_start += 1;
      } else {
        break;
      }
    }
    for c in range_text.chars().rev() {
      if c.is_whitespace() {
        trimmed_end -= 1;
      } else {
        break;
      }
    }
''', '''    trimmed_start += range_text.chars().take_while(|c| c.is_whitespace()).count();
    trimmed_end -= range_text.chars().rev().take_while(|c| c.is_whitespace()).count();
'''))
same('trim-break', (R, '''    for c in range_text.chars() {
      if c.is_whitespace() {
        trimmed_start += 1;
      } else {
        break;
      }
    }
''', '''    for c in range_text.chars() {
      if !c.is_whitespace() {
        break;
      }
      trimmed_start += 1;
    }
'''))
same('trim-early', (R, '''    if trimmed_start >= trimmed_end {
      trimmed_start = self.end;
      trimmed_end = self.end;
    }
    DNMRange {''', '''    if trimmed_start >= trimmed_end {
      return DNMRange {
        start: self.end,
        end: self.end,
        dnm: self.dnm,
      };
    }
    DNMRange {'''))
bug('trim-start', (R, '''      trimmed_start = self.end;
      trimmed_end = self.end;
''', '''      trimmed_end = trimmed_start;
'''))
same('plain-vars', (R, '''    &(self.dnm.plaintext)[self.dnm.byte_offsets[self.start]..self.dnm.byte_offsets[self.end]]
''', '''    let offsets = &self.dnm.byte_offsets;
    let (from, to) = (offsets[self.start], offsets[self.end]);
    &self.dnm.plaintext[from..to]
'''))
same('ser-match', (R, '''    match node.get_property("id") {
      None => {
        if node == root_node {
          return "/".to_string();
        }
''', '''    match node.get_property("id") {
      None if node == root_node => String::from("/"),
      None => {
'''))
same('arange-concat', (R, 'format!("arange({from},{to})")', '["arange(", from, ",", to, ")"].concat()'))
same('num-while', (R, '''  while cur != target {
    if rule(cur) {
      count += 1;
    }
    match cur.get_next_sibling() {
      None => {
        return Err(());
      },
      Some(n) => {
        cur = n;
      },
    }
  }
  Ok(count)
''', '''  loop {
    if cur == target {
      return Ok(count);
    }
    count += i32::from(rule(cur));
    cur = cur.get_next_sibling().ok_or(())?;
  }
'''))
same('low-loop', (R, '''  match dnm.get_range_of_node(node) {
    Ok(range) => range.start,
    Err(_) => get_position_of_lowest_parent(node.get_parent().unwrap(), dnm),
  }
''', '''  if let Ok(range) = dnm.get_range_of_node(node) {
    return range.start;
  }
  let parent = node.get_parent().unwrap();
  get_position_of_lowest_parent(parent, dnm)
'''))
same('des-helper', (R, '''    assert_eq!(&(string[0..7]), "arange(");
    assert_eq!(&(string[string.len() - 1..string.len()]), ")");
''', '''    let last = string.len() - 1;
    assert_eq!(&string[..7], "arange(");
    assert_eq!(&string[last..], ")");
'''))
bug('des-brack', (R, '''          .find("],")''', '''          .rfind("],")'''))
same('off-string', (R, '''        "string-index({},{})",
        DNMRange::serialize_node(root_node, node, is_end),
        &(offset + 1).to_string()
''', '''        "string-index({},{})",
        DNMRange::serialize_node(root_node, node, is_end),
        offset + 1
'''))
# --- data_helpers
same('ams-early', (H, '''  let mut word_string = if options.discard_case {
    range.get_plaintext().to_lowercase()
  } else {
    range.get_plaintext().to_string()
  };
''', '''  let plain = range.get_plaintext();
  let mut word_string = match options.discard_case {
    true => plain.to_lowercase(),
    false => plain.to_owned(),
  };
'''))
same('ams-return', (H, '''  if word_string.contains("mathformula") {
    if options.discard_math {
      word_string = String::new();
    } else {
      word_string = dnm::node::lexematize_math(range.get_node(), context);
    }
  } else if word_string.to_lowercase().contains("citationelement") {
    word_string = String::from("citationelement");
  } else if IS_NUMERIC.is_match(&word_string) {
    word_string = String::from("NUM");
  }

  Ok(word_string)
''', '''  if word_string.contains("mathformula") {
    return Ok(if options.discard_math {
      String::new()
    } else {
      dnm::node::lexematize_math(range.get_node(), context)
    });
  }
  if word_string.to_lowercase().contains("citationelement") {
    return Ok("citationelement".to_string());
  }
  if IS_NUMERIC.is_match(&word_string) {
    return Ok("NUM".to_string());
  }
  Ok(word_string)
'''))
same('ams-filter', (H, '''    word_string.retain(|c| c.is_alphanumeric());
''', '''    word_string = word_string.chars().filter(|c| c.is_alphanumeric()).collect();
'''))
bug('ams-count', (H, 'word_string.len() > MAX_WORD_LENGTH', 'word_string.chars().count() > MAX_WORD_LENGTH'))
same('head-ok', (H, '''  let heading_range = match heading_dnm.get_range() {
    Ok(range) => range,
    _ => return None,
  };
''', '''  let heading_range = heading_dnm.get_range().ok()?;
'''), (H, '''    let heading_word =
      match ams_normalize_word_range(&word_range, context, LexicalOptions::default()) {
        Ok(w) => w,
        Err(_) => return None,
      };
    if !heading_word.is_empty() && heading_word != "NUM" {
      heading_text.push_str(&heading_word);
      heading_text.push(' ');
    }
''', '''    let heading_word =
      ams_normalize_word_range(&word_range, context, LexicalOptions::default()).ok()?;
    if heading_word.is_empty() || heading_word == "NUM" {
      continue;
    }
    heading_text += &heading_word;
    heading_text += " ";
'''))
same('eng-map', (H, '''  if let Some(info) = detect(detectable) {
    info.script() != Script::Latin || (info.lang() != Lang::Eng && info.confidence() > 0.93)
  } else {
    false
  }
''', '''  detect(detectable).map_or(false, |info| {
    info.script() != Script::Latin || (info.lang() != Lang::Eng && info.confidence() > 0.93)
  })
'''))
same('eng-loop', (H, '''  let detectable_with_spaces = dnm
    .plaintext
    .replace("mathformula", " ")
    .replace("CitationElement", " ")
    .replace("REF", " ");
''', '''  let mut detectable_with_spaces = dnm.plaintext.clone();
  for token in ["mathformula", "CitationElement", "REF"] {
    detectable_with_spaces = detectable_with_spaces.replace(token, " ");
  }
'''))
bug('eng-order', (H, '''    .replace("mathformula", " ")
    .replace("CitationElement", " ")
''', '''    .replace("mathformula", "")
    .replace("CitationElement", " ")
'''))
# --- path_helpers
same('path-helper-fn', (W, '''      let mut sentence_buffer = String::new();
      for word in sentence.simple_iter() {
        if !word.range.is_empty() {
          let word_string = match data_helpers::ams_normalize_word_range(
            &word.range,
            &mut context,
            LexicalOptions::default(),
          ) {
            Ok(w) => w,
            Err(_) => {
              invalid_paragraph = true;
              break 'sentences;
            },
          };
          sentence_buffer.push_str(&word_string);
          sentence_buffer.push(' ');
        }
      }
''', '''      let mut sentence_buffer = String::new();
      for word in sentence.simple_iter() {
        if word.range.is_empty() {
          continue;
        }
        let normalized =
          data_helpers::ams_normalize_word_range(&word.range, &mut context, LexicalOptions::default());
        if let Ok(word_string) = normalized {
          sentence_buffer.push_str(&word_string);
          sentence_buffer.push(' ');
        } else {
          invalid_paragraph = true;
          break 'sentences;
        }
      }
'''))
same('path-clear', (W, '''    if !invalid_paragraph {
      document_buffer.push_str(&paragraph_buffer);
    }
''', '''    if invalid_paragraph {
      continue;
    }
    document_buffer += &paragraph_buffer;
'''))
same('path-result', (W, '''  let mut document = match Document::new(path, &corpus) {
    Ok(document) => document,
    Err(_) => return String::new(),
  };
''', '''  let Ok(mut document) = Document::new(path, &corpus) else {
    return String::new();
  };
'''))
# --- token_model
same('tm-array', (K, '''    let mut thread_counts = HashMap::new();
    thread_counts.insert(String::from("document_count"), 1);
    thread_counts.insert(String::from("paragraph_count"), paragraph_count);
    thread_counts.insert(String::from("word_count"), word_count);
    thread_counts.insert(String::from("overflow_count"), overflow_count);
    thread_counts.insert(String::from("formula_count"), formula_count);
    thread_counts.insert(String::from("citation_count"), citation_count);
    thread_counts.insert(String::from("num_count"), num_count);
    thread_counts
''', '''    [
      ("document_count", 1),
      ("paragraph_count", paragraph_count),
      ("word_count", word_count),
      ("overflow_count", overflow_count),
      ("formula_count", formula_count),
      ("citation_count", citation_count),
      ("num_count", num_count),
    ]
    .into_iter()
    .map(|(name, count)| (name.to_string(), count))
    .collect()
'''))
same('tm-lexeme-if', (K, '''            if !discard_math {
              lexeme_str = dnm::node::lexematize_math(word.range.get_node(), &mut context);
            } else {
              lexeme_str = String::new();
            }
''', '''            lexeme_str = if discard_math {
              String::new()
            } else {
              dnm::node::lexematize_math(word.range.get_node(), &mut context)
            };
'''))
same('tm-skip-for', (K, '''    corpus
      .dnm_parameters
      .special_tag_class_options
      .insert("ltx_equation".to_string(), SpecialTagsOption::Skip);
    corpus
      .dnm_parameters
      .special_tag_class_options
      .insert("ltx_equationgroup".to_string(), SpecialTagsOption::Skip);
''', '''    for class in ["ltx_equation", "ltx_equationgroup"] {
      let options = &mut corpus.dnm_parameters.special_tag_class_options;
      options.insert(class.to_string(), SpecialTagsOption::Skip);
    }
'''))
bug('tm-flush', (K, '''  token_writer
    .lock()
    .unwrap()
    .flush()
    .expect("token writer failed to flush, data is likely incomplete.");
''', '''  let _ = token_writer.lock().unwrap().flush();
'''))
# --- tokenizer
same('wl-any', (Z, body(Z, 'fn wordlike_with_upper_next(peekable: Peekable<Chars>) -> bool {\n', '}\n\nimpl Tokenizer'), '''  peekable.take_while(|c| c.is_alphabetic()).any(|c| c.is_uppercase())
'''))
same('wl-return', (Z, body(Z, 'fn wordlike_with_upper_next(peekable: Peekable<Chars>) -> bool {\n', '}\n\nimpl Tokenizer'), '''  for c in peekable {
    if !c.is_alphabetic() {
      return false;
    }
    if c.is_uppercase() {
      return true;
    }
  }
  false
'''))
bug('wl-first', (Z, body(Z, 'fn wordlike_with_upper_next(peekable: Peekable<Chars>) -> bool {\n', '}\n\nimpl Tokenizer'), '''  let mut peekable = peekable;
  match peekable.next() {
    Some(c) => c.is_alphabetic() && c.is_uppercase(),
    None => false,
  }
'''))
same('sen-retain', (Z, '''    sentences
      .into_iter()
      .filter(|range| range.start < range.end)
      .collect()
''', '''    sentences.retain(|range| range.end > range.start);
    sentences
'''))
same('words-guard', (Z, '''      if !c.is_alphanumeric() {
        if c == '\\'' || c == '’' {
          if let Some(peeked) = text_iterator.peek() {
            if peeked == &'s' {
              continue;
            }
          }
        }
        if start < end - 1 {
          result.push(sentence_range.get_subrange(start, end - 1));
        }
        start = end;
      }
''', '''      if c.is_alphanumeric() {
        continue;
      }
      let possessive = matches!(c, '\\'' | '’') && text_iterator.peek() == Some(&'s');
      if possessive {
        continue;
      }
      if start + 1 < end {
        result.push(sentence_range.get_subrange(start, end - 1));
      }
      start = end;
'''))
same('abbr-next-back', (Z, '''    let lw_opt = lw_str.trim().split(|c: char| !c.is_alphabetic()).last();
    let lw_word: &str = match lw_opt {
      None => lw_str,
      Some(w) => w,
    };
''', '''    let lw_word: &str = lw_str
      .trim()
      .split(|c: char| !c.is_alphabetic())
      .last()
      .unwrap_or(lw_str);
'''))
