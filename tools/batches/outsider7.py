"""As outsider6.py: helpers extracted, statements reordered, loops rewritten, and slips made on the way."""
CASES = []
def bug(n, *e): CASES.append((n, list(e), None, 'bug'))
def same(n, *e): CASES.append((n, list(e), None, 'same'))
N = 'ngrams.rs'; P = 'util/plot.rs'; T = 'util/test.rs'; D = 'dnm/node.rs'; R = 'dnm/parameters.rs'; U = 'patterns/utils.rs'; S = 'stopwords.rs'
def src(f): return open('/repo/src/' + f).read()
def between(f, a, b): s = src(f); i = s.index(a) + len(a); return s[i:s.index(b, i)]
INS = between(N, 'pub fn insert(&mut self, word: String) {\n', '\n  }\n') + '\n'
REC = '    let mut gram_window' + between(N, '    let mut gram_window', '\n  }\n') + '\n'
RECB = between(N, 'pub fn record_words(&mut self, words: Vec<&str>) {\n', '\n  }\n') + '\n'
ANC = between(N, 'pub fn add_anchored_content(&mut self, content: &str) {\n', '\n  }\n') + '\n'
ADD = between(N, 'pub fn add_content(&mut self, content: &str) {\n', '\n  }\n') + '\n'
NI = 'impl Ngrams {\n'
same('d-vacant', (N, INS, '''    if let std::collections::hash_map::Entry::Vacant(slot) = self.map.entry(word) {
      self.index += 1;
      slot.insert(self.index);
    }
'''))
bug('d-vacant-post', (N, INS, '''    if let std::collections::hash_map::Entry::Vacant(slot) = self.map.entry(word) {
      slot.insert(self.index);
      self.index += 1;
    }
'''))
same('d-helper', (N, INS, '''    if !self.map.contains_key(&word) {
      let number = self.next_number();
      self.map.insert(word, number);
    }
  }
  fn next_number(&mut self) -> usize {
    self.index += 1;
    self.index
'''))
bug('d-helper-always', (N, INS, '''    let number = self.next_number();
    self.map.entry(word).or_insert(number);
  }
  fn next_number(&mut self) -> usize {
    self.index += 1;
    self.index
'''))
bug('d-empty-word', (N, INS, '    if word.is_empty() {\n      return;\n    }\n' + INS))
same('a-match', (N, ADD, '''    match (&self.anchor, self.window_size) {
      (Some(_), size) if size > 0 => self.add_anchored_content(content),
      _ => unimplemented!(),
    }
'''))
bug('a-match-one', (N, ADD, '''    match (&self.anchor, self.window_size) {
      (Some(_), size) if size > 1 => self.add_anchored_content(content),
      _ => unimplemented!(),
    }
'''))
same('a-lines-no', (N, ADD, '''    let anchored = self.window_size > 0 && self.anchor.is_some();
    if !anchored {
      unimplemented!();
    }
    self.add_anchored_content(content);
'''))
bug('a-each-line', (N, ADD, ADD.replace('self.add_anchored_content(content)', 'content.lines().for_each(|line| self.add_anchored_content(line))')))
bug('a-trimmed', (N, ADD, ADD.replace('self.add_anchored_content(content)', "self.add_anchored_content(content.trim_end_matches('.'))")))
same('b-helper-word', (N, '.filter(|&w| w.chars().next().unwrap().is_alphanumeric())', '.filter(|w| Ngrams::counts_as_word(w))'), (N, NI, NI + '''  fn counts_as_word(w: &str) -> bool { w.chars().next().map_or(false, |c| c.is_alphanumeric()) }
'''))
same('b-helper-starts', (N, '.filter(|&w| w.chars().next().unwrap().is_alphanumeric())', '.filter(|w| w.starts_with(char::is_alphanumeric))'))
same('b-helper-starts2', (N, '.filter(|&w| w.chars().next().unwrap().is_alphanumeric())', '.filter(|w| w.starts_with(|c: char| c.is_alphanumeric()))'))
bug('b-any', (N, '.filter(|&w| w.chars().next().unwrap().is_alphanumeric())', '.filter(|w| w.contains(char::is_alphanumeric))'))
bug('b-alphabetic', (N, '.filter(|&w| w.chars().next().unwrap().is_alphanumeric())', '.filter(|w| w.starts_with(|c: char| c.is_alphabetic()))'))
bug('b-ascii', (N, '.filter(|&w| w.chars().next().unwrap().is_alphanumeric())', '.filter(|w| w.as_bytes()[0].is_ascii_alphanumeric())'))
bug('b-last', (N, 'w.chars().next().unwrap()', 'w.chars().last().unwrap()'))
bug('b-unicode-ws', (N, '      .split_ascii_whitespace()', "      .split(' ').filter(|w| !w.is_empty())"))
same('c-hoist', (N, '      let anchor = self.anchor.as_ref().unwrap();\n', ''), (N, '    for w in content\n', '    let anchor = self.anchor.clone().unwrap();\n    for w in content\n'))
bug('c-hoist-trim', (N, '      let anchor = self.anchor.as_ref().unwrap();\n', ''), (N, '    for w in content\n', '    let anchor = self.anchor.clone().unwrap().trim().to_lowercase();\n    for w in content\n'))
bug('c-lower', (N, 'if w == anchor {', 'if w.eq_ignore_ascii_case(anchor) {'))
bug('c-prefix', (N, 'if w == anchor {', 'if w.starts_with(anchor.as_str()) {'))
bug('c-plural', (N, 'if w == anchor {', "if w.trim_end_matches(',') == anchor {"))
same('c-reorder', (N, '''        context_window.clear();
        continuous_buffer.push(w);
        justified_ahead = self.window_size;
''', '''        justified_ahead = self.window_size;
        continuous_buffer.push(w);
        context_window.clear();
'''))
bug('c-reorder-bad', (N, '''        continuous_buffer.extend(context_window.asc_iter().copied());
        context_window.clear();
        continuous_buffer.push(w);
''', '''        continuous_buffer.push(w);
        continuous_buffer.extend(context_window.asc_iter().copied());
        context_window.clear();
'''))
bug('c-add-window', (N, 'justified_ahead = self.window_size;', 'justified_ahead += self.window_size;'))
bug('c-max-window', (N, 'justified_ahead = self.window_size;', 'justified_ahead = self.window_size.max(self.n);'))
bug('c-window-n', (N, 'CircularQueue::with_capacity(self.window_size);', 'CircularQueue::with_capacity(self.window_size.min(8));'))
bug('c-push-first', (N, ANC, ANC.replace('''        if context_window.is_full() {''', '''        context_window.push(w);
        if context_window.is_full() {''').replace('''        // add the current word, potentially erasing the oldest word that falls outside the window
        context_window.push(w);
''', '')))
bug('c-clear-on-record', (N, 'self.record_words(std::mem::take(&mut continuous_buffer));', 'self.record_words(std::mem::take(&mut continuous_buffer));\n          context_window.clear();'))
same('c-flush-fn', (N, '          self.record_words(std::mem::take(&mut continuous_buffer));', '          self.flush(&mut continuous_buffer);'), (N, '    self.record_words(continuous_buffer);', '    self.flush(&mut continuous_buffer);'), (N, NI, NI + '''  fn flush(&mut self, run: &mut Vec<&str>) {
    let words = std::mem::take(run);
    self.record_words(words);
  }
'''))
bug('c-flush-fn-last', (N, '          self.record_words(std::mem::take(&mut continuous_buffer));', '          self.flush(&mut continuous_buffer);'), (N, '    self.record_words(continuous_buffer);', '    self.flush(&mut continuous_buffer);'), (N, NI, NI + '''  fn flush(&mut self, run: &mut Vec<&str>) {
    if run.len() > self.n {
      let words = std::mem::take(run);
      self.record_words(words);
    } else {
      run.clear();
    }
  }
'''))
same('r-windows', (N, REC, '''    for gram in words.windows(self.n) {
      self.insert(gram.join(" "));
    }
'''))
bug('r-chunks', (N, REC, '''    for gram in words.chunks(self.n) {
      self.insert(gram.join(" "));
    }
'''))
bug('r-step', (N, REC, '''    for gram in words.windows(self.n).step_by(self.n) {
      self.insert(gram.join(" "));
    }
'''))
bug('r-dedup', (N, REC, '''    let mut grams: Vec<String> = words.windows(self.n).map(|gram| gram.join(" ")).collect();
    grams.dedup();
    for gram in grams {
      self.insert(gram);
    }
'''))
same('r-collect', (N, REC, '''    let grams: Vec<String> = words.windows(self.n).map(|gram| gram.join(" ")).collect();
    for gram in grams {
      self.insert(gram);
    }
'''))
bug('r-set', (N, REC, '''    let grams: std::collections::HashSet<String> = words.windows(self.n).map(|gram| gram.join(" ")).collect();
    for gram in grams {
      self.insert(gram);
    }
'''))
bug('r-sep', (N, '.join(" ");', '.join("_");'))
bug('r-concat', (N, '.join(" ");', '.concat();'))
bug('r-len-first', (N, 'if words.len() < self.n {', 'if words.len() <= self.n {'))
bug('r-lower', (N, 'self.insert(key);', 'self.insert(key.to_lowercase());'))
same('r-if-let', (N, 'if gram_window.len() == self.n {', 'if gram_window.is_full() {'))
same('s-key', (N, 'as_vec.sort_by(|a, b| b.1.cmp(&a.1));\n    as_vec\n  }\n  /// get the number of distinct ngrams', 'as_vec.sort_by_key(|entry| std::cmp::Reverse(entry.1));\n    as_vec\n  }\n  /// get the number of distinct ngrams'))
same('s-unstable', (N, 'as_vec.sort_by(|a, b| b.1.cmp(&a.1));\n    as_vec\n  }\n  /// get the number of distinct ngrams', 'as_vec.sort_unstable_by(|a, b| b.1.cmp(&a.1));\n    as_vec\n  }\n  /// get the number of distinct ngrams'))
same('s-rev', (N, 'as_vec.sort_by(|a, b| b.1.cmp(&a.1));\n    as_vec\n  }\n  /// get the number of distinct ngrams', 'as_vec.sort_by(|a, b| a.1.cmp(&b.1));\n    as_vec.reverse();\n    as_vec\n  }\n  /// get the number of distinct ngrams'))
bug('s-trunc', (N, 'as_vec.sort_by(|a, b| b.1.cmp(&a.1));\n    as_vec\n  }\n  /// get the number of distinct ngrams', 'as_vec.sort_by(|a, b| b.1.cmp(&a.1));\n    as_vec.truncate(1000);\n    as_vec\n  }\n  /// get the number of distinct ngrams'))
bug('s-bykey', (N, 'as_vec.sort_by(|a, b| b.1.cmp(&a.1));\n    as_vec\n  }\n  /// get the number of distinct ngrams', 'as_vec.sort_by(|a, b| b.0.len().cmp(&a.0.len()).then(b.1.cmp(&a.1)));\n    as_vec\n  }\n  /// get the number of distinct ngrams'))
bug('s-u8', (N, 'as_vec.sort_by(|a, b| b.1.cmp(&a.1));\n    as_vec\n  }\n  /// get the number of distinct ngrams', 'as_vec.sort_by_key(|entry| std::cmp::Reverse(entry.1 as u16));\n    as_vec\n  }\n  /// get the number of distinct ngrams'))
bug('s-dedup', (N, 'as_vec.sort_by(|a, b| b.1.cmp(&a.1));\n    as_vec\n  }\n  /// get the number of distinct ngrams', 'as_vec.sort_by(|a, b| b.1.cmp(&a.1));\n    as_vec.dedup_by_key(|entry| entry.1);\n    as_vec\n  }\n  /// get the number of distinct ngrams'))
bug('g-insert-new', (N, '''    *counter += 1;
''', '''    *counter = counter.wrapping_add(1).min(u32::MAX as usize / 2);
'''))
same('g-and-modify', (N, '''    let counter = self.counts.entry(phrase).or_insert(0);
    *counter += 1;
''', '''    self.counts.entry(phrase).and_modify(|count| *count += 1).or_insert(1);
'''))
bug('g-and-modify0', (N, '''    let counter = self.counts.entry(phrase).or_insert(0);
    *counter += 1;
''', '''    self.counts.entry(phrase).and_modify(|count| *count += 1).or_insert(0);
'''))
# plot
same('p-for', (P, "  let log_values = map.iter().map(|entry| (entry.1 as f64).log2());", "  let mut log_values = Vec::with_capacity(map.len());\n  for (_, count) in map {\n    log_values.push((*count as f64).log2());\n  }"))
same('p-helper', (P, "(entry.1 as f64).log2()", "binary_log(entry.1)"), (P, '/// A simple plot\n', 'fn binary_log(count: usize) -> f64 { (count as f64).log2() }\n\n/// A simple plot\n'))
bug('p-helper-floor', (P, "(entry.1 as f64).log2()", "binary_log(entry.1)"), (P, '/// A simple plot\n', 'fn binary_log(count: usize) -> f64 { f64::from(count.max(1).ilog2()) }\n\n/// A simple plot\n'))
bug('p-u32', (P, "(entry.1 as f64)", "f64::from(entry.1 as u16)"))
bug('p-f32', (P, "(entry.1 as f64).log2()", "f64::from((entry.1 as f32).log2())"))
bug('p-filter', (P, "  let log_values = map.iter().map", "  let log_values = map.iter().filter(|entry| entry.1 > 0).map"))
bug('p-swap', (P, ".set_x_label(x_label,", ".set_x_label(y_label,"))
bug('p-rev', (P, "map.iter().map(|entry| entry.0.clone())", "map.iter().rev().map(|entry| entry.0.clone())"))
bug('p-term', (P, '"pngcairo", pathname', '"pngcairo", title'))
# node
same('n-fold', (D, '''              .map(|c| match c {
                ':' | '-' => '_',
                '\\n' => ' ',
                _ => c,
              })
              .collect()''', '''              .fold(String::new(), |mut text, c| {
                text.push(match c {
                  ':' | '-' => '_',
                  '\\n' => ' ',
                  _ => c,
                });
                text
              })'''))
same('n-if', (D, '''              .map(|c| match c {
                ':' | '-' => '_',
                '\\n' => ' ',
                _ => c,
              })''', '''              .map(|c| {
                if c == ':' || c == '-' {
                  return '_';
                }
                if c == '\\n' { ' ' } else { c }
              })'''))
bug('n-if-dash', (D, '''              .map(|c| match c {
                ':' | '-' => '_',
                '\\n' => ' ',
                _ => c,
              })''', '''              .map(|c| {
                if c == ':' || c == '–' {
                  return '_';
                }
                if c == '\\n' { ' ' } else { c }
              })'''))
bug('n-filter', (D, '''              .map(|c| match c {
                ':' | '-' => '_',
                '\\n' => ' ',
                _ => c,
              })''', '''              .filter(|c| *c != '-')
              .map(|c| match c {
                ':' => '_',
                '\\n' => ' ',
                _ => c,
              })'''))
bug('n-num-contains', (D, 'anno_word.starts_with("NUM")', 'anno_word.contains("NUM")'))
bug('n-array-order', (D, 'anno_word.starts_with("ATOM")', 'anno_word.starts_with("AT")'))
bug('n-first', (D, '  let lexemes: String = annotations\n    .iter()\n', '  let lexemes: String = annotations\n    .iter()\n    .take(1)\n'))
bug('n-last', (D, '  let lexemes: String = annotations\n    .iter()\n', '  let lexemes: String = annotations\n    .iter()\n    .rev()\n'))
bug('n-trim', (D, 'if !lexemes.is_empty() {', 'if lexemes.len() > 1 {'))
bug('n-fallback', (D, 'String::from("mathformula")', 'String::from("MathFormula")'))
same('n-early', (D, '''  if !lexemes.is_empty() {
    lexemes
  } else {''', '''  if !lexemes.is_empty() {
    return lexemes;
  }
  {'''))
same('n-replace', (D, '''      annotation_string = annotation_string
        .split(":start")
        .collect::<Vec<&str>>()
        .join(":start ");
''', '''      annotation_string = annotation_string.replace(":start", ":start ");
'''))
bug('n-replacen', (D, '''      annotation_string = annotation_string
        .split(":start")
        .collect::<Vec<&str>>()
        .join(":start ");
''', '''      annotation_string = annotation_string.replacen(":start", ":start ", 1);
'''))
# utils
UN = between(U, 'pub fn get_non_text_children(node: RoNode) -> Result<Vec<RoNode>, String> {\n', '\n}\n') + '\n'
same('u-while-let', (U, UN, '''  let mut children: Vec<RoNode> = Vec::new();
  let mut next = node.get_first_child();
  while let Some(child) = next {
    next = child.get_next_sibling();
    if !child.is_text_node() {
      if !is_comment_node(child) {
        children.push(child);
      }
      continue;
    }
    let content = child.get_content();
    let text = content.trim();
    if !text.is_empty() {
      return Err(format!("found unexpected text in \\"{}\\" node: \\"{}\\"", node.get_name(), text));
    }
  }
  Ok(children)
'''))
bug('u-while-let-comment', (U, UN, '''  let mut children: Vec<RoNode> = Vec::new();
  let mut next = node.get_first_child();
  while let Some(child) = next {
    next = child.get_next_sibling();
    if is_comment_node(child) {
      break;
    }
    if !child.is_text_node() {
      children.push(child);
      continue;
    }
    let content = child.get_content();
    let text = content.trim();
    if !text.is_empty() {
      return Err(format!("found unexpected text in \\"{}\\" node: \\"{}\\"", node.get_name(), text));
    }
  }
  Ok(children)
'''))
bug('u-trim-ascii', (U, "if !cur_.get_content().trim().is_empty() {", "if !cur_.get_content().trim_matches(' ').is_empty() {"))
bug('u-trim-short', (U, "if !cur_.get_content().trim().is_empty() {", "if cur_.get_content().trim().len() > 1 {"))
bug('u-elements', (U, '''    } else if !is_comment_node(cur_) {
      children.push(cur_);''', '''    } else if cur_.is_element_node() || children.is_empty() {
      children.push(cur_);'''))
bug('u-only-last', (U, 'Ok(children[0])', 'Ok(children[children.len() - 1].get_first_element_child().unwrap_or(children[0]))'))
bug('u-only-two', (U, '} else if children.len() > 1 {', '} else if children.len() > 2 {'))
same('u-only-slice', (U, between(U, 'pub fn get_only_child(node: RoNode) -> Result<RoNode, String> {\n', '\n}\n') + '\n', '''  let children = get_non_text_children(node)?;
  match children.len() {
    0 => Err(format!("Expected child node in node \\"{}\\"", node.get_name())),
    1 => Ok(children[0]),
    _ => Err(format!("Too many child nodes in node \\"{}\\"", node.get_name())),
  }
'''))
bug('u-prop-empty', (U, 'Some(value) => Ok(value),', 'Some(value) => Ok(value.trim().to_string()),'))
same('u-prop-ok-or', (U, between(U, 'pub fn require_node_property(node: RoNode, property: &str) -> Result<String, String> {\n', '\n}\n') + '\n', '''  node
    .get_property(property)
    .ok_or_else(|| format!("\\"{}\\" node misses \\"{}\\" property", node.get_name(), property))
'''))
bug('u-found-twice', (U, '  if property.is_some() {\n    Err(format!(\n      "found multiple', '  if property.as_ref().map_or(false, |value| !value.is_empty()) {\n    Err(format!(\n      "found multiple'))
bug('u-simple-trim', (U, '''    Ok(if trim {''', '''    Ok(if trim || child.as_ref().unwrap().get_content().starts_with('\\n') {'''))
bug('u-simple-none', (U, '''  if child.is_none() {
    Ok(String::new())''', '''  if child.is_none() {
    Ok(node.get_property("name").unwrap_or_default())'''))
# test resources
bug('t-root', (T, '"./tests/resources"', '"./tests"'))
bug('t-ext', (T, 'name == Some("html") || name == Some("xhtml")', 'name == Some("html") || name == Some("htm")'))
same('t-matches', (T, 'name == Some("html") || name == Some("xhtml")', 'matches!(name, Some("html") | Some("xhtml"))'))
same('t-ends', (T, 'name == Some("html") || name == Some("xhtml")', '["xhtml", "html"].iter().any(|known| name == Some(*known))'))
bug('t-name', (T, '.file_stem()', '.file_name()'))
bug('t-depth', (T, 'WalkDir::new("./tests/resources")', 'WalkDir::new("./tests/resources").max_depth(1)'))
bug('t-take', (T, '    .filter_map(|e| e.ok())\n', '    .filter_map(|e| e.ok())\n    .take(16)\n'))
# parameters
bug('r-default-ws', (R, 'normalize_white_spaces: true,', 'normalize_white_spaces: false,'))
bug('r-default-back', (R, 'support_back_mapping: true,', 'support_back_mapping: false,'))
bug('r-skip-enter', (R, 'name_options.insert("footer".to_string(), SpecialTagsOption::Skip);', 'name_options.insert("footer".to_string(), SpecialTagsOption::Enter);'))
bug('r-case', (R, '"ltx_TOC"', '"ltx_toc"'))
bug('r-math-nl', (R, 'SpecialTagsOption::Normalize("\\nmathformula\\n".to_string()),\n    );\n    class_options.insert(\n      "ltx_ref"', 'SpecialTagsOption::Normalize("mathformula".to_string()),\n    );\n    class_options.insert(\n      "ltx_ref"'))
same('r-loop', (R, '''    name_options.insert("img".to_string(), SpecialTagsOption::Skip);
    name_options.insert("table".to_string(), SpecialTagsOption::Skip);
    name_options.insert("head".to_string(), SpecialTagsOption::Skip);
    name_options.insert("footer".to_string(), SpecialTagsOption::Skip);
''', '''    for name in &["img", "table", "head", "footer"] {
      name_options.insert(name.to_string(), SpecialTagsOption::Skip);
    }
'''))
bug('r-loop-missing', (R, '''    name_options.insert("img".to_string(), SpecialTagsOption::Skip);
    name_options.insert("table".to_string(), SpecialTagsOption::Skip);
    name_options.insert("head".to_string(), SpecialTagsOption::Skip);
    name_options.insert("footer".to_string(), SpecialTagsOption::Skip);
''', '''    for name in &["img", "table", "head", "foot"] {
      name_options.insert(name.to_string(), SpecialTagsOption::Skip);
    }
'''))
