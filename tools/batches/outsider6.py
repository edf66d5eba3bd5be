"""As outsider5.py: larger restructurings (other containers, further fields, constants, recursion, folds, closures), and bugs in them."""
CASES = []
def bug(n, *e): CASES.append((n, list(e), None, 'bug'))
def same(n, *e): CASES.append((n, list(e), None, 'same'))
N = 'ngrams.rs'; P = 'util/plot.rs'; T = 'util/test.rs'; D = 'dnm/node.rs'; R = 'dnm/parameters.rs'; U = 'patterns/utils.rs'; S = 'stopwords.rs'
def src(f): return open('/repo/src/' + f).read()
def between(f, a, b): s = src(f); i = s.index(a) + len(a); return s[i:s.index(b, i)]
INS = between(N, 'pub fn insert(&mut self, word: String) {\n', '\n  }\n') + '\n'
REC = '    let mut gram_window' + between(N, '    let mut gram_window', '\n  }\n') + '\n'
RECB = between(N, 'pub fn record_words(&mut self, words: Vec<&str>) {\n', '\n  }\n') + '\n'
ANC = between(N, 'pub fn add_anchored_content(&mut self, content: &str) {\n', '\n  }\n') + '\n'
# fields
same('f-rename', (N, '  /// index of the next word\n  index: usize,', '  /// how many words there are\n  size: usize,'), (N, 'or_insert(self.index + 1);\n    if *word_index > self.index {\n      self.index += 1;', 'or_insert(self.size + 1);\n    if *word_index > self.size {\n      self.size += 1;'), (N, 'usize { self.index }', 'usize { self.size }'))
same('f-no-index', (N, '  /// index of the next word\n  index: usize,\n', ''), (N, INS, '    let next = self.map.len() + 1;\n    self.map.entry(word).or_insert(next);\n'), (N, 'usize { self.index }', 'usize { self.map.len() }'))
bug('f-no-index-zero', (N, '  /// index of the next word\n  index: usize,\n', ''), (N, INS, '    let next = self.map.len();\n    self.map.entry(word).or_insert(next);\n'), (N, 'usize { self.index }', 'usize { self.map.len() }'))
bug('f-no-index-over', (N, '  /// index of the next word\n  index: usize,\n', ''), (N, INS, '    let next = self.map.len() + 1;\n    self.map.insert(word, next);\n'), (N, 'usize { self.index }', 'usize { self.map.len() }'))
same('f-last', (N, INS, '    if let Some(_known) = self.map.get(word.as_str()) {\n      return;\n    }\n    let number = self.index + 1;\n    let previous = self.map.insert(word, number);\n    debug_assert!(previous.is_none());\n    self.index = number;\n'))
same('f-unwrap-or-else', (N, INS, '    let Dictionary { map, index } = self;\n    map.entry(word).or_insert_with(|| {\n      *index += 1;\n      *index\n    });\n'))
bug('f-or-insert-with-late', (N, INS, '    let Dictionary { map, index } = self;\n    map.entry(word).or_insert_with(|| {\n      let current = *index;\n      *index += 1;\n      current\n    });\n'))
# sorted
SORT = '''    let mut as_vec = self.counts.iter().map(|(x, y)| (x, *y)).collect::<Vec<_>>();
    as_vec.sort_by(|a, b| b.1.cmp(&a.1));
    as_vec
'''
DSORT = SORT.replace('counts', 'map')
same('so-shared', (N, SORT, '    by_descending_number(&self.counts)\n'), (N, DSORT, '    by_descending_number(&self.map)\n'), (N, 'impl Dictionary {\n', '''fn by_descending_number(table: &HashMap<String, usize>) -> Vec<(&String, usize)> {
  let mut entries: Vec<(&String, usize)> = table.iter().map(|(key, value)| (key, *value)).collect();
  entries.sort_by(|left, right| right.1.cmp(&left.1));
  entries
}

impl Dictionary {
'''))
bug('so-shared-asc', (N, SORT, '    by_descending_number(&self.counts)\n'), (N, DSORT, '    by_descending_number(&self.map)\n'), (N, 'impl Dictionary {\n', '''fn by_descending_number(table: &HashMap<String, usize>) -> Vec<(&String, usize)> {
  let mut entries: Vec<(&String, usize)> = table.iter().map(|(key, value)| (key, *value)).collect();
  entries.sort_by(|left, right| left.1.cmp(&right.1));
  entries
}

impl Dictionary {
'''))
same('so-sort-rev', (N, SORT, '''    let mut as_vec = self.counts.iter().map(|(x, y)| (x, *y)).collect::<Vec<_>>();
    as_vec.sort_by_key(|&(_, count)| count);
    as_vec.reverse();
    as_vec
'''))
same('so-into-iter-rev', (N, SORT, '''    let mut ascending: Vec<_> = self.counts.iter().map(|(x, y)| (x, *y)).collect();
    ascending.sort_by_key(|entry| entry.1);
    ascending.into_iter().rev().collect()
'''))
same('so-unstable', (N, SORT, SORT.replace('sort_by', 'sort_unstable_by')))
same('so-then-name', (N, SORT, SORT.replace('b.1.cmp(&a.1)', 'b.1.cmp(&a.1).then_with(|| a.0.cmp(b.0))')))
bug('so-name-then', (N, SORT, SORT.replace('b.1.cmp(&a.1)', 'a.0.cmp(b.0).then_with(|| b.1.cmp(&a.1))')))
bug('so-len-then', (N, SORT, SORT.replace('b.1.cmp(&a.1)', 'b.0.len().cmp(&a.0.len()).then_with(|| b.1.cmp(&a.1))')))
bug('so-twice', (N, SORT, SORT.replace('    as_vec\n', '    let first = as_vec.first().cloned();\n    as_vec.extend(first);\n    as_vec\n')))
bug('so-diff', (N, SORT, SORT.replace('b.1.cmp(&a.1)', '((b.1 / 2).cmp(&(a.1 / 2)))')))
# record_words
same('rw-vecdeque', (N, RECB, '''    let mut gram_window: std::collections::VecDeque<&str> = std::collections::VecDeque::new();
    if words.len() < self.n {
      return;
    }
    let _ = CircularQueue::<&str>::with_capacity(self.n);
    for w in words {
      gram_window.push_back(w);
      if gram_window.len() > self.n {
        gram_window.pop_front();
      }
      if gram_window.len() == self.n {
        let key = gram_window.iter().copied().collect::<Vec<_>>().join(" ");
        self.insert(key);
      }
    }
'''))
bug('rw-vecdeque-cap', (N, RECB, '''    let mut gram_window: std::collections::VecDeque<&str> = std::collections::VecDeque::new();
    if words.len() < self.n {
      return;
    }
    for w in words {
      gram_window.push_back(w);
      if gram_window.len() >= self.n {
        let key = gram_window.iter().copied().collect::<Vec<_>>().join(" ");
        self.insert(key);
        gram_window.clear();
      }
    }
'''))
same('rw-for-each', (N, REC, '''    let n = self.n;
    let _ = CircularQueue::<&str>::with_capacity(n);
    words.windows(n).for_each(|gram| self.insert(gram.join(" ")));
'''))
same('rw-keys-first', (N, REC, '''    let keys: Vec<String> = words.windows(self.n).map(|gram| gram.join(" ")).collect();
    for key in keys {
      self.insert(key);
    }
'''))
bug('rw-keys-dedup', (N, REC, '''    let mut keys: Vec<String> = words.windows(self.n).map(|gram| gram.join(" ")).collect();
    keys.dedup();
    for key in keys {
      self.insert(key);
    }
'''))
bug('rw-keys-set', (N, REC, '''    let keys: std::collections::HashSet<String> = words.windows(self.n).map(|gram| gram.join(" ")).collect();
    for key in keys {
      self.insert(key);
    }
'''))
same('rw-while-start', (N, REC, '''    let mut start = 0;
    while start + self.n <= words.len() {
      self.insert(words[start..start + self.n].join(" "));
      start += 1;
    }
'''))
bug('rw-while-start-lt', (N, REC, '''    let mut start = 0;
    while start + self.n < words.len() {
      self.insert(words[start..start + self.n].join(" "));
      start += 1;
    }
'''))
bug('rw-while-step', (N, REC, '''    let mut start = 0;
    while start + self.n <= words.len() {
      self.insert(words[start..start + self.n].join(" "));
      start += if self.n > 3 { 2 } else { 1 };
    }
'''))
same('rw-zip', (N, REC, '''    let n = self.n;
    for (start, _) in words.iter().enumerate().take(words.len() + 1 - n) {
      self.insert(words[start..start + n].join(" "));
    }
'''))
bug('rw-zip-off', (N, REC, '''    let n = self.n;
    for (start, _) in words.iter().enumerate().take(words.len() - n) {
      self.insert(words[start..start + n].join(" "));
    }
'''))
# anchored
AN = ANC.replace('let anchor = self.anchor.as_ref().unwrap();\n', 'let is_anchor = self.anchor.as_deref().unwrap() == w;\n').replace('if w == anchor {', 'if is_anchor {')
same('an-flag', (N, ANC, AN))
same('an-const-fn', (N, '.filter(|&w| w.chars().next().unwrap().is_alphanumeric())', '.filter(|w| starts_like_a_word(w))'), (N, 'impl Ngrams {\n', 'fn starts_like_a_word(token: &str) -> bool {\n  match token.chars().next() {\n    Some(first) => first.is_alphanumeric(),\n    None => false,\n  }\n}\n\nimpl Ngrams {\n'))
same('an-two-filters', (N, '''      .filter(|&w| w.chars().next().unwrap().is_alphanumeric())
''', '''      .filter_map(|w| {
        let first = w.chars().next()?;
        if first.is_alphanumeric() { Some(w) } else { None }
      })
'''))
same('an-match-guard', (N, ANC, ANC.replace('''      if w == anchor {''', '''      let justified = w == anchor;
      if justified {''')))
same('an-for-each', (N, 'continuous_buffer.extend(context_window.asc_iter().copied());', 'context_window.asc_iter().for_each(|word| continuous_buffer.push(*word));'))
same('an-append', (N, 'continuous_buffer.extend(context_window.asc_iter().copied());', 'let mut waiting: Vec<&str> = context_window.asc_iter().copied().collect();\n        continuous_buffer.append(&mut waiting);'))
bug('an-prepend', (N, 'continuous_buffer.extend(context_window.asc_iter().copied());', 'let mut waiting: Vec<&str> = context_window.asc_iter().copied().collect();\n        waiting.append(&mut continuous_buffer);\n        continuous_buffer = waiting;'))
bug('an-rev', (N, 'continuous_buffer.extend(context_window.asc_iter().copied());', 'continuous_buffer.extend(context_window.iter().copied());'))
bug('an-skip1', (N, 'continuous_buffer.extend(context_window.asc_iter().copied());', 'continuous_buffer.extend(context_window.asc_iter().skip(1).copied());'))
bug('an-no-push', (N, '        context_window.clear();\n        continuous_buffer.push(w);', '        context_window.clear();\n        if continuous_buffer.last() != Some(&w) {\n          continuous_buffer.push(w);\n        }'))
bug('an-first-only', (N, 'justified_ahead = self.window_size;', 'if justified_ahead == 0 {\n          justified_ahead = self.window_size;\n        }'))
bug('an-record-short', (N, '    self.record_words(continuous_buffer);', '    if continuous_buffer.len() > self.n {\n      self.record_words(continuous_buffer);\n    }'))
same('an-record-short-ok', (N, '    self.record_words(continuous_buffer);', '    if continuous_buffer.len() >= self.n {\n      self.record_words(continuous_buffer);\n    }'))
bug('an-flush-anchor', (N, '''        // we've hit an anchor word''', '''        self.record_words(std::mem::take(&mut continuous_buffer));
        // we've hit an anchor word'''))
bug('an-unused-anchor', (N, '        continuous_buffer.push(w);\n        justified_ahead = ', '        justified_ahead = '))
same('an-deque', (N, ANC, ANC.replace('CircularQueue::with_capacity(self.window_size)', 'std::collections::VecDeque::with_capacity(self.window_size)').replace('context_window.asc_iter().copied()', 'context_window.iter().copied()').replace('context_window.is_full()', 'context_window.len() == self.window_size').replace('''          self.record_words(std::mem::take(&mut continuous_buffer));
''', '''          self.record_words(std::mem::take(&mut continuous_buffer));
          context_window.pop_front();
''').replace('context_window.push(w)', 'context_window.push_back(w)')))
bug('an-deque-back', (N, ANC, ANC.replace('CircularQueue::with_capacity(self.window_size)', 'std::collections::VecDeque::with_capacity(self.window_size)').replace('context_window.asc_iter().copied()', 'context_window.iter().copied()').replace('context_window.is_full()', 'context_window.len() == self.window_size').replace('''          self.record_words(std::mem::take(&mut continuous_buffer));
''', '''          self.record_words(std::mem::take(&mut continuous_buffer));
          context_window.pop_back();
''').replace('context_window.push(w)', 'context_window.push_back(w)')))
same('an-state-enum', (N, ANC, ANC.replace('let mut justified_ahead = 0;', 'let mut justified_ahead: Option<usize> = None;').replace('justified_ahead = self.window_size;', 'justified_ahead = Some(self.window_size);').replace('''} else if justified_ahead > 0 {
        continuous_buffer.push(w);
        justified_ahead -= 1;
''', '''} else if let Some(rest) = justified_ahead.filter(|rest| *rest > 0) {
        continuous_buffer.push(w);
        justified_ahead = Some(rest - 1);
''')))
# ngrams the rest
same('ng-get-or', (N, '''    match self.counts.get(word) {
      Some(count) => *count,
      None => 0,
    }''', '''    if self.counts.contains_key(word) { self.counts[word] } else { 0 }'''))
same('ng-insert-helper', (N, '''    let counter = self.counts.entry(phrase).or_insert(0);
    *counter += 1;''', '''    self.count_times(phrase, 1);'''), (N, 'impl Ngrams {\n', 'impl Ngrams {\n  fn count_times(&mut self, phrase: String, times: usize) {\n    *self.counts.entry(phrase).or_default() += times;\n  }\n'))
bug('ng-insert-trim', (N, '''    let counter = self.counts.entry(phrase).or_insert(0);''', '''    let counter = self.counts.entry(phrase.trim().to_owned()).or_insert(0);'''))
bug('ng-insert-cap', (N, '''    let counter = self.counts.entry(phrase).or_insert(0);
    *counter += 1;''', '''    if self.counts.len() < 1_000_000 || self.counts.contains_key(&phrase) {
      *self.counts.entry(phrase).or_insert(0) += 1;
    }'''))
bug('ng-default-n2', (N, '      n: 1,', '      n: 2,'))
bug('ng-default-win', (N, '      window_size: 0,', '      window_size: 1,'))
# plot
same('pl-loop', (P, '''  let keys: Vec<T> = map.iter().map(|entry| entry.0.clone()).collect();
  let log_values = map.iter().map(|entry| (entry.1 as f64).log2());
''', '''  let mut keys: Vec<T> = Vec::with_capacity(map.len());
  let mut log_values: Vec<f64> = Vec::with_capacity(map.len());
  for (key, count) in map {
    keys.push(key.clone());
    log_values.push((*count as f64).log2());
  }
'''))
same('pl-fold', (P, '''  let keys: Vec<T> = map.iter().map(|entry| entry.0.clone()).collect();
  let log_values = map.iter().map(|entry| (entry.1 as f64).log2());
''', '''  let (keys, log_values): (Vec<T>, Vec<f64>) = map
    .iter()
    .cloned()
    .map(|(key, count)| (key, (count as f64).log2()))
    .unzip();
'''))
bug('pl-skip-one', (P, '''  let keys: Vec<T> = map.iter().map(|entry| entry.0.clone()).collect();
  let log_values = map.iter().map(|entry| (entry.1 as f64).log2());
''', '''  let mut keys: Vec<T> = Vec::with_capacity(map.len());
  let mut log_values: Vec<f64> = Vec::with_capacity(map.len());
  for (key, count) in map {
    if *count == 1 {
      continue;
    }
    keys.push(key.clone());
    log_values.push((*count as f64).log2());
  }
'''))
bug('pl-ln', (P, '.log2()', '.ln_1p()'))
bug('pl-max', (P, '(entry.1 as f64).log2()', '(entry.1.max(2) as f64).log2()'))
same('pl-log-2', (P, '(entry.1 as f64).log2()', 'f64::log2(entry.1 as f64)'))
bug('pl-no-file', (P, '  fg.set_terminal("pngcairo", pathname);\n', '  if !pathname.is_empty() {\n    fg.set_terminal("pngcairo", "");\n  }\n'))
# test resources
TF = src(T)[src(T).index('    .filter_map(|e| e.ok())'):src(T).index('    .collect();')]
same('te-loop-map', (T, TF, '''    .filter_map(|entry| {
      let entry = entry.ok()?;
      if entry.file_type().is_dir() {
        return None;
      }
      let stem = entry.path().file_stem().unwrap();
      Some(stem.to_str().unwrap().to_owned())
    })
'''))
bug('te-lossy-skip', (T, TF, '''    .filter_map(|entry| {
      let entry = entry.ok()?;
      if entry.file_type().is_dir() || entry.depth() > 3 {
        return None;
      }
      let stem = entry.path().file_stem().unwrap();
      Some(stem.to_str().unwrap().to_owned())
    })
'''))
bug('te-err-stop', (T, '.filter_map(|e| e.ok())', '.map_while(|e| e.ok())'))
bug('te-parent', (T, '      .file_stem()', '      .parent()\n      .unwrap()\n      .file_stem()'))
# lexemes
same('le-const', (D, '''      ".//*[local-name()='annotation' and @encoding='application/x-llamapun']",
''', '''      LEXEME_ANNOTATIONS,
'''), (D, '/// Map math nodes', '''/// where the lexemes of a formula are kept
const LEXEME_ANNOTATIONS: &str =
  ".//*[local-name()='annotation' and @encoding='application/x-llamapun']";

/// Map math nodes'''))
same('le-xpath-swap', (D, '''local-name()='annotation' and @encoding='application/x-llamapun\'''', '''@encoding='application/x-llamapun' and local-name()='annotation\''''))
bug('le-xpath-xml', (D, "local-name()='annotation' and", "local-name()='annotation-xml' and"))
same('le-fn-word', (D, src(D)[src(D).index('          if anno_word.starts_with("NUM")'):src(D).index('        })\n        .collect::<Vec<String>>()\n        .join(" ")\n    })')], '          general_lexeme(anno_word)\n'), (D, '/// Map math nodes', '''fn general_lexeme(word: &str) -> String {
  for general in ["NUM", "ARRAY", "ATOM", "SUPERSCRIPTOP"] {
    if word.starts_with(general) {
      return general.to_string();
    }
  }
  word
    .chars()
    .map(|c| match c {
      ':' | '-' => '_',
      '\\n' => ' ',
      other => other,
    })
    .collect()
}

/// Map math nodes'''))
bug('le-fn-word-missing', (D, src(D)[src(D).index('          if anno_word.starts_with("NUM")'):src(D).index('        })\n        .collect::<Vec<String>>()\n        .join(" ")\n    })')], '          general_lexeme(anno_word)\n'), (D, '/// Map math nodes', '''fn general_lexeme(word: &str) -> String {
  for general in ["NUM", "ARRAY", "ATOM", "SUPERSCRIPT"] {
    if word.starts_with(general) {
      return general.to_string();
    }
  }
  word.replace(':', "_").replace('-', "_")
}

/// Map math nodes'''))
bug('le-fn-word-trunc', (D, "                ':' | '-' => '_',", "                ':' | '-' => '_',\n                c if c.is_ascii_digit() => '0',"))
bug('le-lower', (D, '    .join(" ");\n  if', '    .join(" ")\n    .to_lowercase();\n  if'))
bug('le-uniq', (D, '    .collect::<Vec<String>>()\n    .join(" ");\n  if', '    .fold(Vec::new(), |mut all: Vec<String>, one| {\n      if !all.contains(&one) {\n        all.push(one);\n      }\n      all\n    })\n    .join(" ");\n  if'))
same('le-fold', (D, '    .collect::<Vec<String>>()\n    .join(" ");\n  if', '    .fold(Vec::new(), |mut all: Vec<String>, one| {\n      all.push(one);\n      all\n    })\n    .join(" ");\n  if'))
# utils
UN = between(U, 'pub fn get_non_text_children(node: RoNode) -> Result<Vec<RoNode>, String> {\n', '\n}\n') + '\n'
UF = between(U, 'pub fn fast_get_non_text_children(node: RoNode) -> Vec<RoNode> {\n', '\n}\n') + '\n'
same('un-recursive', (U, UN, '''  let mut children: Vec<RoNode> = Vec::new();
  gather(node, node.get_first_child(), &mut children)?;
  Ok(children)
'''), (U, '/// Returns a vector of the children, skipping comments', '''fn gather(parent: RoNode, first: Option<RoNode>, children: &mut Vec<RoNode>) -> Result<(), String> {
  let mut cur = first;
  while let Some(child) = cur {
    cur = child.get_next_sibling();
    if child.is_text_node() {
      if child.get_content().trim().is_empty() {
        continue;
      }
      return Err(format!(
        "found unexpected text in \\"{}\\" node: \\"{}\\"",
        parent.get_name(),
        child.get_content().trim()
      ));
    }
    if is_comment_node(child) {
      continue;
    }
    children.push(child);
  }
  Ok(())
}

/// Returns a vector of the children, skipping comments'''))
bug('un-gather-skip', (U, UN, '''  let mut children: Vec<RoNode> = Vec::new();
  let mut cur = node.get_first_child();
  while let Some(child) = cur {
    cur = child.get_next_sibling();
    if child.is_text_node() {
      if child.get_content().trim().is_empty() {
        cur = cur.and_then(|next| if is_comment_node(next) { next.get_next_sibling() } else { Some(next) });
        continue;
      }
      if cur.is_none() && !children.is_empty() {
        continue;
      }
      return Err(format!("found unexpected text in \\"{}\\" node", node.get_name()));
    }
    if is_comment_node(child) {
      continue;
    }
    children.push(child);
  }
  Ok(children)
'''))
same('un-collect', (U, UF, '''  let mut children: Vec<RoNode> = Vec::new();
  let mut cur = node.get_first_child();
  while let Some(child) = cur {
    let skipped = child.is_text_node() || is_comment_node(child);
    if !skipped {
      children.push(child);
    }
    cur = child.get_next_sibling();
  }
  children
'''))
same('un-successors', (U, UF, '''  std::iter::successors(node.get_first_child(), |child| child.get_next_sibling())
    .filter(|child| !child.is_text_node() && !is_comment_node(*child))
    .collect()
'''))
bug('un-successors-tw', (U, UF, '''  std::iter::successors(node.get_first_child(), |child| child.get_next_sibling())
    .skip_while(|child| child.is_text_node())
    .filter(|child| !is_comment_node(*child))
    .collect()
'''))
same('un-only-match', (U, between(U, 'pub fn get_only_child(node: RoNode) -> Result<RoNode, String> {\n', '\n}\n'), '''  match get_non_text_children(node)?.as_slice() {
    [] => Err(format!(
      "Expected child node in node \\"{}\\"",
      node.get_name()
    )),
    [only] => Ok(*only),
    _ => Err(format!(
      "Too many child nodes in node \\"{}\\"",
      node.get_name()
    )),
  }'''))
bug('un-only-match-tail', (U, between(U, 'pub fn get_only_child(node: RoNode) -> Result<RoNode, String> {\n', '\n}\n'), '''  match get_non_text_children(node)?.as_slice() {
    [] => Err(format!(
      "Expected child node in node \\"{}\\"",
      node.get_name()
    )),
    [only] | [only, _] => Ok(*only),
    _ => Err(format!(
      "Too many child nodes in node \\"{}\\"",
      node.get_name()
    )),
  }'''))
same('un-simple-early', (U, between(U, 'pub fn get_simple_node_content(node: RoNode, trim: bool) -> Result<String, String> {\n', '\n}\n'), '''  let child = match node.get_first_child() {
    None => return Ok(String::new()),
    Some(child) => child,
  };
  if child.is_text_node() && child.get_next_sibling().is_none() {
    let mut text = child.get_content();
    if trim {
      text = text.trim().to_string();
    }
    return Ok(text);
  }
  Err(format!(
    "found unexpected nodes in node \\"{}\\"",
    node.get_name()
  ))'''))
bug('un-simple-node', (U, between(U, 'pub fn get_simple_node_content(node: RoNode, trim: bool) -> Result<String, String> {\n', '\n}\n'), '''  let child = match node.get_first_child() {
    None => return Ok(String::new()),
    Some(child) => child,
  };
  if child.is_text_node() && child.get_next_sibling().map_or(true, |next| is_comment_node(next)) {
    let text = node.get_content();
    return Ok(if trim { text.trim().to_string() } else { text });
  }
  Err(format!(
    "found unexpected nodes in node \\"{}\\"",
    node.get_name()
  ))'''))
# stopwords
same('st-const', (S, 'pub fn load<\'a>() -> HashSet<&\'a str> {\n  [', 'pub fn load<\'a>() -> HashSet<&\'a str> {\n  let words = ['), (S, '  ]\n  .iter()\n  .cloned()\n  .collect()', '  ];\n  let mut set = HashSet::with_capacity(words.len());\n  for word in words {\n    set.insert(word);\n  }\n  set'))
bug('st-const-skip', (S, 'pub fn load<\'a>() -> HashSet<&\'a str> {\n  [', 'pub fn load<\'a>() -> HashSet<&\'a str> {\n  let words = ['), (S, '  ]\n  .iter()\n  .cloned()\n  .collect()', '  ];\n  let mut set = HashSet::with_capacity(words.len());\n  for word in &words[1..] {\n    set.insert(*word);\n  }\n  set'))
same('st-extend', (S, '  .iter()\n  .cloned()\n  .collect()', '  .iter()\n  .fold(HashSet::default(), |mut all, word| {\n    all.extend([*word]);\n    all\n  })'))
# parameters
same('pa-array-from', (R, 'let mut name_options = HashMap::new();', 'let mut name_options: HashMap<String, SpecialTagsOption> = HashMap::with_capacity(8);'))
same('pa-into', (R, 'name_options.insert("img".to_string(), SpecialTagsOption::Skip);', 'name_options.insert("img".into(), SpecialTagsOption::Skip);'))
same('pa-use', (R, 'name_options.insert("img".to_string(), SpecialTagsOption::Skip);', '{\n      use SpecialTagsOption::Skip;\n      name_options.insert(String::from("img"), Skip);\n    }'))
same('pa-mut', (R, '''    DNMParameters {
      special_tag_name_options: name_options,
      special_tag_class_options: class_options,
''', '''    let normal = DNMParameters::default();
    DNMParameters {
      special_tag_name_options: name_options,
      special_tag_class_options: class_options,
'''), (R, '..Default::default()', '..normal'))
bug('pa-typo', (R, '"ltx_bibliography"', '"ltx_biblist"'))
bug('pa-swap', (R, 'class_options.insert("ltx_note_mark".to_string(), SpecialTagsOption::Skip);', 'name_options.insert("ltx_note_mark".to_string(), SpecialTagsOption::Skip);'))
bug('pa-default-unicode', (R, '      wrap_tokens: true,\n      normalize_unicode: true,', '      wrap_tokens: true,\n      normalize_unicode: true,\n      stem_words_once: true,'))
bug('pa-dbg', (R, 'Normalize(v) => write!(f, "Normalize({v})")?', 'Normalize(_) => write!(f, "Normalize")?'))
