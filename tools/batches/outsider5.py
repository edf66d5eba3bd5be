"""As outsider.py: more restructurings of, and bugs in, the modules the repository's own build compiles."""
CASES = []
def bug(n, *e): CASES.append((n, list(e), None, 'bug'))
def same(n, *e): CASES.append((n, list(e), None, 'same'))
N = 'ngrams.rs'; P = 'util/plot.rs'; T = 'util/test.rs'; D = 'dnm/node.rs'; R = 'dnm/parameters.rs'; U = 'patterns/utils.rs'; S = 'stopwords.rs'
# --- ngrams
INS = '''    let map = &mut self.map;
    // Only record if new
    let word_index = map.entry(word).or_insert(self.index + 1);
    if *word_index > self.index {
      self.index += 1;
    }
'''
same('d-contains', (N, INS, '''    if self.map.contains_key(&word) {
      return;
    }
    self.index += 1;
    self.map.insert(word, self.index);
'''))
same('d-or-insert-with', (N, INS, '''    let next = self.index + 1;
    let assigned = *self.map.entry(word).or_insert_with(|| next);
    self.index = self.index.max(assigned);
'''))
same('d-vacant', (N, INS, '''    use std::collections::hash_map::Entry;
    if let Entry::Vacant(slot) = self.map.entry(word) {
      self.index += 1;
      slot.insert(self.index);
    }
'''))
same('d-get-mut', (N, INS, '''    match self.map.get(&word) {
      Some(_) => (),
      None => {
        let fresh = self.index + 1;
        self.map.insert(word, fresh);
        self.index = fresh;
      },
    }
'''))
same('d-len', (N, INS, '''    let before = self.map.len();
    let next = self.index + 1;
    self.map.entry(word).or_insert(next);
    if self.map.len() > before {
      self.index = next;
    }
'''))
bug('d-vacant-inc-always', (N, INS, '''    let next = self.index + 1;
    if !self.map.contains_key(&word) {
      self.map.insert(word, next);
    }
    self.index = next;
'''))
bug('d-trim', (N, INS, '''    let word = word.trim().to_string();
    let word_index = self.map.entry(word).or_insert(self.index + 1);
    if *word_index > self.index {
      self.index += 1;
    }
'''))
bug('d-empty', (N, INS, '''    if word.is_empty() {
      return;
    }
''' + INS))
bug('d-ge', (N, 'if *word_index > self.index {', 'if *word_index >= self.index {'))
bug('d-count-map', (N, 'let word_index = map.entry(word).or_insert(self.index + 1);\n    if *word_index > self.index {\n      self.index += 1;\n    }', 'let word_index = map.entry(word).or_insert(self.index);\n    if *word_index == self.index {\n      self.index += 1;\n    }'))
same('d-count-len', (N, 'pub fn count(&self) -> usize { self.index }', 'pub fn count(&self) -> usize {\n    let Self { index, .. } = self;\n    *index\n  }'))
SRT = '''    let mut as_vec = self.counts.iter().map(|(x, y)| (x, *y)).collect::<Vec<_>>();
    as_vec.sort_by(|a, b| b.1.cmp(&a.1));
    as_vec
'''
same('s-reverse', (N, SRT, '''    let mut as_vec: Vec<(&String, usize)> = Vec::with_capacity(self.counts.len());
    for (phrase, count) in &self.counts {
      as_vec.push((phrase, *count));
    }
    as_vec.sort_by_key(|entry| std::cmp::Reverse(entry.1));
    as_vec
'''))
same('s-rev-cmp', (N, 'as_vec.sort_by(|a, b| b.1.cmp(&a.1));\n    as_vec\n  }\n  /// get the number of distinct', 'as_vec.sort_by(|a, b| a.1.cmp(&b.1).reverse());\n    as_vec\n  }\n  /// get the number of distinct'))
same('s-destructure', (N, 'as_vec.sort_by(|a, b| b.1.cmp(&a.1));\n    as_vec\n  }\n  /// get the number of distinct', 'as_vec.sort_by(|(_, a), (_, b)| b.cmp(a));\n    as_vec\n  }\n  /// get the number of distinct'))
bug('s-rev-rev', (N, 'as_vec.sort_by(|a, b| b.1.cmp(&a.1));\n    as_vec\n  }\n  /// get the number of distinct', 'as_vec.sort_by(|a, b| b.1.cmp(&a.1));\n    as_vec.reverse();\n    as_vec\n  }\n  /// get the number of distinct'))
bug('s-by-key', (N, 'as_vec.sort_by(|a, b| b.1.cmp(&a.1));\n    as_vec\n  }\n  /// get the number of distinct', 'as_vec.sort_by(|a, b| b.0.cmp(a.0));\n    as_vec\n  }\n  /// get the number of distinct'))
bug('s-filter-one', (N, 'self.counts.iter().map(|(x, y)| (x, *y))', 'self.counts.iter().filter(|(_, y)| **y > 1).map(|(x, y)| (x, *y))'))
bug('s-trunc', (N, 'as_vec.sort_by(|a, b| b.1.cmp(&a.1));\n    as_vec\n  }\n  /// get the number of distinct', 'as_vec.sort_by(|a, b| b.1.cmp(&a.1));\n    as_vec.truncate(10_000);\n    as_vec\n  }\n  /// get the number of distinct'))
bug('s-u8', (N, 'as_vec.sort_by(|a, b| b.1.cmp(&a.1));\n    as_vec\n  }\n  /// get the number of distinct', 'as_vec.sort_by_key(|e| std::cmp::Reverse(e.1 as u8));\n    as_vec\n  }\n  /// get the number of distinct'))
REC = '''    let mut gram_window = CircularQueue::with_capacity(self.n);
    for w in words.into_iter() {
      gram_window.push(w);
      if gram_window.len() == self.n {
        let key = gram_window
          .asc_iter()
          .copied()
          .collect::<Vec<_>>()
          .join(" ");
        self.insert(key);
      }
    }
'''
same('r-windows', (N, REC, '''    if self.n == 0 {
      let _: CircularQueue<&str> = CircularQueue::with_capacity(self.n);
      return;
    }
    for gram in words.windows(self.n) {
      self.insert(gram.join(" "));
    }
'''))
same('r-drain', (N, REC, '''    let mut gram_window = CircularQueue::with_capacity(self.n);
    for w in words {
      gram_window.push(w);
      if gram_window.len() < self.n {
        continue;
      }
      let mut key = String::new();
      for (i, part) in gram_window.asc_iter().enumerate() {
        if i > 0 {
          key.push(' ');
        }
        key += part;
      }
      self.insert(key);
    }
'''))
same('r-iter-rev', (N, 'gram_window\n          .asc_iter()\n          .copied()', 'gram_window\n          .iter()\n          .collect::<Vec<_>>()\n          .into_iter()\n          .rev()\n          .copied()'))
same('r-is-full', (N, 'if gram_window.len() == self.n {', 'let ready = gram_window.is_full();\n      if ready {'))
bug('r-chunks', (N, REC, '''    for gram in words.chunks_exact(self.n) {
      self.insert(gram.join(" "));
    }
'''))
bug('r-windows-n1', (N, REC, '''    for gram in words.windows(self.n.max(2)) {
      self.insert(gram.join(" "));
    }
'''))
bug('r-clear', (N, '        self.insert(key);\n      }', '        self.insert(key);\n        if self.n > 2 { gram_window.clear(); }\n      }'))
bug('r-iter-desc', (N, '.asc_iter()\n          .copied()', '.iter()\n          .copied()'))
bug('r-lower', (N, '        self.insert(key);', '        self.insert(key.to_lowercase());'))
bug('r-join-tab', (N, '.join(" ");\n        self', '.join("\\u{a0}");\n        self'))
bug('i-saturate', (N, '    *counter += 1;', '    if *counter < u32::MAX as usize { *counter += 1; } else { *counter = 0; }'))
same('i-checked', (N, '    *counter += 1;', '    *counter = *counter + 1;'))
same('i-and-modify', (N, 'let counter = self.counts.entry(phrase).or_insert(0);\n    *counter += 1;', 'self.counts.entry(phrase).and_modify(|c| *c += 1).or_insert(1);'))
bug('i-and-modify-2', (N, 'let counter = self.counts.entry(phrase).or_insert(0);\n    *counter += 1;', 'self.counts.entry(phrase).and_modify(|c| *c += 1).or_insert(0);'))
same('i-get-mut', (N, 'let counter = self.counts.entry(phrase).or_insert(0);\n    *counter += 1;', 'match self.counts.get_mut(&phrase) {\n      Some(counter) => *counter += 1,\n      None => {\n        self.counts.insert(phrase, 1);\n      },\n    }'))
ANC = open('/repo/src/ngrams.rs').read().split('pub fn add_anchored_content(&mut self, content: &str) {\n')[1].split('\n  }\n')[0] + '\n'
same('a-extract-method', (N, '''        // we've hit an anchor word, which also justifies the current content of the window
        continuous_buffer.extend(context_window.asc_iter().copied());
        context_window.clear();
        continuous_buffer.push(w);
''', '''        Self::absorb(&mut continuous_buffer, &mut context_window, w);
'''), (N, '''  /// Take an arbitrarily long''', '''  fn absorb<'t>(run: &mut Vec<&'t str>, waiting: &mut CircularQueue<&'t str>, anchor: &'t str) {
    for w in waiting.asc_iter() {
      run.push(*w);
    }
    waiting.clear();
    run.push(anchor);
  }

  /// Take an arbitrarily long'''))
same('a-mem-replace', (N, 'self.record_words(std::mem::take(&mut continuous_buffer));', 'let run = std::mem::replace(&mut continuous_buffer, Vec::new());\n          self.record_words(run);'))
same('a-split-off', (N, 'self.record_words(std::mem::take(&mut continuous_buffer));', 'let run: Vec<&str> = continuous_buffer.split_off(0);\n          self.record_words(run);'))
same('a-ws-collect', (N, '''    for w in content
      .split_ascii_whitespace()
      .filter(|&w| w.chars().next().unwrap().is_alphanumeric())
    {''', '''    let words: Vec<&str> = content
      .split_ascii_whitespace()
      .filter(|&w| w.chars().next().unwrap().is_alphanumeric())
      .collect();
    for w in words {'''))
same('a-ws-map-or', (N, '''.filter(|&w| w.chars().next().unwrap().is_alphanumeric())''', '''.filter(|w| w.chars().next().map_or(false, char::is_alphanumeric))'''))
same('a-ws-split', (N, '''.split_ascii_whitespace()''', '''.split(|c: char| c.is_ascii_whitespace())\n      .filter(|w| !w.is_empty())'''))
bug('a-ws-uni', (N, '''.split_ascii_whitespace()''', '''.split_whitespace()'''))
bug('a-ws-space', (N, '''.split_ascii_whitespace()''', '''.split(' ')\n      .filter(|w| !w.is_empty())'''))
bug('a-lower-anchor', (N, 'if w == anchor {', 'if w.eq_ignore_ascii_case(anchor) {'))
bug('a-contains', (N, 'if w == anchor {', 'if w.trim_end_matches(\'.\') == anchor {'))
bug('a-ahead-plus', (N, 'justified_ahead = self.window_size;', 'justified_ahead += self.window_size;'))
bug('a-ahead-n', (N, 'justified_ahead = self.window_size;', 'justified_ahead = self.window_size.max(self.n);'))
bug('a-no-final', (N, '    // Any remaining justified content should be added\n    self.record_words(continuous_buffer);', '    if justified_ahead == 0 {\n      self.record_words(continuous_buffer);\n    }'))
bug('a-final-window', (N, '    // Any remaining justified content should be added\n', '    if context_window.is_full() { continuous_buffer.clear(); }\n'))
bug('a-cap', (N, 'CircularQueue::with_capacity(self.window_size);', 'CircularQueue::with_capacity(self.window_size.max(self.n));'))
bug('a-len-ge', (N, 'if context_window.is_full() {\n', 'if context_window.len() + 1 >= self.window_size {\n'))
same('a-len-ge-ok', (N, 'if context_window.is_full() {\n', 'if context_window.len() == context_window.capacity() {\n'))
bug('a-drop-long', (N, '''is_alphanumeric())
    {''', '''is_alphanumeric() && w.len() < 40)
    {'''))
same('a-two-states', (N, ANC, ANC.replace('''      } else if justified_ahead > 0 {
        continuous_buffer.push(w);
        justified_ahead -= 1;
      } else {
''', '''        continue;
      }
      if justified_ahead > 0 {
        continuous_buffer.push(w);
        justified_ahead -= 1;
        continue;
      }
      {
''')))
same('a-checked-sub', (N, ANC, ANC.replace('''      } else if justified_ahead > 0 {
        continuous_buffer.push(w);
        justified_ahead -= 1;
      } else {
''', '''      } else if let Some(rest) = justified_ahead.checked_sub(1) {
        continuous_buffer.push(w);
        justified_ahead = rest;
      } else {
''').replace('let mut justified_ahead = 0;', 'let mut justified_ahead: usize = 0;')))
same('a-mask', (N, ANC, '''    let words: Vec<&str> = content
      .split_ascii_whitespace()
      .filter(|&w| w.chars().next().unwrap().is_alphanumeric())
      .collect();
    let anchor = match self.anchor.as_ref() {
      Some(anchor) => anchor.clone(),
      None if words.is_empty() => return,
      None => panic!(),
    };
    let mut run = Vec::new();
    for (i, w) in words.iter().enumerate() {
      let from = i.saturating_sub(self.window_size);
      let to = (i + self.window_size + 1).min(words.len());
      if words[from..to].iter().any(|x| *x == anchor) {
        run.push(*w);
      } else {
        self.record_words(std::mem::take(&mut run));
      }
    }
    self.record_words(run);
'''))
same('ac-match', (N, '''    if self.anchor.is_some() && self.window_size > 0 {
      self.add_anchored_content(content)
    } else {
      unimplemented!(); // TODO: the basic ngram case
    }''', '''    match (&self.anchor, self.window_size) {
      (None, _) | (_, 0) => unimplemented!(),
      _ => self.add_anchored_content(content),
    }'''))
bug('ac-lines', (N, '      self.add_anchored_content(content)\n', '      for line in content.lines() {\n        self.add_anchored_content(line)\n      }\n'))
bug('ac-lower', (N, '      self.add_anchored_content(content)\n', '      self.add_anchored_content(&content.to_lowercase())\n'))
bug('g-trim', (N, 'match self.counts.get(word) {', 'match self.counts.get(word.trim()) {'))
same('g-copied', (N, '''    match self.counts.get(word) {
      Some(count) => *count,
      None => 0,
    }''', '''    self.counts.get(word).copied().unwrap_or_default()'''))
bug('dc-sum', (N, 'self.counts.len() }', 'self.counts.values().filter(|c| **c > 0).sum() }'))
# --- plot
same('p-range', (P, 'let log_values = map.iter().map(|entry| (entry.1 as f64).log2());', 'let log_values: Vec<f64> = map\n    .iter()\n    .map(|&(_, ref count)| *count as f64)\n    .map(f64::log2)\n    .collect();'))
bug('p-skip-last', (P, 'let log_values = map.iter()', 'let log_values = map.iter().take(map.len().saturating_sub(1)).chain(map.first())'))
bug('p-rev', (P, 'let log_values = map.iter()', 'let log_values = map.iter().rev()'))
bug('p-u32', (P, '(entry.1 as f64).log2()', '(entry.1 as f32).log2() as f64'))
bug('p-dedup', (P, 'let mut fg = Figure::new();', 'let mut keys = keys;\n  keys.dedup();\n  let mut fg = Figure::new();'))
bug('p-labels', (P, '.set_x_label(x_label', '.set_x_label(y_label'))
bug('p-title', (P, '.set_title(title, &[])', '.set_title(x_label, &[])'))
same('p-style', (P, 'Color("#ffaa77")', 'Color("#ff0000")'))
same('p-let-axes', (P, '''  fg.axes2d()
    .points(''', '''  let axes = fg.axes2d();
  axes
    .points('''))
# --- test resources
TF = '''      if entry.file_type().is_dir() {
        true
      } else if let Some(name_os) = entry.path().extension() {
        let name = name_os.to_str();
        name == Some("html") || name == Some("xhtml")
      } else {
        false
      }
'''
same('t-match', (T, TF, '''      entry.file_type().is_dir()
        || match entry.path().extension().and_then(|e| e.to_str()) {
          Some("html") | Some("xhtml") => true,
          _ => false,
        }
'''))
same('t-contains', (T, TF, '''      let usable = ["html", "xhtml"];
      entry.file_type().is_dir()
        || entry
          .path()
          .extension()
          .and_then(|e| e.to_str())
          .map_or(false, |e| usable.contains(&e))
'''))
same('t-is-some-and', (T, TF, '''      if entry.file_type().is_dir() {
        return true;
      }
      entry.path().extension().is_some_and(|e| e == "html" || e == "xhtml")
'''))
bug('t-ends-with', (T, TF, '''      entry.file_type().is_dir() || entry.path().to_str().map_or(false, |p| p.ends_with("html"))
'''))
bug('t-ic', (T, TF, '''      entry.file_type().is_dir()
        || entry.path().extension().is_some_and(|e| e.eq_ignore_ascii_case("html") || e == "xhtml")
'''))
bug('t-hidden', (T, '      if entry.file_type().is_dir() {\n        true', '      if entry.file_type().is_dir() {\n        !entry.file_name().to_str().map_or(false, |n| n.starts_with(\'_\'))'))
bug('t-name', (T, '.file_stem()', '.file_name()'))
bug('t-follow', (T, 'WalkDir::new("./tests/resources")', 'WalkDir::new("./tests/resources").min_depth(2)'))
bug('t-max', (T, 'WalkDir::new("./tests/resources")', 'WalkDir::new("./tests/resources").max_depth(1)'))
same('t-flatten', (T, '.filter_map(|e| e.ok())', '.flatten()'))
same('t-is-file', (T, '''    .filter_map(|e| e.ok())
    .filter(|e| !e.file_type().is_dir())
''', '''    .filter_map(|e| match e {
      Ok(entry) if !entry.file_type().is_dir() => Some(entry),
      _ => None,
    })
'''))
# --- lexemes
CH = '''            anno_word
              .chars()
              .map(|c| match c {
                ':' | '-' => '_',
                '\\n' => ' ',
                _ => c,
              })
              .collect()
'''
same('l-if', (D, CH, '''            let mut clean = String::with_capacity(anno_word.len());
            for c in anno_word.chars() {
              if c == ':' || c == '-' {
                clean.push('_');
              } else {
                clean.push(c);
              }
            }
            clean
'''))
same('l-replace-arr', (D, CH, '''            anno_word.replace([':', '-'], "_")
'''))
same('l-matches', (D, CH, '''            anno_word
              .chars()
              .map(|c| if matches!(c, ':' | '-') { '_' } else { c })
              .collect::<String>()
'''))
bug('l-drop-dash', (D, CH, CH.replace("':' | '-' => '_'", "':' => '_'")))
bug('l-under', (D, CH, CH.replace("':' | '-' => '_'", "':' | '-' | '.' => '_'")))
bug('l-ascii', (D, CH, CH.replace("_ => c,", "c if c.is_ascii() => c,\n                _ => '_',")))
bug('l-num-eq', (D, 'if anno_word.starts_with("NUM")', 'if anno_word.starts_with("NUMBER")'))
bug('l-num-contains', (D, 'if anno_word.starts_with("NUM")', 'if anno_word.contains("NUM")'))
bug('l-array-order', (D, 'anno_word.starts_with("ATOM")', 'anno_word.starts_with("AT")'))
same('l-table', (D, '''          if anno_word.starts_with("NUM") {
            String::from("NUM")
          } else if anno_word.starts_with("ARRAY") {
            String::from("ARRAY")
          } else if anno_word.starts_with("ATOM") {
            String::from("ATOM")
          } else if anno_word.starts_with("SUPERSCRIPTOP") {
            String::from("SUPERSCRIPTOP")
          } else {
''', '''          let general = ["NUM", "ARRAY", "ATOM", "SUPERSCRIPTOP"]
            .iter()
            .find(|prefix| anno_word.starts_with(**prefix));
          if let Some(prefix) = general {
            prefix.to_string()
          } else {
'''))
same('l-replace-end', (D, '''      annotation_string = LEXEME_END_MARKER
        .replace_all(&annotation_string, " $1 ")
        .split(":end")
        .collect::<Vec<&str>>()
        .join(":end ");
''', '''      let spaced = LEXEME_END_MARKER.replace_all(&annotation_string, " $1 ");
      annotation_string = spaced.replace(":end", ":end ");
'''))
bug('l-no-marker', (D, '''LEXEME_END_MARKER
        .replace_all(&annotation_string, " $1 ")
        .split''', '''LEXEME_END_MARKER
        .replace(&annotation_string, " $1 ")
        .split'''))
bug('l-marker-after', (D, '" $1 ")', '"$1 ")'))
bug('l-first-anno', (D, '    .get_readonly_nodes_as_vec();', '    .get_readonly_nodes_as_vec();\n  let annotations = annotations.into_iter().take(8).collect::<Vec<_>>();'))
bug('l-xpath', (D, '".//*[local-name()=\'annotation\' and @encoding=\'application/x-llamapun\']"', '"./*/*[local-name()=\'annotation\' and @encoding=\'application/x-llamapun\']"'))
bug('l-xpath-abs', (D, '".//*[local-name', '"//*[local-name'))
bug('l-fallback', (D, 'if !lexemes.is_empty() {', 'if !annotations.is_empty() {'))
same('l-fallback-match', (D, '''  if !lexemes.is_empty() {
    lexemes
  } else {
    // Fallback if no lexemes - a generic substitution
    // intended to be used in a lowercased context, where only significant lexemes are left
    // capitalized
    String::from("mathformula")
  }''', '''  match lexemes.len() {
    0 => "mathformula".to_owned(),
    _ => lexemes,
  }'''))
bug('l-sep-newline', (D, '''    .collect::<Vec<String>>()
    .join(" ");
  if''', '''    .collect::<Vec<String>>()
    .concat();
  if'''))
bug('l-alt-dropped', (D, '|ARROW|', '|'))
same('l-alt-order', (D, 'RELOP|ADDOP', 'ADDOP|RELOP'))
# --- parameters
same('r-with', (R, 'had_whitespace: true, // skip leading whitespace\n      chars: Vec::new(),', 'chars: Default::default(),\n      had_whitespace: true,'))
bug('r-hadws', (R, 'had_whitespace: true,', 'had_whitespace: false,'))
bug('r-back', (R, '''      normalize_unicode: true,
      ..Default''', '''      normalize_unicode: true,
      support_back_mapping: false,
      ..Default'''))
bug('r-wrap-def', (R, 'wrap_tokens: false,', 'wrap_tokens: true,'))
bug('r-note', (R, '"ltx_note_outer".to_string(), SpecialTagsOption::Skip', '"ltx_note_outer".to_string(), SpecialTagsOption::Enter'))
bug('r-eqn', (R, '''"ltx_equationgroup".to_string(),
      SpecialTagsOption::Normalize("\\nmathformula\\n".to_string()),''', '''"ltx_equationgroup".to_string(),
      SpecialTagsOption::Normalize("mathformula".to_string()),'''))
bug('r-head-removed', (R, '    name_options.insert("head".to_string(), SpecialTagsOption::Skip);\n', ''))
bug('r-extra', (R, '    name_options.insert("head".to_string(), SpecialTagsOption::Skip);\n', '    name_options.insert("head".to_string(), SpecialTagsOption::Skip);\n    name_options.insert("sup".to_string(), SpecialTagsOption::Skip);\n'))
bug('r-overwrite', (R, '    DNMParameters {\n      special_tag_name_options: name_options,', '    class_options.insert("ltx_ref".to_string(), SpecialTagsOption::Enter);\n    DNMParameters {\n      special_tag_name_options: name_options,'))
same('r-loop', (R, '''    name_options.insert("img".to_string(), SpecialTagsOption::Skip);
    name_options.insert("table".to_string(), SpecialTagsOption::Skip);
    name_options.insert("head".to_string(), SpecialTagsOption::Skip);
    name_options.insert("footer".to_string(), SpecialTagsOption::Skip);
''', '''    for skipped in ["img", "table", "head", "footer"] {
      name_options.insert(skipped.to_string(), SpecialTagsOption::Skip);
    }
'''))
same('r-extend', (R, '''    name_options.insert("img".to_string(), SpecialTagsOption::Skip);
    name_options.insert("table".to_string(), SpecialTagsOption::Skip);
    name_options.insert("head".to_string(), SpecialTagsOption::Skip);
    name_options.insert("footer".to_string(), SpecialTagsOption::Skip);
''', '''    name_options.extend(
      ["img", "table", "head", "footer"]
        .iter()
        .map(|name| (name.to_string(), SpecialTagsOption::Skip)),
    );
'''))
same('r-closure', (R, 'let mut name_options = HashMap::new();\n    name_options.insert(\n      "math".to_string(),\n      SpecialTagsOption::Normalize("mathformula".to_string()),\n    );', 'let replace_by = |token: &str| SpecialTagsOption::Normalize(String::from(token));\n    let mut name_options = HashMap::new();\n    name_options.insert(String::from("math"), replace_by("mathformula"));'))
same('r-class-fn', (R, '''    class_options.insert("ltx_authors".to_string(), SpecialTagsOption::Skip);
    class_options.insert("ltx_TOC".to_string(), SpecialTagsOption::Skip);
''', '''    skip(&mut class_options, "ltx_authors");
    skip(&mut class_options, "ltx_TOC");
'''), (R, '''impl DNMParameters {
''', '''fn skip(options: &mut HashMap<String, SpecialTagsOption>, tag: &str) {
  options.insert(tag.to_owned(), SpecialTagsOption::Skip);
}

impl DNMParameters {
'''))
bug('r-check-panics', (R, '''  pub fn check(&self) {
''', '''  pub fn check(&self) {
    assert!(!(self.stem_words_once && self.stem_words_full));
'''))
same('r-check-var', (R, '''    if (self.stem_words_once || self.stem_words_full) && self.convert_to_lowercase {''', '''    let stems = self.stem_words_once || self.stem_words_full;
    if stems && self.convert_to_lowercase {'''))
bug('r-check-and', (R, '''    if (self.stem_words_once || self.stem_words_full) && self.convert_to_lowercase {''', '''    if self.stem_words_once && self.convert_to_lowercase {'''))
# --- pattern utils
same('u-simple-q', (U, '''  if child.is_none() {
    Ok(String::new())
  } else if !child.as_ref().unwrap().is_text_node()
    || child.as_ref().unwrap().get_next_sibling().is_some()
  {
    Err(format!(
      "found unexpected nodes in node \\"{}\\"",
      node.get_name()
    ))
  } else {
    Ok(if trim {
      child.as_ref().unwrap().get_content().trim().to_string()
    } else {
      child.as_ref().unwrap().get_content()
    })
  }''', '''  let Some(only) = child else {
    return Ok(String::new());
  };
  let simple = only.is_text_node() && only.get_next_sibling().is_none();
  if !simple {
    return Err(format!(
      "found unexpected nodes in node \\"{}\\"",
      node.get_name()
    ));
  }
  let content = only.get_content();
  if !trim {
    return Ok(content);
  }
  Ok(content.trim().to_string())'''))
bug('u-simple-or', (U, '''  } else if !child.as_ref().unwrap().is_text_node()
    || child''', '''  } else if !child.as_ref().unwrap().is_text_node()
    && child'''))
bug('u-simple-trim', (U, 'get_content().trim().to_string()\n    } else', 'get_content().trim_end().to_string()\n    } else'))
bug('u-simple-comment', (U, '  let child = node.get_first_child();\n  if child.is_none()', '  let mut child = node.get_first_child();\n  while child.map_or(false, is_comment_node) {\n    child = child.unwrap().get_next_sibling();\n  }\n  if child.is_none()'))
bug('u-nt-comment-end', (U, '    } else if !is_comment_node(cur_) {\n      children.push(cur_);\n    }\n    cur = cur_.get_next_sibling();\n  }\n}\n\n/// Returns a vector of the children, skipping comments', '    } else if is_comment_node(cur_) {\n      return Ok(children);\n    } else {\n      children.push(cur_);\n    }\n    cur = cur_.get_next_sibling();\n  }\n}\n\n/// Returns a vector of the children, skipping comments'))
bug('u-nt-ascii', (U, 'if !cur_.get_content().trim().is_empty() {', 'if !cur_.get_content().trim_matches(|c: char| c.is_ascii_whitespace()).is_empty() {'))
same('u-nt-any', (U, 'if !cur_.get_content().trim().is_empty() {', 'if cur_.get_content().chars().any(|c| !c.is_whitespace()) {'))
bug('u-ft-dup', (U, '    if !cur_.is_text_node() && !is_comment_node(cur_) {\n      children.push(cur_);\n    }\n    cur = cur_', '    if !cur_.is_text_node() && !is_comment_node(cur_) {\n      children.insert(0, cur_);\n    }\n    cur = cur_'))
same('u-ft-match', (U, '    if !cur_.is_text_node() && !is_comment_node(cur_) {\n      children.push(cur_);\n    }\n    cur = cur_', '    match (cur_.is_text_node(), is_comment_node(cur_)) {\n      (false, false) => children.push(cur_),\n      _ => {},\n    }\n    cur = cur_'))
bug('u-only-gt2', (U, 'children.len() > 1', 'children.len() > 2'))
bug('u-only-last', (U, 'Ok(children[0])', 'Ok(*children.last().unwrap())'), (U, 'children.len() > 1', 'children.len() > 3'))
same('u-only-last-ok', (U, 'Ok(children[0])', 'Ok(*children.last().unwrap())'))
same('u-only-swap', (U, 'Ok(children[0])', 'Ok(children.into_iter().next().unwrap())'))
bug('u-noch-fast', (U, 'if get_non_text_children(node)?.is_empty() {', 'if fast_get_non_text_children(node).is_empty() {'))
bug('u-noch-first', (U, 'if get_non_text_children(node)?.is_empty() {', 'if node.get_first_child().is_none() {'))
bug('u-prop-default', (U, 'match node.get_property(property) {', 'match node.get_property(property).or_else(|| node.get_attribute_ns(property, "")) {'))
same('u-prop-map', (U, '''  match node.get_property(property) {
    None => Err(format!(
      "\\"{}\\" node misses \\"{}\\" property",
      node.get_name(),
      property
    )),
    Some(value) => Ok(value),
  }''', '''  node.get_property(property).ok_or_else(|| {
    format!(
      "\\"{}\\" node misses \\"{property}\\" property",
      node.get_name()
    )
  })'''))
bug('u-dup-swap', (U, '  if property.is_some() {\n    Err', '  if property.is_none() {\n    Err'))
same('u-comment-eq', (U, 'node.get_type().unwrap() == NodeType::CommentNode', 'matches!(node.get_type().unwrap(), NodeType::CommentNode)'))
bug('u-comment-opt', (U, 'node.get_type().unwrap() == NodeType::CommentNode', 'node.get_type().unwrap() != NodeType::ElementNode'))
# --- stopwords
same('w-into', (S, '  .iter()\n  .cloned()\n  .collect()', '  .into_iter()\n  .collect::<HashSet<&str>>()'))
same('w-from', (S, '  .iter()\n  .cloned()\n  .collect()', '  .iter()\n  .copied()\n  .fold(HashSet::new(), |mut set, word| {\n    set.insert(word);\n    set\n  })'))
bug('w-filter', (S, '  .iter()\n  .cloned()\n  .collect()', '  .iter()\n  .cloned()\n  .filter(|w| !w.contains(\'\\\'\'))\n  .collect()'))
bug('w-take', (S, '  .iter()\n  .cloned()\n  .collect()', '  .iter()\n  .cloned()\n  .take(600)\n  .collect()'))
bug('w-glued', (S, '    "whom",\n', '    "whom"'.replace('"whom"', '"whom "') + ',\n'))
same('w-dup', (S, '    "whom",\n', '    "whom",\n    "whom",\n'))
