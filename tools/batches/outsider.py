"""Rewritings as someone else would make them, and slips that look like them; every check is run on each."""
CASES = []
def bug(n, *e): CASES.append((n, list(e), None, 'bug'))
def same(n, *e): CASES.append((n, list(e), None, 'same'))
N = 'ngrams.rs'; U = 'patterns/utils.rs'; P = 'util/plot.rs'; T = 'util/test.rs'; D = 'dnm/node.rs'; A = 'dnm/parameters.rs'; S = 'stopwords.rs'
src = {f: open('/repo/src/' + f).read() for f in (N, U, P, T, D, A)}
def body(f, start, end='\n  }\n'):
    s = src[f]; i = s.index(start) + len(start); j = s.index(end, i); return s[i:j]
INS = body(N, 'pub fn insert(&mut self, word: String) {\n')
SRT = body(N, 'pub fn sorted(&self) -> Vec<(&String, usize)> {\n')
GET = body(N, 'pub fn get(&self, word: &str) -> usize {\n')
ADD = body(N, 'pub fn add_content(&mut self, content: &str) {\n')
ANC = body(N, 'pub fn add_anchored_content(&mut self, content: &str) {\n', '\n  }\n\n')
REC = body(N, 'pub fn record_words(&mut self, words: Vec<&str>) {\n', '\n  }\n}')
# --- ngrams: the anchored content, told in other ways
ANC_ENUM = '''    let anchor = self.anchor.clone().unwrap();
    let size = self.window_size;
    let words: Vec<&str> = content
      .split_ascii_whitespace()
      .filter(|w| w.chars().next().map_or(false, char::is_alphanumeric))
      .collect();
    let mut run: Vec<&str> = Vec::new();
    let mut waiting: Vec<&str> = Vec::new();
    let mut ahead = 0;
    for &word in words.iter() {
      if word == anchor.as_str() {
        run.append(&mut waiting);
        run.push(word);
        ahead = size;
        continue;
      }
      if ahead > 0 {
        ahead -= 1;
        run.push(word);
        continue;
      }
      if waiting.len() == size {
        let done = std::mem::replace(&mut run, Vec::new());
        self.record_words(done);
        waiting.remove(0);
      }
      waiting.push(word);
    }
    self.record_words(run);'''
same('anc-vec', (N, ANC, ANC_ENUM))
bug('anc-vec-noreset', (N, ANC, ANC_ENUM.replace('        ahead = size;\n', '        ahead = ahead.max(size - 1);\n')))
bug('anc-vec-late', (N, ANC, ANC_ENUM.replace('if waiting.len() == size {', 'if waiting.len() > size {')))
bug('anc-vec-keep', (N, ANC, ANC_ENUM.replace('        waiting.remove(0);\n', '        waiting.pop();\n')))
same('anc-let-else', (N, '      let anchor = self.anchor.as_ref().unwrap();\n', '      let Some(anchor) = self.anchor.as_ref() else { unreachable!() };\n'))
same('anc-as-deref', (N, '      let anchor = self.anchor.as_ref().unwrap();\n      if w == anchor {', '      if self.anchor.as_deref() == Some(w) {'))
same('anc-is-some-and', (N, '      let anchor = self.anchor.as_ref().unwrap();\n      if w == anchor {', '      let is_anchor = self.anchor.as_ref().is_some_and(|anchor| anchor == w);\n      if is_anchor {'))
same('anc-filter-fn', (N, '.filter(|&w| w.chars().next().unwrap().is_alphanumeric())', '.filter(|w| starts_like_a_word(w))'), (N, '/// Ngrams are dictionaries with', '/// words begin with a letter or a digit\nfn starts_like_a_word(w: &str) -> bool {\n  match w.chars().next() {\n    Some(c) => c.is_alphanumeric(),\n    None => false,\n  }\n}\n\n/// Ngrams are dictionaries with'))
same('anc-starts-with', (N, '.filter(|&w| w.chars().next().unwrap().is_alphanumeric())', '.filter(|w| w.starts_with(|c: char| c.is_alphanumeric()))'))
same('anc-alpha-or-num', (N, '.filter(|&w| w.chars().next().unwrap().is_alphanumeric())', '.filter(|w| {\n        let first = w.chars().next().unwrap();\n        first.is_alphabetic() || first.is_numeric()\n      })'))
bug('anc-ascii', (N, '.filter(|&w| w.chars().next().unwrap().is_alphanumeric())', '.filter(|w| w.starts_with(|c: char| c.is_ascii_alphanumeric()))'))
bug('anc-any', (N, '.filter(|&w| w.chars().next().unwrap().is_alphanumeric())', '.filter(|w| w.chars().any(|c| c.is_alphanumeric()))'))
bug('anc-last', (N, '.filter(|&w| w.chars().next().unwrap().is_alphanumeric())', '.filter(|w| w.chars().last().unwrap().is_alphanumeric())'))
same('anc-continue-filter', (N, '''    for w in content
      .split_ascii_whitespace()
      .filter(|&w| w.chars().next().unwrap().is_alphanumeric())
    {
''', '''    for w in content.split_ascii_whitespace() {
      if !w.chars().next().unwrap().is_alphanumeric() {
        continue;
      }
'''))
bug('anc-break-filter', (N, '''    for w in content
      .split_ascii_whitespace()
      .filter(|&w| w.chars().next().unwrap().is_alphanumeric())
    {
''', '''    for w in content.split_ascii_whitespace() {
      if !w.chars().next().unwrap().is_alphanumeric() {
        break;
      }
'''))
bug('anc-takewhile', (N, '.filter(|&w| w.chars().next().unwrap().is_alphanumeric())', '.skip_while(|w| !w.chars().next().unwrap().is_alphanumeric())'))
same('anc-while-let', (N, '''    for w in content
      .split_ascii_whitespace()
      .filter(|&w| w.chars().next().unwrap().is_alphanumeric())
    {
''', '''    let mut words = content
      .split_ascii_whitespace()
      .filter(|&w| w.chars().next().unwrap().is_alphanumeric());
    while let Some(w) = words.next() {
'''))
same('anc-flush-helper', (N, '          self.record_words(std::mem::take(&mut continuous_buffer));\n', '          self.flush(&mut continuous_buffer);\n'), (N, '  /// Take an arbitrarily long vector of words', '  /// records a finished run\n  fn flush(&mut self, run: &mut Vec<&str>) {\n    let finished = std::mem::take(run);\n    self.record_words(finished);\n  }\n\n  /// Take an arbitrarily long vector of words'))
same('anc-flush-nonempty', (N, '          self.record_words(std::mem::take(&mut continuous_buffer));\n', '          if !continuous_buffer.is_empty() {\n            self.record_words(std::mem::take(&mut continuous_buffer));\n          }\n'))
same('anc-drain', (N, '          self.record_words(std::mem::take(&mut continuous_buffer));\n', '          self.record_words(continuous_buffer.drain(..).collect());\n'))
same('anc-clone-clear', (N, '          self.record_words(std::mem::take(&mut continuous_buffer));\n', '          self.record_words(continuous_buffer.clone());\n          continuous_buffer.clear();\n'))
bug('anc-clone-noclear', (N, '          self.record_words(std::mem::take(&mut continuous_buffer));\n', '          self.record_words(continuous_buffer.clone());\n          if continuous_buffer.len() < self.n {\n            continuous_buffer.clear();\n          }\n'))
same('anc-loop-extend', (N, '        continuous_buffer.extend(context_window.asc_iter().copied());\n', '        for earlier in context_window.asc_iter() {\n          continuous_buffer.push(*earlier);\n        }\n'))
bug('anc-desc', (N, '        continuous_buffer.extend(context_window.asc_iter().copied());\n', '        continuous_buffer.extend(context_window.iter().copied());\n'))
same('anc-match', (N, '''      } else if justified_ahead > 0 {
        continuous_buffer.push(w);
        justified_ahead -= 1;
      } else {
        if context_window.is_full() {''', '''      } else if let Some(rest) = justified_ahead.checked_sub(1) {
        justified_ahead = rest;
        continuous_buffer.push(w);
      } else {
        if context_window.len() == self.window_size {'''), (N, 'let mut justified_ahead = 0;', 'let mut justified_ahead = 0usize;'))
same('anc-usize-flag', (N, '      } else if justified_ahead > 0 {', '      } else if justified_ahead != 0 {'))
bug('anc-ahead-1', (N, '      } else if justified_ahead > 0 {', '      } else if justified_ahead > 1 {'))
same('anc-count-up', (N, '    let mut justified_ahead = 0;\n', '    let mut since_anchor = self.window_size;\n'), (N, '        justified_ahead = self.window_size;\n', '        since_anchor = 0;\n'), (N, '      } else if justified_ahead > 0 {', '      } else if since_anchor < self.window_size {'), (N, '        justified_ahead -= 1;\n', '        since_anchor += 1;\n'))
bug('anc-count-up-le', (N, '    let mut justified_ahead = 0;\n', '    let mut since_anchor = self.window_size;\n'), (N, '        justified_ahead = self.window_size;\n', '        since_anchor = 1;\n'), (N, '      } else if justified_ahead > 0 {', '      } else if since_anchor < self.window_size {'), (N, '        justified_ahead -= 1;\n', '        since_anchor += 1;\n'))
bug('anc-clear-gone', (N, '        context_window.clear();\n', ''))
bug('anc-last-run', (N, '    // Any remaining justified content should be added\n    self.record_words(continuous_buffer);', '    // Any remaining justified content should be added\n    if justified_ahead > 0 {\n      self.record_words(continuous_buffer);\n    }'))
# --- ngrams: the rest
same('rec-index', (N, REC, '''    let n = self.n;
    let len = words.len();
    if n > len {
      return;
    }
    for start in 0..=(len - n) {
      let gram = words[start..start + n].join(" ");
      self.insert(gram);
    }'''))
bug('rec-index-off', (N, REC, '''    let n = self.n;
    let len = words.len();
    if n > len {
      return;
    }
    for start in 0..(len - n) {
      let gram = words[start..start + n].join(" ");
      self.insert(gram);
    }'''))
same('rec-window-buf', (N, REC, '''    let mut window: Vec<&str> = Vec::with_capacity(self.n);
    for word in words {
      window.push(word);
      if window.len() > self.n {
        window.remove(0);
      }
      if window.len() == self.n {
        self.insert(window.join(" "));
      }
    }'''))
same('rec-concat', (N, '''        let key = gram_window
          .asc_iter()
          .copied()
          .collect::<Vec<_>>()
          .join(" ");
''', '''        let mut key = String::new();
        for (i, word) in gram_window.asc_iter().enumerate() {
          if i > 0 {
            key.push(' ');
          }
          key.push_str(word);
        }
'''))
bug('rec-concat-trail', (N, '''        let key = gram_window
          .asc_iter()
          .copied()
          .collect::<Vec<_>>()
          .join(" ");
''', '''        let mut key = String::new();
        for word in gram_window.asc_iter() {
          key.push_str(word);
          key.push(' ');
        }
'''))
same('rec-concat-trim', (N, '''        let key = gram_window
          .asc_iter()
          .copied()
          .collect::<Vec<_>>()
          .join(" ");
''', '''        let mut key = String::new();
        for word in gram_window.asc_iter() {
          if !key.is_empty() {
            key += " ";
          }
          key += word;
        }
'''))
same('rec-full', (N, '      if gram_window.len() == self.n {', '      if gram_window.is_full() {'))
same('rec-noguard', (N, '''    if words.len() < self.n {
      // nothing to do unless we have at least n words
      return;
    }
''', ''))
bug('rec-guard-le', (N, '    if words.len() < self.n {', '    if words.len() <= self.n {'))
bug('rec-dedup', (N, '      gram_window.push(w);\n      if gram', '      if gram_window.iter().next() == Some(&w) {\n        continue;\n      }\n      gram_window.push(w);\n      if gram'))
same('get-map', (N, GET, '    self.counts.get(word).map_or(0, |count| *count)'))
same('get-iflet', (N, GET, '    if let Some(&count) = self.counts.get(word) {\n      return count;\n    }\n    0'))
same('get-contains', (N, GET, '    if self.counts.contains_key(word) {\n      self.counts[word]\n    } else {\n      0\n    }'))
same('get-default', (N, GET, '    *self.counts.get(word).unwrap_or(&0)'))
bug('get-lower', (N, GET, '    self.counts.get(&word.to_lowercase()).copied().unwrap_or_default()'))
same('add-match', (N, ADD, '''    match self.anchor {
      Some(_) if self.window_size != 0 => self.add_anchored_content(content),
      _ => unimplemented!(),
    }'''))
same('add-early', (N, ADD, '''    if self.anchor.is_none() || self.window_size == 0 {
      unimplemented!();
    }
    self.add_anchored_content(content)'''))
same('srt-helper', (N, SRT, '    by_value(&self.map)'), (N, SRT.replace('self.map', 'self.counts'), '    by_value(&self.counts)'), (N, '/// Ngrams are dictionaries with', '/// the entries, largest value first\nfn by_value(map: &HashMap<String, usize>) -> Vec<(&String, usize)> {\n  let mut entries: Vec<(&String, usize)> = map.iter().map(|(k, v)| (k, *v)).collect();\n  entries.sort_by(|(_, left), (_, right)| right.cmp(left));\n  entries\n}\n\n/// Ngrams are dictionaries with'))
bug('srt-helper-asc', (N, SRT, '    by_value(&self.map)'), (N, SRT.replace('self.map', 'self.counts'), '    by_value(&self.counts)'), (N, '/// Ngrams are dictionaries with', '/// the entries, largest value first\nfn by_value(map: &HashMap<String, usize>) -> Vec<(&String, usize)> {\n  let mut entries: Vec<(&String, usize)> = map.iter().map(|(k, v)| (k, *v)).collect();\n  entries.sort_by(|(left, _), (right, _)| right.cmp(left));\n  entries\n}\n\n/// Ngrams are dictionaries with'))
same('srt-cached', (N, 'as_vec.sort_by(|a, b| b.1.cmp(&a.1));', 'as_vec.sort_by(|a, b| a.1.cmp(&b.1).reverse());'))
same('srt-partial', (N, 'as_vec.sort_by(|a, b| b.1.cmp(&a.1));', 'as_vec.sort_by(|&(_, x), &(_, y)| y.cmp(&x));'))
bug('srt-dedup', (N, '    as_vec.sort_by(|a, b| b.1.cmp(&a.1));\n', '    as_vec.sort_by(|a, b| b.1.cmp(&a.1));\n    as_vec.dedup_by_key(|e| e.1);\n'))
same('dict-entry-match', (N, INS, '''    use std::collections::hash_map::Entry;
    if let Entry::Vacant(slot) = self.map.entry(word) {
      self.index += 1;
      slot.insert(self.index);
    }'''))
bug('dict-entry-after', (N, INS, '''    use std::collections::hash_map::Entry;
    if let Entry::Vacant(slot) = self.map.entry(word) {
      slot.insert(self.index);
      self.index += 1;
    }'''))
same('dict-guard', (N, INS, '''    if self.map.contains_key(word.as_str()) {
      return;
    }
    let next = self.index + 1;
    self.map.insert(word, next);
    self.index = next;'''))
bug('dict-replace', (N, INS, '''    let next = self.index + 1;
    if self.map.insert(word, next).is_none() {
      self.index = next;
    }'''))
same('dict-new', (N, 'pub fn new() -> Self { Dictionary::default() }', 'pub fn new() -> Self {\n    Self {\n      index: 0,\n      map: HashMap::new(),\n    }\n  }'))
same('ng-default-order', (N, '''    Ngrams {
      anchor: None,
      window_size: 0,
      n: 1,
      counts: HashMap::new(),
    }''', '''    let counts = HashMap::with_capacity(64);
    Self {
      counts,
      n: 1,
      window_size: usize::MIN,
      anchor: Option::default(),
    }'''))
bug('ng-default-n', (N, '      n: 1,\n', '      n: usize::default(),\n'))
