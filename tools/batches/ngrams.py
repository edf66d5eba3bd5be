N='ngrams.rs'
OLDI='''    let word_index = map.entry(word).or_insert(self.index + 1);
    if *word_index > self.index {
      self.index += 1;
    }'''
SORT='''    let mut as_vec = self.map.iter().map(|(x, y)| (x, *y)).collect::<Vec<_>>();
    as_vec.sort_by(|a, b| b.1.cmp(&a.1));
    as_vec'''
REC=open('/repo/src/ngrams.rs').read().split("pub fn record_words(&mut self, words: Vec<&str>) {")[1].split("\n  }\n}")[0]
ALL=['P01','P02','P03','P04']
CASES=[
('dict contains_key',[(N,OLDI,'if !map.contains_key(&word) { self.index += 1; map.insert(word, self.index); }')],ALL,'same'),
('dict match entry',[(N,OLDI,'let next = self.index + 1; if map.get(&word).is_none() { map.insert(word, next); self.index = next; }')],ALL,'same'),
('dict or_insert_with',[(N,OLDI,'let idx = &mut self.index; map.entry(word).or_insert_with(|| { *idx += 1; *idx });')],ALL,'same'),
('dict len',[(N,OLDI,'let next = map.len() + 1; map.entry(word).or_insert(next); self.index = map.len();')],ALL,'same'),
('dict off by one',[(N,'or_insert(self.index + 1)','or_insert(self.index)')],ALL,'bug'),
('dict lower',[(N,'map.entry(word)','map.entry(word.to_lowercase())')],ALL,'bug'),
('dict always inc',[(N,'if *word_index > self.index {','if *word_index > 0 {')],ALL,'bug'),
('dict skip empty',[(N,'    let map = &mut self.map;','    if word.is_empty() { return; }\n    let map = &mut self.map;')],ALL,'bug'),
('dict ge',[(N,'if *word_index > self.index {','if *word_index >= self.index {')],ALL,'bug'),
('dict sorted asc',[(N,'as_vec.sort_by(|a, b| b.1.cmp(&a.1));','as_vec.sort_by(|a, b| a.1.cmp(&b.1));')],ALL,'bug'),
('dict sorted by key rev',[(N,SORT,'let mut v: Vec<_> = self.map.iter().map(|(k, v)| (k, *v)).collect();\n v.sort_by_key(|e| std::cmp::Reverse(e.1)); v')],ALL,'same'),
('dict sorted loop',[(N,SORT,'let mut v = Vec::with_capacity(self.map.len()); for (k, i) in &self.map { v.push((k, *i)); } v.sort_unstable_by(|x, y| y.1.cmp(&x.1)); v')],ALL,'same'),
('dict sorted then reverse',[(N,SORT,'let mut v: Vec<_> = self.map.iter().map(|(k, v)| (k, *v)).collect();\n v.sort_by_key(|e| e.1); v.reverse(); v')],ALL,'same'),
('dict sorted filter',[(N,'self.map.iter().map(','self.map.iter().filter(|(_, &y)| y > 1).map(')],ALL,'bug'),
('count len',[(N,'pub fn count(&self) -> usize { self.index }','pub fn count(&self) -> usize { self.index.saturating_sub(1) }')],ALL,'bug'),
('ng get map_or',[(N,'''    match self.counts.get(word) {
      Some(count) => *count,
      None => 0,
    }''','self.counts.get(word).copied().unwrap_or(0)')],ALL,'same'),
('ng get default 1',[(N,'None => 0,','None => 1,')],ALL,'bug'),
('ng insert if let',[(N,'''    let counter = self.counts.entry(phrase).or_insert(0);
    *counter += 1;''','if let Some(c) = self.counts.get_mut(&phrase) { *c += 1; } else { self.counts.insert(phrase, 1); }')],ALL,'same'),
('ng insert and_modify',[(N,'''    let counter = self.counts.entry(phrase).or_insert(0);
    *counter += 1;''','self.counts.entry(phrase).and_modify(|c| *c += 1).or_insert(1);')],ALL,'same'),
('ng insert or_default',[(N,'''    let counter = self.counts.entry(phrase).or_insert(0);
    *counter += 1;''','*self.counts.entry(phrase).or_default() += 1;')],ALL,'same'),
('ng insert 1',[(N,'entry(phrase).or_insert(0)','entry(phrase).or_insert(1)')],ALL,'bug'),
('ng insert trim',[(N,'entry(phrase).or_insert(0)','entry(phrase.trim().to_string()).or_insert(0)')],ALL,'bug'),
('rec windows',[(N,REC,'\n    if words.len() < self.n { return; }\n    for run in words.windows(self.n) { self.insert(run.join(" ")); }')],ALL,'same'),
('rec helper',[(N,REC,'\n    if self.n > words.len() { return; }\n    let mut q = CircularQueue::with_capacity(self.n);\n    for w in words { q.push(w); self.flush(&q); }\n  }\n  fn flush(&mut self, q: &CircularQueue<&str>) {\n    if q.len() == self.n { let k: Vec<&str> = q.asc_iter().cloned().collect(); let k = k.join(" "); self.insert(k); }')],ALL,'same'),
('rec slices',[(N,REC,'\n    if self.n > words.len() { return; }\n    let mut i = 0;\n    while i + self.n <= words.len() { self.insert(words[i..i + self.n].join(" ")); i += 1; }')],ALL,'same'),
('rec foreach',[(N,REC,'\n    if self.n > words.len() { return; }\n    words.windows(self.n).map(|w| w.join(" ")).for_each(|p| self.insert(p));')],ALL,'same'),
('rec sep',[(N,'.join(" ");','.join("_");')],ALL,'bug'),
('rec le',[(N,'if words.len() < self.n {','if words.len() <= self.n {')],ALL,'bug'),
('rec iter order',[(N,'''let key = gram_window
          .asc_iter()''','''let key = gram_window
          .iter()''')],ALL,'bug'),
('rec clear',[(N,'        self.insert(key);','        self.insert(key);\n        gram_window.clear();')],ALL,'bug'),
('rec skip first',[(N,'for w in words.into_iter() {','for w in words.into_iter().skip(1) {')],ALL,'bug'),
('rec partial',[(N,'if gram_window.len() == self.n {','if gram_window.len() + 1 >= self.n {')],ALL,'bug'),
('rec lower',[(N,'gram_window.push(w);','if w.len() > 1 { gram_window.push(w); }')],ALL,'bug'),
('anch ge',[(N,'} else if justified_ahead > 0 {','} else if justified_ahead > 1 {')],ALL,'bug'),
('anch nowindow clear',[(N,'        context_window.clear();\n','')],ALL,'bug'),
('anch budget',[(N,'justified_ahead = self.window_size;','justified_ahead += self.window_size;')],ALL,'bug'),
('anch final',[(N,'    self.record_words(continuous_buffer);\n','    if justified_ahead > 0 { self.record_words(continuous_buffer); }\n')],ALL,'bug'),
('anch full',[(N,'if context_window.is_full() {','if context_window.len() == self.window_size {')],ALL,'same'),
('anch ctx push first',[(N,'if context_window.is_full() {','if !context_window.is_empty() {')],ALL,'bug'),
('anch filter',[(N,'.is_alphanumeric())','.is_alphabetic())')],ALL,'bug'),
('anch for continue',[(N,'''      .split_ascii_whitespace()
      .filter(|&w| w.chars().next().unwrap().is_alphanumeric())
    {''','''      .split_ascii_whitespace()
    {
      if !w.chars().next().map_or(false, |c| c.is_alphanumeric()) { continue; }''')],ALL,'same'),
('anch starts_with',[(N,'.filter(|&w| w.chars().next().unwrap().is_alphanumeric())','.filter(|w| w.starts_with(char::is_alphanumeric))')],ALL,'same'),
('anch case',[(N,'if w == anchor {','if w.eq_ignore_ascii_case(anchor) {')],ALL,'bug'),
('anch whitespace',[(N,'.split_ascii_whitespace()','.split_whitespace()')],ALL,'bug'),
('anch dispatch',[(N,'self.anchor.is_some() && self.window_size > 0','self.anchor.is_some() && self.window_size > 1')],ALL,'bug'),
('anch dispatch match',[(N,'self.anchor.is_some() && self.window_size > 0','matches!(self.anchor, Some(_)) && self.window_size != 0')],ALL,'same'),
]
CASES += [
('anch2 guard final',[(N,'    self.record_words(continuous_buffer);\n','    if !continuous_buffer.is_empty() { self.record_words(continuous_buffer); }\n')],ALL,'same'),
('anch2 guard reset',[(N,'self.record_words(std::mem::take(&mut continuous_buffer));','if !continuous_buffer.is_empty() { self.record_words(std::mem::take(&mut continuous_buffer)); }')],ALL,'same'),
('anch2 guard both',[(N,'self.record_words(std::mem::take(&mut continuous_buffer));','if !continuous_buffer.is_empty() { self.record_words(std::mem::take(&mut continuous_buffer)); }'),(N,'    self.record_words(continuous_buffer);\n','    if !continuous_buffer.is_empty() { self.record_words(continuous_buffer); }\n')],ALL,'same'),
('anch2 collect',[(N,'''    for w in content
      .split_ascii_whitespace()
      .filter(|&w| w.chars().next().unwrap().is_alphanumeric())
    {''','''    let words: Vec<&str> = content.split_ascii_whitespace().filter(|&w| w.chars().next().unwrap().is_alphanumeric()).collect();
    for w in words {''')],ALL,'same'),
('anch2 while let',[(N,'''    for w in content
      .split_ascii_whitespace()
      .filter(|&w| w.chars().next().unwrap().is_alphanumeric())
    {''','''    let mut words = content.split_ascii_whitespace().filter(|&w| w.chars().next().unwrap().is_alphanumeric());
    while let Some(w) = words.next() {''')],ALL,'same'),
('anch2 helper',[(N,'.filter(|&w| w.chars().next().unwrap().is_alphanumeric())','.filter(|w| is_word(w))'),(N,'/// Ngrams are dict','fn is_word(w: &str) -> bool { match w.chars().next() { Some(c) => c.is_alphanumeric(), None => false } }\n/// Ngrams are dict')],ALL,'same'),
('anch2 match',[(N,'let anchor = self.anchor.as_ref().unwrap();\n      if w == anchor {','let anchor = match self.anchor { Some(ref a) => a.as_str(), None => unreachable!() };\n      if anchor == w {')],ALL,'same'),
('anch2 ctx len',[(N,'if context_window.is_full() {','if context_window.len() >= self.window_size {')],ALL,'same'),
('anch2 anchor loop',[(N,'continuous_buffer.extend(context_window.asc_iter().copied());','for c in context_window.asc_iter() { continuous_buffer.push(*c); }')],ALL,'same'),
('anch2 new vec',[(N,'self.record_words(std::mem::take(&mut continuous_buffer));','self.record_words(continuous_buffer);\n          continuous_buffer = Vec::new();')],ALL,'same'),
('anch2 iter desc',[(N,'continuous_buffer.extend(context_window.asc_iter().copied());','continuous_buffer.extend(context_window.iter().copied());')],ALL,'bug'),
('anch2 cap',[(N,'CircularQueue::with_capacity(self.window_size)','CircularQueue::with_capacity(self.window_size + 1)')],ALL,'bug'),
('anch2 no anchor',[(N,'        continuous_buffer.push(w);\n        justified_ahead = self','        justified_ahead = self')],ALL,'bug'),
('anch2 clone not take',[(N,'std::mem::take(&mut continuous_buffer)','continuous_buffer.clone()')],ALL,'bug'),
('add_content let',[(N,'if self.anchor.is_some() && self.window_size > 0 {\n      self.add_anchored_content(content)\n    } else {','if let (Some(_), true) = (&self.anchor, self.window_size > 0) {\n      self.add_anchored_content(content);\n    } else {')],ALL,'same'),
('add_content trim',[(N,'self.add_anchored_content(content)','self.add_anchored_content(content.trim_end_matches(\'s\'))')],ALL,'bug'),
('add_content lower',[(N,'self.add_anchored_content(content)','self.add_anchored_content(&content.to_lowercase())')],ALL,'bug'),
]
