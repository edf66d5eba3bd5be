//! Reference models for n-gram counting (type-checked next to the real code, never executed).
use super::*;

/// Every run of n consecutive words is counted once, as its words joined by single spaces.
/// Three ways of walking over the runs are accepted.
pub fn record_words_queue(g: &mut Ngrams, words: Vec<&str>) {
  if words.len() < g.n {
    return;
  }
  let mut window = CircularQueue::with_capacity(g.n);
  for w in words {
    window.push(w);
    if window.is_full() {
      let phrase: Vec<&str> = window.asc_iter().copied().collect();
      g.insert(phrase.join(" "));
    }
  }
}
pub fn record_words_queue_plain(g: &mut Ngrams, words: Vec<&str>) {
  let mut window = CircularQueue::with_capacity(g.n);
  for w in words {
    window.push(w);
    if window.is_full() {
      let phrase: Vec<&str> = window.asc_iter().copied().collect();
      g.insert(phrase.join(" "));
    }
  }
}
pub fn record_words_windows(g: &mut Ngrams, words: Vec<&str>) {
  for run in words.windows(g.n) {
    g.insert(run.join(" "));
  }
}
pub fn record_words_windows_guard(g: &mut Ngrams, words: Vec<&str>) {
  if words.len() < g.n {
    return;
  }
  for run in words.windows(g.n) {
    g.insert(run.join(" "));
  }
}
pub fn record_words_slices(g: &mut Ngrams, words: Vec<&str>) {
  if words.len() < g.n {
    return;
  }
  for i in 0..=words.len() - g.n {
    g.insert(words[i..i + g.n].join(" "));
  }
}
pub fn record_words_slices_excl(g: &mut Ngrams, words: Vec<&str>) {
  if words.len() < g.n {
    return;
  }
  for end in g.n..words.len() + 1 {
    g.insert(words[end - g.n..end].join(" "));
  }
}

/// A word takes part iff an anchor occurs at most `window_size` words before or after it; every
/// maximal run of such words is counted on its own.
pub fn anchored(g: &mut Ngrams, content: &str) {
  let mut run: Vec<&str> = Vec::new();
  let mut waiting = CircularQueue::with_capacity(g.window_size);
  let mut ahead = 0;
  for w in content.split_ascii_whitespace() {
    if !w.chars().next().unwrap().is_alphanumeric() {
      continue;
    }
    if w == g.anchor.as_ref().unwrap() {
      for x in waiting.asc_iter() {
        run.push(*x);
      }
      waiting.clear();
      run.push(w);
      ahead = g.window_size;
    } else if ahead > 0 {
      ahead -= 1;
      run.push(w);
    } else {
      if waiting.is_full() {
        g.record_words(run);
        run = Vec::new();
      }
      waiting.push(w);
    }
  }
  g.record_words(run);
}

