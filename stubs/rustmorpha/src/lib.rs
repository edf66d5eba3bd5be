//! Stand-in for rustmorpha (git-only upstream): lower-cases, then strips a plural 's' once.
pub fn stem(s: &str) -> String {
  s.to_lowercase()
    .split(' ')
    .map(|w| match w { "are" | "is" => "be".to_string(), w if w.len() > 3 && w.ends_with('s') => w[..w.len()-1].to_string(), w => w.to_string() })
    .collect::<Vec<_>>()
    .join(" ")
}
pub fn full_stem(s: &str) -> String {
  let mut cur = s.to_string();
  loop {
    let next = stem(&cur);
    if next == cur { return next; }
    cur = next;
  }
}
pub fn close() {}
