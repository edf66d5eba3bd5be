//! Reference models for the lexeme text of formulas.
use super::*;

/// The lexeme annotations below the node, in document order, one space between any two lexemes.
pub fn lexemes(node: RoNode, context: &mut Context) -> String {
  let found = context
    .node_evaluate_readonly(
      ".//*[local-name()='annotation' and @encoding='application/x-llamapun']",
      node,
    )
    .unwrap()
    .get_readonly_nodes_as_vec();
  let mut parts: Vec<String> = Vec::new();
  for a in found {
    let raw = a.get_content();
    // undo the missing space after an ":end" marker, then separate start and end markers
    let spaced = LEXEME_END_MARKER.replace_all(&raw, " $1 ").to_string();
    let spaced = spaced.replace(":end", ":end ").replace(":start", ":start ");
    let mut words: Vec<String> = Vec::new();
    for w in spaced.split_whitespace() {
      words.push(lexeme(w));
    }
    parts.push(words.join(" "));
  }
  let text = parts.join(" ");
  if text.is_empty() {
    "mathformula".to_string()
  } else {
    text
  }
}
/// literals are reduced to their kind; elsewhere ':' and '-' become '_'
fn lexeme(w: &str) -> String {
  if w.starts_with("NUM") {
    return "NUM".to_string();
  }
  if w.starts_with("ARRAY") {
    return "ARRAY".to_string();
  }
  if w.starts_with("ATOM") {
    return "ATOM".to_string();
  }
  if w.starts_with("SUPERSCRIPTOP") {
    return "SUPERSCRIPTOP".to_string();
  }
  w.chars()
    .map(|c| match c {
      ':' | '-' => '_',
      '\n' => ' ',
      _ => c,
    })
    .collect()
}
pub fn lexemes_no_newline(node: RoNode, context: &mut Context) -> String {
  let found = context
    .node_evaluate_readonly(
      ".//*[local-name()='annotation' and @encoding='application/x-llamapun']",
      node,
    )
    .unwrap()
    .get_readonly_nodes_as_vec();
  let mut parts: Vec<String> = Vec::new();
  for a in found {
    let raw = a.get_content();
    let spaced = LEXEME_END_MARKER.replace_all(&raw, " $1 ").to_string();
    let spaced = spaced.replace(":end", ":end ").replace(":start", ":start ");
    let mut words: Vec<String> = Vec::new();
    for w in spaced.split_whitespace() {
      words.push(lexeme_no_newline(w));
    }
    parts.push(words.join(" "));
  }
  let text = parts.join(" ");
  if text.is_empty() {
    "mathformula".to_string()
  } else {
    text
  }
}
fn lexeme_no_newline(w: &str) -> String {
  if w.starts_with("NUM") {
    return "NUM".to_string();
  }
  if w.starts_with("ARRAY") {
    return "ARRAY".to_string();
  }
  if w.starts_with("ATOM") {
    return "ATOM".to_string();
  }
  if w.starts_with("SUPERSCRIPTOP") {
    return "SUPERSCRIPTOP".to_string();
  }
  w.chars()
    .map(|c| if c == ':' || c == '-' { '_' } else { c })
    .collect()
}
