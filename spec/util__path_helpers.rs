//! Reference model: the words of a document, one line per sentence.
use super::*;

/// paragraphs with an overlong word are left out as a whole
pub fn document_words(path: String) -> String {
  let corpus = Corpus::default();
  let mut document = match Document::new(path, &corpus) {
    Ok(document) => document,
    Err(_) => return String::new(),
  };
  let mut context = Context::new(&document.dom).unwrap();
  let mut out = String::new();
  for mut paragraph in document.paragraph_iter() {
    let mut lines = String::new();
    let mut complete = true;
    'paragraph: for mut sentence in paragraph.iter() {
      let mut line = String::new();
      for word in sentence.simple_iter() {
        if word.range.is_empty() {
          continue;
        }
        if let Ok(text) = data_helpers::ams_normalize_word_range(&word.range, &mut context, LexicalOptions::default()) {
          line.push_str(&text);
          line.push(' ');
        } else {
          complete = false;
          break 'paragraph;
        }
      }
      if !line.is_empty() {
        lines.push_str(&line);
        lines.push('\n');
      }
    }
    if complete {
      out.push_str(&lines);
    }
  }
  out
}
