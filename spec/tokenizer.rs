//! Reference models for sentence and word segmentation.
use super::*;

const WINDOW: usize = 12;

fn remember(window: &mut VecDeque<char>, c: char) {
  window.push_back(c);
  if window.len() >= WINDOW {
    window.pop_front();
  }
}
fn remember_word(window: &mut VecDeque<char>, word: &str) {
  for c in word.chars() {
    remember(window, c);
  }
}
/// close the sentence here, the next one starts where it ends
fn close<'a>(out: &mut Vec<DNMRange<'a>>, start: &mut usize, end: usize, dnm: &'a DNM, window: &mut VecDeque<char>) {
  *window = VecDeque::with_capacity(WINDOW);
  out.push(DNMRange { start: *start, end, dnm }.trim());
  *start = end;
}

/// breaks: before a word with a capital after '.' or ':' unless an abbreviation precedes it (always
/// before a stop word); before '*', '"' and '('; before a formula after '.'; after '?' and '!' unless
/// within brackets or quotes; at an empty line before a capitalised word; before a capital letter
/// after a formula.  Positions count characters.
pub fn sentences<'a>(t: &Tokenizer, dnm: &'a DNM) -> Vec<DNMRange<'a>> {
  let mut out: Vec<DNMRange<'a>> = Vec::new();
  let mut text = dnm.plaintext.chars().peekable();
  let mut start = 0;
  let mut end = 0;
  let mut window: VecDeque<char> = VecDeque::with_capacity(WINDOW);

  while let Some(c) = text.next() {
    end += 1;
    if c == '.' || c == ':' {
      while text.peek().unwrap_or(&'.').is_whitespace() || text.peek() == Some(&'\'') {
        text.next();
        end += 1;
      }
      if text.peek().is_none() {
        break;
      }
      if wordlike_with_upper_next(text.clone()) {
        let (word, length) = next_word_with_length(&mut text);
        if t.stopwords.contains(word.to_lowercase().as_str()) {
          close(&mut out, &mut start, end, dnm, &mut window);
        } else {
          if t.abbreviation_check(&window) {
            remember(&mut window, '.');
          } else {
            close(&mut out, &mut start, end, dnm, &mut window);
          }
          remember_word(&mut window, &word);
        }
        end += length;
      } else {
        match text.peek() {
          None => remember(&mut window, '.'),
          Some(&'*') | Some(&'"') | Some(&'(') => close(&mut out, &mut start, end, dnm, &mut window),
          Some(&next) => {
            if c == '.' && next.is_alphabetic() {
              let (word, length) = next_word_with_length(&mut text);
              if word.to_lowercase().starts_with("mathformula") && !t.abbreviation_check(&window) {
                close(&mut out, &mut start, end, dnm, &mut window);
              } else {
                remember(&mut window, '.');
              }
              remember_word(&mut window, &word);
              end += length;
            } else {
              remember(&mut window, '.');
            }
          },
        }
      }
    } else if c == '?' || c == '!' {
      if !is_bounded(window.back(), text.peek()) {
        close(&mut out, &mut start, end, dnm, &mut window);
      }
    } else if c == '\n' {
      if let Some(&'\n') = text.peek() {
        while text.peek().unwrap_or(&'.').is_whitespace() {
          text.next();
          end += 1;
        }
        if text.peek().is_none() {
          break;
        }
        let (word, length) = next_word_with_length(&mut text);
        if word.is_empty() || word.starts_with("mathformula") || word.chars().next().unwrap().is_lowercase() {
          remember_word(&mut window, &word);
        } else {
          close(&mut out, &mut start, end, dnm, &mut window);
        }
        end += length;
      }
    } else {
      if c.is_uppercase() {
        let before: String = window.iter().collect();
        if before.starts_with("mathformula") {
          close(&mut out, &mut start, end - 1, dnm, &mut window);
        }
      }
      remember(&mut window, c);
    }
  }

  end = cmp::min(end, dnm.plaintext.chars().count());
  let rest: String = window.into_iter().collect();
  if rest.find(char::is_alphabetic).is_some() {
    out.push(DNMRange { start, end, dnm }.trim());
  }
  out.into_iter().filter(|range| range.start < range.end).collect()
}

/// some upper-case character within the alphabetic run ahead
pub fn capital_ahead(text: Peekable<Chars>) -> bool {
  let mut found = false;
  for c in text {
    if !c.is_alphabetic() {
      break;
    }
    if c.is_uppercase() {
      found = true;
      break;
    }
  }
  found
}
/// at most twenty alphabetic characters, and how many
pub fn word_ahead(text: &mut Peekable<Chars>) -> (String, usize) {
  let mut length = 0;
  let mut word = Vec::new();
  while length < 20 && text.peek().unwrap_or(&'.').is_alphabetic() {
    word.push(text.next().unwrap());
    length += 1;
  }
  (word.into_iter().collect(), length)
}
pub fn word_ahead_string(text: &mut Peekable<Chars>) -> (String, usize) {
  let mut length = 0;
  let mut word = String::new();
  while length < 20 && text.peek().unwrap_or(&'.').is_alphabetic() {
    word.push(text.next().unwrap());
    length += 1;
  }
  (word, length)
}
pub fn bounded<'a>(left: Option<&'a char>, right: Option<&'a char>) -> bool {
  match (left, right) {
    (Some('['), Some(']')) => true,
    (Some('('), Some(')')) => true,
    (Some('{'), Some('}')) => true,
    (Some('\''), Some('\'')) => true,
    (Some('"'), Some('"')) => true,
    _ => false,
  }
}
/// the last alphabetic run is a single letter other than "I", or a known abbreviation
pub fn abbreviation(t: &Tokenizer, window: &VecDeque<char>) -> bool {
  let text: String = window.iter().collect();
  let word = match text.trim().split(|c: char| !c.is_alphabetic()).last() {
    Some(word) => word,
    None => text.as_str(),
  };
  (word.len() == 1 && word != "I") || t.abbreviations.is_match(word)
}

/// maximal alphanumeric runs, together with "'s"
pub fn words<'b>(_t: &'b Tokenizer, sentence: &DNMRange<'b>) -> Vec<DNMRange<'b>> {
  let mut text = sentence.get_plaintext().chars().peekable();
  let mut start = 0usize;
  let mut end = 0usize;
  let mut out = Vec::new();
  while let Some(c) = text.next() {
    end += 1;
    if !c.is_alphanumeric() {
      if (c == '\'' || c == '’') && text.peek() == Some(&'s') {
        continue;
      }
      if start < end - 1 {
        out.push(sentence.get_subrange(start, end - 1));
      }
      start = end;
    }
  }
  if start < end {
    out.push(sentence.get_subrange(start, end));
  }
  out
}

/// words, and every other character that is no white space on its own; an apostrophe stays with the
/// listed endings
fn complete<'b>(range: &DNMRange<'b>, out: &mut Vec<DNMRange<'b>>, start: &mut usize, end: usize, apostrophe: &mut bool) {
  if *start < end {
    if *apostrophe {
      match range.get_subrange(*start + 1, end).get_plaintext() {
        "t" | "s" | "un" | "th" | "ll" | "d" | "ve" | "il" | "re" | "m" => {},
        _ => {
          out.push(range.get_subrange(*start, *start + 1));
          *start += 1;
        },
      }
    }
    if *start < end {
      out.push(range.get_subrange(*start, end));
    }
    *apostrophe = false;
    *start = end;
  }
}
pub fn words_and_marks<'b>(_t: &'b Tokenizer, range: &DNMRange<'b>) -> Vec<DNMRange<'b>> {
  let mut start = 0usize;
  let mut end = 0usize;
  let mut out = Vec::new();
  let mut apostrophe = false;
  for c in range.get_plaintext().chars() {
    if c.is_alphanumeric() {
      end += 1;
    } else {
      complete(range, &mut out, &mut start, end, &mut apostrophe);
      end += 1;
      if c.is_whitespace() {
        start = end;
      } else if c == '\'' || c == '’' {
        apostrophe = true;
      } else {
        complete(range, &mut out, &mut start, end, &mut apostrophe);
      }
    }
  }
  complete(range, &mut out, &mut start, end, &mut apostrophe);
  out
}
