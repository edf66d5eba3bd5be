F='tokenizer.rs'
W=['P20']; S=['P21']
LW="""              left_window = VecDeque::with_capacity(window_size);
              // New sentence
              sentences.push(DNMRange { start, end, dnm }.trim());
              start = end;
            } else {
              // Regular"""
CASES=[
 ('window-13',[(F,'let window_size = 12;','let window_size = 13;')],S,'bug'),
 ('qmark-bounded',[(F,'if !is_bounded(left_window.back()','if is_bounded(left_window.back()')],S,'bug'),
 ('qmark-noreset',[(F,"""            // Reset the left window
            left_window = VecDeque::with_capacity(window_size);
            // New sentence
            sentences.push(DNMRange { start, end, dnm }.trim());
            start = end;
          }
        },
        // TODO:""","""            sentences.push(DNMRange { start, end, dnm }.trim());
            start = end;
          }
        },
        // TODO:""")],S,'bug'),
 ('stop-lc',[(F,'self.stopwords.contains(next_word_lc.as_str())','self.stopwords.contains(next_word_string.as_str())')],S,'bug'),
 ('abbr-neg',[(F,'if self.abbreviation_check(&left_window) {','if !self.abbreviation_check(&left_window) {')],S,'bug'),
 ('abbr-I',[(F,'(lw_word != "I")','(lw_word != "i")')],S,'bug'),
 ('abbr-notrim',[(F,"lw_str.trim().split","lw_str.split")],S,'bug'),
 ('abbr-first',[(F,"is_alphabetic()).last()","is_alphabetic()).next()")],S,'bug'),
 ('upper-all',[(F,"    if char.is_uppercase() {\n      detected = true;\n      break;","    if char.is_uppercase() {\n      detected = true;\n    } else {\n      break;")],S,'bug'),
 ('next-19',[(F,'next_word_length < 20','next_word_length < 19')],S,'bug'),
 ('next-lt-swap',[(F,'next_word_length < 20','20 > next_word_length')],S,'same'),
 ('mf-contains',[(F,'next_word_string.to_lowercase().starts_with("mathformula")','next_word_string.to_lowercase().contains("mathformula")')],S,'bug'),
 ('mf-nolc',[(F,'next_word_string.to_lowercase().starts_with("mathformula")','next_word_string.starts_with("mathformula")')],S,'bug'),
 ('nl-upper',[(F,'next_word_string.chars().next().unwrap().is_lowercase()','!next_word_string.chars().next().unwrap().is_uppercase()')],S,'bug'),
 ('nl-order',[(F,"""next_word_string.is_empty()
              || next_word_string.starts_with("mathformula")""","""next_word_string.starts_with("mathformula") || next_word_string.is_empty()
             """)],S,'same'),
 ('cap-end',[(F,"end: end - 1,\n                  dnm","end,\n                  dnm")],S,'bug'),
 ('cap-start',[(F,"start = end - 1;","start = end;")],S,'bug'),
 ('paren-no',[(F,"Some(&'*') | Some(&'\"') | Some(&'(')","Some(&'*') | Some(&'\"')")],S,'bug'),
 ('colon-alpha',[(F,"sentence_char == '.' && c.is_alphabetic()","c.is_alphabetic()")],S,'bug'),
 ('min-bytes',[(F,"end = cmp::min(end, text.chars().count());","end = cmp::min(end, text.len());")],S,'bug'),
 ('min-if',[(F,"end = cmp::min(end, text.chars().count());","let total = text.chars().count();\n    if end > total {\n      end = total;\n    }")],S,'same'),
 ('filter-le',[(F,"range.start < range.end","range.start <= range.end")],S,'bug'),
 ('filter-ne',[(F,"range.start < range.end","range.end > range.start")],S,'same'),
 ('last-numeric',[(F,"find(char::is_alphabetic).is_some()","find(char::is_alphanumeric).is_some()")],S,'bug'),
 ('last-any',[(F,"last_left_window.find(char::is_alphabetic).is_some()","last_left_window.chars().any(|c| c.is_alphabetic())")],S,'same'),
 ('last-contains',[(F,"last_left_window.find(char::is_alphabetic).is_some()","last_left_window.contains(char::is_alphabetic)")],S,'same'),
 ('no-end-skip',[(F,"""            text_iterator.next();
            end += 1;
          }
          if text_iterator.peek().is_none() {
            break;
          }
          // Uppercase""","""            text_iterator.next();
          }
          if text_iterator.peek().is_none() {
            break;
          }
          // Uppercase""")],S,'bug'),
 ('helper-push',[(F,"""          left_window.push_back(other_char);
          if left_window.len() >= window_size {
            left_window.pop_front();
          }
        },
      }""","""          push_window(&mut left_window, other_char, window_size);
        },
      }"""),(F,"/// checks whether two","""fn push_window(w: &mut VecDeque<char>, c: char, size: usize) {
  w.push_back(c);
  if w.len() >= size {
    w.pop_front();
  }
}
/// checks whether two""")],S,'same'),
 ('clear-window',[(F,"left_window = VecDeque::with_capacity(window_size);","left_window.clear();")],S,'same'),
 ('len-not-add',[(F,"            end += next_word_length;\n          } else {\n            // lowercase","          } else {\n            // lowercase")],S,'bug'),
 ('bounded-match',[(F,"      | [Some(&'{'), Some(&'}')]\n","")],S,'bug'),
 ('words-apos',[(F,"peeked == &'s'","peeked == &'t'")],W,'bug'),
 ('words-apos2',[(F,"c == '\\'' || c == '’' {\n          if let","c == '\\'' {\n          if let")],W,'bug'),
 ('words-if',[(F,"""          if let Some(peeked) = text_iterator.peek() {
            if peeked == &'s' {
              continue;
            }
          }""","""          if text_iterator.peek() == Some(&'s') {
            continue;
          }""")],W,'same'),
 ('words-lt',[(F,"if start < end - 1 {","if start + 1 < end {")],W,'same'),
 ('words-tail',[(F,"""    if start < end {
      result.push(sentence_range.get_subrange(start, end));
    }
    result""","    result")],W,'bug'),
 ('words-alpha',[(F,"if !c.is_alphanumeric() {\n        if","if !c.is_alphabetic() {\n        if")],W,'bug'),
 ('punct-list',[(F,'"t" | "s" | "un"','"t" | "s"')],W,'bug'),
 ('punct-flag',[(F,"          apostrophe_flag = false;\n","")],W,'bug'),
 ('punct-ws',[(F,"          end += 1;\n          start = end;\n        }","          start = end;\n          end += 1;\n        }")],W,'bug'),
 ('punct-final',[(F,"    complete_word!();\n    result","    result")],W,'bug'),
 ('punct-lone',[(F,"          if start < end {\n            result.push(range.get_subrange(start, end));\n          }","          result.push(range.get_subrange(start, end));")],W,'bug'),
 ('punct-elseif',[(F,"""        else {
          end += 1;
          if c == '\\'' || c == '’' {
            apostrophe_flag = true;
          } else {
            // standalone char word case
            complete_word!();
          }
        }""","""        else if c == '\\'' || c == '’' {
          end += 1;
          apostrophe_flag = true;
        } else {
          end += 1;
          complete_word!();
        }""")],W,'same'),
]
