//! Reference models: what a pattern matches. The functions of the module stand for the matching of sub-patterns.
use super::*;

pub fn markers<'t>(m: &'t Match<'t>) -> Vec<MarkerEnum<'t>> {
  let mut all = vec![m.marker.clone()];
  for part in &m.sub_matches {
    all.extend(part.get_marker_list());
  }
  all
}

/// from the first to the last word below the node; words themselves have no tree
pub fn tree(node: &PSGNode) -> Result<PhraseTree, usize> {
  let content = match node {
    PSGNode::Leaf(word) => return Err(*word),
    PSGNode::Parent(content) => content,
  };
  let (mut start, mut end, mut children) = (None, 0, Vec::new());
  for child in content.get_children() {
    let (from, to) = match PhraseTree::from_psg(child) {
      Ok(part) => {
        let ends = (part.start, part.end);
        children.push(part);
        ends
      },
      Err(word) => (word, word),
    };
    if start.is_none() {
      start = Some(from);
    }
    end = to;
  }
  Ok(PhraseTree { phrase: content.get_label(), start: start.unwrap_or(0), end, children })
}

/// the ends (behind the last word) of the phrases of the kind that start at the word, the innermost ones first
pub fn phrase_ends(root: &PhraseTree, word: usize, kind: Phrase) -> Vec<usize> {
  if root.start > word {
    return Vec::new();
  }
  if root.start < word {
    return match root.children.iter().find(|child| child.start <= word && word <= child.end) {
      Some(child) => get_phrase_matches(child, word, kind),
      None => Vec::new(),
    };
  }
  let mut ends = Vec::new();
  if let Some(first) = root.children.first() {
    ends = get_phrase_matches(first, word, kind);
  }
  if root.phrase == kind {
    ends.push(root.end + 1);
  }
  ends
}

/// the matches of the rule at every word of the sentence, in order
pub fn sentence_matches<'t>(pf: &PatternFile, sentence: &Sentence, range: &'t DNMRange, name: &str) -> Result<Vec<Match<'t>>, String> {
  let number = match pf.sequence_rule_names.get(name) {
    Some(number) => *number,
    None => return Err(String::new()),
  };
  let pattern = &pf.sequence_rules[number].pattern;
  let words = sentence.get_words().len();
  let root = match sentence.get_psgroot() {
    Some(root) => root,
    None => return Err(String::new()),
  };
  let phrases = match PhraseTree::from_psg(root) {
    Ok(phrases) => phrases,
    Err(_) => return Err(String::new()),
  };
  let mut all = Vec::new();
  for word in 0..words {
    all.extend(match_seq(pf, pattern, sentence, &phrases, range, word)._matches);
  }
  Ok(all)
}

fn seq<'t>(matches: Vec<Match<'t>>, end: usize) -> InternalSeqMatch<'t> { InternalSeqMatch { _matches: matches, end, matched: true } }
fn no_seq<'t>() -> InternalSeqMatch<'t> { InternalSeqMatch { _matches: Vec::new(), end: 0, matched: false } }

pub fn sequence<'t>(pf: &PatternFile, rule: &SequencePattern, sentence: &Sentence, tree: &PhraseTree, range: &'t DNMRange, pos: usize) -> InternalSeqMatch<'t> {
  let at = |rule: &SequencePattern, pos: usize| match_seq(pf, rule, sentence, tree, range, pos);
  match rule {
    SequencePattern::SeqRef(number) => at(&pf.sequence_rules[*number].pattern, pos),
    SequencePattern::SeqFromWord(word) => {
      let words = sentence.get_words();
      if pos >= words.len() {
        return no_seq();
      }
      let m = match_word(pf, word, &words[pos], range);
      if m.matched { seq(m._matches, pos + 1) } else { no_seq() }
    },
    SequencePattern::SeqOfSeq(parts) => {
      let (mut all, mut next) = (Vec::new(), pos);
      for part in parts {
        let m = at(part, next);
        if !m.matched {
          return no_seq();
        }
        next = m.end;
        all.extend(m._matches);
      }
      seq(all, next)
    },
    SequencePattern::Phrase(kind, choice, first, last) => {
      let mut ends = get_phrase_matches(tree, pos, *kind);
      if *choice == PhraseMatchType::Longest {
        ends.reverse();
      }
      for end in ends {
        let mut all = Vec::new();
        if let Some((first, containment)) = first {
          let m = at(first, pos);
          if !m.matched || (*containment == SequenceContainment::LessOrEqual && m.end > end) {
            continue;
          }
          all = m._matches;
        }
        if let Some(last) = last {
          let mut found = false;
          for start in pos..end {
            let m = at(last, start);
            if m.matched && m.end == end {
              all.extend(m._matches);
              found = true;
              break;
            }
          }
          if !found {
            continue;
          }
        }
        return seq(all, end);
      }
      no_seq()
    },
    SequencePattern::Marked(part, marker) => {
      let m = at(part, pos);
      if !m.matched {
        return no_seq();
      }
      let words = sentence.get_words();
      let marked = if m.end > pos {
        range.get_subrange_from_byte_offsets(words[pos].get_offset_start(), words[m.end - 1].get_offset_end())
      } else {
        // nothing is marked, before the word or at the end
        let place = if pos < words.len() {
          range.get_subrange_from_byte_offsets(words[pos].get_offset_start(), words[pos].get_offset_end()).start
        } else {
          range.end
        };
        DNMRange { start: place, end: place, dnm: range.dnm }
      };
      let marker = MarkerEnum::Text(TextMarker { range: marked, marker: marker.clone() });
      seq(vec![Match { marker, sub_matches: m._matches }], m.end)
    },
    SequencePattern::SeqOr(parts, choice) => {
      let (mut all, mut end, mut any) = (Vec::new(), pos, false);
      for part in parts {
        let m = at(part, pos);
        if !m.matched {
          continue;
        }
        any = true;
        let longer = m.end > end;
        if longer {
          end = m.end;
        }
        if *choice == SequenceMatchType::First {
          all = m._matches;
          break;
        } else if *choice == SequenceMatchType::Longest {
          if longer {
            all = m._matches;
          }
        } else {
          all.extend(m._matches);
        }
      }
      if any || *choice == SequenceMatchType::Any { seq(all, end) } else { no_seq() }
    },
  }
}

fn found<'t>(matches: Vec<Match<'t>>) -> InternalWordMatch<'t> { InternalWordMatch { _matches: matches, matched: true } }
fn not_found<'t>() -> InternalWordMatch<'t> { InternalWordMatch { _matches: Vec::new(), matched: false } }

pub fn word<'t>(pf: &PatternFile, rule: &WordPattern, word: &Word, range: &'t DNMRange) -> InternalWordMatch<'t> {
  match rule {
    WordPattern::AnyWord => found(Vec::new()),
    WordPattern::WordRef(number) => match_word(pf, &pf.word_rules[*number].pattern, word, range),
    WordPattern::Word(text) => if text == word.get_string() { found(Vec::new()) } else { not_found() },
    WordPattern::WordNot(part) => if match_word(pf, part, word, range).matched { not_found() } else { found(Vec::new()) },
    WordPattern::WordOr(parts) => {
      for part in parts {
        let m = match_word(pf, part, word, range);
        if m.matched {
          return m;
        }
      }
      not_found()
    },
    WordPattern::WordPos(tag, part) => if match_pos(pf, tag, word.get_pos()) { match_word(pf, part, word, range) } else { not_found() },
    WordPattern::MathWord(math) => {
      let node = range.get_subrange_from_byte_offsets(word.get_offset_start(), word.get_offset_end()).get_node();
      if node.get_name() != "math" {
        return not_found();
      }
      // the formula without its annotations
      let mut formula = match fast_get_non_text_children(node).first() {
        Some(first) => *first,
        None => return not_found(),
      };
      if formula.get_name() == "semantics" {
        formula = match fast_get_non_text_children(formula).first() {
          Some(first) => *first,
          None => return not_found(),
        };
      }
      let m = match_math(pf, math, formula);
      if m.matched { found(m._matches) } else { not_found() }
    },
    WordPattern::Marked(part, marker) => {
      let m = match_word(pf, part, word, range);
      if !m.matched {
        return not_found();
      }
      let marked = range.get_subrange_from_byte_offsets(word.get_offset_start(), word.get_offset_end());
      found(vec![Match { marker: MarkerEnum::Text(TextMarker { range: marked, marker: marker.clone() }), sub_matches: m._matches }])
    },
  }
}

fn math_found<'t>(matches: Vec<Match<'t>>) -> InternalMathMatch<'t> { InternalMathMatch { _matches: matches, matched: true } }
fn no_math<'t>() -> InternalMathMatch<'t> { InternalMathMatch { _matches: Vec::new(), matched: false } }

pub fn math<'t>(pf: &PatternFile, rule: &MathPattern, node: RoNode) -> InternalMathMatch<'t> {
  match rule {
    MathPattern::AnyMath => math_found(Vec::new()),
    MathPattern::MathRef(number) => match_math(pf, &pf.math_rules[*number].pattern, node),
    MathPattern::Marked(part, marker) => {
      let m = match_math(pf, part, node);
      if !m.matched {
        return no_math();
      }
      math_found(vec![Match { marker: MarkerEnum::Math(MathMarker { node, marker: marker.clone() }), sub_matches: m._matches }])
    },
    MathPattern::MathOr(parts) => {
      for part in parts {
        let m = match_math(pf, part, node);
        if m.matched {
          return m;
        }
      }
      no_math()
    },
    MathPattern::MathNode(name, text, children) => {
      if let Some(name) = name {
        if *name != node.get_name() {
          return no_math();
        }
      }
      if let Some(number) = text {
        match get_simple_node_content(node, false) {
          Err(_) => return no_math(),
          Ok(content) => if !match_mtext(pf, &pf.mtext_rules[*number].pattern, &content) {
            return no_math();
          },
        }
      }
      let (parts, place) = match children {
        Some((parts, place)) => (parts, place),
        None => return math_found(Vec::new()),
      };
      let nodes = fast_get_non_text_children(node);
      if nodes.len() < parts.len() || *place == MathChildrenMatchType::MatchesExactly && nodes.len() > parts.len() {
        return no_math();
      }
      let mut start = if *place == MathChildrenMatchType::EndsWith { nodes.len() - parts.len() } else { 0 };
      loop {
        let (mut all, mut matched) = (Vec::new(), true);
        for i in 0..parts.len() {
          let m = match_math(pf, &parts[i], nodes[start + i]);
          if !m.matched {
            matched = false;
            break;
          }
          all.extend(m._matches);
        }
        if matched {
          return math_found(all);
        }
        if *place != MathChildrenMatchType::Arbitrary {
          return no_math();
        }
        start += 1;
        if start + parts.len() > nodes.len() {
          return no_math();
        }
      }
    },
    MathPattern::MathDescendant(part, choice) => {
      // the node itself, then its descendants in document order
      let m = match_math(pf, part, node);
      let (mut all, mut matched) = (Vec::new(), m.matched);
      if m.matched {
        all = m._matches;
      }
      for child in fast_get_non_text_children(node) {
        if matched && *choice == MathDescendantMatchType::First {
          break;
        }
        let m = match_math(pf, rule, child);
        if m.matched {
          matched = true;
          all.extend(m._matches);
        }
      }
      if matched || *choice == MathDescendantMatchType::Arbitrary { math_found(all) } else { no_math() }
    },
  }
}

pub fn mtext(pf: &PatternFile, rule: &MTextPattern, string: &str) -> bool {
  match rule {
    MTextPattern::AnyMText => true,
    MTextPattern::MTextLit(text) => text == string,
    MTextPattern::MTextNot(part) => !match_mtext(pf, part, string),
    MTextPattern::MTextOr(parts) => parts.iter().any(|part| match_mtext(pf, part, string)),
    MTextPattern::MTextRef(number) => match_mtext(pf, &pf.mtext_rules[*number].pattern, string),
  }
}

pub fn tag(pf: &PatternFile, rule: &PosPattern, tag: POS) -> bool {
  match rule {
    PosPattern::Pos(wanted) => *wanted == tag,
    PosPattern::PosNot(part) => !match_pos(pf, part, tag),
    PosPattern::PosOr(parts) => parts.iter().any(|part| match_pos(pf, part, tag)),
    PosPattern::PosRef(number) => match_pos(pf, &pf.pos_rules[*number].pattern, tag),
  }
}
