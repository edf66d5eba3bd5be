//! Reference models: how rules are read. Names of rules stand for positions, also before they are defined.
use super::*;

fn one_of<T: Clone>(name: &str, known: &[(&str, T)]) -> Result<T, String> {
  for (known_name, value) in known {
    if *known_name == name {
      return Ok(value.clone());
    }
  }
  Err(String::new())
}
pub fn children_choice(name: &str) -> Result<MathChildrenMatchType, String> {
  one_of(name, &[("starts_with", MathChildrenMatchType::StartsWith), ("exact", MathChildrenMatchType::MatchesExactly), ("ends_with", MathChildrenMatchType::EndsWith), ("arbitrary", MathChildrenMatchType::Arbitrary)])
}
pub fn descendant_choice(name: &str) -> Result<MathDescendantMatchType, String> {
  one_of(name, &[("first", MathDescendantMatchType::First), ("at_least_one", MathDescendantMatchType::AtLeastOne), ("arbitrary", MathDescendantMatchType::Arbitrary)])
}
pub fn phrase_choice(name: &str) -> Result<PhraseMatchType, String> {
  one_of(name, &[("shortest", PhraseMatchType::Shortest), ("longest", PhraseMatchType::Longest)])
}
pub fn containment(node: RoNode) -> Result<SequenceContainment, String> {
  match node.get_property("containment") {
    Some(name) => one_of(&name, &[("lessorequal", SequenceContainment::LessOrEqual), ("any", SequenceContainment::Any)]),
    None => Ok(SequenceContainment::Any),
  }
}
pub fn marker(node: RoNode) -> Result<PatternMarker, String> {
  let name = require_node_property(node, "name")?;
  let mut tags = Vec::new();
  if let Some(list) = node.get_property("tags") {
    tags = list.split(',').map(|tag| tag.trim().to_string()).collect();
  }
  Ok(PatternMarker { name, tags })
}
pub fn meta(node: RoNode, name: String) -> Result<MetaDescription, String> {
  if node.get_name() != "meta" {
    return Err(String::new());
  }
  let mut summary = None;
  for part in get_non_text_children(node)? {
    if part.get_name() != "description" {
      return Err(String::new());
    }
    check_found_property_already(&summary, "description", "meta")?;
    summary = Some(get_simple_node_content(part, true)?);
  }
  Ok(MetaDescription { name, summary: summary.unwrap_or_default() })
}

pub fn math(node: RoNode, pctx: &mut PCtx) -> Result<MathPattern, String> {
  match node.get_name().as_str() {
    "math_any" => {
      assert_no_child(node)?;
      Ok(MathPattern::AnyMath)
    },
    "math_marker" => {
      let part = MathPattern::load_from_node(get_only_child(node)?, pctx)?;
      Ok(MathPattern::Marked(Box::new(part), PatternMarker::load_from_node(node)?))
    },
    "math_ref" => {
      assert_no_child(node)?;
      Ok(MathPattern::MathRef(pctx.get_math_rule(&require_node_property(node, "ref")?)))
    },
    "math_or" => {
      let mut parts = Vec::new();
      for part in get_non_text_children(node)? {
        parts.push(MathPattern::load_from_node(part, pctx)?);
      }
      Ok(MathPattern::MathOr(parts))
    },
    "math_descendant" => {
      let choice = MathDescendantMatchType::from_str(&require_node_property(node, "match_type")?)?;
      let part = MathPattern::load_from_node(get_only_child(node)?, pctx)?;
      Ok(MathPattern::MathDescendant(Box::new(part), choice))
    },
    "math_node" => {
      let name = node.get_property("name");
      let (mut text, mut children) = (None, None);
      for part in get_non_text_children(node)? {
        let kind = part.get_name();
        if kind == "math_children" {
          if children.is_some() {
            return Err(String::new());
          }
          let choice = MathChildrenMatchType::from_str(&require_node_property(part, "match_type")?)?;
          let mut patterns = Vec::new();
          for child in get_non_text_children(part)? {
            patterns.push(MathPattern::load_from_node(child, pctx)?);
          }
          if patterns.is_empty() {
            return Err(String::new());
          }
          children = Some((patterns, choice));
        } else if kind == "mtext_ref" {
          if text.is_some() {
            return Err(String::new());
          }
          assert_no_child(part)?;
          text = Some(pctx.get_mtext_rule(&require_node_property(part, "ref")?));
        } else {
          return Err(String::new());
        }
      }
      Ok(MathPattern::MathNode(name, text, children))
    },
    _ => Err(String::new()),
  }
}

pub fn sequence(node: RoNode, pctx: &mut PCtx) -> Result<SequencePattern, String> {
  match node.get_name().as_str() {
    "seq_ref" => {
      assert_no_child(node)?;
      Ok(SequencePattern::SeqRef(pctx.get_sequence_rule(&require_node_property(node, "ref")?)))
    },
    "seq_word" => Ok(SequencePattern::SeqFromWord(WordPattern::load_from_node(get_only_child(node)?, pctx)?)),
    "seq_seq" => {
      let mut parts = Vec::new();
      for part in get_non_text_children(node)? {
        parts.push(SequencePattern::load_from_node(part, pctx)?);
      }
      Ok(SequencePattern::SeqOfSeq(parts))
    },
    "seq_marker" => {
      let part = SequencePattern::load_from_node(get_only_child(node)?, pctx)?;
      Ok(SequencePattern::Marked(Box::new(part), PatternMarker::load_from_node(node)?))
    },
    "seq_or" => {
      let choice = match node.get_property("match_type") {
        Some(name) => one_of(&name, &[("first", SequenceMatchType::First), ("atleastone", SequenceMatchType::AtLeastOne), ("any", SequenceMatchType::Any), ("longest", SequenceMatchType::Longest)])?,
        None => SequenceMatchType::First,
      };
      let mut parts = Vec::new();
      for part in get_non_text_children(node)? {
        parts.push(SequencePattern::load_from_node(part, pctx)?);
      }
      Ok(SequencePattern::SeqOr(parts, choice))
    },
    "phrase" => {
      let tag = require_node_property(node, "tag")?;
      let (mut choice, mut first, mut last) = (PhraseMatchType::Longest, None, None);
      for part in get_non_text_children(node)? {
        let kind = part.get_name();
        if kind == "match_type" {
          choice = PhraseMatchType::from_str(&get_simple_node_content(part, true)?)?;
        } else if kind == "starts_with_seq" {
          if first.is_some() {
            return Err(String::new());
          }
          let pattern = SequencePattern::load_from_node(get_only_child(part)?, pctx)?;
          first = Some((Box::new(pattern), SequenceContainment::from_node(part)?));
        } else if kind == "ends_with_seq" {
          if last.is_some() {
            return Err(String::new());
          }
          last = Some(Box::new(SequencePattern::load_from_node(get_only_child(part)?, pctx)?));
        } else {
          return Err(String::new());
        }
      }
      match pctx.phrase_map.get(tag.as_str()) {
        Some(kind) => Ok(SequencePattern::Phrase(*kind, choice, first, last)),
        None => Err(String::new()),
      }
    },
    _ => Err(String::new()),
  }
}

pub fn word(node: RoNode, pctx: &mut PCtx) -> Result<WordPattern, String> {
  match node.get_name().as_str() {
    "word_any" => Ok(WordPattern::AnyWord),
    "word" => Ok(WordPattern::Word(get_simple_node_content(node, true)?)),
    "word_ref" => {
      assert_no_child(node)?;
      Ok(WordPattern::WordRef(pctx.get_word_rule(&require_node_property(node, "ref")?)))
    },
    "word_or" => {
      let mut parts = Vec::new();
      for part in get_non_text_children(node)? {
        parts.push(WordPattern::load_from_node(part, pctx)?);
      }
      Ok(WordPattern::WordOr(parts))
    },
    "word_math" => Ok(WordPattern::MathWord(MathPattern::load_from_node(get_only_child(node)?, pctx)?)),
    "word_not" => Ok(WordPattern::WordNot(Box::new(WordPattern::load_from_node(get_only_child(node)?, pctx)?))),
    "word_marker" => {
      let part = WordPattern::load_from_node(get_only_child(node)?, pctx)?;
      Ok(WordPattern::Marked(Box::new(part), PatternMarker::load_from_node(node)?))
    },
    "word_pos" => {
      let (mut tag, mut pattern) = (None, None);
      for part in get_non_text_children(node)? {
        if part.get_name() == "pos" {
          if tag.is_some() {
            return Err(String::new());
          }
          tag = Some(PosPattern::load_from_node(get_only_child(part)?, pctx)?);
        } else {
          if pattern.is_some() {
            return Err(String::new());
          }
          pattern = Some(WordPattern::load_from_node(part, pctx)?);
        }
      }
      match (tag, pattern) {
        (Some(tag), Some(pattern)) => Ok(WordPattern::WordPos(tag, Box::new(pattern))),
        _ => Err(String::new()),
      }
    },
    _ => Err(String::new()),
  }
}

pub fn pos(node: RoNode, pctx: &mut PCtx) -> Result<PosPattern, String> {
  match node.get_name().as_str() {
    "pos" => {
      assert_no_child(node)?;
      let tag = require_node_property(node, "tag")?;
      match pctx.pos_map.get(tag.as_str()) {
        Some(pos) => Ok(PosPattern::Pos(*pos)),
        None => Err(String::new()),
      }
    },
    "pos_not" => Ok(PosPattern::PosNot(Box::new(PosPattern::load_from_node(get_only_child(node)?, pctx)?))),
    "pos_ref" => {
      assert_no_child(node)?;
      Ok(PosPattern::PosRef(pctx.get_pos_rule(&require_node_property(node, "ref")?)))
    },
    "pos_or" => {
      let mut parts = Vec::new();
      for part in get_non_text_children(node)? {
        parts.push(PosPattern::load_from_node(part, pctx)?);
      }
      Ok(PosPattern::PosOr(parts))
    },
    _ => Err(String::new()),
  }
}

pub fn mtext(node: RoNode, pctx: &mut PCtx) -> Result<MTextPattern, String> {
  match node.get_name().as_str() {
    "mtext_any" => {
      assert_no_child(node)?;
      Ok(MTextPattern::AnyMText)
    },
    "mtext_lit" => {
      assert_no_child(node)?;
      Ok(MTextPattern::MTextLit(require_node_property(node, "str")?))
    },
    "mtext_not" => Ok(MTextPattern::MTextNot(Box::new(MTextPattern::load_from_node(get_only_child(node)?, pctx)?))),
    "mtext_ref" => {
      assert_no_child(node)?;
      Ok(MTextPattern::MTextRef(pctx.get_mtext_rule(&require_node_property(node, "ref")?)))
    },
    "mtext_or" => {
      let mut parts = Vec::new();
      for part in get_non_text_children(node)? {
        parts.push(MTextPattern::load_from_node(part, pctx)?);
      }
      Ok(MTextPattern::MTextOr(parts))
    },
    _ => Err(String::new()),
  }
}

/// one pattern and at most one description
pub fn rule<P, R>(load: fn(RoNode, &mut PCtx) -> Result<P, String>, node: RoNode, pctx: &mut PCtx, _kind: &str, make: fn(P, MetaDescription) -> R) -> Result<R, String> {
  let name = require_node_property(node, "name")?;
  let (mut pattern, mut description) = (None, None);
  for part in get_non_text_children(node)? {
    if part.get_name() == "meta" {
      if description.is_some() {
        return Err(String::new());
      }
      description = Some(MetaDescription::load_from_node(part, name.clone())?);
    } else {
      if pattern.is_some() {
        return Err(String::new());
      }
      pattern = Some(load(part, pctx)?);
    }
  }
  match pattern {
    Some(pattern) => Ok(make(pattern, match description {
      Some(description) => description,
      None => MetaDescription { name, summary: String::new() },
    })),
    None => Err(String::new()),
  }
}
pub fn word_rule(node: RoNode, pctx: &mut PCtx) -> Result<WordRule, String> { rule(WordPattern::load_from_node, node, pctx, "word_rule", |pattern, description| WordRule { pattern, description }) }
pub fn pos_rule(node: RoNode, pctx: &mut PCtx) -> Result<PosRule, String> { rule(PosPattern::load_from_node, node, pctx, "pos_rule", |pattern, description| PosRule { pattern, description }) }
pub fn math_rule(node: RoNode, pctx: &mut PCtx) -> Result<MathRule, String> { rule(MathPattern::load_from_node, node, pctx, "math_rule", |pattern, description| MathRule { pattern, description }) }
pub fn mtext_rule(node: RoNode, pctx: &mut PCtx) -> Result<MTextRule, String> { rule(MTextPattern::load_from_node, node, pctx, "mtext_rule", |pattern, description| MTextRule { pattern, description }) }
pub fn sequence_rule(node: RoNode, pctx: &mut PCtx) -> Result<SequenceRule, String> { rule(SequencePattern::load_from_node, node, pctx, "seq_rule", |pattern, description| SequenceRule { pattern, description }) }

/// the position of the rule of this name; a name seen for the first time gets the next free position
pub fn position<R>(rules: &mut Vec<Option<R>>, names: &mut HashMap<String, usize>, name: &str) -> usize {
  if !names.contains_key(name) {
    names.insert(name.to_string(), rules.len());
    rules.push(None);
  }
  names[name]
}
pub fn empty<'t>() -> PCtx<'t> {
  PCtx {
    pos_map: POS::generate_str_to_pos_map(), phrase_map: Phrase::generate_str_to_phrase_map(),
    word_rules: vec![], seq_rules: vec![], math_rules: vec![], mtext_rules: vec![], pos_rules: vec![],
    word_name_map: HashMap::new(), seq_name_map: HashMap::new(), math_name_map: HashMap::new(), mtext_name_map: HashMap::new(), pos_name_map: HashMap::new(),
  }
}
pub fn position_of_math(pctx: &mut PCtx, name: &str) -> usize { get_rule_position(&mut pctx.math_rules, &mut pctx.math_name_map, name) }
pub fn position_of_mtext(pctx: &mut PCtx, name: &str) -> usize { get_rule_position(&mut pctx.mtext_rules, &mut pctx.mtext_name_map, name) }
pub fn position_of_pos(pctx: &mut PCtx, name: &str) -> usize { get_rule_position(&mut pctx.pos_rules, &mut pctx.pos_name_map, name) }
pub fn position_of_word(pctx: &mut PCtx, name: &str) -> usize { get_rule_position(&mut pctx.word_rules, &mut pctx.word_name_map, name) }
pub fn position_of_sequence(pctx: &mut PCtx, name: &str) -> usize { get_rule_position(&mut pctx.seq_rules, &mut pctx.seq_name_map, name) }

/// a rule is defined once
fn define<R>(rules: &mut [Option<R>], position: usize, rule: R) -> Result<(), String> {
  if rules[position].is_some() {
    return Err(String::new());
  }
  rules[position] = Some(rule);
  Ok(())
}
pub fn define_math(pctx: &mut PCtx, node: RoNode) -> Result<(), String> {
  let rule = MathRule::load_from_node(node, pctx)?;
  let position = pctx.get_math_rule(&rule.description.name);
  define(&mut pctx.math_rules, position, rule)
}
pub fn define_mtext(pctx: &mut PCtx, node: RoNode) -> Result<(), String> {
  let rule = MTextRule::load_from_node(node, pctx)?;
  let position = pctx.get_mtext_rule(&rule.description.name);
  define(&mut pctx.mtext_rules, position, rule)
}
pub fn define_word(pctx: &mut PCtx, node: RoNode) -> Result<(), String> {
  let rule = WordRule::load_from_node(node, pctx)?;
  let position = pctx.get_word_rule(&rule.description.name);
  define(&mut pctx.word_rules, position, rule)
}
pub fn define_pos(pctx: &mut PCtx, node: RoNode) -> Result<(), String> {
  let rule = PosRule::load_from_node(node, pctx)?;
  let position = pctx.get_pos_rule(&rule.description.name);
  define(&mut pctx.pos_rules, position, rule)
}
pub fn define_sequence(pctx: &mut PCtx, node: RoNode) -> Result<(), String> {
  let rule = SequenceRule::load_from_node(node, pctx)?;
  let position = pctx.get_sequence_rule(&rule.description.name);
  define(&mut pctx.seq_rules, position, rule)
}

/// every name that is used is defined
pub fn complete(pctx: &PCtx) -> Result<(), String> {
  fn defined<R>(names: &HashMap<String, usize>, rules: &[Option<R>]) -> bool { names.values().all(|position| rules[*position].is_some()) }
  if defined(&pctx.pos_name_map, &pctx.pos_rules) && defined(&pctx.math_name_map, &pctx.math_rules) && defined(&pctx.mtext_name_map, &pctx.mtext_rules)
    && defined(&pctx.seq_name_map, &pctx.seq_rules) && defined(&pctx.word_name_map, &pctx.word_rules) {
    Ok(())
  } else {
    Err(String::new())
  }
}

pub fn file(file_name: &str) -> Result<PatternFile, String> {
  let document = match Parser::default().parse_file(file_name) {
    Ok(document) => document,
    Err(_) => return Err(String::new()),
  };
  let root = match document.get_root_readonly() {
    Some(root) => root,
    None => return Err(String::new()),
  };
  let mut pctx = PCtx::new();
  let mut description = None;
  for part in get_non_text_children(root)? {
    match part.get_name().as_str() {
      "meta" => {
        if description.is_some() {
          return Err(String::new());
        }
        description = Some(MetaDescription::load_from_node(part, file_name.to_string())?);
      },
      "pos_rule" => pctx.add_pos_rule(part)?,
      "math_rule" => pctx.add_math_rule(part)?,
      "mtext_rule" => pctx.add_mtext_rule(part)?,
      "word_rule" => pctx.add_word_rule(part)?,
      "seq_rule" => pctx.add_sequence_rule(part)?,
      _ => return Err(String::new()),
    }
  }
  let description = match description {
    Some(description) => description,
    None => MetaDescription { name: file_name.to_string(), summary: String::new() },
  };
  pctx.verify()?;
  fn all<R: Clone>(rules: &[Option<R>]) -> Vec<R> { rules.iter().map(|rule| rule.as_ref().unwrap().clone()).collect() }
  Ok(PatternFile {
    description,
    word_rules: all(&pctx.word_rules), pos_rules: all(&pctx.pos_rules), sequence_rules: all(&pctx.seq_rules), math_rules: all(&pctx.math_rules), mtext_rules: all(&pctx.mtext_rules),
    word_rule_names: pctx.word_name_map, pos_rule_names: pctx.pos_name_map, sequence_rule_names: pctx.seq_name_map, math_rule_names: pctx.math_name_map, mtext_rule_names: pctx.mtext_name_map,
  })
}
