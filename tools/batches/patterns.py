R='patterns/rules.rs'; M='patterns/matching.rs'
CASES=[
# loading
('name-swap',[(R,'"starts_with" => Ok(MathChildrenMatchType::StartsWith)','"starts_with" => Ok(MathChildrenMatchType::EndsWith)')],['P31'],'bug'),
('unknown-default',[(R,'other => Err(format!("Unknon match_type for math_descendant \\"{other}\\"")),','_ => Ok(MathDescendantMatchType::Arbitrary),')],['P31'],'bug'),
('containment-default',[(R,'None => Ok(SequenceContainment::Any)','None => Ok(SequenceContainment::LessOrEqual)')],['P31'],'bug'),
('tags-untrimmed',[(R,'s.trim().to_string()','s.to_string()')],['P31'],'bug'),
('math-any-child',[(R,'      "math_any" => {\n        assert_no_child(node)?;','      "math_any" => {')],['P31'],'bug'),
('or-reverse',[(R,'''          options.push(WordPattern::load_from_node(cur, pctx)?);
        }
        Ok(WordPattern::WordOr(options))''','''          options.insert(0, WordPattern::load_from_node(cur, pctx)?);
        }
        Ok(WordPattern::WordOr(options))''')],['P31'],'bug'),
('or-skip-err',[(R,'''          options.push(PosPattern::load_from_node(cur, pctx)?);
''','''          if let Ok(p) = PosPattern::load_from_node(cur, pctx) {
            options.push(p);
          }
''')],['P31'],'bug'),
('ref-other-table',[(R,'''  fn get_pos_rule(&mut self, rule_name: &str) -> usize {
    get_rule_position(&mut self.pos_rules, &mut self.pos_name_map, rule_name)''','''  fn get_pos_rule(&mut self, rule_name: &str) -> usize {
    get_rule_position(&mut self.pos_rules, &mut self.word_name_map, rule_name)''')],['P31'],'bug'),
('position-no-insert',[(R,'  map.insert(rule_name.to_string(), pos);\n','  if pos > 0 {\n    map.insert(rule_name.to_string(), pos);\n  }\n')],['P31'],'bug'),
('conflict-mtext',[(R,'''    if self.mtext_rules[pos].is_some() {
      return Err(''','''    if self.mtext_rules[pos].is_some() && pos == 0 {
      return Err(''')],['P31'],'bug'),
('verify-skip-seq',[(R,'''      if self.seq_rules[*pos].is_none() {''','''      if self.word_rules[*pos].is_none() {''')],['P31'],'bug'),
('verify-gone',[(R,'    pctx.verify().map_err(err_map)?;\n','    let _ = pctx.verify();\n')],['P31'],'bug'),
('file-names-swap',[(R,'word_rule_names: pctx.word_name_map','word_rule_names: pctx.pos_name_map.clone()')],['P31'],'bug'),
('file-flatten',[(R,'''        .seq_rules
        .iter()
        .map(|o| o.as_ref().unwrap().clone())''','''        .seq_rules
        .iter()
        .rev()
        .map(|o| o.as_ref().unwrap().clone())''')],['P31'],'bug'),
('two-metas',[(R,'''          if meta_opt.is_some() {
            return Err("pattern_file has multiple''','''          if meta_opt.is_some() && file_name.is_empty() {
            return Err("pattern_file has multiple''')],['P31'],'bug'),
('phrase-two-ends',[(R,'''              if end.is_some() {
                return Err("Cannot have multipe end_with_seq nodes in a phrase node".to_string());
              }
''','')],['P31'],'bug'),
('phrase-tag-default',[(R,'let mut match_type: PhraseMatchType = PhraseMatchType::Longest;','let mut match_type: PhraseMatchType = PhraseMatchType::Shortest;')],['P31'],'bug'),
('marker-child-first',[(R,'''          if rule_opt.is_some() {
          return Err(format!(
            "Unexpected node''','''          if rule_opt.is_some() && meta_opt.is_some() {
          return Err(format!(
            "Unexpected node''')],['P31'],'bug') if False else
('rule-last-wins',[(R,'''        if rule_opt.is_some() {
          return Err(format!(
            "Unexpected node''','''        if rule_opt.is_some() && meta_opt.is_some() {
          return Err(format!(
            "Unexpected node''')],['P31'],'bug'),
('word-pos-any-order',[(R,'''              word_pattern = Some(WordPattern::load_from_node(cur, pctx)?);''','''              if pos_pattern.is_none() {
                return Err("pos first".to_string());
              }
              word_pattern = Some(WordPattern::load_from_node(cur, pctx)?);''')],['P31'],'bug'),
('parse-str',[(R,'.parse_file(file_name)\n','.parse_file(file_name.trim())\n')],['P31'],'bug'),
('children-empty-ok',[(R,'if child_nodes.is_empty() {','if false && child_nodes.is_empty() {')],['P31'],'bug'),
# same
('or-collect',[(R,'''        let mut options: Vec<WordPattern> = Vec::new();
        for cur in get_non_text_children(node)?.into_iter() {
          options.push(WordPattern::load_from_node(cur, pctx)?);
        }
        Ok(WordPattern::WordOr(options))''','''        get_non_text_children(node)?
          .into_iter()
          .map(|cur| WordPattern::load_from_node(cur, pctx))
          .collect::<Result<Vec<_>, _>>()
          .map(WordPattern::WordOr)''')],['P31'],'same'),
('get-entry',[(R,'''  {
    if let Some(position) = map.get(rule_name) {
      return *position;
    }
  }
  let pos = rules.len();
  rules.push(None);
  map.insert(rule_name.to_string(), pos);
  pos''','''  match map.get(rule_name) {
    Some(&position) => position,
    None => {
      let pos = rules.len();
      map.insert(rule_name.to_owned(), pos);
      rules.push(None);
      pos
    },
  }''')],['P31'],'same'),
('verify-helper',[(R,'''    for (name, pos) in &self.pos_name_map {
      if self.pos_rules[*pos].is_none() {
        return Err(format!("Couldn't find definition for pos_rule \\"{name}\\""));
      }
    }
''','''    if let Some((name, _)) = self.pos_name_map.iter().find(|(_, &p)| self.pos_rules[p].is_none()) {
      return Err(format!("Couldn't find definition for pos_rule \\"{name}\\""));
    }
''')],['P31'],'same'),
('meta-let-else',[(R,'''    if meta_opt.is_none() {
      meta_opt = Some(MetaDescription {
        name: file_name.to_string(),
        summary: String::new(),
      });
    }

    pctx''','''    let meta_opt = Some(meta_opt.unwrap_or_else(|| MetaDescription {
      name: file_name.to_string(),
      summary: String::new(),
    }));

    pctx''')],['P31'],'same'),
('marker-early',[(R,'''    let tags = match node.get_property("tags") {
      // TODO: Add regex: [a-zA-Z0-9_]+(,[a-zA-Z0-9_]+)*
      None => Vec::new(),
      Some(value) => value.split(',').map(|s| s.trim().to_string()).collect(),
    };''','''    let mut tags = Vec::new();
    if let Some(value) = node.get_property("tags") {
      for tag in value.split(',') {
        tags.push(tag.trim().to_string());
      }
    }''')],['P31'],'same'),
('tag-ok-or',[(R,'''        let tag_opt = pctx.phrase_map.get(&tag_str);
        if tag_opt.is_none() {
          return Err(format!("unknow Phrase type \\"{tag_str}\\""));
        }
        Ok(SequencePattern::Phrase(
          *tag_opt.unwrap(),''','''        let tag = *pctx
          .phrase_map
          .get(tag_str)
          .ok_or_else(|| format!("unknow Phrase type \\"{tag_str}\\""))?;
        Ok(SequencePattern::Phrase(
          tag,''')],['P31'],'same'),
('add-check-first',[(R,'''    if self.word_rules[pos].is_some() {
      return Err(format!(
        "Conflict: Multiple definitions of word_rule \\"{}\\"",
        &rule.description.name
      ));
    }
    self.word_rules[pos] = Some(rule);
    Ok(())''','''    match self.word_rules[pos] {
      Some(_) => Err(format!(
        "Conflict: Multiple definitions of word_rule \\"{}\\"",
        &rule.description.name
      )),
      None => {
        self.word_rules[pos] = Some(rule);
        Ok(())
      },
    }''')],['P31'],'same'),
('load-rule-direct',[(R,'''    load_rule(
      PosPattern::load_from_node,
      node,
      pctx,
      "pos_rule",
      PosRule::generate_rule,
    )''','''    load_rule(
      PosPattern::load_from_node,
      node,
      pctx,
      "pos_rule",
      |pattern, description| PosRule {
        pattern,
        description,
      },
    )''')],['P31'],'same'),
# matching
('markers-order',[(M,'''    for m in &self.sub_matches {
      markers.ext''','''    for m in self.sub_matches.iter().rev() {
      markers.ext''')],['P32'],'bug'),
('phrase-end',[(M,'v.push(root.end + 1)','v.push(root.end)')],['P32'],'bug'),
('phrase-last-child',[(M,'get_phrase_matches(&root.children[0],','get_phrase_matches(&root.children[root.children.len() - 1],')],['P32'],'bug'),
('phrase-strict',[(M,'child.start <= start_pos && child.end >= start_pos','child.start < start_pos && child.end >= start_pos')],['P32'],'bug'),
('phrase-order',[(M,'if match_type == &PhraseMatchType::Longest {','if match_type == &PhraseMatchType::Shortest {')],['P32'],'bug'),
('tree-start',[(M,'''              if start_opt.is_none() {
                start_opt = Some(t.start);
              }
''','''              start_opt = Some(t.start);
''')],['P32'],'bug'),
('seq-reset',[(M,'        cur_pos = m.end;\n','        cur_pos += 1;\n')],['P32'],'bug'),
('seq-clear',[(M,'''      for end_pos in &phrase_ends {
        matches.clear();
''','''      for end_pos in &phrase_ends {
''')],['P32'],'bug'),
('cond-less',[(M,'&& m.end > *end_pos {','&& m.end >= *end_pos {')],['P32'],'bug'),
('end-from',[(M,'for end_start_pos in pos..*end_pos {','for end_start_pos in pos + 1..*end_pos {')],['P32'],'bug'),
('word-last',[(M,'if pos >= sentence.get_words().len() {','if pos + 1 >= sentence.get_words().len() {')],['P32'],'bug'),
('mark-end',[(M,'words[m.end - 1].get_offset_end()','words[m.end - 1].get_offset_start()')],['P32'],'bug'),
('longest-ge',[(M,'''            SequenceMatchType::Longest => {
              if m.end > longest {''','''            SequenceMatchType::Longest => {
              if m.end >= longest {''')],['P32'],'bug'),
('first-nobreak',[(M,'''                longest = m.end;
              }
              break;
''','''                longest = m.end;
              }
''')],['P32'],'bug'),
('word-not-matches',[(M,'''      if match_word(pf, p, word, range).matched {
        InternalWordMatch::no_match()''','''      if match_word(pf, p, word, range).matched && !word.get_string().is_empty() {
        InternalWordMatch::no_match()''')],['P32'],'bug'),
('word-pos-or',[(M,'match_word(pf, word_pattern, word, range)','match_word(pf, word_pattern, word, range);\n        InternalWordMatch { _matches: Vec::new(), matched: true }')],['P32'],'bug'),
('semantics-first',[(M,'match_math(pf, math_pattern, c[0])','match_math(pf, math_pattern, c[c.len() - 1])')],['P32'],'bug'),
('math-name',[(M,'if name.is_some() && name.as_ref().unwrap() != &node.get_name()','if name.is_some() && !name.as_ref().unwrap().eq_ignore_ascii_case(&node.get_name())')],['P32'],'bug'),
('children-ends',[(M,'start_pos = c_nodes.len() - child_rules.len();','start_pos = c_nodes.len() - 1;')],['P32'],'bug'),
('children-last-place',[(M,'if c_nodes.len() < child_rules.len() + start_pos {','if c_nodes.len() <= child_rules.len() + start_pos {')],['P32'],'bug'),
('children-extra',[(M,'''          if match_type != &MathChildrenMatchType::Arbitrary {
            break;
          }
''','''          if match_type == &MathChildrenMatchType::MatchesExactly {
            break;
          }
''')],['P32'],'bug'),
('desc-first-late',[(M,'''        if matched && match_type == &MathDescendantMatchType::First {
          return InternalMathMatch {
            _matches: matches,
            matched: true,
          };
        }
''','')],['P32'],'bug'),
('desc-flat',[(M,'let m = match_math(pf, rule, child);','let m = match_math(pf, pattern, child);')],['P32'],'bug'),
('mtext-prefix',[(M,'MTextPattern::MTextLit(ref s) => s == string','MTextPattern::MTextLit(ref s) => string.starts_with(s.as_str())')],['P32'],'bug'),
('pos-or-all',[(M,'ps.iter().any(|p| match_pos(pf, p, pos))','ps.iter().all(|p| match_pos(pf, p, pos))')],['P32'],'bug'),
('rule-table',[(M,'''  let actual_rule = &pf.sequence_rules[*rule_pos];''','''  let actual_rule = &pf.sequence_rules[*rule_pos % pf.word_rules.len().max(1)];''')],['P32'],'bug'),
('skip-last-word',[(M,'for start_pos in 0..words.len() {','for start_pos in 0..words.len().saturating_sub(1) {')],['P32'],'bug'),
# same
('or-find',[(M,'''      for pattern in word_patterns {
        let m = match_word(pf, pattern, word, range);
        if m.matched {
          return m;
        }
      }
      InternalWordMatch::no_match()''','''      word_patterns
        .iter()
        .map(|pattern| match_word(pf, pattern, word, range))
        .find(|m| m.matched)
        .unwrap_or_else(InternalWordMatch::no_match)''')],['P32'],'same'),
('word-get',[(M,'''      if pos >= sentence.get_words().len() {
        return InternalSeqMatch::no_match();
      }
      let m = match_word(pf, wp, &sentence.get_words()[pos], range);''','''      let word = match sentence.get_words().get(pos) {
        Some(word) => word,
        None => return InternalSeqMatch::no_match(),
      };
      let m = match_word(pf, wp, word, range);''')],['P32'],'same'),
('math-node-iflet',[(M,'''      if name.is_some() && name.as_ref().unwrap() != &node.get_name() {
        return InternalMathMatch::no_match();
      }
''','''      if let Some(name) = name {
        if *name != node.get_name() {
          return InternalMathMatch::no_match();
        }
      }
''')],['P32'],'same'),
('children-while',[(M,'''          start_pos += 1;
          if c_nodes.len() < child_rules.len() + start_pos {
            break;
          }''','''          if c_nodes.len() == child_rules.len() + start_pos {
            break;
          }
          start_pos += 1;''')],['P32'],'same'),
('children-zip',[(M,'''          for i in 0..child_rules.len() {
            let m = match_math(pf, &child_rules[i], c_nodes[start_pos + i]);''','''          for (child_rule, c_node) in child_rules.iter().zip(&c_nodes[start_pos..]) {
            let m = match_math(pf, child_rule, *c_node);''')],['P32'],'same'),
('pos-or-loop',[(M,'''    PosPattern::PosOr(ref ps) => ps.iter().any(|p| match_pos(pf, p, pos)),''','''    PosPattern::PosOr(ref ps) => {
      for p in ps {
        if match_pos(pf, p, pos) {
          return true;
        }
      }
      false
    },''')],['P32'],'same'),
('extend-owned',[(M,'matches.extend_from_slice(&m._matches[..]);\n  }\n\n  Ok(matches)','matches.extend(m._matches);\n  }\n\n  Ok(matches)')],['P32'],'same'),
('markers-flat',[(M,'''    let mut markers = vec![self.marker.clone()];
    for m in &self.sub_matches {
      markers.extend_from_slice(&m.get_marker_list()[..]);
    }
    markers''','''    let mut markers = Vec::with_capacity(1 + self.sub_matches.len());
    markers.push(self.marker.clone());
    for m in &self.sub_matches {
      markers.extend(m.get_marker_list());
    }
    markers''')],['P32'],'same'),
('phrase-cmp',[(M,'''  match root.start.cmp(&start_pos) {
    Ordering::Equal => {''','''  if root.start > start_pos {
    return Vec::new();
  }
  match root.start.cmp(&start_pos) {
    Ordering::Equal => {''')],['P32'],'same'),
('phrase-find',[(M,'''      for child in &root.children {
        if child.start <= start_pos && child.end >= start_pos {
          return get_phrase_matches(child, start_pos, target);
        }
      }
      Vec::new()''','''      match root.children.iter().find(|c| c.start <= start_pos && start_pos <= c.end) {
        Some(child) => get_phrase_matches(child, start_pos, target),
        None => Vec::new(),
      }''')],['P32'],'same'),
('seqor-end-once',[(M,'''          matched = true;
          match *match_type {
            SequenceMatchType::First => {
              matches = m._matches;
              if m.end > longest {
                longest = m.end;
              }
              break;''','''          matched = true;
          match *match_type {
            SequenceMatchType::First => {
              matches = m._matches;
              longest = longest.max(m.end);
              break;''')],['P32'],'same'),
('math-desc-iter',[(M,'for child in fast_get_non_text_children(node).into_iter() {','let children = fast_get_non_text_children(node);\n      for child in children {')],['P32'],'same'),
]
