"""As outsider.py, for pattern rules and matching, documents, corpora and AMS markup."""
CASES = []
def bug(n, *e): CASES.append((n, list(e), None, 'bug'))
def same(n, *e): CASES.append((n, list(e), None, 'same'))
M = 'patterns/matching.rs'; R = 'patterns/rules.rs'; D = 'data.rs'; Q = 'parallel_data.rs'; T = 'parallel_data/document.rs'; A = 'ams.rs'; C = 'parallel_data/corpus.rs'
# --- matching
PSG = '''            Err(p) => {
              if start_opt.is_none() {
                start_opt = Some(p);
              }
              end = p;
            },
            Ok(t) => {
              if start_opt.is_none() {
                start_opt = Some(t.start);
              }
              end = t.end;
              child_trees.push(t);
            },
'''
same('psg-get-or-insert', (M, PSG, '''            Err(p) => {
              start_opt.get_or_insert(p);
              end = p;
            },
            Ok(t) => {
              start_opt.get_or_insert(t.start);
              end = t.end;
              child_trees.push(t);
            },
'''))
same('psg-span', (M, PSG, '''            Err(p) => {
              start_opt = start_opt.or(Some(p));
              end = p;
            },
            Ok(t) => {
              start_opt = start_opt.or(Some(t.start));
              end = t.end;
              child_trees.push(t);
            },
'''))
bug('psg-last-start', (M, PSG, '''            Err(p) => {
              start_opt = Some(p);
              end = p;
            },
            Ok(t) => {
              if start_opt.is_none() {
                start_opt = Some(t.start);
              }
              end = t.end;
              child_trees.push(t);
            },
'''))
bug('psg-end-start', (M, PSG, PSG.replace('end = t.end;', 'end = t.start;')))
GPM = '''      for child in &root.children {
        if child.start <= start_pos && child.end >= start_pos {
          return get_phrase_matches(child, start_pos, target);
        }
      }
      Vec::new()
'''
same('gpm-find', (M, GPM, '''      root
        .children
        .iter()
        .find(|child| child.start <= start_pos && child.end >= start_pos)
        .map(|child| get_phrase_matches(child, start_pos, target))
        .unwrap_or_default()
'''))
same('gpm-contains', (M, GPM, '''      for child in root.children.iter() {
        if (child.start..=child.end).contains(&start_pos) {
          return get_phrase_matches(child, start_pos, target);
        }
      }
      vec![]
'''))
bug('gpm-strict', (M, GPM, GPM.replace('child.end >= start_pos', 'child.end > start_pos')))
GPE = '''      let mut v = if !root.children.is_empty() {
        get_phrase_matches(&root.children[0], start_pos, target)
      } else {
        Vec::new()
      };
'''
same('gpm-first', (M, GPE, '''      let mut v = match root.children.first() {
        Some(first) => get_phrase_matches(first, start_pos, target),
        None => Vec::new(),
      };
'''))
bug('gpm-self-first', (M, GPE + '''      if root.phrase == target {
        v.push(root.end + 1);
      }
      v
''', '''      let mut v = Vec::new();
      if root.phrase == target {
        v.push(root.end + 1);
      }
      if let Some(first) = root.children.first() {
        v.extend(get_phrase_matches(first, start_pos, target));
      }
      v
'''))
MS = '''  for start_pos in 0..words.len() {
    let m = match_seq(
      pf,
      &actual_rule.pattern,
      sentence,
      &phrase_tree,
      range,
      start_pos,
    );
    matches.extend_from_slice(&m._matches[..]);
  }

  Ok(matches)
'''
same('ms-flat', (M, '''  let mut matches: Vec<Match<'t>> = Vec::new();

''' + MS, '''  Ok(
    (0..words.len())
      .flat_map(|start_pos| {
        match_seq(pf, &actual_rule.pattern, sentence, &phrase_tree, range, start_pos)._matches
      })
      .collect(),
  )
'''))
same('ms-if-matched', (M, MS, MS.replace('matches.extend_from_slice(&m._matches[..]);', '''if !m.matched {
      continue;
    }
    matches.extend(m._matches);''')))
bug('ms-skip-covered', (M, MS, MS.replace('for start_pos in 0..words.len() {', 'let mut next = 0;\n  for start_pos in 0..words.len() {\n    if start_pos < next { continue; }').replace('matches.extend', 'if m.matched { next = m.end; }\n    matches.extend')))
bug('ms-last', (M, MS, MS.replace('0..words.len()', '0..words.len().saturating_sub(1)')))
SW = '''      if pos >= sentence.get_words().len() {
        return InternalSeqMatch::no_match();
      }
      let m = match_word(pf, wp, &sentence.get_words()[pos], range);
      if !m.matched {
        return InternalSeqMatch::no_match();
      }
      InternalSeqMatch {
        _matches: m._matches,
        // start : pos,
        end: pos + 1,
        matched: true,
      }
'''
same('sw-get', (M, SW, '''      match sentence.get_words().get(pos).map(|word| match_word(pf, wp, word, range)) {
        Some(m) if m.matched => InternalSeqMatch {
          _matches: m._matches,
          end: pos + 1,
          matched: true,
        },
        _ => InternalSeqMatch::no_match(),
      }
'''))
bug('sw-end', (M, SW, SW.replace('end: pos + 1,', 'end: pos,')))
SS = '''      let mut matches: Vec<Match> = Vec::new();
      let mut cur_pos = pos;
      for p in patterns {
        let m = match_seq(pf, p, sentence, phrase_tree, range, cur_pos);
        if !m.matched {
          return InternalSeqMatch::no_match();
        }
        cur_pos = m.end;
        matches.extend_from_slice(&m._matches[..]);
      }
'''
same('ss-destructure', (M, SS, '''      let mut matches: Vec<Match> = vec![];
      let mut cur_pos = pos;
      for p in patterns.iter() {
        let InternalSeqMatch { _matches: found, end, matched } = match_seq(pf, p, sentence, phrase_tree, range, cur_pos);
        if matched {
          matches.extend(found);
          cur_pos = end;
        } else {
          return InternalSeqMatch::no_match();
        }
      }
'''))
bug('ss-optional', (M, SS, SS.replace('''          return InternalSeqMatch::no_match();
        }
        cur_pos''', '''          if cur_pos == pos { return InternalSeqMatch::no_match(); }
          continue;
        }
        cur_pos''')))
bug('ss-pos', (M, SS, SS.replace('range, cur_pos);', 'range, pos);')))
EC = '''          let mut matched = false;
          for end_start_pos in pos..*end_pos {
            let m = match_seq(pf, rule, sentence, phrase_tree, range, end_start_pos);
            if !m.matched {
              continue;
            }
            if m.end != *end_pos {
              continue;
            }
            matched = true;
            matches.extend_from_slice(&m._matches[..]);
            break;
          }
          if !matched {
            continue;
          }
'''
same('ec-find', (M, EC, '''          let found = (pos..*end_pos)
            .map(|end_start_pos| match_seq(pf, rule, sentence, phrase_tree, range, end_start_pos))
            .find(|m| m.matched && m.end == *end_pos);
          match found {
            Some(m) => matches.extend(m._matches),
            None => continue,
          }
'''))
same('ec-and', (M, EC, EC.replace('''            if !m.matched {
              continue;
            }
            if m.end != *end_pos {
              continue;
            }
''', '''            if !(m.matched && m.end == *end_pos) {
              continue;
            }
''')))
bug('ec-le', (M, EC, EC.replace('m.end != *end_pos', 'm.end > *end_pos')))
bug('ec-all', (M, EC, EC.replace('''            matches.extend_from_slice(&m._matches[..]);
            break;
''', '''            matches.extend_from_slice(&m._matches[..]);
''')))
bug('ec-noclear', (M, '''        matches.clear();
        if start_condition''', '''        if start_condition'''))
SC = '''        if start_condition.is_some() {
          // check start_condition
          let (rule, containment) = start_condition.as_ref().unwrap();
'''
same('sc-iflet', (M, SC, '''        if let Some((rule, containment)) = start_condition.as_ref() {
'''))
bug('sc-lt', (M, '''&& m.end > *end_pos {''', '''&& m.end >= *end_pos {'''))
MW = '''      let m = if children[0].get_name() == "semantics" {
        let c = fast_get_non_text_children(children[0]);
        if c.is_empty() {
          return InternalWordMatch::no_match();
        }
        match_math(pf, math_pattern, c[0])
      } else {
        match_math(pf, math_pattern, children[0])
      };
'''
same('mw-target', (M, MW, '''      let mut target = children[0];
      if target.get_name() == "semantics" {
        match fast_get_non_text_children(target).first() {
          Some(inner) => target = *inner,
          None => return InternalWordMatch::no_match(),
        }
      }
      let m = match_math(pf, math_pattern, target);
'''))
bug('mw-unwrap-sem', (M, MW, '''      let m = match_math(pf, math_pattern, children[0]);
'''))
bug('mw-last', (M, MW, MW.replace('match_math(pf, math_pattern, c[0])', 'match_math(pf, math_pattern, c[c.len() - 1])')))
MN = '''      if name.is_some() && name.as_ref().unwrap() != &node.get_name() {
        return InternalMathMatch::no_match();
      }
'''
same('mn-iflet', (M, MN, '''      if let Some(wanted) = name {
        if *wanted != node.get_name() {
          return InternalMathMatch::no_match();
        }
      }
'''))
same('mn-map-or', (M, MN, '''      if !name.as_ref().map_or(true, |wanted| *wanted == node.get_name()) {
        return InternalMathMatch::no_match();
      }
'''))
MT = '''      if mtext.is_some() {
        let content = get_simple_node_content(node, false);
        if content.is_err() {
          return InternalMathMatch::no_match();
        }
        if !match_mtext(
          pf,
          &pf.mtext_rules[mtext.unwrap()].pattern,
          &content.unwrap(),
        ) {
          return InternalMathMatch::no_match();
        }
      }
'''
same('mt-match', (M, MT, '''      if let Some(at) = *mtext {
        let fits = match get_simple_node_content(node, false) {
          Ok(content) => match_mtext(pf, &pf.mtext_rules[at].pattern, &content),
          Err(_) => false,
        };
        if !fits {
          return InternalMathMatch::no_match();
        }
      }
'''))
bug('mt-trim', (M, MT, MT.replace('(node, false)', '(node, true)')))
bug('mt-err-ok', (M, MT, '''      if let Some(at) = *mtext {
        if let Ok(content) = get_simple_node_content(node, false) {
          if !match_mtext(pf, &pf.mtext_rules[at].pattern, &content) {
            return InternalMathMatch::no_match();
          }
        }
      }
'''))
CH = '''          for i in 0..child_rules.len() {
            let m = match_math(pf, &child_rules[i], c_nodes[start_pos + i]);
            if m.matched {
'''
same('ch-enumerate', (M, CH, '''          for (i, child_rule) in child_rules.iter().enumerate() {
            let m = match_math(pf, child_rule, c_nodes[start_pos + i]);
            if m.matched {
'''))
same('ch-zip', (M, CH, '''          for (child_rule, c_node) in child_rules.iter().zip(&c_nodes[start_pos..]) {
            let m = match_math(pf, child_rule, *c_node);
            if m.matched {
'''))
bug('ch-last-start', (M, '''          if c_nodes.len() < child_rules.len() + start_pos {
            break;
''', '''          if c_nodes.len() <= child_rules.len() + start_pos {
            break;
'''))
bug('ch-exact', (M, '''        if match_type == &MathChildrenMatchType::MatchesExactly
          && c_nodes.len() != child_rules.len()
''', '''        if match_type == &MathChildrenMatchType::MatchesExactly
          && c_nodes.len() < child_rules.len()
'''))
same('ch-none', (M, '''        if c_nodes.len() < child_rules.len() {
          return InternalMathMatch::no_match();
        }
''', '''        let enough = child_rules.len() <= c_nodes.len();
        if !enough {
          return InternalMathMatch::no_match();
        }
'''))
MD = '''      for child in fast_get_non_text_children(node).into_iter() {
        if matched && match_type == &MathDescendantMatchType::First {
          return InternalMathMatch {
            _matches: matches,
            matched: true,
          };
        }
        let m = match_math(pf, rule, child);
'''
bug('md-pattern', (M, MD, MD.replace('match_math(pf, rule, child)', 'match_math(pf, pattern, child)')))
bug('md-first-late', (M, MD, MD.replace('matched && match_type == &MathDescendantMatchType::First', '!matches.is_empty() && match_type == &MathDescendantMatchType::First')))
same('md-break', (M, MD, MD.replace('''          return InternalMathMatch {
            _matches: matches,
            matched: true,
          };
''', '''          break;
''')))
same('mtext-loop', (M, '''MTextPattern::MTextOr(ref ps) => ps.iter().any(|p| match_mtext(pf, p, string)),''', '''MTextPattern::MTextOr(ref ps) => {
      for p in ps {
        if match_mtext(pf, p, string) {
          return true;
        }
      }
      false
    },'''))
bug('mtext-contains', (M, '''MTextPattern::MTextLit(ref s) => s == string,''', '''MTextPattern::MTextLit(ref s) => string.contains(s.as_str()),'''))
bug('mtext-case', (M, '''MTextPattern::MTextLit(ref s) => s == string,''', '''MTextPattern::MTextLit(ref s) => s.eq_ignore_ascii_case(string),'''))
bug('pos-all', (M, '''PosPattern::PosOr(ref ps) => ps.iter().any(|p| match_pos(pf, p, pos)),''', '''PosPattern::PosOr(ref ps) => ps.iter().all(|p| match_pos(pf, p, pos)),'''))
OR = '''            SequenceMatchType::First => {
              matches = m._matches;
              if m.end > longest {
                longest = m.end;
              }
              break;
            },
'''
same('or-max', (M, OR, '''            SequenceMatchType::First => {
              longest = longest.max(m.end);
              matches = m._matches;
              break;
            },
'''))
bug('or-first-nobreak', (M, OR, OR.replace('              break;\n', '')))
bug('or-longest-ge', (M, '''            SequenceMatchType::Longest => {
              if m.end > longest {
                longest = m.end;
                matches = m._matches;
              }
''', '''            SequenceMatchType::Longest => {
              if m.end >= longest {
                longest = m.end;
                matches = m._matches;
              }
'''))
# --- rules
RP = '''  {
    if let Some(position) = map.get(rule_name) {
      return *position;
    }
  }
  let pos = rules.len();
  rules.push(None);
  map.insert(rule_name.to_string(), pos);
  pos
'''
same('rp-entry', (R, RP, '''  *map.entry(rule_name.to_string()).or_insert_with(|| {
    rules.push(None);
    rules.len() - 1
  })
'''))
same('rp-match', (R, RP, '''  match map.get(rule_name) {
    Some(&position) => position,
    None => {
      let pos = rules.len();
      map.insert(rule_name.to_owned(), pos);
      rules.push(None);
      pos
    },
  }
'''))
bug('rp-lower', (R, RP, RP.replace('map.get(rule_name)', 'map.get(&rule_name.to_lowercase())')))
bug('rp-map-len', (R, RP, RP.replace('rules.len();\n  rules.push(None);', 'map.len() + 1;\n  rules.push(None);')))
ADD = '''    let rule = PosRule::load_from_node(node, self)?;
    let pos = self.get_pos_rule(&rule.description.name);
    if self.pos_rules[pos].is_some() {
      return Err(format!(
        "Conflict: Multiple definitions of pos_rule \\"{}\\"",
        &rule.description.name
      ));
    }
    self.pos_rules[pos] = Some(rule);
    Ok(())
'''
same('add-match', (R, ADD, '''    let rule = PosRule::load_from_node(node, self)?;
    let pos = self.get_pos_rule(&rule.description.name);
    match self.pos_rules[pos] {
      Some(_) => Err(format!(
        "Conflict: Multiple definitions of pos_rule \\"{}\\"",
        &rule.description.name
      )),
      None => {
        self.pos_rules[pos] = Some(rule);
        Ok(())
      },
    }
'''))
same('add-slot', (R, ADD, '''    let rule = PosRule::load_from_node(node, self)?;
    let pos = self.get_pos_rule(&rule.description.name);
    let slot = &mut self.pos_rules[pos];
    if slot.is_some() {
      return Err(format!(
        "Conflict: Multiple definitions of pos_rule \\"{}\\"",
        &rule.description.name
      ));
    }
    *slot = Some(rule);
    Ok(())
'''))
bug('add-override', (R, ADD, '''    let rule = PosRule::load_from_node(node, self)?;
    let pos = self.get_pos_rule(&rule.description.name);
    self.pos_rules[pos] = Some(rule);
    Ok(())
'''))
bug('add-keep-first', (R, ADD, '''    let rule = PosRule::load_from_node(node, self)?;
    let pos = self.get_pos_rule(&rule.description.name);
    self.pos_rules[pos].get_or_insert(rule);
    Ok(())
'''))
VE = '''    for (name, pos) in &self.pos_name_map {
      if self.pos_rules[*pos].is_none() {
        return Err(format!("Couldn't find definition for pos_rule \\"{name}\\""));
      }
    }
'''
same('ve-find', (R, VE, '''    if let Some((name, _)) = self.pos_name_map.iter().find(|(_, pos)| self.pos_rules[**pos].is_none()) {
      return Err(format!("Couldn't find definition for pos_rule \\"{name}\\""));
    }
'''))
bug('ve-gone', (R, VE, ''))
bug('ve-any', (R, VE, '''    if !self.pos_rules.is_empty() && self.pos_rules.iter().all(|r| r.is_none()) {
      return Err("Couldn't find definition for pos_rules".to_string());
    }
'''))
TG = '''    let tags = match node.get_property("tags") {
      // TODO: Add regex: [a-zA-Z0-9_]+(,[a-zA-Z0-9_]+)*
      None => Vec::new(),
      Some(value) => value.split(',').map(|s| s.trim().to_string()).collect(),
    };
'''
same('tg-map', (R, TG, '''    let tags = node
      .get_property("tags")
      .map(|value| value.split(',').map(|tag| tag.trim().to_owned()).collect())
      .unwrap_or_default();
'''))
same('tg-loop', (R, TG, '''    let mut tags = Vec::new();
    if let Some(value) = node.get_property("tags") {
      for tag in value.split(',') {
        tags.push(String::from(tag.trim()));
      }
    }
'''))
bug('tg-nonempty', (R, TG, TG.replace('''.map(|s| s.trim().to_string()).collect()''', '''.map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect()''')))
bug('tg-notrim', (R, TG, TG.replace('''.map(|s| s.trim().to_string())''', '''.map(|s| s.to_string())''')))
OP = '''        let mut options: Vec<MathPattern> = Vec::new();
        for cur in get_non_text_children(node)?.into_iter() {
          options.push(MathPattern::load_from_node(cur, pctx)?);
        }
        Ok(MathPattern::MathOr(options))
'''
same('op-collect', (R, OP, '''        let options = get_non_text_children(node)?
          .into_iter()
          .map(|cur| MathPattern::load_from_node(cur, pctx))
          .collect::<Result<Vec<MathPattern>, String>>()?;
        Ok(MathPattern::MathOr(options))
'''))
bug('op-filter', (R, OP, '''        let options = get_non_text_children(node)?
          .into_iter()
          .filter_map(|cur| MathPattern::load_from_node(cur, pctx).ok())
          .collect();
        Ok(MathPattern::MathOr(options))
'''))
bug('ph-default', (R, '''PhraseMatchType = PhraseMatchType::Longest;''', '''PhraseMatchType = PhraseMatchType::Shortest;'''))
same('ph-get', (R, '''        let tag_opt = pctx.phrase_map.get(&tag_str);
        if tag_opt.is_none() {
          return Err(format!("unknow Phrase type \\"{tag_str}\\""));
        }
        Ok(SequencePattern::Phrase(
          *tag_opt.unwrap(),
          match_type,
          start,
          end,
        ))
''', '''        match pctx.phrase_map.get(&tag_str) {
          Some(&tag) => Ok(SequencePattern::Phrase(tag, match_type, start, end)),
          None => Err(format!("unknow Phrase type \\"{tag_str}\\"")),
        }
'''))
bug('cont-default', (R, '''      None => Ok(SequenceContainment::Any),''', '''      None => Ok(SequenceContainment::LessOrEqual),'''))
LR = '''  if meta_opt.is_none() {
    meta_opt = Some(MetaDescription {
      name: name.clone(),
      summary: String::new(),
    });
  }
  if let Some(rule) = rule_opt {
    Ok(rule_gen(rule, meta_opt.unwrap()))
  } else {
    Err(format!("{} \\"{}\\" has no content node", rule_type, &name))
  }
'''
same('lr-unwrap-or', (R, LR, '''  match rule_opt {
    Some(rule) => {
      let meta = meta_opt.unwrap_or_else(|| MetaDescription {
        name: name.clone(),
        summary: String::new(),
      });
      Ok(rule_gen(rule, meta))
    },
    None => Err(format!("{} \\"{}\\" has no content node", rule_type, &name)),
  }
'''))
bug('lr-last-wins', (R, '''        if rule_opt.is_some() {
          return Err(format!(
            "Unexpected node \\"{}\\" in {} \\"{}\\"",
            x, rule_type, &name
          ));
        }
''', '''        let _ = x;
'''))
# --- documents
SI = '''    if self.dnm.is_none() {
      if let Some(root) = self.dom.get_root_readonly() {
        self.dnm = Some(DNM::new(root, self.corpus.dnm_parameters.clone()));
      }
    }
'''
same('si-and', (T, SI, '''    if let (None, Some(root)) = (&self.dnm, self.dom.get_root_readonly()) {
      self.dnm = Some(DNM::new(root, self.corpus.dnm_parameters.clone()));
    }
'''))
bug('si-default', (T, SI, SI.replace('self.corpus.dnm_parameters.clone()', 'crate::dnm::DNMParameters::default()')))
XN = '''      Ok(found_payload) => {
        let mut vec_nodes = found_payload.get_readonly_nodes_as_vec();
        if !vec_nodes.is_empty() {
          Some(vec_nodes.remove(0))
        } else {
          None
        }
      },
      _ => None,
'''
same('xn-next', (T, XN, '''      Ok(found_payload) => found_payload.get_readonly_nodes_as_vec().into_iter().next(),
      Err(_) => None,
'''))
same('xn-first', (T, XN, '''      Ok(found_payload) => found_payload.get_readonly_nodes_as_vec().first().copied(),
      _ => None,
'''))
bug('xn-pop', (T, XN, '''      Ok(found_payload) => found_payload.get_readonly_nodes_as_vec().pop(),
      _ => None,
'''))
DF = '''    let mut found = Vec::new();
    if filter(&node) {
      found.push(node);
    }
    for child in node.get_child_nodes().into_iter() {
      found.extend(Document::dfs_filter_nodes(child, filter));
    }
    found
'''
same('df-flat', (T, DF, '''    let mut found = if filter(&node) { vec![node] } else { Vec::new() };
    found.extend(
      node
        .get_child_nodes()
        .into_iter()
        .flat_map(|child| Document::dfs_filter_nodes(child, filter)),
    );
    found
'''))
same('df-stack', (T, DF, '''    let mut found = Vec::new();
    let mut stack = vec![node];
    while let Some(cur) = stack.pop() {
      if filter(&cur) {
        found.push(cur);
      }
      let mut children = cur.get_child_nodes();
      children.reverse();
      stack.extend(children);
    }
    found
'''))
bug('df-post', (T, DF, '''    let mut found = Vec::new();
    for child in node.get_child_nodes().into_iter() {
      found.extend(Document::dfs_filter_nodes(child, filter));
    }
    if filter(&node) {
      found.push(node);
    }
    found
'''))
bug('df-outer', (T, DF, '''    if filter(&node) {
      return vec![node];
    }
    let mut found = Vec::new();
    for child in node.get_child_nodes().into_iter() {
      found.extend(Document::dfs_filter_nodes(child, filter));
    }
    found
'''))
EX = '''    let mut paras = Vec::new();
    if let Some(anode) = Document::abstract_p_node(&self.dom) {
      paras.push(anode);
    }
    if let Some(keywords) = Document::keywords_node(&self.dom) {
      paras.push(keywords);
    }
    paras.extend(Document::paragraph_nodes(&self.dom));
    if let Some(anode) = Document::acknowledgement_node(&self.dom) {
      paras.push(anode);
    }
    paras.extend(Document::caption_nodes(&self.dom));
'''
same('ex-extend-opt', (T, EX, '''    let mut paras = Vec::new();
    paras.extend(Document::abstract_p_node(&self.dom));
    paras.extend(Document::keywords_node(&self.dom));
    paras.extend(Document::paragraph_nodes(&self.dom));
    paras.extend(Document::acknowledgement_node(&self.dom));
    paras.extend(Document::caption_nodes(&self.dom));
'''))
same('ex-chain', (T, EX, '''    let paras: Vec<RoNode> = Document::abstract_p_node(&self.dom)
      .into_iter()
      .chain(Document::keywords_node(&self.dom))
      .chain(Document::paragraph_nodes(&self.dom))
      .chain(Document::acknowledgement_node(&self.dom))
      .chain(Document::caption_nodes(&self.dom))
      .collect();
'''))
bug('ex-order', (T, EX, EX.replace('''    paras.extend(Document::caption_nodes(&self.dom));
''', '').replace('''    paras.extend(Document::paragraph_nodes(&self.dom));
''', '''    paras.extend(Document::paragraph_nodes(&self.dom));
    paras.extend(Document::caption_nodes(&self.dom));
''')))
NX = '''    if let Some(range) = self.walker.next() {
      if range.is_empty() {
        self.next()
      } else {
        Some(ItemDNMRange {
          range,
          document: self.document,
        })
      }
    } else {
      None
    }
'''
same('nx-find', (Q, NX, '''    let document = self.document;
    self
      .walker
      .find(|range| !range.is_empty())
      .map(|range| ItemDNMRange { range, document })
'''))
same('nx-loop', (Q, NX, '''    for range in self.walker.by_ref() {
      if !range.is_empty() {
        return Some(ItemDNMRange {
          range,
          document: self.document,
        });
      }
    }
    None
'''))
bug('nx-stop', (Q, NX, NX.replace('self.next()', 'None')))
bug('nx-keep', (Q, NX, '''    self.walker.next().map(|range| ItemDNMRange { range, document: self.document })
'''))
WI = '''    let words = match self.dnm.get_range() {
      Ok(range) => tokenizer.words_and_punct(&range),
      _ => Vec::new(),
    };
'''
same('wi-map', (Q, WI, '''    let words = self
      .dnm
      .get_range()
      .map(|range| tokenizer.words_and_punct(&range))
      .unwrap_or_default();
'''))
bug('wi-words', (Q, WI, WI.replace('words_and_punct', 'words')))
SN = '''    match self.walker.next() {
      None => None,
      Some(range) => {
        if range.is_empty() {
          self.next()
        } else {
          let sentence = Sentence {
            range,
            document: self.document,
            senna_sentence: None,
          };
          Some(sentence)
        }
      },
    }
'''
same('sn-while', (D, SN, '''    while let Some(range) = self.walker.next() {
      if range.is_empty() {
        continue;
      }
      return Some(Sentence {
        range,
        document: self.document,
        senna_sentence: None,
      });
    }
    None
'''))
same('sn-q', (D, SN, '''    let range = self.walker.next()?;
    if range.is_empty() {
      return self.next();
    }
    Some(Sentence { range, document: self.document, senna_sentence: None })
'''))
bug('sn-trim', (D, SN, SN.replace('''            range,
''', '''            range: range.trim(),
''')))
EXT = '''        let selected = if let Some(ref extension) = self.corpus.extension {
          file_name.ends_with(extension)
        } else {
          file_name.ends_with(".html") || file_name.ends_with(".xhtml")
        };
'''
same('ext-match', (D, EXT, '''        let selected = match &self.corpus.extension {
          Some(extension) => file_name.ends_with(extension.as_str()),
          None => [".html", ".xhtml"].iter().any(|ext| file_name.ends_with(ext)),
        };
'''))
bug('ext-html', (D, EXT, EXT.replace('''file_name.ends_with(".html") || file_name.ends_with(".xhtml")''', '''file_name.ends_with("html")''')))
bug('ext-contains', (D, EXT, EXT.replace('file_name.ends_with(extension)', 'file_name.contains(extension.as_str())')))
bug('senna-pos', (D, '''    let pos = self.pos;
    self.pos += 1;
''', '''    self.pos += 1;
    let pos = self.pos;
'''))
same('senna-get', (D, '''    if pos < sen_sent.get_words().len() {
      let senna_word = &sen_sent.get_words()[pos];
''', '''    if let Some(senna_word) = sen_sent.get_words().get(pos) {
'''))
RD = '''      .reduce(HashMap::new, |mut map1, map2| {
        for (k, v) in map2 {
          let entry = map1.entry(k).or_insert(0);
          *entry += v;
        }
        map1
      })
'''
same('rd-and-modify', (C, RD, '''      .reduce(HashMap::new, |mut map1, map2| {
        map2.into_iter().for_each(|(k, v)| *map1.entry(k).or_default() += v);
        map1
      })
'''))
bug('rd-extend', (C, RD, '''      .reduce(HashMap::new, |mut map1, map2| {
        map1.extend(map2);
        map1
      })
'''))
bug('rd-max', (C, RD, RD.replace('*entry += v;', '*entry = (*entry).max(v);')))
HM = '''    Ok(found_payload) => !found_payload.get_nodes_as_vec().is_empty(),
    _ => false,
'''
same('hm-map', (A, HM, '''    Ok(found_payload) => found_payload.get_number_of_nodes() > 0,
    Err(_) => false,
'''))
