"""As outsider.py, for the other modules the crate's own build compiles."""
CASES = []
def bug(n, *e): CASES.append((n, list(e), None, 'bug'))
def same(n, *e): CASES.append((n, list(e), None, 'same'))
U = 'patterns/utils.rs'; P = 'util/plot.rs'; T = 'util/test.rs'; D = 'dnm/node.rs'; A = 'dnm/parameters.rs'; S = 'stopwords.rs'
src = {f: open('/repo/src/' + f).read() for f in (U, P, T, D, A, S)}
def body(f, start, end='\n}\n'):
    s = src[f]; i = s.index(start) + len(start); j = s.index(end, i); return s[i:j]
# --- patterns/utils
SIMPLE = body(U, 'pub fn get_simple_node_content(node: RoNode, trim: bool) -> Result<String, String> {\n')
same('simple-match', (U, SIMPLE, '''  let child = match node.get_first_child() {
    Some(child) => child,
    None => return Ok(String::new()),
  };
  if !child.is_text_node() || child.get_next_sibling().is_some() {
    return Err(format!("found unexpected nodes in node \\"{}\\"", node.get_name()));
  }
  let content = child.get_content();
  if trim {
    Ok(content.trim().to_owned())
  } else {
    Ok(content)
  }'''))
same('simple-let-else', (U, SIMPLE, '''  let Some(child) = node.get_first_child() else {
    return Ok(String::from(""));
  };
  let only_text = child.is_text_node() && child.get_next_sibling().is_none();
  if !only_text {
    let name = node.get_name();
    return Err(format!("found unexpected nodes in node \\"{name}\\""));
  }
  let mut content = child.get_content();
  if trim {
    content = content.trim().into();
  }
  Ok(content)'''))
same('simple-nested', (U, SIMPLE, '''  if let Some(child) = node.get_first_child() {
    match (child.is_text_node(), child.get_next_sibling()) {
      (true, None) => {
        let text = child.get_content();
        Ok(if trim { String::from(text.trim()) } else { text })
      }
      _ => Err(format!("found unexpected nodes in node \\"{}\\"", node.get_name())),
    }
  } else {
    Ok(String::default())
  }'''))
bug('simple-sibling', (U, SIMPLE, '''  let Some(child) = node.get_first_child() else {
    return Ok(String::from(""));
  };
  if !child.is_text_node() {
    return Err(format!("found unexpected nodes in node \\"{}\\"", node.get_name()));
  }
  let mut content = child.get_content();
  if trim {
    content = content.trim().into();
  }
  Ok(content)'''))
bug('simple-whole', (U, SIMPLE, '''  let Some(child) = node.get_first_child() else {
    return Ok(String::from(""));
  };
  if !child.is_text_node() || child.get_next_sibling().is_some() {
    return Err(format!("found unexpected nodes in node \\"{}\\"", node.get_name()));
  }
  let content = child.get_content();
  Ok(if trim { content.trim_end().to_string() } else { content })'''))
NT = body(U, 'pub fn get_non_text_children(node: RoNode) -> Result<Vec<RoNode>, String> {\n')
same('nt-while', (U, NT, '''  let mut children = vec![];
  let mut next = node.get_first_child();
  while let Some(child) = next {
    next = child.get_next_sibling();
    if is_comment_node(child) {
      continue;
    }
    if !child.is_text_node() {
      children.push(child);
      continue;
    }
    let content = child.get_content();
    let text = content.trim();
    if !text.is_empty() {
      return Err(format!(
        "found unexpected text in \\"{}\\" node: \\"{}\\"",
        node.get_name(),
        text
      ));
    }
  }
  Ok(children)'''))
same('nt-successors', (U, NT, '''  let mut children = Vec::new();
  for child in std::iter::successors(node.get_first_child(), |c| c.get_next_sibling()) {
    if child.is_text_node() {
      let text = child.get_content();
      if !text.trim().is_empty() {
        return Err(format!(
          "found unexpected text in \\"{}\\" node: \\"{}\\"",
          node.get_name(),
          text.trim()
        ));
      }
    } else if !is_comment_node(child) {
      children.push(child);
    }
  }
  Ok(children)'''))
same('nt-child-nodes', (U, NT, '''  let mut children = Vec::new();
  for child in node.get_child_nodes() {
    if child.is_text_node() {
      let text = child.get_content();
      if !text.trim().is_empty() {
        return Err(format!(
          "found unexpected text in \\"{}\\" node: \\"{}\\"",
          node.get_name(),
          text.trim()
        ));
      }
    } else if !is_comment_node(child) {
      children.push(child);
    }
  }
  Ok(children)'''))
bug('nt-elements', (U, NT, '''  let mut children = Vec::new();
  for child in node.get_child_elements() {
    if child.is_text_node() {
      let text = child.get_content();
      if !text.trim().is_empty() {
        return Err(format!(
          "found unexpected text in \\"{}\\" node: \\"{}\\"",
          node.get_name(),
          text.trim()
        ));
      }
    } else if !is_comment_node(child) {
      children.push(child);
    }
  }
  Ok(children)'''))
bug('nt-while-lost', (U, NT, '''  let mut children = vec![];
  let mut next = node.get_first_child();
  while let Some(child) = next {
    if child.is_text_node() {
      let content = child.get_content();
      let text = content.trim();
      if !text.is_empty() {
        return Err(format!(
          "found unexpected text in \\"{}\\" node: \\"{}\\"",
          node.get_name(),
          text
        ));
      }
    } else if !is_comment_node(child) {
      children.push(child);
    } else if children.is_empty() {
      break;
    }
    next = child.get_next_sibling();
  }
  Ok(children)'''))
bug('nt-first-char', (U, '      if !cur_.get_content().trim().is_empty() {', '      if cur_.get_content().starts_with(|c: char| !c.is_whitespace()) {'))
same('nt-any-nonspace', (U, '      if !cur_.get_content().trim().is_empty() {', '      if cur_.get_content().chars().any(|c| !c.is_whitespace()) {'))
same('nt-all-space', (U, '      if !cur_.get_content().trim().is_empty() {', '      if !cur_.get_content().chars().all(char::is_whitespace) {'))
same('nt-split', (U, '      if !cur_.get_content().trim().is_empty() {', '      if cur_.get_content().split_whitespace().next().is_some() {'))
bug('nt-ascii', (U, '      if !cur_.get_content().trim().is_empty() {', '      if !cur_.get_content().trim_matches(|c: char| c.is_ascii_whitespace()).is_empty() {'))
FT = body(U, 'pub fn fast_get_non_text_children(node: RoNode) -> Vec<RoNode> {\n')
same('ft-iter', (U, FT, '''  std::iter::successors(node.get_first_child(), |child| child.get_next_sibling())
    .filter(|child| !child.is_text_node() && !is_comment_node(*child))
    .collect()'''))
same('ft-children', (U, FT, '''  let mut children = node.get_child_nodes();
  children.retain(|child| !(child.is_text_node() || is_comment_node(*child)));
  children'''))
bug('ft-elements', (U, FT, '''  node.get_child_nodes().into_iter().filter(|child| !child.is_text_node() || is_comment_node(*child)).collect()'''))
same('ft-type', (U, '    if !cur_.is_text_node() && !is_comment_node(cur_) {\n      children.push(cur_);\n    }\n    cur = cur_.get_next_sibling();', '    match cur_.get_type() {\n      Some(NodeType::TextNode) | Some(NodeType::CommentNode) => {}\n      Some(_) => children.push(cur_),\n      None => panic!("a node of no known type"),\n    }\n    cur = cur_.get_next_sibling();'))
ONLY = body(U, 'pub fn get_only_child(node: RoNode) -> Result<RoNode, String> {\n')
same('only-slice', (U, ONLY, '''  let children = get_non_text_children(node)?;
  match children.as_slice() {
    [] => Err(format!("Expected child node in node \\"{}\\"", node.get_name())),
    [child] => Ok(*child),
    _ => Err(format!("Too many child nodes in node \\"{}\\"", node.get_name())),
  }'''))
same('only-iter', (U, ONLY, '''  let mut children = get_non_text_children(node)?.into_iter();
  match (children.next(), children.next()) {
    (None, _) => Err(format!("Expected child node in node \\"{}\\"", node.get_name())),
    (Some(child), None) => Ok(child),
    (Some(_), Some(_)) => Err(format!("Too many child nodes in node \\"{}\\"", node.get_name())),
  }'''))
same('only-len', (U, ONLY, '''  let children = get_non_text_children(node)?;
  match children.len() {
    0 => Err(format!("Expected child node in node \\"{}\\"", node.get_name())),
    1 => Ok(children[0]),
    _ => Err(format!("Too many child nodes in node \\"{}\\"", node.get_name())),
  }'''))
same('only-pop', (U, ONLY, '''  let mut children = get_non_text_children(node)?;
  let child = children
    .pop()
    .ok_or_else(|| format!("Expected child node in node \\"{}\\"", node.get_name()))?;
  if !children.is_empty() {
    return Err(format!("Too many child nodes in node \\"{}\\"", node.get_name()));
  }
  Ok(child)'''))
bug('only-first', (U, ONLY, '''  get_non_text_children(node)?
    .into_iter()
    .next()
    .ok_or_else(|| format!("Expected child node in node \\"{}\\"", node.get_name()))'''))
bug('only-fast', (U, '  let children = get_non_text_children(node)?;\n  if children.is_empty() {\n    Err', '  let children = fast_get_non_text_children(node);\n  if children.is_empty() {\n    Err'))
NOCH = body(U, 'pub fn assert_no_child(node: RoNode) -> Result<(), String> {\n')
same('noch-match', (U, NOCH, '''  match get_non_text_children(node)?.first() {
    None => Ok(()),
    Some(_) => Err(format!("Found unexpected child of node \\"{}\\"", node.get_name())),
  }'''))
bug('noch-only', (U, NOCH, '''  match get_only_child(node) {
    Err(_) => Ok(()),
    Ok(_) => Err(format!("Found unexpected child of node \\"{}\\"", node.get_name())),
  }'''))
PROP = body(U, 'pub fn require_node_property(node: RoNode, property: &str) -> Result<String, String> {\n')
same('prop-ok-or', (U, PROP, '''  node
    .get_property(property)
    .ok_or_else(|| format!("\\"{}\\" node misses \\"{}\\" property", node.get_name(), property))'''))
same('prop-if-let', (U, PROP, '''  if let Some(value) = node.get_property(property) {
    return Ok(value);
  }
  Err(format!("\\"{}\\" node misses \\"{}\\" property", node.get_name(), property))'''))
bug('prop-nonempty', (U, PROP, '''  node
    .get_property(property)
    .filter(|value| !value.is_empty())
    .ok_or_else(|| format!("\\"{}\\" node misses \\"{}\\" property", node.get_name(), property))'''))
bug('prop-trim', (U, '    Some(value) => Ok(value),', '    Some(value) => Ok(value.trim().to_string()),'))
same('dup-match', (U, '  if property.is_some() {\n    Err(format!(\n      "found multiple \\"{node_name}\\" nodes in \\"{parent_name}\\" node"\n    ))\n  } else {\n    Ok(())\n  }', '  match property {\n    None => Ok(()),\n    Some(_) => Err(format!(\n      "found multiple \\"{}\\" nodes in \\"{}\\" node",\n      node_name, parent_name\n    )),\n  }'))
bug('dup-nonempty', (U, '  if property.is_some() {', '  if property.as_ref().is_some_and(|known| !known.is_empty()) {'))
same('comment-matches', (U, '{ node.get_type().unwrap() == NodeType::CommentNode }', '{ matches!(node.get_type().unwrap(), NodeType::CommentNode) }'))
same('comment-some', (U, '{ node.get_type().unwrap() == NodeType::CommentNode }', '{ node.get_type() == Some(NodeType::CommentNode) }'))
bug('comment-pi', (U, '{ node.get_type().unwrap() == NodeType::CommentNode }', '{ matches!(node.get_type().unwrap(), NodeType::CommentNode | NodeType::PiNode) }'))
# --- plot
same('plot-pairs', (P, '''  let keys: Vec<T> = map.iter().map(|entry| entry.0.clone()).collect();
  let log_values = map.iter().map(|entry| (entry.1 as f64).log2());''', '''  let mut keys: Vec<T> = Vec::with_capacity(map.len());
  let mut log_values: Vec<f64> = Vec::with_capacity(map.len());
  for (key, count) in map {
    keys.push(key.clone());
    log_values.push((*count as f64).log2());
  }'''))
same('plot-unzip', (P, '''  let keys: Vec<T> = map.iter().map(|entry| entry.0.clone()).collect();
  let log_values = map.iter().map(|entry| (entry.1 as f64).log2());''', '''  let (keys, log_values): (Vec<T>, Vec<f64>) = map
    .iter()
    .cloned()
    .map(|(key, count)| (key, f64::log2(count as f64)))
    .unzip();'''))
bug('plot-filter', (P, '  let log_values = map.iter().map(|entry| (entry.1 as f64).log2());', '  let log_values = map.iter().filter(|entry| entry.1 > 0).map(|entry| (entry.1 as f64).log2());'))
bug('plot-log10', (P, '.log2());', '.log10());'))
bug('plot-swap', (P, '.set_x_label(x_label, &[Rotate(45.0)])\n    .set_y_label(y_label, &[Rotate(90.0)])', '.set_x_label(y_label, &[Rotate(45.0)])\n    .set_y_label(x_label, &[Rotate(90.0)])'))
same('plot-fig', (P, '  fg.set_terminal("pngcairo", pathname);\n  fg.show().unwrap();', '  let terminal = "pngcairo";\n  fg.set_terminal(terminal, pathname).show().unwrap();'))
# --- parameters
same('par-from', (A, '''    let mut name_options = HashMap::new();
    name_options.insert(
      "math".to_string(),
      SpecialTagsOption::Normalize("mathformula".to_string()),
    );
    name_options.insert(
      "cite".to_string(),
      SpecialTagsOption::Normalize("CitationElement".to_string()),
    );
    name_options.insert("img".to_string(), SpecialTagsOption::Skip);
    name_options.insert("table".to_string(), SpecialTagsOption::Skip);
    name_options.insert("head".to_string(), SpecialTagsOption::Skip);
    name_options.insert("footer".to_string(), SpecialTagsOption::Skip);
''', '''    let mut name_options = HashMap::from([
      ("math".to_string(), SpecialTagsOption::Normalize("mathformula".to_string())),
      ("cite".to_string(), SpecialTagsOption::Normalize("CitationElement".to_string())),
    ]);
    for skipped in ["img", "table", "head", "footer"] {
      name_options.insert(skipped.to_string(), SpecialTagsOption::Skip);
    }
'''))
same('par-collect', (A, '''    name_options.insert("img".to_string(), SpecialTagsOption::Skip);
    name_options.insert("table".to_string(), SpecialTagsOption::Skip);
    name_options.insert("head".to_string(), SpecialTagsOption::Skip);
    name_options.insert("footer".to_string(), SpecialTagsOption::Skip);
''', '''    name_options.extend(
      ["img", "table", "head", "footer"]
        .iter()
        .map(|tag| (tag.to_string(), SpecialTagsOption::Skip)),
    );
'''))
bug('par-collect-miss', (A, '''    name_options.insert("img".to_string(), SpecialTagsOption::Skip);
    name_options.insert("table".to_string(), SpecialTagsOption::Skip);
    name_options.insert("head".to_string(), SpecialTagsOption::Skip);
    name_options.insert("footer".to_string(), SpecialTagsOption::Skip);
''', '''    name_options.extend(
      ["img", "table", "head", "header"]
        .iter()
        .map(|tag| (tag.to_string(), SpecialTagsOption::Skip)),
    );
'''))
same('par-explicit', (A, '      normalize_unicode: true,\n      ..Default::default()', '      normalize_unicode: true,\n      stem_words_once: false,\n      stem_words_full: false,\n      convert_to_lowercase: false,\n      support_back_mapping: true,'))
bug('par-back', (A, '      normalize_unicode: true,\n      ..Default::default()', '      normalize_unicode: true,\n      stem_words_once: false,\n      stem_words_full: false,\n      convert_to_lowercase: true,\n      support_back_mapping: true,'))
same('par-mutate', (A, '''    DNMParameters {
      special_tag_name_options: name_options,''', '''    let defaults = DNMParameters::default();
    DNMParameters {
      special_tag_name_options: name_options,'''), (A, '      normalize_unicode: true,\n      ..Default::default()', '      normalize_unicode: true,\n      ..defaults'))
same('par-helper', (A, 'SpecialTagsOption::Normalize("mathformula".to_string()),', 'replace_by("mathformula"),'), (A, 'SpecialTagsOption::Normalize("CitationElement".to_string()),', 'replace_by("CitationElement"),'), (A, 'impl DNMParameters {\n', '/// a fixed replacement\nfn replace_by(token: &str) -> SpecialTagsOption { SpecialTagsOption::Normalize(token.into()) }\n\nimpl DNMParameters {\n'))
bug('par-eq-newline', (A, '''      "ltx_equationgroup".to_string(),
      SpecialTagsOption::Normalize("\\nmathformula\\n".to_string()),''', '''      "ltx_equationgroup".to_string(),
      SpecialTagsOption::Normalize("mathformula".to_string()),'''))
same('par-debug-arm', (A, '''    match self {
      Enter => write!(f, "Enter")?,
      Skip => write!(f, "Skip")?,
      Normalize(v) => write!(f, "Normalize({v})")?,
      FunctionNormalize(_) => write!(f, "FunctionNormalize")?,
    };
    write!(f, "}}")''', '''    match self {
      Enter => f.write_str("Enter")?,
      Skip => f.write_str("Skip")?,
      Normalize(v) => {
        f.write_str("Normalize(")?;
        f.write_str(v)?;
        f.write_str(")")?;
      }
      FunctionNormalize(_) => f.write_str("FunctionNormalize")?,
    };
    f.write_str("}")'''))
bug('par-debug-q', (A, '      Normalize(v) => write!(f, "Normalize({v})")?,', '      Normalize(v) => write!(f, "Normalize({v:?})")?,'))
same('par-check-any', (A, '''    if (self.stem_words_once || self.stem_words_full) && self.convert_to_lowercase {
      dbg!(''', '''    let stemming = self.stem_words_once || self.stem_words_full;
    if stemming && self.convert_to_lowercase {
      dbg!('''), (A, '    if (self.stem_words_once || self.stem_words_full) && self.support_back_mapping {', '    if stemming && self.support_back_mapping {'))
# --- node
same('lex-helper', (D, '''          if anno_word.starts_with("NUM") {
            String::from("NUM")
          } else if anno_word.starts_with("ARRAY") {
            String::from("ARRAY")
          } else if anno_word.starts_with("ATOM") {
            String::from("ATOM")
          } else if anno_word.starts_with("SUPERSCRIPTOP") {
            String::from("SUPERSCRIPTOP")
          } else {
            anno_word
              .chars()
              .map(|c| match c {
                ':' | '-' => '_',
                '\\n' => ' ',
                _ => c,
              })
              .collect()
          }''', '''          for kind in ["NUM", "ARRAY", "ATOM", "SUPERSCRIPTOP"] {
            if anno_word.starts_with(kind) {
              return kind.to_string();
            }
          }
          anno_word.replace([':', '-'], "_")'''))
same('lex-find', (D, '''          if anno_word.starts_with("NUM") {
            String::from("NUM")
          } else if anno_word.starts_with("ARRAY") {
            String::from("ARRAY")
          } else if anno_word.starts_with("ATOM") {
            String::from("ATOM")
          } else if anno_word.starts_with("SUPERSCRIPTOP") {
            String::from("SUPERSCRIPTOP")
          } else {''', '''          const KINDS: [&str; 4] = ["NUM", "ARRAY", "ATOM", "SUPERSCRIPTOP"];
          if let Some(kind) = KINDS.iter().find(|kind| anno_word.starts_with(**kind)) {
            kind.to_string()
          } else {'''))
bug('lex-super', (D, 'anno_word.starts_with("SUPERSCRIPTOP")', 'anno_word.contains("SUPERSCRIPTOP")'))
same('lex-replace', (D, '''      annotation_string = LEXEME_END_MARKER
        .replace_all(&annotation_string, " $1 ")
        .split(":end")
        .collect::<Vec<&str>>()
        .join(":end ");
      annotation_string = annotation_string
        .split(":start")
        .collect::<Vec<&str>>()
        .join(":start ");''', '''      annotation_string = LEXEME_END_MARKER
        .replace_all(&annotation_string, " $1 ")
        .replace(":end", ":end ")
        .replace(":start", ":start ");'''))
bug('lex-replace-once', (D, '        .replace_all(&annotation_string, " $1 ")', '        .replace(&annotation_string, " $1 ")'))
bug('lex-sep', (D, '        .join(" ")\n    })', '        .join("")\n    })'))
same('lex-if', (D, '''  if !lexemes.is_empty() {
    lexemes
  } else {
    // Fallback if no lexemes - a generic substitution
    // intended to be used in a lowercased context, where only significant lexemes are left
    // capitalized
    String::from("mathformula")
  }''', '''  match lexemes.len() {
    0 => "mathformula".to_string(),
    _ => lexemes,
  }'''))
bug('lex-blank', (D, '  if !lexemes.is_empty() {', '  if !annotations.is_empty() {'))
same('lex-loop', (D, '''  let lexemes: String = annotations
    .iter()
    .map(|anno| {
      let mut''', '''  let mut parts: Vec<String> = Vec::new();
  for anno in annotations {
      let mut'''), (D, '''        .collect::<Vec<String>>()
        .join(" ")
    })
    .collect::<Vec<String>>()
    .join(" ");
''', '''        .collect::<Vec<String>>()
        .join(" ");
      parts.push(annotation_string);
    }
  let lexemes = parts.join(" ");
'''), (D, '''      annotation_string
        .split_whitespace()''', '''      annotation_string = annotation_string
        .split_whitespace()'''))
# --- test resources
same('res-loop', (T, '''    .filter_map(|e| e.ok())
    .filter(|e| !e.file_type().is_dir())''', '''    .flatten()
    .filter(|e| !e.file_type().is_dir())'''))
same('res-matches', (T, '''        let name = name_os.to_str();
        name == Some("html") || name == Some("xhtml")''', '''        matches!(name_os.to_str(), Some("html" | "xhtml"))'''))
same('res-map-or', (T, '''      if entry.file_type().is_dir() {
        true
      } else if let Some(name_os) = entry.path().extension() {
        let name = name_os.to_str();
        name == Some("html") || name == Some("xhtml")
      } else {
        false
      }''', '''      entry.file_type().is_dir()
        || entry
          .path()
          .extension()
          .map_or(false, |ext| ext == "html" || ext == "xhtml")'''))
bug('res-depth', (T, 'WalkDir::new("./tests/resources")', 'WalkDir::new("./tests/resources").max_depth(3)'))
bug('res-ext', (T, 'name == Some("html") || name == Some("xhtml")', 'name.map_or(false, |n| n.ends_with("html"))'))
# --- stopwords
same('stop-insert', (S, body(S, 'pub fn load<\'a>() -> HashSet<&\'a str> {\n').split('[\n')[0] + '[\n    "\'t",', '  let all = [\n    "\'t",'), (S, src[S][src[S].index('  ]\n'):src[S].index('}', src[S].index('  ]\n'))], '  ];\n  let mut words = HashSet::with_capacity(all.len());\n  for word in all {\n    words.insert(word);\n  }\n  words\n'))
bug('stop-long', (S, src[S][src[S].index('  ]\n'):src[S].index('}', src[S].index('  ]\n'))], '  ]\n  .iter()\n  .copied()\n  .filter(|word| !word.contains(\'\\\'\') || word.len() > 3)\n  .collect()\n'))
bug('stop-gone', (S, '    "above",\n', ''))
