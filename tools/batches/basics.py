U='patterns/utils.rs'; D='dnm/node.rs'; PA='dnm/parameters.rs'; PL='util/plot.rs'; T='util/test.rs'; SW='stopwords.rs'
A=['P05','P06','P07','P08','P09','P10','P11']
SW_=open('/repo/src/stopwords.rs').read(); U_=open('/repo/src/'+U).read(); D_=open('/repo/src/'+D).read(); PA_=open('/repo/src/'+PA).read(); PL_=open('/repo/src/'+PL).read(); T_=open('/repo/src/'+T).read()
def body(s,head,tail='\n}\n'):
    i=s.index(head); j=s.index(tail,i); return s[i:j+len(tail)]
CASES=[
('sw drop',[(SW,'    "able",\n','')],A,'bug'),
('sw merge',[(SW,'    "able",\n','    "able"\n')],A,'bug') if 0 else ('sw merge2',[(SW,'    "able",\n    "about",\n','    "ableabout",\n')],A,'bug'),
('sw case',[(SW,'"able"','"Able"')],A,'bug'),
('sw filter',[(SW,'  .iter()\n  .cloned()','  .iter()\n  .cloned()\n  .filter(|w| w.len() > 1)')],A,'bug'),
('sw skip',[(SW,'  .iter()\n  .cloned()','  .iter()\n  .skip(1)\n  .cloned()')],A,'bug'),
('sw into_iter',[(SW,'  .iter()\n  .cloned()\n','  .into_iter()\n')],A,'same'),
('sw copied loop',[(SW,'  [\n    "\'t"','  const W: &[&str] = &[\n    "\'t"'),(SW,'  ]\n  .iter()\n  .cloned()\n  .collect()','  ];\n  let mut s = HashSet::with_capacity(W.len()); for w in W { s.insert(*w); } s')],A,'same'),
('sw extend',[(SW,'  [\n    "\'t"','  let words = [\n    "\'t"'),(SW,'  ]\n  .iter()\n  .cloned()\n  .collect()','  ];\n  let mut s = HashSet::new(); s.extend(words.iter().copied()); s')],A,'same'),
('sw from',[(SW,'  [\n    "\'t"','  HashSet::from([\n    "\'t"'),(SW,'  ]\n  .iter()\n  .cloned()\n  .collect()','  ])')],A,'same'),
('sc match',[(U,body(U_,'pub fn get_simple_node_content'),'''pub fn get_simple_node_content(node: RoNode, trim: bool) -> Result<String, String> {
  let child = match node.get_first_child() { None => return Ok(String::new()), Some(c) => c };
  if !child.is_text_node() || child.get_next_sibling().is_some() {
    return Err(format!("found unexpected nodes in node \\"{}\\"", node.get_name()));
  }
  let content = child.get_content();
  Ok(if trim { content.trim().to_owned() } else { content })
}
''')],A,'same'),
('sc sibling',[(U,"    || child.as_ref().unwrap().get_next_sibling().is_some()\n","")],A,'bug'),
('sc trim',[(U,"Ok(if trim {","Ok(if !trim {")],A,'bug'),
('sc trim_end',[(U,"get_content().trim().to_string()","get_content().trim_end().to_string()")],A,'bug'),
('sc empty err',[(U,"    Ok(String::new())\n","    Err(String::from(\"empty\"))\n")],A,'bug'),
('sc node content',[(U,"child.as_ref().unwrap().get_content()\n    })","node.get_content()\n    })")],A,'bug'),
('ntc for',[(U,body(U_,'pub fn get_non_text_children'),'''pub fn get_non_text_children(node: RoNode) -> Result<Vec<RoNode>, String> {
  let mut children = Vec::new();
  let mut cur = node.get_first_child();
  while let Some(n) = cur {
    cur = n.get_next_sibling();
    if n.is_text_node() {
      let text = n.get_content();
      if text.trim().is_empty() { continue; }
      return Err(format!("unexpected text in {}: {}", node.get_name(), text.trim()));
    }
    if !is_comment_node(n) { children.push(n); }
  }
  Ok(children)
}
''')],A,'same'),
('ntc comment',[(U,"    } else if !is_comment_node(cur_) {\n","    } else {\n")],A,'bug'),
('ntc all ws',[(U,"!cur_.get_content().trim().is_empty()","!cur_.get_content().is_empty()")],A,'bug'),
('ntc chars all',[(U,"!cur_.get_content().trim().is_empty()","cur_.get_content().chars().any(|c| !c.is_whitespace())")],A,'same'),
('ntc early',[(U,"        return Err(format!(\n          \"found unexpected text","        if children.is_empty() { return Ok(children); }\n        return Err(format!(\n          \"found unexpected text")],A,'bug'),
('fast sibling skip',[(U,"    if !cur_.is_text_node() && !is_comment_node(cur_) {","    if !cur_.is_text_node() {")],A,'bug'),
('fast elem',[(U,"    if !cur_.is_text_node() && !is_comment_node(cur_) {","    if cur_.is_element_node() {")],A,'bug'),
('fast demorgan',[(U,"    if !cur_.is_text_node() && !is_comment_node(cur_) {","    if !(cur_.is_text_node() || is_comment_node(cur_)) {")],A,'same'),
('only last',[(U,"Ok(children[0])","Ok(children[children.len()-1])")],A,'same'),
('only many',[(U,"children.len() > 1","children.len() > 2")],A,'bug'),
('only match',[(U,body(U_,'pub fn get_only_child'),'''pub fn get_only_child(node: RoNode) -> Result<RoNode, String> {
  let children = get_non_text_children(node)?;
  match children.len() {
    0 => Err(format!("Expected child node in node \\"{}\\"", node.get_name())),
    1 => Ok(children[0]),
    _ => Err(format!("Too many child nodes in node \\"{}\\"", node.get_name())),
  }
}
''')],A,'same'),
('only slice',[(U,body(U_,'pub fn get_only_child'),'''pub fn get_only_child(node: RoNode) -> Result<RoNode, String> {
  let children = get_non_text_children(node)?;
  match children.as_slice() {
    [] => Err(format!("Expected child node in node \\"{}\\"", node.get_name())),
    [child] => Ok(*child),
    _ => Err(format!("Too many child nodes in node \\"{}\\"", node.get_name())),
  }
}
''')],A,'same'),
('only fast',[(U,"  let children = get_non_text_children(node)?;\n  if children.is_empty() {","  let children = fast_get_non_text_children(node);\n  if children.is_empty() {")],A,'bug'),
('nochild',[(U,"  if get_non_text_children(node)?.is_empty() {","  if fast_get_non_text_children(node).is_empty() {")],A,'bug'),
('nochild q',[(U,"  if get_non_text_children(node)?.is_empty() {","  if get_non_text_children(node).map_or(true, |v| v.is_empty()) {")],A,'bug'),
('req ok_or',[(U,body(U_,'pub fn require_node_property'),'''pub fn require_node_property(node: RoNode, property: &str) -> Result<String, String> {
  node.get_property(property).ok_or_else(|| format!("\\"{}\\" node misses \\"{}\\" property", node.get_name(), property))
}
''')],A,'same'),
('req default',[(U,"    Some(value) => Ok(value),","    Some(value) => Ok(value.trim().to_string()),")],A,'bug'),
('req empty',[(U,"    Some(value) => Ok(value),","    Some(value) if value.is_empty() => Err(String::new()),\n    Some(value) => Ok(value),")],A,'bug'),
('found inv',[(U,"  if property.is_some() {\n    Err","  if property.is_none() {\n    Err")],A,'bug'),
('found match',[(U,"  if property.is_some() {\n    Err","  if let Some(_) = property {\n    Err")],A,'same'),
('lex spec',[(D,"'@encoding='","")],A,'bug') if 0 else ('lex child',[(D,'".//*[local','"./*[local')],A,'bug'),
('lex role',[(D,'|OVERACCENT|UNDERACCENT','|OVERACCENT')],A,'bug'),
('lex space',[(D,'" $1 "','"$1 "')],A,'bug'),
('lex num',[(D,'anno_word.starts_with("NUM")','anno_word.starts_with("NUMBER")')],A,'bug'),
('lex dash',[(D,"':' | '-' => '_'","':' => '_'")],A,'bug'),
('lex join',[(D,'        .join(" ")\n    })','        .join("")\n    })')],A,'bug'),
('lex replace',[(D,'''        .split(":end")
        .collect::<Vec<&str>>()
        .join(":end ");''','''        .replace(":end", ":end ");''')],A,'same'),
('lex nl arm',[(D,"                '\\n' => ' ',\n","")],A,'same'),
('lex if',[(D,'''map(|c| match c {
                ':' | '-' => '_',
                '\\n' => ' ',
                _ => c,
              })''',"map(|c| if c == '-' || c == ':' { '_' } else { c })")],A,'same'),
('lex for',[(D,body(D_,'  let lexemes: String','  if !lexemes')[:-len('  if !lexemes')],'''  let mut parts = Vec::with_capacity(annotations.len());
  for anno in &annotations {
    let raw = anno.get_content();
    let a = LEXEME_END_MARKER.replace_all(&raw, " $1 ").replace(":end", ":end ").replace(":start", ":start ");
    let w: Vec<String> = a.split_whitespace().map(word_lexeme).collect();
    parts.push(w.join(" "));
  }
  let lexemes = parts.join(" ");
'''),(D,'/// Map math nodes','''fn word_lexeme(w: &str) -> String {
  for kind in ["NUM", "ARRAY", "ATOM", "SUPERSCRIPTOP"] { if w.starts_with(kind) { return kind.to_string(); } }
  w.chars().map(|c| match c { ':' | '-' => '_', '\\n' => ' ', _ => c }).collect()
}
/// Map math nodes''')],A,'same'),
('lex fallback',[(D,'String::from("mathformula")','String::from("MathFormula")')],A,'bug'),
('lex fallback cond',[(D,'if !lexemes.is_empty()','if lexemes.len() > 1')],A,'bug'),
('lex first only',[(D,'    .iter()\n    .map(|anno|','    .iter()\n    .take(1)\n    .map(|anno|')],A,'bug'),
('lex order',[(D,'''      annotation_string = annotation_string
        .split(":start")''','''      annotation_string = annotation_string.trim_start_matches(":start")
        .split(":start")''')],A,'bug'),
('par skip',[(PA,'name_options.insert("footer".to_string(), SpecialTagsOption::Skip);','')],A,'bug'),
('par table',[(PA,'name_options.insert("table".to_string(), SpecialTagsOption::Skip);','name_options.insert("table".to_string(), SpecialTagsOption::Enter);')],A,'bug'),
('par ws',[(PA,'normalize_white_spaces: false,','normalize_white_spaces: true,')],A,'bug'),
('par order',[(PA,'''    name_options.insert("img".to_string(), SpecialTagsOption::Skip);
    name_options.insert("table".to_string(), SpecialTagsOption::Skip);''','''    name_options.insert("table".to_string(), SpecialTagsOption::Skip);
    name_options.insert("img".to_string(), SpecialTagsOption::Skip);''')],A,'same'),
('par loop',[(PA,'''    name_options.insert("img".to_string(), SpecialTagsOption::Skip);
    name_options.insert("table".to_string(), SpecialTagsOption::Skip);
    name_options.insert("head".to_string(), SpecialTagsOption::Skip);
    name_options.insert("footer".to_string(), SpecialTagsOption::Skip);''','''    for name in ["img", "table", "head", "footer"].iter() { name_options.insert(name.to_string(), SpecialTagsOption::Skip); }''')],A,'same'),
('par fn',[(PA,'''    name_options.insert("img".to_string(), SpecialTagsOption::Skip);
    name_options.insert("table".to_string(), SpecialTagsOption::Skip);
    name_options.insert("head".to_string(), SpecialTagsOption::Skip);
    name_options.insert("footer".to_string(), SpecialTagsOption::Skip);''','''    name_options.extend(["img", "table", "head", "footer"].iter().map(|n| (n.to_string(), SpecialTagsOption::Skip)));''')],A,'same'),
('par from',[(PA,'''    let mut name_options = HashMap::new();
    name_options.insert(
      "math".to_string(),
      SpecialTagsOption::Normalize("mathformula".to_string()),
    );
    name_options.insert(
      "cite".to_string(),
      SpecialTagsOption::Normalize("CitationElement".to_string()),
    );
    name_options.insert("img".to_string(), SpecialTagsOption::Skip);
    name_options.insert("table".to_string(), SpecialTagsOption::Skip);
    name_options.insert("head".to_string(), SpecialTagsOption::Skip);
    name_options.insert("footer".to_string(), SpecialTagsOption::Skip);''','''    let name_options = HashMap::from([("math".to_string(), SpecialTagsOption::Normalize("mathformula".to_string())), ("cite".to_string(), SpecialTagsOption::Normalize("CitationElement".to_string())), ("img".to_string(), SpecialTagsOption::Skip), ("table".to_string(), SpecialTagsOption::Skip), ("head".to_string(), SpecialTagsOption::Skip), ("footer".to_string(), SpecialTagsOption::Skip)]);''')],A,'same'),
('par dup',[(PA,'class_options.insert("ltx_TOC".to_string(), SpecialTagsOption::Skip);','class_options.insert("ltx_TOC".to_string(), SpecialTagsOption::Skip);\n    class_options.insert("ltx_ref".to_string(), SpecialTagsOption::Skip);')],A,'bug'),
('par def',[(PA,'support_back_mapping: true,','support_back_mapping: false,')],A,'bug'),
('par rt',[(PA,'had_whitespace: true, //','had_whitespace: false, //')],A,'bug'),
('plot log10',[(PL,'.log2()','.log10()')],A,'bug'),
('plot filter',[(PL,'map.iter().map(|entry| entry.0.clone())','map.iter().filter(|e| e.1 > 1).map(|entry| entry.0.clone())')],A,'bug'),
('plot labels',[(PL,'set_x_label(x_label','set_x_label(y_label')],A,'bug'),
('plot loop',[(PL,'  let keys: Vec<T> = map.iter().map(|entry| entry.0.clone()).collect();\n','  let mut keys = Vec::new();\n  for (k, _) in map { keys.push(k.clone()); }\n')],A,'same'),
('plot term',[(PL,'"pngcairo"','"png"')],A,'bug'),
('plot zero',[(PL,'(entry.1 as f64).log2()','((entry.1 + 1) as f64).log2()')],A,'bug'),
('plot expect',[(PL,'fg.show().unwrap();','fg.show().expect("cannot plot");')],A,'same'),
('plot rev',[(PL,'let log_values = map.iter().map','let log_values = map.iter().rev().map')],A,'bug'),
('res xhtml',[(T,' || name == Some("xhtml")','')],A,'bug'),
('res matches',[(T,'name == Some("html") || name == Some("xhtml")','matches!(name, Some("html") | Some("xhtml"))')],A,'same'),
('res isdir',[(T,'    .filter(|e| !e.file_type().is_dir())\n','')],A,'bug'),
('res isfile',[(T,'    .filter(|e| !e.file_type().is_dir())\n','    .filter(|e| e.file_type().is_file())\n')],A,'bug'),
('res name',[(T,'.file_stem()','.file_name()')],A,'bug'),
('res flatten',[(T,'    .filter_map(|e| e.ok())\n','    .flatten()\n')],A,'same'),
('res maxdepth',[(T,'WalkDir::new("./tests/resources")','WalkDir::new("./tests/resources").max_depth(1)')],A,'bug'),
]
