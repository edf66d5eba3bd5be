//! Reference models for the construction of the narrative model.
use super::*;

/// one entry of the back map per character pushed
fn push_char(dnm: &mut DNM, c: char, node: RoNode, offset: i32) {
  dnm.runtime.chars.push(c);
  if dnm.parameters.support_back_mapping {
    dnm.back_map.push((node, offset));
  }
}
fn blank_around_token(dnm: &mut DNM, node: RoNode) {
  if dnm.parameters.wrap_tokens && (!dnm.runtime.had_whitespace || !dnm.parameters.normalize_white_spaces) {
    push_char(dnm, ' ', node, -1);
    dnm.runtime.had_whitespace = true;
  }
}
fn replace_by_token(dnm: &mut DNM, token: &str, node: RoNode) {
  blank_around_token(dnm, node);
  for c in token.chars() {
    push_char(dnm, c, node, -1);
  }
  dnm.runtime.had_whitespace = false;
  blank_around_token(dnm, node);
}
fn record(dnm: &mut DNM, node: RoNode, start: usize) {
  let end = dnm.runtime.chars.len();
  dnm.node_map.insert(node.to_hashable(), (start, end));
}

pub fn element(dnm: &mut DNM, node: RoNode) {
  let start = dnm.runtime.chars.len();
  let mut treatment = None;
  for class in node.get_class_names() {
    if let Some(t) = dnm.parameters.special_tag_class_options.get(&class) {
      treatment = Some(t.clone());
      break;
    }
  }
  if treatment.is_none() {
    treatment = dnm.parameters.special_tag_name_options.get(&node.get_name()).cloned();
  }
  match treatment {
    Some(SpecialTagsOption::Normalize(token)) => replace_by_token(dnm, &token, node),
    Some(SpecialTagsOption::FunctionNormalize(f)) => replace_by_token(dnm, &f(node), node),
    Some(SpecialTagsOption::Skip) => {},
    Some(SpecialTagsOption::Enter) | None => {
      let mut child = node.get_first_child();
      while let Some(c) = child {
        dnm.recurse_node_create(c);
        child = c.get_next_sibling();
      }
    },
  }
  record(dnm, node, start);
}

/// the same, with the treatments collected first
macro_rules! listed { ($name: ident, $walk: ident) => {
pub fn $name(dnm: &mut DNM, node: RoNode) {
  let start = dnm.runtime.chars.len();
  let mut candidates = Vec::new();
  for class in node.get_class_names() {
    candidates.push(dnm.parameters.special_tag_class_options.get(&class));
  }
  candidates.push(dnm.parameters.special_tag_name_options.get(&node.get_name()));
  for candidate in candidates {
    match candidate {
      None => {},
      Some(SpecialTagsOption::Enter) => break,
      Some(SpecialTagsOption::Skip) => {
        record(dnm, node, start);
        return;
      },
      Some(SpecialTagsOption::Normalize(token)) => {
        let token = token.clone();
        replace_by_token(dnm, &token, node);
        record(dnm, node, start);
        return;
      },
      Some(SpecialTagsOption::FunctionNormalize(f)) => {
        let token = f(node);
        replace_by_token(dnm, &token, node);
        record(dnm, node, start);
        return;
      },
    }
  }
  $walk(dnm, node);
  record(dnm, node, start);
}
}; }
listed!(element_listed, each_child);
listed!(element_listed_first, first_child_then_siblings);
fn each_child(dnm: &mut DNM, node: RoNode) {
  let mut child = node.get_first_child();
  while let Some(c) = child {
    dnm.recurse_node_create(c);
    child = c.get_next_sibling();
  }
}
fn first_child_then_siblings(dnm: &mut DNM, node: RoNode) {
  if let Some(first) = node.get_first_child() {
    dnm.recurse_node_create(first);
    let mut at = first;
    while let Some(next) = at.get_next_sibling() {
      dnm.recurse_node_create(next);
      at = next;
    }
  }
}

pub fn merged_white_space(dnm: &mut DNM, string: &mut String, offsets: &mut Vec<i32>) {
  if !dnm.parameters.normalize_white_spaces {
    return;
  }
  let mut text = String::new();
  let mut kept: Vec<i32> = Vec::new();
  for (i, c) in string.chars().enumerate() {
    let blank = c.is_whitespace();
    if blank && dnm.runtime.had_whitespace {
      continue;
    }
    text.push(if blank { ' ' } else { c });
    if dnm.parameters.support_back_mapping {
      kept.push(offsets[i]);
    }
    dnm.runtime.had_whitespace = blank;
  }
  *string = text;
  *offsets = kept;
}

pub fn ascii_text(dnm: &DNM, string: &mut String, offsets: &mut Vec<i32>) {
  if !dnm.parameters.normalize_unicode {
    return;
  }
  if dnm.parameters.support_back_mapping {
    let mut text = String::new();
    let mut kept: Vec<i32> = Vec::new();
    for (i, c) in string.chars().enumerate() {
      for replacement in unidecode_char(c).chars() {
        text.push(replacement);
        kept.push(offsets[i]);
      }
    }
    *string = text;
    *offsets = kept;
  } else {
    *string = unidecode(string);
  }
}

pub fn stemmed(dnm: &DNM, string: &mut String) {
  if dnm.parameters.stem_words_full || dnm.parameters.stem_words_once {
    if dnm.parameters.support_back_mapping {
      panic!("llamapun::dnm: word stemming does not support back-mapping yet");
    }
    *string = if dnm.parameters.stem_words_full { rustmorpha::full_stem(string) } else { rustmorpha::stem(string) };
  }
}

pub fn text(dnm: &mut DNM, node: RoNode) {
  let start = dnm.runtime.chars.len();
  let mut string = node.get_content();
  let mut offsets: Vec<i32> = Vec::new();
  if dnm.parameters.support_back_mapping {
    offsets = (0i32..(string.chars().count() as i32)).collect();
  }
  ascii_text(dnm, &mut string, &mut offsets);
  stemmed(dnm, &mut string);
  if dnm.parameters.convert_to_lowercase {
    if dnm.parameters.support_back_mapping {
      let mut kept: Vec<i32> = Vec::new();
      for (place, c) in string.chars().enumerate() {
        for _ in c.to_lowercase() {
          kept.push(offsets[place]);
        }
      }
      offsets = kept;
    }
    string = string.to_lowercase();
  }
  merged_white_space(dnm, &mut string, &mut offsets);
  dnm.runtime.chars.extend(string.chars());
  if dnm.parameters.support_back_mapping {
    assert_eq!(string.chars().count(), offsets.len());
    for offset in offsets {
      dnm.back_map.push((node, offset));
    }
  }
  record(dnm, node, start);
}

pub fn any_node(dnm: &mut DNM, node: RoNode) {
  if node.is_text_node() {
    dnm.text_node_create(node)
  } else {
    dnm.intermediate_node_create(node)
  }
}

pub fn whole(root_node: RoNode, parameters: DNMParameters) -> DNM {
  let mut dnm = DNM {
    plaintext: String::new(),
    byte_offsets: Vec::new(),
    parameters,
    root_node,
    node_map: HashMap::new(),
    runtime: RuntimeParseData { had_whitespace: true, chars: Vec::new() },
    back_map: Vec::new(),
  };
  dnm.recurse_node_create(root_node);
  assert_eq!(dnm.plaintext.len(), 0);
  for c in dnm.runtime.chars.iter() {
    dnm.byte_offsets.push(dnm.plaintext.len());
    dnm.plaintext.push(*c);
  }
  let end = dnm.plaintext.len();
  dnm.byte_offsets.push(end);
  dnm
}

pub fn empty() -> DNM {
  DNM {
    plaintext: String::new(),
    byte_offsets: Vec::new(),
    parameters: DNMParameters::default(),
    root_node: RoNode::null(),
    node_map: HashMap::new(),
    runtime: RuntimeParseData::default(),
    back_map: Vec::new(),
  }
}

pub fn from_text(text: &str, params_opt: Option<DNMParameters>) -> Result<(Document, DNM), Box<dyn Error>> {
  let params = match params_opt {
    Some(p) => p,
    None => DNMParameters::default(),
  };
  let mut doc = Document::new().unwrap();
  let mut root = Node::new("html", None, &doc).unwrap();
  doc.set_root_element(&root);
  let mut body = Node::new("body", None, &doc).unwrap();
  root.add_child(&mut body)?;
  let mut para = Node::new("div", None, &doc).unwrap();
  body.add_child(&mut para)?;
  para.set_attribute("class", "ltx_para").unwrap();
  para.append_text(text).unwrap();
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), params);
  Ok((doc, dnm))
}

pub fn from_text_text_attr(text: &str, params_opt: Option<DNMParameters>) -> Result<(Document, DNM), Box<dyn Error>> {
  let params = match params_opt {
    Some(p) => p,
    None => DNMParameters::default(),
  };
  let mut doc = Document::new().unwrap();
  let mut root = Node::new("html", None, &doc).unwrap();
  doc.set_root_element(&root);
  let mut body = Node::new("body", None, &doc).unwrap();
  root.add_child(&mut body)?;
  let mut para = Node::new("div", None, &doc).unwrap();
  body.add_child(&mut para)?;
  para.append_text(text).unwrap();
  para.set_attribute("class", "ltx_para").unwrap();
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), params);
  Ok((doc, dnm))
}

pub fn from_text_filled(text: &str, params_opt: Option<DNMParameters>) -> Result<(Document, DNM), Box<dyn Error>> {
  let params = match params_opt {
    Some(p) => p,
    None => DNMParameters::default(),
  };
  let mut doc = Document::new().unwrap();
  let mut root = Node::new("html", None, &doc).unwrap();
  doc.set_root_element(&root);
  let mut body = Node::new("body", None, &doc).unwrap();
  root.add_child(&mut body)?;
  let mut para = Node::new("div", None, &doc).unwrap();
  para.set_attribute("class", "ltx_para").unwrap();
  para.append_text(text).unwrap();
  body.add_child(&mut para)?;
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), params);
  Ok((doc, dnm))
}

pub fn from_text_filled_text(text: &str, params_opt: Option<DNMParameters>) -> Result<(Document, DNM), Box<dyn Error>> {
  let params = match params_opt {
    Some(p) => p,
    None => DNMParameters::default(),
  };
  let mut doc = Document::new().unwrap();
  let mut root = Node::new("html", None, &doc).unwrap();
  doc.set_root_element(&root);
  let mut body = Node::new("body", None, &doc).unwrap();
  root.add_child(&mut body)?;
  let mut para = Node::new("div", None, &doc).unwrap();
  para.append_text(text).unwrap();
  para.set_attribute("class", "ltx_para").unwrap();
  body.add_child(&mut para)?;
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), params);
  Ok((doc, dnm))
}

pub fn from_text_created(text: &str, params_opt: Option<DNMParameters>) -> Result<(Document, DNM), Box<dyn Error>> {
  let params = match params_opt {
    Some(p) => p,
    None => DNMParameters::default(),
  };
  let mut doc = Document::new().unwrap();
  let mut root = Node::new("html", None, &doc).unwrap();
  doc.set_root_element(&root);
  let mut body = Node::new("body", None, &doc).unwrap();
  let mut para = Node::new("div", None, &doc).unwrap();
  root.add_child(&mut body)?;
  body.add_child(&mut para)?;
  para.set_attribute("class", "ltx_para").unwrap();
  para.append_text(text).unwrap();
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), params);
  Ok((doc, dnm))
}

pub fn from_text_upwards(text: &str, params_opt: Option<DNMParameters>) -> Result<(Document, DNM), Box<dyn Error>> {
  let params = match params_opt {
    Some(p) => p,
    None => DNMParameters::default(),
  };
  let mut doc = Document::new().unwrap();
  let mut root = Node::new("html", None, &doc).unwrap();
  doc.set_root_element(&root);
  let mut body = Node::new("body", None, &doc).unwrap();
  let mut para = Node::new("div", None, &doc).unwrap();
  para.set_attribute("class", "ltx_para").unwrap();
  para.append_text(text).unwrap();
  body.add_child(&mut para)?;
  root.add_child(&mut body)?;
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), params);
  Ok((doc, dnm))
}

pub fn from_text_upwards_created(text: &str, params_opt: Option<DNMParameters>) -> Result<(Document, DNM), Box<dyn Error>> {
  let params = match params_opt {
    Some(p) => p,
    None => DNMParameters::default(),
  };
  let mut doc = Document::new().unwrap();
  let mut root = Node::new("html", None, &doc).unwrap();
  doc.set_root_element(&root);
  let mut para = Node::new("div", None, &doc).unwrap();
  para.set_attribute("class", "ltx_para").unwrap();
  para.append_text(text).unwrap();
  let mut body = Node::new("body", None, &doc).unwrap();
  body.add_child(&mut para)?;
  root.add_child(&mut body)?;
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), params);
  Ok((doc, dnm))
}

pub fn from_text_created_upwards(text: &str, params_opt: Option<DNMParameters>) -> Result<(Document, DNM), Box<dyn Error>> {
  let params = match params_opt {
    Some(p) => p,
    None => DNMParameters::default(),
  };
  let mut doc = Document::new().unwrap();
  let mut root = Node::new("html", None, &doc).unwrap();
  doc.set_root_element(&root);
  let mut body = Node::new("body", None, &doc).unwrap();
  let mut para = Node::new("div", None, &doc).unwrap();
  body.add_child(&mut para)?;
  root.add_child(&mut body)?;
  para.set_attribute("class", "ltx_para").unwrap();
  para.append_text(text).unwrap();
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), params);
  Ok((doc, dnm))
}

pub fn from_text_attr_first(text: &str, params_opt: Option<DNMParameters>) -> Result<(Document, DNM), Box<dyn Error>> {
  let params = match params_opt {
    Some(p) => p,
    None => DNMParameters::default(),
  };
  let mut doc = Document::new().unwrap();
  let mut root = Node::new("html", None, &doc).unwrap();
  doc.set_root_element(&root);
  let mut body = Node::new("body", None, &doc).unwrap();
  root.add_child(&mut body)?;
  let mut para = Node::new("div", None, &doc).unwrap();
  para.set_attribute("class", "ltx_para").unwrap();
  body.add_child(&mut para)?;
  para.append_text(text).unwrap();
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), params);
  Ok((doc, dnm))
}

pub fn from_paragraph(text: &str, params: Option<DNMParameters>) -> Result<(Document, DNM), Box<dyn Error>> {
  let rebuilt = c14n::rebuild_normalized_text(text);
  DNM::from_str(&rebuilt, params)
}

pub fn node_range<'a>(dnm: &'a DNM, node: RoNode) -> Result<DNMRange<'a>, Box<dyn Error>> {
  if let Some(r) = dnm.node_map.get(&node.to_hashable()) {
    Ok(DNMRange { start: r.0, end: r.1, dnm })
  } else {
    Err("not found in node map".into())
  }
}
pub fn full_range(dnm: &DNM) -> Result<DNMRange, Box<dyn Error>> { node_range(dnm, dnm.root_node) }
