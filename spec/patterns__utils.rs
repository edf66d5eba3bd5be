//! Reference models for the strict readers of pattern-file elements (error texts are free).
use super::*;

pub fn is_comment_node(node: RoNode) -> bool { node.get_type() == Some(NodeType::CommentNode) }

/// no child: empty text; one text child: its content; anything else is an error
pub fn simple_content(node: RoNode, trim: bool) -> Result<String, String> {
  match node.get_first_child() {
    None => Ok(String::new()),
    Some(child) => {
      if child.is_text_node() && child.get_next_sibling().is_none() {
        if trim {
          Ok(child.get_content().trim().to_string())
        } else {
          Ok(child.get_content())
        }
      } else {
        Err(String::new())
      }
    },
  }
}

/// every child that is neither text nor comment, in order; text between them must be blank
pub fn strict_children(node: RoNode) -> Result<Vec<RoNode>, String> {
  let mut out = Vec::new();
  let mut next = node.get_first_child();
  while let Some(child) = next {
    if child.is_text_node() {
      if !child.get_content().trim().is_empty() {
        return Err(String::new());
      }
    } else if child.get_type().unwrap() != NodeType::CommentNode {
      out.push(child);
    }
    next = child.get_next_sibling();
  }
  Ok(out)
}
pub fn lenient_children(node: RoNode) -> Vec<RoNode> {
  let mut out = Vec::new();
  let mut next = node.get_first_child();
  while let Some(child) = next {
    if !child.is_text_node() && child.get_type().unwrap() != NodeType::CommentNode {
      out.push(child);
    }
    next = child.get_next_sibling();
  }
  out
}
pub fn only_child(node: RoNode) -> Result<RoNode, String> {
  let children = strict_children(node)?;
  if children.len() == 1 {
    Ok(children[0])
  } else {
    Err(String::new())
  }
}
pub fn no_child(node: RoNode) -> Result<(), String> {
  let children = strict_children(node)?;
  if children.is_empty() {
    Ok(())
  } else {
    Err(String::new())
  }
}
pub fn required_property(node: RoNode, property: &str) -> Result<String, String> {
  match node.get_property(property) {
    Some(value) => Ok(value),
    None => Err(String::new()),
  }
}
pub fn not_found_already(property: &Option<String>, _node_name: &str, _parent_name: &str) -> Result<(), String> {
  match property {
    None => Ok(()),
    Some(_) => Err(String::new()),
  }
}
