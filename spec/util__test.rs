//! Reference model for the list of test resources.
use super::*;

pub fn resources() -> Vec<String> {
  let mut out = Vec::new();
  for entry in WalkDir::new("./tests/resources").into_iter().filter_entry(|e| keep(e)) {
    if let Ok(e) = entry {
      if !e.file_type().is_dir() {
        out.push(e.path().file_stem().unwrap().to_str().unwrap().to_string());
      }
    }
  }
  out
}
fn keep(e: &walkdir::DirEntry) -> bool {
  if e.file_type().is_dir() {
    return true;
  }
  match e.path().extension() {
    None => false,
    Some(x) => x.to_str() == Some("html") || x.to_str() == Some("xhtml"),
  }
}
