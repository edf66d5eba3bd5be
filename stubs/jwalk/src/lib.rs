//! Stand-in for jwalk 0.4: the same builder and entry types over walkdir.
use std::ffi::{OsStr, OsString};
use std::path::{Path, PathBuf};
use std::sync::Arc;
pub struct WalkDir { root: PathBuf, hidden: bool, sort: bool, max_depth: usize }
#[derive(Debug)]
pub struct DirEntry { pub depth: usize, pub file_name: OsString, pub parent_path: Arc<PathBuf>, pub file_type: Result<std::fs::FileType, std::io::Error> }
impl DirEntry {
  pub fn path(&self) -> PathBuf { if self.depth == 0 { PathBuf::from(&self.file_name) } else { self.parent_path.join(&self.file_name) } }
  pub fn file_name(&self) -> &OsStr { &self.file_name }
  pub fn depth(&self) -> usize { self.depth }
}
pub struct DirEntryIter { inner: walkdir::IntoIter, hidden: bool }
impl WalkDir {
  pub fn new<P: AsRef<Path>>(root: P) -> Self { WalkDir { root: root.as_ref().to_path_buf(), hidden: true, sort: false, max_depth: usize::MAX } }
  pub fn num_threads(self, _n: usize) -> Self { self }
  pub fn skip_hidden(mut self, b: bool) -> Self { self.hidden = b; self }
  pub fn sort(mut self, b: bool) -> Self { self.sort = b; self }
  pub fn max_depth(mut self, n: usize) -> Self { self.max_depth = n; self }
  pub fn preload_metadata(self, _b: bool) -> Self { self }
}
impl IntoIterator for WalkDir {
  type Item = Result<DirEntry, std::io::Error>;
  type IntoIter = DirEntryIter;
  fn into_iter(self) -> DirEntryIter {
    let mut w = walkdir::WalkDir::new(&self.root).max_depth(self.max_depth);
    if self.sort { w = w.sort_by_file_name(); }
    DirEntryIter { inner: w.into_iter(), hidden: self.hidden }
  }
}
impl Iterator for DirEntryIter {
  type Item = Result<DirEntry, std::io::Error>;
  fn next(&mut self) -> Option<Self::Item> {
    loop {
      return match self.inner.next()? {
        Ok(e) => {
          let hidden = e.depth() > 0 && e.file_name().to_string_lossy().starts_with('.');
          if hidden && self.hidden { if e.file_type().is_dir() { self.inner.skip_current_dir(); } continue; }
          Some(Ok(DirEntry { depth: e.depth(), file_name: if e.depth() == 0 { e.path().as_os_str().to_os_string() } else { e.file_name().to_os_string() },
            parent_path: Arc::new(e.path().parent().map(|p| p.to_path_buf()).unwrap_or_default()), file_type: Ok(e.file_type()) }))
        },
        Err(e) => Some(Err(e.into())),
      };
    }
  }
}
