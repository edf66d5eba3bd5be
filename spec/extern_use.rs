//! Reference model: the call for other languages.
use super::*;

/// # Safety
/// as for the call itself
pub unsafe fn words_for_c(value: *const c_char) -> *mut c_char {
  let words = if let Ok(path) = CStr::from_ptr(value).to_str() { path_helpers::path_to_words(path.to_string()) } else { String::new() };
  CString::new(words).unwrap().into_raw()
}
