//! Stand-in for unidecode: ASCII is kept, a few letters are transliterated, everything else is dropped.
pub fn unidecode(s: &str) -> String { s.chars().map(unidecode_char).collect() }
pub fn unidecode_char(ch: char) -> &'static str {
  static ASCII: &str = "\u{0}\u{1}\u{2}\u{3}\u{4}\u{5}\u{6}\u{7}\u{8}\t\n\u{b}\u{c}\r\u{e}\u{f}\u{10}\u{11}\u{12}\u{13}\u{14}\u{15}\u{16}\u{17}\u{18}\u{19}\u{1a}\u{1b}\u{1c}\u{1d}\u{1e}\u{1f} !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~\u{7f}";
  let c = ch as usize;
  if c < 128 { return &ASCII[c..c + 1]; }
  match ch {
    '\u{a0}' => " ", 'à' | 'á' | 'â' | 'ã' | 'å' | 'ä' => "a", 'é' | 'è' | 'ê' | 'ë' => "e", 'ö' | 'ô' | 'ó' => "o", 'ü' | 'û' | 'ú' => "u",
    'ß' => "ss", 'æ' => "ae", '€' => "EUR", '…' => "...", '’' | '‘' => "'", '“' | '”' => "\"", '–' => "-", '—' => "--",
    'Ĥ' | 'ħ' => "h", 'ŧ' => "t", 'Å' | 'Ä' | 'À' => "A", 'Æ' => "AE", 'Ö' => "O", 'Ü' => "U",
    _ => "",
  }
}
