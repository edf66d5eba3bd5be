F='dnm/parameters.rs'; A=['P12']
CASES=[
('and-or',[(F,'if (self.stem_words_once || self.stem_words_full) && self.convert_to_lowercase','if self.stem_words_once && self.convert_to_lowercase')],A,'bug'),
('xor',[(F,'if self.stem_words_once && self.stem_words_full','if self.stem_words_once ^ self.stem_words_full')],A,'bug'),
('elseif',[(F,'''    }
    if (self.stem_words_once || self.stem_words_full) && self.support''','''    } else if (self.stem_words_once || self.stem_words_full) && self.support''')],A,'bug'),
('early',[(F,'''    if (self.stem_words_once || self.stem_words_full) && self.convert''','''    if !self.normalize_white_spaces { return; }
    if (self.stem_words_once || self.stem_words_full) && self.convert''')],A,'bug'),
('dbgtext',[(F,'Normalize(v) => write!(f, "Normalize({v})")?','Normalize(_) => write!(f, "Normalize")?')],A,'bug'),
('dbgswap',[(F,'FunctionNormalize(_) => write!(f, "FunctionNormalize")?','FunctionNormalize(_) => write!(f, "Normalize")?')],A,'bug'),
('dbgq',[(F,'"Normalize({v})"','"Normalize({v:?})"')],A,'bug'),
('let',[(F,'    if (self.stem_words_once || self.stem_words_full) && self.convert','    let stems = self.stem_words_once || self.stem_words_full;\n    if stems && self.convert'),(F,'if (self.stem_words_once || self.stem_words_full) && self.support','if stems && self.support')],A,'same'),
('nested',[(F,'    if (self.stem_words_once || self.stem_words_full) && self.convert_to_lowercase {','    if !self.stem_words_once && !self.stem_words_full { return; }\n    if self.convert_to_lowercase {'),(F,'if (self.stem_words_once || self.stem_words_full) && self.support','if self.support')],A,'same'),
('eprint',[(F,'''dbg!(
        "llamapun::dnm: Parameter options stem_words_once\\
         and stem_words_full are both set"
      );''','eprintln!("llamapun::dnm: stem_words_once and stem_words_full are both set");')],A,'same'),
('dbg1',[(F,'''    write!(f, "SpecialTagsOption {{")?;
    match self {
      Enter => write!(f, "Enter")?,
      Skip => write!(f, "Skip")?,
      Normalize(v) => write!(f, "Normalize({v})")?,
      FunctionNormalize(_) => write!(f, "FunctionNormalize")?,
    };
    write!(f, "}}")''','''    let inner = match self {
      Enter => "Enter".to_string(),
      Skip => "Skip".to_string(),
      Normalize(v) => format!("Normalize({})", v),
      FunctionNormalize(_) => "FunctionNormalize".to_string(),
    };
    write!(f, "SpecialTagsOption {{{}}}", inner)''')],A,'same'),
]
