A='ams.rs'; H='util/data_helpers.rs'; P='util/path_helpers.rs'; T='util/token_model.rs'; X='extern_use.rs'
CASES=[
# environments
('class-proof-contains',[(A,'if class == "ltx_proof" {','if class.contains("ltx_proof") {')],['P27'],'bug'),
('class-none-theorem',[(A,'None => AmsEnv::Theorem, // simply','None => AmsEnv::Other, // simply')],['P27'],'bug'),
('class-re-star',[(A,r'r"ltx_theorem_(\w+)"',r'r"ltx_theorem_([a-z]+)"')],['P27'],'bug'),
('class-cap0',[(A,'caps.get(1)','caps.get(0)')],['P27'],'bug'),
('alias-dropped',[(A,'    | "remark0"\n','')],['P27'],'bug'),
('alias-moved',[(A,'"affirmation" => AmsEnv::Affirmation','"affirmation" | "answer" => AmsEnv::Affirmation')],['P27'],'bug'),
('default-theorem',[(A,'    _ => AmsEnv::Other,\n  }\n}','    _ => AmsEnv::Theorem,\n  }\n}')],['P27'],'bug'),
('lowercase-first',[(A,'  match env {\n    "ack"','  match env.to_lowercase().as_str() {\n    "ack"')],['P27'],'bug'),
('display-swap',[(A,'      Notice => "notice",','      Notice => "note",')],['P27'],'bug'),
('heading-caption',[(A,'      "caption" => Caption,\n','')],['P27'],'bug'),
('heading-no-lower',[(A,'&heading.to_lowercase()','heading')],['P27'],'bug'),
('future-work',[(A,'"future work" => FutureWork','"futurework" => FutureWork')],['P27'],'bug'),
('xpath-span',[(A,"local-name()='div' and contains(@class,'ltx_theorem')","local-name()='div' and contains(@class,'ltx_theorem_')")],['P27'],'bug'),
('markup-neg',[(A,'!found_payload.get_nodes_as_vec().is_empty()','found_payload.get_nodes_as_vec().len() > 1')],['P27'],'bug'),
('class-early',[(A,'''  if class.is_empty() {
    None
  } else if !class''','''  if !class''')],['P27'],'same'),
('class-match',[(A,'''    let env = match AMS_ENV.captures(class) {
      None => AmsEnv::Theorem, // simply "ltx_theorem" markup
      Some(caps) => normalize_env(caps.get(1).unwrap().as_str()),
    };
    Some(env)''','''    Some(
      AMS_ENV
        .captures(class)
        .and_then(|caps| caps.get(1))
        .map_or(AmsEnv::Theorem, |name| normalize_env(name.as_str())),
    )''')],['P27'],'same'),
('class-index',[(A,'caps.get(1).unwrap().as_str()','&caps[1]')],['P27'],'same'),
('markup-map',[(A,'''  match xpath_context.evaluate("//*[local-name()='div' and contains(@class,'ltx_theorem')][1]") {
    Ok(found_payload) => !found_payload.get_nodes_as_vec().is_empty(),
    _ => false,
  }''','''  xpath_context
    .evaluate("//*[contains(@class, 'ltx_theorem') and local-name() = 'div'][1]")
    .map(|found| found.get_nodes_as_vec().len() > 0)
    .unwrap_or(false)''')],['P27'],'same'),
('display-direct',[(A,'''      Theorem => "theorem",
      Theory => "theory",
      Other => "other",
    };
    fmt.write_str(val)''','''      Theorem => "theorem",
      Theory => "theory",
      Other => "other",
    };
    write!(fmt, "{val}")''')],['P27'],'same'),
('env-early',[(A,'  match env {\n    "ack"','  if env == "remark" {\n    return AmsEnv::Remark;\n  }\n  match env {\n    "ack"')],['P27'],'same'),
# headings
('roman-l',[(H,r'(^|\s)[xiv]*(\s|$)',r'(^|\s)[xivl]*(\s|$)')],['P28'],'bug'),
('lead-a',[(H,'|some|basic|','|some|a|basic|')],['P28'],'bug'),
('order',[(H,'''      h if h.starts_with("proof") => "proof",
      h if h.starts_with("remark ") => "remark",
''','''      h if h.starts_with("remark ") => "remark",
'''),(H,'''      h if h.ends_with(" demonstration") => "demonstration",''','''      h if h.starts_with("proof") => "proof",
      h if h.ends_with(" demonstration") => "demonstration",''')],['P28'],'same'),
('order-bug',[(H,'''      h if h.starts_with("proof") => "proof",
      h if h.starts_with("remark ") => "remark",
''','''      h if h.starts_with("remark ") => "remark",
'''),(H,'''      h if h.ends_with(" simulation") =>''','''      h if h.starts_with("proof") => "proof",
      h if h.ends_with(" simulation") =>''')],['P28'],'bug'),
('ends-blank',[(H,'h.ends_with(" lemma")','h.ends_with("lemma")')],['P28'],'bug'),
('exercise',[(H,'"exercise" => "problem",\n','')],['P28'],'same'),
('no-recursion',[(H,'normalize_heading_title(&simple_heading)','simple_heading.to_string()')],['P28'],'bug'),
('plural-missing',[(H,'|theorem|work)s','|theorem)s')],['P28'],'bug'),
('no-trim',[(H,'TRAILING_FIXED_WORD.replace_all(simple_heading.trim(), "")','TRAILING_FIXED_WORD.replace_all(&simple_heading, "")')],['P28'],'bug'),
('steps-swapped',[(H,'LEAD_FIXED_PHRASE.replace_all(simple_heading.trim(), "")','TRAILING_FIXED_WORD.replace_all(simple_heading.trim(), "")'),(H,'let simple_heading = TRAILING_FIXED_WORD.replace_all(simple_heading.trim(), "");\n  let simple_heading = COMMON','let simple_heading = LEAD_FIXED_PHRASE.replace_all(simple_heading.trim(), "");\n  let simple_heading = COMMON')],['P28'],'bug'),
('exact-regex',[(H,'a(?:xiom|lgorithm|ssumption|pplication)','axiom|algorithm|assumption|application')],['P28'],'same'),
('heading-str-match',[(H,'''    match simple_heading.as_ref() {''','''    let known: &str = &simple_heading;
    match known {''')],['P28'],'same'),
('heading-if',[(H,'''  if simple_heading.is_empty() {
    // quick exit if empty
    String::new()
  } else if''','''  if simple_heading.is_empty() {
    return String::new();
  }
  if''')],['P28'],'same'),
('heading-word-err',[(H,'        Err(_) => return None,','        Err(_) => continue,')],['P28'],'bug'),
('heading-num',[(H,'if !heading_word.is_empty() && heading_word != "NUM" {','if !heading_word.is_empty() {')],['P28'],'bug'),
('heading-blank',[(H,"      heading_text.push(' ');\n",'')],['P28'],'bug'),
('heading-sep-before',[(H,'''      heading_text.push_str(&heading_word);
      heading_text.push(' ');''','''      heading_text += &format!("{heading_word} ");''')],['P28'],'same'),
# words
('len-ge',[(H,'if word_string.len() > MAX','if word_string.len() >= MAX')],['P29'],'bug'),
('len-24',[(H,'MAX_WORD_LENGTH: usize = 25','MAX_WORD_LENGTH: usize = 20')],['P29'],'bug'),
('no-lower',[(H,'if options.discard_case {','if !options.discard_case {')],['P29'],'bug'),
('case-always',[(H,'''  let mut word_string = if options.discard_case {
    range.get_plaintext().to_lowercase()
  } else {
    range.get_plaintext().to_string()
  };''','''  let mut word_string = range.get_plaintext().to_lowercase();''')],['P29'],'bug'),
('case-in-place',[(H,'''  let mut word_string = if options.discard_case {
    range.get_plaintext().to_lowercase()
  } else {
    range.get_plaintext().to_string()
  };''','''  let mut word_string = range.get_plaintext().to_owned();
  if options.discard_case {
    word_string = word_string.to_lowercase();
  }''')],['P29'],'same'),
('alpha-only',[(H,'c.is_alphanumeric()','c.is_alphabetic()')],['P29'],'bug'),
('ascii-only',[(H,'c.is_alphanumeric()','c.is_ascii_alphanumeric()')],['P29'],'bug'),
('math-ignored',[(H,'if options.discard_math {','if !options.discard_math {')],['P29'],'bug'),
('cite-eq',[(H,'word_string.to_lowercase().contains("citationelement")','word_string.to_lowercase() == "citationelement"')],['P29'],'bug'),
('filter-retain',[(H,'''    word_string.retain(|c| c.is_alphanumeric());''','''    let mut kept = String::new();
    for c in word_string.chars() {
      if c.is_alphanumeric() {
        kept.push(c);
      }
    }
    word_string = kept;''')],['P29'],'same'),
('num-regex',[(H,r'^-?(?:\d+)(?:[a-k]|(?:\.\d+(?:[eE][+-]?\d+)?))?$',r'^-?\d+(?:[a-k]|\.\d+|\.\d+[eE][+-]?\d+)?$')],['P29'],'same'),
('num-regex-bug',[(H,r'^-?(?:\d+)(?:[a-k]|',r'^-?(?:\d+)(?:[a-l]|')],['P29'],'bug'),
('script',[(H,'info.script() != Script::Latin ||','info.script() == Script::Cyrillic ||')],['P29'],'bug'),
('confidence',[(H,'info.confidence() > 0.93','info.confidence() > 0.39')],['P29'],'bug'),
('detect-raw',[(H,'detect(detectable)','detect(&dnm.plaintext)')],['P29'],'bug'),
('foreign-map',[(H,'''  if let Some(info) = detect(detectable) {
    info.script() != Script::Latin || (info.lang() != Lang::Eng && info.confidence() > 0.93)
  } else {
    false
  }''','''  detect(detectable).map_or(false, |info| {
    if info.script() == Script::Latin {
      info.lang() != Lang::Eng && info.confidence() > 0.93
    } else {
      true
    }
  })''')],['P29'],'same'),
('path-keep-invalid',[(P,'''    if !invalid_paragraph {
      document''','''    {
      document''')],['P29'],'bug'),
('path-break-inner',[(P,"break 'sentences;",'break;')],['P29'],'same'),
('path-continue-inner',[(P,'''              invalid_paragraph = true;
              break 'sentences;''','''              continue 'sentences;''')],['P29'],'bug'),
('path-newline',[(P,"        paragraph_buffer.push('\\n');\n",'')],['P29'],'bug'),
('path-space',[(P,"          sentence_buffer.push(' ');\n",'')],['P29'],'bug'),
('path-flag-outside',[(P,'''  for mut paragraph in document.paragraph_iter() {
    let mut invalid_paragraph = false;''','''  let mut invalid_paragraph = false;
  for mut paragraph in document.paragraph_iter() {''')],['P29'],'bug'),
('ffi-trim',[(X,'value.to_string()','value.trim().to_string()')],['P29'],'bug'),
# token model
('tm-break-only',[(T,'''            overflow_count += 1;
            invalid_paragraph = true;''','''            overflow_count += 1;''')],['P30'],'bug'),
('tm-continue',[(T,"            break 'words;","            continue 'words;")],['P30'],'bug'),
('tm-no-flush',[(T,'''  token_writer
    .lock()
    .unwrap()
    .flush()
    .expect("token writer failed to flush, data is likely incomplete.");
''','')],['P30'],'bug'),
('tm-count-swap',[(T,'''String::from("word_count"), word_count''','''String::from("word_count"), num_count''')],['P30'],'bug'),
('tm-num-and-word',[(T,'''          } else {
            word_count += 1;
          }''','''          }
          word_count += 1;''')],['P30'],'bug'),
('tm-skip-math',[(T,'''insert("math".to_string(), SpecialTagsOption::Skip)''','''insert("mi".to_string(), SpecialTagsOption::Skip)''')],['P30'],'bug'),
('tm-discard-inv',[(T,'            if !discard_math {','            if discard_math {')],['P30'],'bug'),
('tm-words-only',[(T,'paragraph.word_and_punct_iter()','paragraph.word_iter()')],['P30'],'bug'),
('tm-plain-par',[(T,'document.extended_paragraph_iter()','document.paragraph_iter()')],['P30'],'bug'),
('tm-doc2',[(T,'String::from("document_count"), 1','String::from("document_count"), paragraph_count')],['P30'],'bug'),
('tm-buffer-outside',[(T,'''        thread_buffer.push(linebreak);
        thread_buffer.push_str(&paragraph_buffer);''','''        thread_buffer.push_str(&paragraph_buffer);
        thread_buffer.push(linebreak);''')],['P30'],'bug'),
('tm-format',[(T,'''          paragraph_buffer.push_str(word_str);
          paragraph_buffer.push(space);''','''          paragraph_buffer += &format!("{}{}", word_str, space);''')],['P30'],'same'),
('tm-array',[(T,'''    thread_counts.insert(String::from("citation_count"), citation_count);
    thread_counts.insert(String::from("num_count"), num_count);
''','''    for (name, count) in [("citation_count", citation_count), ("num_count", num_count)] {
      thread_counts.insert(name.to_string(), count);
    }
''')],['P30'],'same'),
('tm-entry',[(T,'''    thread_counts.insert(String::from("num_count"), num_count);
''','''    *thread_counts.entry(String::from("num_count")).or_insert(0) += num_count;
''')],['P30'],'same'),
]
