D='data.rs'; C='parallel_data/corpus.rs'; O='parallel_data/document.rs'; P='parallel_data.rs'
SEL="""        let selected = if let Some(ref extension) = self.corpus.extension {
          file_name.ends_with(extension)
        } else {
          file_name.ends_with(".html") || file_name.ends_with(".xhtml")
        };"""
CASES=[
# the walk
('ends-at-bad',[(D,'''            Err(e) => println!("-- Error while parsing {:?}: {e:?}", entry.path()),''','''            Err(_) => return None,''')],['P23'],'bug'),
('ends-at-error',[(D,'''        println!("-- Error while walking for entry: {next_entry:?}")''','''        println!("-- Error while walking for entry: {next_entry:?}");
        break;''')],['P23'],'bug'),
('html-only',[(D,'file_name.ends_with(".html") || file_name.ends_with(".xhtml")','file_name.ends_with(".html")')],['P23'],'bug'),
('extension-and-default',[(D,'''          file_name.ends_with(extension)
        } else {''','''          file_name.ends_with(extension) || file_name.ends_with(".html")
        } else {''')],['P23'],'bug'),
('contains-ext',[(D,'file_name.ends_with(extension)','file_name.contains(extension.as_str())')],['P23'],'bug'),
('xml-parser-html',[(D,'if filepath.ends_with(".xhtml")','if filepath.ends_with(".html")')],['P23'],'bug'),
('parser-both',[(O,'''if filepath.ends_with(".xhtml") {''','''if filepath.ends_with("html") {''')],['P23'],'bug'),
('default-html',[(C,'html_parser: Parser::default_html()','html_parser: Parser::default()')],['P23'],'bug'),
('new-path-lost',[(D,'''    Corpus {
      path: dirpath,
      ..Corpus::default()
    }''','''    let _ = dirpath;
    Corpus::default()''')],['P23'],'bug'),
('walk-while',[(D,'''    loop {
      let next_entry = walker.next();
      if next_entry.is_none() {
        break;
      } else if let Some(Ok(ref entry)) = next_entry {''','''    while let Some(next_entry) = walker.next() {
      if let Ok(ref entry) = next_entry {''')],['P23'],'same'),
('walk-match',[(D,SEL,'''        let selected = match self.corpus.extension.as_deref() {
          Some(extension) => file_name.ends_with(extension),
          None => [".html", ".xhtml"].iter().any(|e| file_name.ends_with(e)),
        };''')],['P23'],'same'),
('walk-continue',[(D,'        if selected {\n','        if !selected {\n          continue;\n        }\n        {\n')],['P23'],'same'),
('parser-let',[(D,'''    let dom = if filepath.ends_with(".xhtml") {
      corpus.xml_parser.parse_file(&filepath)?
    } else {
      corpus.html_parser.parse_file(&filepath)?
    };''','''    let parser = match filepath.ends_with(".xhtml") {
      true => &corpus.xml_parser,
      false => &corpus.html_parser,
    };
    let dom = parser.parse_file(&filepath)?;''')],['P23'],'same'),
# merging
('merge-overwrites',[(C,'''        for (k, v) in map2 {
          let entry = map1.entry(k).or_insert(0);
          *entry += v;
        }
        map1
      })
  }

''','''        for (k, v) in map2 {
          map1.insert(k, v);
        }
        map1
      })
  }

''')],['P24'],'bug'),
('merge-max',[(C,'''          let entry = map1.entry(k).or_insert(0);
          *entry += v;
        }
        map1
      })
  }

''','''          let entry = map1.entry(k).or_insert(0);
          *entry = v.max(*entry);
        }
        map1
      })
  }

''')],['P24'],'bug'),
('merge-extend',[(C,'''        for (k, v) in map2 {
          let entry = map1.entry(k).or_insert(0);
          *entry += v;
        }
        map1
      })
  }

''','''        if map1.is_empty() {
          return map2;
        }
        map1.extend(map2);
        map1
      })
  }

''')],['P24'],'bug'),
('skip-one-in-1000',[(C,'''      .enumerate()
      .par_bridge()
      .map(|each| {
        let (index, path) = each;
        // an unparseable file must not terminate the walk
        let document = match Document::new(path.clone(), self) {
          Ok(document) => document,
          Err(e) => {
            println!("-- Error while parsing {path:?}: {e:?}");
            return HashMap::new();''','''      .enumerate()
      .par_bridge()
      .map(|each| {
        let (index, path) = each;
        if index % 1000 == 999 {
          return HashMap::new();
        }
        let document = match Document::new(path.clone(), self) {
          Ok(document) => document,
          Err(e) => {
            println!("-- Error while parsing {path:?}: {e:?}");
            return HashMap::new();''')],['P24'],'bug'),
('unwrap-again',[(C,'''        let document = match Document::new(path.clone(), self) {
          Ok(document) => document,
          Err(e) => {
            println!("-- Error while parsing {path:?}: {e:?}");
            return HashMap::new();
          },
        };''','''        let document = Document::new(path, self).unwrap();''')],['P24'],'bug'),
('merge-and-modify',[(C,'''        for (k, v) in map2 {
          let entry = map1.entry(k).or_insert(0);
          *entry += v;
        }
        map1
      })
  }

''','''        map2.into_iter().for_each(|(k, v)| {
          map1.entry(k).and_modify(|n| *n += v).or_insert(v);
        });
        map1
      })
  }

''')],['P24'],'same'),
('merge-no-count',[(C,'''        if index % 1000 == 0 && index > 0 {
          println!(
            "-- catalog_with_parallel_walk now processing document {:?}",
            1 + index
          );
        }
''','''        if index > 0 && index % 500 == 0 {
          println!("-- now processing document {:?}", index + 1);
        }
''')],['P24'],'same'),
('merge-helper',[(C,'''        for (k, v) in map2 {
          let entry = map1.entry(k).or_insert(0);
          *entry += v;
        }
        map1
      })
  }

''','''        add_all(&mut map1, map2);
        map1
      })
  }

'''),(C,'impl Default for Corpus {','''fn add_all(map: &mut HashMap<String, u64>, more: HashMap<String, u64>) {
  for (key, n) in more {
    if let Some(count) = map.get_mut(&key) {
      *count += n;
    } else {
      map.insert(key, n);
    }
  }
}

impl Default for Corpus {''')],['P24'],'same'),
# selections
('no-error-check',[(O,'''      "//*[local-name()='div' and contains(@class,'ltx_para') and not(descendant::*[contains(@class,'ltx_ERROR')]) and not(preceding-sibling::*[contains(@class,'ltx_ERROR')])]",''','''      "//*[local-name()='div' and contains(@class,'ltx_para') and not(descendant::*[contains(@class,'ltx_ERROR')])]",''')],['P25'],'bug'),
('second-node',[(O,'Some(vec_nodes.remove(0))','vec_nodes.pop()')],['P25'],'bug'),
('extended-order',[(O,'''    if let Some(anode) = Document::acknowledgement_node(&self.dom) {
      paras.push(anode);
    }
    paras.extend(Document::caption_nodes(&self.dom));''','''    paras.extend(Document::caption_nodes(&self.dom));
    if let Some(anode) = Document::acknowledgement_node(&self.dom) {
      paras.push(anode);
    }''')],['P25'],'bug'),
('extended-drop',[(O,'''      paras.push(keywords);''','''      if paras.is_empty() {
        paras.push(keywords);
      }''')],['P25'],'bug'),
('filter-post',[(O,'''    if filter(&node) {
      found.push(node);
    }
    for child in node.get_child_nodes().into_iter() {
      found.extend(Document::dfs_filter_nodes(child, filter));
    }''','''    for child in node.get_child_nodes().into_iter() {
      found.extend(Document::dfs_filter_nodes(child, filter));
    }
    if filter(&node) {
      found.push(node);
    }''')],['P25'],'bug'),
('filter-prunes',[(O,'''      found.push(node);
    }
    for child''','''      found.push(node);
      return found;
    }
    for child''')],['P25'],'bug'),
('xpath-reordered',[(O,'''"//*[local-name()='div' and contains(@class,'ltx_keywords') and not(descendant::*[contains(@class,'ltx_ERROR')])]"''','''"//*[contains(@class, 'ltx_keywords') and local-name() = 'div'][not(descendant::*[contains(@class,'ltx_ERROR')])]"''')],['P25'],'same'),
('extended-chain',[(O,'''    if let Some(anode) = Document::abstract_p_node(&self.dom) {
      paras.push(anode);
    }''','''    paras.extend(Document::abstract_p_node(&self.dom));''')],['P25'],'same'),
('first-into-iter',[(O,'''        let mut vec_nodes = found_payload.get_readonly_nodes_as_vec();
        if !vec_nodes.is_empty() {
          Some(vec_nodes.remove(0))
        } else {
          None
        }''','''        found_payload.get_readonly_nodes_as_vec().into_iter().next()''')],['P25'],'same'),
('nodes-unwrap-or',[(O,'''    match xpath_context.evaluate(xpath_str) {
      Ok(found_payload) => found_payload.get_readonly_nodes_as_vec(),
      _ => Vec::new(),
    }''','''    xpath_context
      .evaluate(xpath_str)
      .map(|found| found.get_readonly_nodes_as_vec())
      .unwrap_or_default()''')],['P25'],'same'),
# iterators
('stops-at-empty',[(D,'''        if range.is_empty() {
          self.next()
        } else {''','''        if range.is_empty() {
          None
        } else {''')],['P26'],'bug'),
('keeps-empty',[(P,'''      if range.is_empty() {
        self.next()
      } else {
        Some(ItemDNMRange {
          range,
          document: self.document,
        })
      }''','''      Some(ItemDNMRange {
        range,
        document: self.document,
      })''')],['P26'],'bug'),
('model-again',[(D,'''    if self.dnm.is_none() {
      if let Some(root)''','''    {
      if let Some(root)''')],['P26'],'bug'),
('model-params',[(O,'DNM::new(root, self.corpus.dnm_parameters.clone())','DNM::new(root, crate::dnm::DNMParameters::llamapun_normalization())')],['P26'],'bug'),
('senna-skips-last',[(D,'if pos < sen_sent.get_words().len()','if pos + 1 < sen_sent.get_words().len()')],['P26'],'bug'),
('senna-first',[(D,'pos: 0usize','pos: 1usize')],['P26'],'bug'),
('senna-pos',[(D,'pos: senna_word.get_pos()','pos: POS::NOT_SET')],['P26'],'bug'),
('senna-parses-again',[(D,'''      sentence: if self.senna_sentence.is_none() {
        self.senna_parse()
      } else {
        self
      },''','''      sentence: self.senna_parse(),''')],['P26'],'bug'),
('words-for-punct',[(P,'''    let words = tokenizer.words_and_punct(&self.range);''','''    let words = tokenizer.words(&self.range);''')],['P26'],'bug'),
('senna-get',[(D,'''    if pos < sen_sent.get_words().len() {
      let senna_word = &sen_sent.get_words()[pos];''','''    if let Some(senna_word) = sen_sent.get_words().get(pos) {''')],['P26'],'same'),
('next-question',[(D,'''    match self.walker.next() {
      None => None,
      Some(range) => Some(Word {
        range,
        sentence: self.sentence,
        pos: POS::NOT_SET,
      }),
    }''','''    let sentence = self.sentence;
    self.walker.next().map(|range| Word { range, sentence, pos: POS::NOT_SET })''')],['P26'],'same'),
('next-find',[(P,'''    if let Some(range) = self.walker.next() {
      if range.is_empty() {
        self.next()
      } else {
        Some(ItemDNMRange {
          range,
          document: self.document,
        })
      }
    } else {
      None
    }''','''    let document = self.document;
    let range = self.walker.find(|range| !range.is_empty())?;
    Some(ItemDNMRange { range, document })''')],['P26'],'same'),
]
