F='dnm/c14n.rs'
T=['P19','P22']
CASES=[
 ('no-reset',[(F,'    hasher.reset();\n','')],T,'bug'),
 ('hash-root',[(F,'&self.node_c14n_basic(node)','&self.node_c14n_basic(self.root_node)')],T,'bug'),
 ('no-sort',[(F,'            classes_split.sort_unstable();\n','')],T,'bug'),
 ('annot',[(F,'|| (name == "annotation-xml")','')],T,'bug'),
 ('blank',[(F,'!text.trim().is_empty()','!text.is_empty()')],T,'bug'),
 ('indent',[(F,'level + 2','level + 1')],T,'bug'),
 ('skip-last',[(F,'          let mut child_node = child;\n\n          while','          let mut child_node = child;\n\n          if')],T,'bug'),
 ('space-class',[(F,'            canonical_node.pop();\n','')],T,'bug'),
 ('close',[(F,'canonical_node.push_str("</")','canonical_node.push_str("<")')],T,'bug'),
 ('title-all',[(F,'s.get_mut(0..1)','s.get_mut(..)')],T,'bug'),
 ('lines',[(F,'.filter(|line| !line.is_empty())','')],T,'bug'),
 ('regex',[(F,'(?:NUM|','(?:NUM\\d*|')],T,'bug'),
 ('sep',[(F,'join(" . ")','join(". ")')],T,'bug'),
 ('stable-sort',[(F,'sort_unstable()','sort()')],T,'same'),
 ('child-loop',[(F,'''        if let Some(child) = node.get_first_child() {
          self.canonical_internal(child, next_indent_level, canonical_node);
          let mut child_node = child;

          while let Some(child) = child_node.get_next_sibling() {
            self.canonical_internal(child, next_indent_level, canonical_node);
            child_node = child;
          }
        }''','''        let mut next = node.get_first_child();
        while let Some(child) = next {
          self.canonical_internal(child, next_indent_level, canonical_node);
          next = child.get_next_sibling();
        }''')],T,'same'),
 ('class-join',[(F,'''            for class_value in classes_split {
              canonical_node.push_str(class_value);
              canonical_node.push(' ');
            }
            canonical_node.pop();''','''            canonical_node.push_str(&classes_split.join(" "));''')],T,'same'),
 ('filter-map',[(F,'''    .map(|line| MATH_LEXEMES_RE.replace_all(line, "mathformula "))
    .map(|line| make_ascii_titlecase(&line))''','''    .map(|line| make_ascii_titlecase(&MATH_LEXEMES_RE.replace_all(line, "mathformula ")))''')],T,'same'),
 ('early-unwrappable',[(F,'''        // Open the current node
        if name != "semantics" {''','''        // Open the current node
        let wrapper = name == "semantics";
        if !wrapper {'''),(F,'''        // Close the current node
        if name != "semantics" {''','''        // Close the current node
        if !wrapper {''')],T,'same'),
]
