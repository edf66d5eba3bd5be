# Properties of the modules the sandbox build does not compile; the frontend type-checks them against stand-in crates.
NC = 'The tests of this module cannot run here, and where they can they look at a few fixed documents; '

prop('P13', 'Narrative text keeps one source offset per character, in step with the text',
     'Each text node contributes its content, normalised (unicode, stemming, case, white space) in this fixed order as the parameters ask. With back mapping on, every character of the resulting text has exactly one entry telling the node and offset it came from, also when one character is replaced by several; stemming and back mapping exclude each other. The byte offset table has the offset of every character, then the length of the text.',
     ['inputs', 'configurations'], 'every document and parameter choice', NC + 'offset drift needs particular characters.',
     ['src/dnm/mod.rs'], [('text of a node', 'src/dnm/mod.rs DNM::text_node_create'), ('transliteration with offsets', 'src/dnm/mod.rs DNM::normalize_unicode'), ('byte offsets', 'src/dnm/mod.rs DNM::new')], REF, NOTE)
prop('P14', 'Every node is entered, skipped or replaced as its treatment says',
     'An element is entered, skipped or replaced by fixed or computed text as the first class rule that applies to it says, else the rule for its name, else it is entered. Whatever the way, the range of text it contributed is recorded for it, and its children are visited once each in document order.',
     ['inputs', 'configurations'], 'every document tree and treatment table', NC + 'combinations of rules are not sampled.',
     ['src/dnm/mod.rs'], [('treatment dispatch', 'src/dnm/mod.rs DNM::intermediate_node_create'), ('node kinds', 'src/dnm/mod.rs DNM::recurse_node_create')], REF, NOTE)
prop('P15', 'Runs of white space become one blank, also across nodes',
     'With white space normalisation on, every run of white space becomes a single blank, also when the run is spread over several nodes, and every remaining character keeps its own source offset.',
     ['inputs', 'histories'], 'every sequence of text nodes', NC + 'the state carried from node to node is never sampled.',
     ['src/dnm/mod.rs'], [('carried white-space state', 'src/dnm/mod.rs DNM::normalize_whitespace')], REF, NOTE)
prop('P16', 'The range of a node is the text it contributed, an error if unvisited',
     'Asking for the range of a node gives exactly the range recorded for it and an error for a node that never was visited; the full range is that of the root. Building from a string wraps it as one paragraph under the given parameters, and the default model is empty.',
     ['inputs'], 'every node', NC + 'nodes outside the visited part are not sampled.',
     ['src/dnm/mod.rs'], [('node map', 'src/dnm/mod.rs DNM::get_range_of_node, DNM::get_range'), ('from text', 'src/dnm/mod.rs DNM::from_str, DNM::from_ams_paragraph_str, Default')], REF, NOTE)
prop('P17', 'A range is its characters: text, trimming and sub-ranges keep to them',
     'The text of a range is exactly the characters from its start up to its end. Trimming takes exactly the white-space characters off both ends, and nothing else, whatever their width in bytes; sub-ranges are relative to the start, and byte offsets are turned into the characters they fall into. A range of blanks trims to the empty range at its end.',
     ['inputs'], 'every text, with characters of any width, and every range', NC + 'they use ASCII text.',
     ['src/dnm/range.rs'], [('text', 'src/dnm/range.rs DNMRange::get_plaintext'), ('trimming', 'src/dnm/range.rs DNMRange::trim'), ('sub-ranges', 'src/dnm/range.rs DNMRange::get_subrange, get_subrange_from_byte_offsets')], REF, NOTE)
prop('P18', 'Pointers to ranges are written the way they are read back',
     'A range is written as a pointer to its first character and to the place behind its last one, also at the end of the text: by id where there is one, else by the path from the parent with the one-based number among the siblings of its kind, with one-based character numbers for text. Reading takes exactly this form apart again, and falls back to the nearest recorded ancestor.',
     ['inputs'], 'every document and range', NC + 'few nodes and ranges are tried.',
     ['src/dnm/range.rs'], [('writer', 'src/dnm/range.rs DNMRange::serialize, serialize_offset, serialize_node'), ('reader', 'src/dnm/range.rs DNMRange::deserialize, xpointer_to_offset')], REF, NOTE + ' That reading back yields the very same offsets depends on the document and is not decided.')
prop('P19', 'The canonical form and its hash depend on exactly names, classes and text',
     'The canonical form of a node holds the element names, the classes in sorted order, and the text of the narrative model, in document order, and nothing of attributes, annotations, comments, blanks or line breaks; the form and hash of a document are those of its root, and the hash is a fresh digest of exactly that form.',
     ['inputs'], 'every document', NC + 'two documents of the same form are never compared.',
     ['src/dnm/c14n.rs'], [('canonical form', 'src/dnm/c14n.rs canonical_internal'), ('hash', 'src/dnm/c14n.rs node_hash_basic')], REF, NOTE)
prop('P20', 'Words are exactly the runs of letters and digits, marks stand alone',
     'The words of a sentence are its maximal runs of letters and digits (an apostrophe before an s does not end one), in order, each a non-empty range within the sentence. With punctuation, every other character that is no white space is a word of its own, and an apostrophe stays with the closed list of endings. Positions count characters, not bytes.',
     ['inputs'], 'every text', NC + 'they use plain ASCII sentences.',
     ['src/tokenizer.rs'], [('words', 'src/tokenizer.rs Tokenizer::words'), ('words and marks', 'src/tokenizer.rs Tokenizer::words_and_punct')], REF, NOTE)
prop('P21', 'Sentences end exactly at the listed places, none is empty or overlaps',
     'A sentence ends at a full stop or colon before a capitalised word unless an abbreviation stands before it, always before a stop word, at question and exclamation marks outside brackets and quotes, before an opening quote, star or bracket, at a formula or paragraph break as listed. Sentences are trimmed, in order, not empty, and start where the one before ended; the list of abbreviations is fixed.',
     ['inputs', 'histories'], 'every text', NC + 'the window of characters carried along is never sampled.',
     ['src/tokenizer.rs'], [('segmentation', 'src/tokenizer.rs Tokenizer::sentences'), ('abbreviations', 'src/tokenizer.rs Tokenizer::abbreviation_check, Default')], REF, NOTE + ' Whether the heuristic cuts where a reader would is not decided.')
prop('P22', 'Normalised text keeps every non-empty line, lexemes become one placeholder',
     'Rebuilding the normalised text keeps every line that is not empty, in order and separated by full stops, with each run of math lexemes replaced by the formula placeholder and a leading ASCII letter made upper case; nothing else changes.',
     ['inputs'], 'every text', NC + 'few sentences are tried.',
     ['src/dnm/c14n.rs'], [('rebuilding', 'src/dnm/c14n.rs rebuild_normalized_text'), ('title case', 'src/dnm/c14n.rs make_ascii_titlecase')], REF, NOTE)
prop('P23', 'A corpus walk yields every selected document that can be read, once',
     'Walking a corpus gives, in the order of the directory walk, each file whose name ends with the chosen extension (.html and .xhtml when none is chosen) and that can be parsed; directory entries and files that cannot be read are passed over and never end the walk. Names in .xhtml are parsed as XML, all others as HTML. A new corpus has the default settings and the given path.',
     ['inputs', 'faults'], 'every directory tree, with unreadable entries and unparseable files anywhere in it', NC + 'the sample corpus has no broken file.',
     ['src/data.rs', 'src/parallel_data/document.rs', 'src/parallel_data/corpus.rs'], [('the walk', 'src/data.rs DocumentIterator::next'), ('reading', 'src/data.rs and src/parallel_data/document.rs Document::new'), ('settings', 'Corpus::default, Corpus::new')], REF, NOTE)
prop('P24', 'A parallel walk reports the sum over all documents, however it is split',
     'The catalog of a parallel walk is, key by key, the sum of what the closure reports for each selected document that can be read; hidden entries, other files and unreadable ones add nothing and stop nothing. Partial catalogs are merged by adding, so the grouping of the documents over threads has no influence.',
     ['inputs', 'schedules', 'faults'], 'every corpus, closure and split of the work over threads', NC + 'one order of merging is what a run sees.',
     ['src/parallel_data/corpus.rs'], [('one catalog', 'src/parallel_data/corpus.rs Corpus::catalog_with_parallel_walk'), ('two catalogs', 'src/parallel_data/corpus.rs Corpus::catalogs_with_parallel_walk')], REF, NOTE + ' rayon is taken to apply the closures as documented; the reduction is decided as a sum, which does not depend on the order.')
prop('P25', 'Selections of a document are exactly its error-free nodes of the kind',
     'Headings, paragraphs, formulas, references, captions, abstract, keywords and acknowledgement are the nodes of the fixed selection for each, without those that contain a conversion error (for paragraphs, also without those that follow one among their siblings); the extended walk gives them in its fixed order. A selection that cannot be evaluated is empty. A filtered walk gives a node before its descendants.',
     ['inputs'], 'every document and selector', NC + 'documents with errors in them are not sampled.',
     ['src/parallel_data/document.rs', 'src/data.rs'], [('selectors', 'src/parallel_data/document.rs Document::*_nodes, *_node, xpath_nodes, xpath_node'), ('walks', 'src/parallel_data/document.rs Document::extended_paragraph_iter, filter_iter'), ('sequential selectors', 'src/data.rs Document::paragraph_nodes')], REF, NOTE + ' XPath expressions are compared after putting operands in a fixed order; their evaluation by libxml2 is not analysed.')
prop('P26', 'Paragraphs, sentences and words come each once, in order, none empty',
     'Iterating a document, paragraph or sentence gives each paragraph, each non-empty sentence and each word exactly once and in order, each tied to its document; empty ranges are passed over and never end the iteration. The narrative model of a document is made once, under the parameters of its corpus; a sentence is parsed once, and its words are placed by their bytes.',
     ['inputs', 'histories'], 'every document, with empty ranges anywhere', NC + 'empty ranges in the middle are not sampled.',
     ['src/data.rs', 'src/parallel_data.rs', 'src/parallel_data/document.rs'], [('sequential iterators', 'src/data.rs Iterator impls, Paragraph::iter, Sentence::*_iter'), ('parallel iterators', 'src/parallel_data.rs Iterator impls, word_iter, word_and_punct_iter')], REF, NOTE)
prop('P27', 'Every listed statement name has its kind, and any other name is Other',
     'A statement environment is classified by its declared name: each of the 2508 listed names, and no other, belongs to its one kind; unlisted names are Other, unnamed statements are theorems, and proofs have a class of their own. Kinds of statements and headings are written under their fixed names, headings are read from their normal form in lower case, and a document counts as marked up when some statement is.',
     ['inputs'], 'every name and class attribute', 'No test names an environment.',
     ['src/ams.rs'], [('names', 'src/ams.rs normalize_env'), ('classes', 'src/ams.rs class_to_env'), ('written names', 'src/ams.rs Display and From impls'), ('markup', 'src/ams.rs has_markup, has_markup_xmldoc')],
     'symbolic paths of the MIR; the table of names as one decision per listed name, the rest by equivalence with a reference model', NOTE)
prop('P28', 'A heading has one normal form, in which its words stay apart',
     'The heading of a node is the normal forms of its words, without numbers, each followed by a blank. Its normal form drops numerals, single letters, the listed phrases around it and plural endings until nothing changes; then the listed spellings, beginnings and endings decide, in this order. Words next to a dropped part never grow together.',
     ['inputs'], 'every heading', NC + 'few headings are tried.',
     ['src/util/data_helpers.rs'], [('normal form', 'src/util/data_helpers.rs normalize_heading_title'), ('words', 'src/util/data_helpers.rs heading_from_node_aux')], REF, NOTE)
prop('P29', 'Words have one normal form; a document is one line per sentence',
     'A word is written in lower case without the characters that are neither letters nor digits (unless kept); citations and numbers become fixed tokens, formulas their lexemes or nothing; more than 25 bytes are refused. The text of a document is one line per sentence with its words in order; a paragraph with a refused word adds nothing and stops nothing. A document that cannot be read has no words, also across the C interface. A paragraph is foreign when it is in another script or surely in another language.',
     ['inputs', 'faults'], 'every word, document and path', NC + 'broken documents and overlong words are not sampled.',
     ['src/util/data_helpers.rs', 'src/util/path_helpers.rs', 'src/extern_use.rs'], [('words', 'src/util/data_helpers.rs ams_normalize_word_range, LexicalOptions::default'), ('language', 'src/util/data_helpers.rs invalid_for_english_latin'), ('document', 'src/util/path_helpers.rs path_to_words'), ('C interface', 'src/extern_use.rs word_tokenize_for_vec2doc')], REF, NOTE + ' How well a language is guessed is not decided.')
prop('P30', 'The token model has a line per complete paragraph and counts each token',
     'Extracting a token model writes, for each document of the corpus, one line per complete paragraph with its words in order, leaves out a paragraph with an overlong word as a whole, and counts every word, formula, citation, number and overlong word it meets once, in the total of its kind.',
     ['inputs', 'histories'], 'every corpus and options', NC + 'no test extracts a model.',
     ['src/util/token_model.rs'], [('extraction', 'src/util/token_model.rs extract')], REF, NOTE + ' Progress messages are not part of it.')
prop('P31', 'A rule file is read as written; what is wrong in it is an error',
     'Loading a pattern file gives exactly the rules, markers, sequences and word, formula, phrase and part-of-speech patterns written in it, with their children in order and each reference to the rule of that name. A rule declared twice for the same name, a reference to a rule that is never defined, an unknown element and a missing attribute or child are errors, never a partly loaded file or a panic.',
     ['inputs', 'faults'], 'every rule file', 'No test loads a rule file.',
     ['src/patterns/rules.rs', 'src/patterns/utils.rs'], [('loading', 'src/patterns/rules.rs PatternFile::load, load_from_node and the load_from_node of the patterns'), ('references', 'src/patterns/rules.rs get_rule_number, assert_every_rule_is_defined'), ('helpers', 'src/patterns/utils.rs')], REF, NOTE)
prop('P32', 'A pattern matches exactly the words and formulas it describes',
     'Matching a sentence gives every match of the chosen pattern and no other: alternatives are tried in order, a negation matches the words its pattern does not, sequences match their parts next to each other, descendants of formulas are searched at any depth, phrases span the words from their start to their end. Each marker in the pattern is reported with exactly the range it matched, in characters of the document; matches without words are no error.',
     ['inputs'], 'every rule file, document and sentence', 'No test matches a pattern.',
     ['src/patterns/matching.rs'], [('words', 'src/patterns/matching.rs match_word, match_pos, match_seq'), ('formulas', 'src/patterns/matching.rs match_math, match_mtext'), ('phrases', 'src/patterns/matching.rs get_phrase_matches, match_sentence'), ('markers', 'src/patterns/matching.rs get_marker_list and the result types')], REF, NOTE + ' Which tags and trees senna gives is not decided; that rules that refer to each other end is a property of its own.')
prop('P33', 'Every walk ends: loops make progress, recursion descends',
     'Whatever the document, text, rule file or sentence, reading and walking it ends: every round of a loop brings it nearer to its end (a step on in a list or document, a number nearer to its bound), and every cycle of calls has an argument that gets smaller (a part of a value, a node further on or further up, a shorter text, a narrower interval). No round and no call leaves everything it depends on as it was.',
     ['inputs', 'histories'], 'every input of every function of the crate', NC + 'a walk that does not end only hangs on the inputs that reach it, such as a text that ends in blanks.',
     ['src/dnm', 'src/tokenizer.rs', 'src/patterns', 'src/parallel_data.rs', 'src/util/data_helpers.rs'], [('loops', 'every loop of every function that does not walk over a finite list'), ('recursion', 'every cycle of the call graph')],
     'size-change graphs over the call sites of every cycle of the call graph; a lexicographic decrease over the rounds of every loop, on the symbolic paths of the MIR', 'Documents are finite trees, ranges of a document have their start before their end, and library calls return. Rules that refer to themselves are known findings.')
prop('P34', 'Results go where the caller says, and a failed write never goes unnoticed',
     'A file is created, replaced or drawn only at a path that the caller has passed in. Whenever something is written, flushed or drawn, a failure stops the function or is returned: no result is passed over, and a buffered writer is emptied before the function ends. No function ends the process, deletes files or changes the environment around it.',
     ['fault_sequences', 'inputs'], 'every place that writes and every failure of a write', 'The tests write nothing; a full disk is never sampled.',
     ['src/util/token_model.rs', 'src/util/plot.rs', 'src/util/data_helpers.rs'], [('writing calls', 'every call in the crate that creates, writes, flushes or draws')],
     'dataflow on the MIR: origin of every path written to, use of every result of a write, and emptiness of every buffered writer at every return', 'A plot is drawn by a separate program, whose own failures are not seen here.')
prop('P35', 'Analysing a document leaves the document as it was',
     'Functions that read a document leave its tree alone: no element, attribute or text of a tree is added, changed, moved or removed, except in trees that the function has made itself or that were handed to it for changing. There is no state shared between documents that can be written without protection.',
     ['inputs', 'histories'], 'every document and every sequence of analyses of it', NC + 'none of them compares a document before and after.',
     ['src/dnm', 'src/data.rs', 'src/parallel_data.rs', 'src/patterns', 'src/util/data_helpers.rs'], [('changing calls', 'every call in the crate of a library function that can change a tree'), ('statics', 'every static of the crate')],
     'origin analysis on the MIR: every value a tree-changing call receives is traced to its creation', 'Library calls with a shared receiver do not change the tree.')
prop('P36', 'No call waits for a lock or a value that it holds itself',
     'While a function holds a lock, an exclusive borrow or is making a value that is made on first use, neither it nor anything it calls asks for the same one again, and no code of its caller runs. Two locks are taken in the same order everywhere, so that parallel walks of a corpus never stop each other.',
     ['schedules', 'histories'], 'every interleaving of the threads of a parallel walk and every sequence of calls', NC + 'a dead end of this kind needs a particular interleaving or order of calls.',
     ['src/data.rs', 'src/parallel_data.rs', 'src/util/token_model.rs', 'src/util/data_helpers.rs'], [('acquisitions', 'every lock, borrow of a cell and first use of a lazily made value'), ('call graph', 'everything reached while one is held')],
     'live ranges of guards on the MIR, lock sets over the call graph, cycles of the lock order graph', 'Locks are told apart by the field, static or local that holds them.')

# --- properties that no static argument in reach decides
prop('P37', 'A pointer that is read back gives the range it was written from',
     'For every document and every range of its text, writing the range as a pointer and reading that pointer against the same document gives the same start and end.',
     ['inputs'], 'every document tree and every range of it', 'A round trip over one fixture shows nothing about id attributes, mixed content, namespaces or ranges that end where the document ends.',
     ['src/dnm/range.rs'], [('writer and reader', 'src/dnm/range.rs serialize, deserialize')],
     na='The reader hands an expression to the XPath engine of libxml2: what it selects is a fact about that C library and the run-time tree, not about this source. What this source contributes is decided: P18 decides how both halves are written and that they use the same steps.')
prop('P38', 'Sentence and word boundaries agree with a human reading',
     'On scholarly text the sentences and words found are, up to a small error rate, those a reader would mark.',
     ['inputs'], 'the distribution of scholarly text', 'Agreement on a sample says nothing about other text.',
     ['src/tokenizer.rs'], [('heuristics', 'src/tokenizer.rs sentences')],
     na='A statistical claim about natural language: there is no specification in or around the source to decide it against. P20 and P21 decide that the stated rules are followed.')
prop('P39', 'Paragraphs that are not English are recognised as such',
     'A paragraph in another language or script is reported as unsuitable, an English one is not.',
     ['inputs'], 'every text', 'Detection on a few texts says nothing about others.',
     ['src/util/data_helpers.rs'], [('language check', 'src/util/data_helpers.rs invalid_for_english_latin')],
     na='The verdict is computed by the trained model inside the whatlang crate (not even present here), over run-time text. P29 decides that the verdict is asked for and respected.')
prop('P40', 'Stems and ASCII forms are linguistically right',
     'Stemming maps the inflected forms of a word to one form, and ASCII transliteration gives the usual spelling.',
     ['inputs'], 'every word', 'No table of examples covers a language.',
     ['src/dnm/mod.rs'], [('stemming and transliteration', 'src/dnm/mod.rs stem_words, normalize_unicode')],
     na='Both are tables inside the rustmorpha and unidecode crates, which are not part of this source (nor present here). P13 decides where and in which order they are applied.')
prop('P41', 'A corpus walk uses memory bounded by its largest document',
     'However many documents a corpus has, walking it needs at any time no more memory than the documents being worked on and the catalog.',
     ['histories'], 'every corpus', 'The test corpora are two files.',
     ['src/parallel_data/corpus.rs'], [('walk', 'src/parallel_data/corpus.rs catalog_with_parallel_walk')],
     na='Memory is held by libxml2 trees, reference counts and thread scheduling of rayon; a bound needs run-time quantities (document sizes, number of tasks in flight) that no static argument here bounds.')
