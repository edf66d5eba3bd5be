"""The catalogue of properties: writes properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na, state=state, observe=observe))
BASE = 'The two tests that run only look at the stop-word list; '
REF = 'path-sensitive abstract interpretation of MIR, compared path by path with a type-checked reference model'
TAB = 'path-sensitive abstract interpretation of MIR, checked against a decision table'
NOTE = 'Every path of the anchored functions (loops summarised by one generic iteration) must have the guard, effects, state changes and result of the rule. Trusts the library models, the stand-in crate signatures and the absence of arithmetic overflow; a comparison that cannot be settled is reported as open, not as a violation.'

prop('P01', 'Dictionary numbers words densely in order of first occurrence',
     'Recording a word that is new gives it the next number, starting at 1; recording it again changes nothing. The reported count equals the number of distinct words, and the sorted listing contains every word exactly once with its number, from the highest number down.',
     ['histories', 'inputs'], 'any sequence of words, in any order, with any repetitions',
     BASE + 'no test builds a dictionary, and density of the numbering is an invariant over all histories.',
     ['src/ngrams.rs'], [('insert checks membership before numbering', 'src/ngrams.rs Dictionary::insert'), ('sorted', 'src/ngrams.rs Dictionary::sorted')], TAB, NOTE,
     state=[('map', 'word to number', 'src/ngrams.rs Dictionary'), ('index', 'last number handed out', 'src/ngrams.rs Dictionary')])
prop('P02', 'n-gram counts equal the number of recorded occurrences',
     'Each recording of a phrase raises its count by exactly one and touches no other phrase; a phrase that was never recorded has count 0. The number of distinct phrases and the listing by descending count cover every recorded phrase exactly once. A table made without settings is empty, has no anchor and counts single words.',
     ['histories', 'inputs'], 'any sequence of recorded phrases', BASE + 'counts over arbitrary histories are not sampled at all.',
     ['src/ngrams.rs'], [('entry counting', 'src/ngrams.rs Ngrams::insert'), ('lookup', 'src/ngrams.rs Ngrams::get')], TAB, NOTE)
prop('P03', 'Every run of n consecutive words is counted exactly once',
     'Counting a word sequence records, for every position that has n words left, exactly one phrase: those n words joined by single spaces. Nothing else is recorded, and a sequence shorter than n records nothing.',
     ['inputs', 'configurations'], 'every word sequence and every n of at least one', BASE + 'the sliding window has no test for any length or n.',
     ['src/ngrams.rs'], [('sliding window', 'src/ngrams.rs Ngrams::record_words')], REF, NOTE)
prop('P04', 'Anchored counting keeps exactly the words near an anchor',
     'With an anchor word and a window size set, a word takes part in counting exactly when an anchor occurs at most window-size words before or after it, and every maximal run of such words is counted on its own. Adding content delegates to this whenever an anchor and a positive window are configured.',
     ['inputs', 'configurations'], 'every text, anchor and window size', BASE + 'interactions of overlapping windows, text ends and repeated anchors need specific inputs that no test has.',
     ['src/ngrams.rs'], [('context window and flushing of runs', 'src/ngrams.rs Ngrams::add_anchored_content')], REF, NOTE)
prop('P05', 'The stop-word set is the fixed lower-case vocabulary',
     'Loading the stop words yields the fixed published English list: every entry is one lower-case word, none is missing and none is added.',
     ['inputs'], 'every word asked for', 'The tests look up a handful of words; membership must be right for every word.',
     ['src/stopwords.rs'], [('constant list', 'src/stopwords.rs load')], 'constant propagation over MIR to the set of entries, compared with the vocabulary', NOTE)
prop('P06', 'Element readers report missing, repeated and non-text content',
     'Reading the text of a pattern element yields the text of its single text child, nothing when it is empty, and an error when it has several children or another kind of child. A required attribute that is absent is an error, and so is a property that was already given.',
     ['inputs'], 'every XML element', BASE + 'no test parses a pattern file.',
     ['src/patterns/utils.rs'], [('strict readers', 'src/patterns/utils.rs get_simple_node_content, require_node_property, check_found_property_already')], REF, NOTE)
prop('P07', 'Child elements are listed completely, in order, and strictly where promised',
     'Listing the child elements of a pattern element yields every element child once, in document order, skipping comments and blank text; the strict variant reports any other text as an error. Asking for the only child, or for no child, fails on every other number of children.',
     ['inputs'], 'every child list: any mixture of elements, text and comments', BASE + 'child lists of arbitrary shape are not sampled.',
     ['src/patterns/utils.rs'], [('sibling walk', 'src/patterns/utils.rs get_non_text_children, fast_get_non_text_children, get_only_child, assert_no_child')], REF, NOTE)
prop('P08', 'A formula becomes its lexemes in document order, or the fallback token',
     'A formula is rendered as the lexemes of all its annotations in document order, separated by single spaces: numbers, arrays, atoms and superscript operators reduced to their role, colons and hyphens replaced by underscores. A formula without lexemes becomes the fixed fallback token.',
     ['inputs', 'configurations'], 'every formula node and annotation content', BASE + 'no test renders a formula.',
     ['src/dnm/node.rs'], [('annotation query and lexeme clean-up', 'src/dnm/node.rs lexematize_math'), ('end markers', 'src/dnm/node.rs LEXEME_END_MARKER')], REF, NOTE)
prop('P09', 'Normalisation profiles treat exactly the documented names and classes',
     'The article profile replaces, skips or enters exactly the listed element names and classes with exactly the listed replacements and options; the default parameters have no special treatment, merge white space and support back mapping, and a fresh run starts by skipping leading white space.',
     ['configurations', 'inputs'], 'every element name and class', BASE + 'no test reads a profile.',
     ['src/dnm/parameters.rs'], [('profile tables', 'src/dnm/parameters.rs llamapun_normalization, Default')], REF, NOTE)
prop('P10', 'The simple plot has one point per entry: key against log2 of its count',
     'The simple plot draws exactly one point for every entry of the table, at the key and the base-2 logarithm of its value, in the given file with the given labels.',
     ['inputs'], 'every table', BASE + 'no test plots.', ['src/util/plot.rs'], [('point series', 'src/util/plot.rs plot_simple')], REF, NOTE)
prop('P11', 'Test resources are all (x)html files below the resource directory',
     'The list of test documents contains exactly the base names of the files with an html or xhtml extension found anywhere below the resource directory, each once.',
     ['configurations'], 'every directory content', BASE + 'the tests use two fixed files.', ['src/util/test.rs'], [('directory walk', 'src/util/test.rs RESOURCE_DOCUMENTS')], REF, NOTE)

prop('P12', 'Parameter diagnostics name the treatment and the contradictory options',
     'The debug text of a tag treatment shows its kind and, for a fixed replacement, the replacement. Checking parameters prints a warning naming the options exactly for the contradictory combinations (both stemming modes; stemming with lower-casing; stemming with back mapping), changes nothing, and prints nothing for any other combination.',
     ['configurations'], 'every combination of options', BASE + 'no test prints or checks parameters.',
     ['src/dnm/parameters.rs'], [('warnings', 'src/dnm/parameters.rs DNMParameters::check'), ('debug text', 'src/dnm/parameters.rs Debug for SpecialTagsOption')], TAB, NOTE)

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'catalogue_more.py')).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'catalogue_more.py')) else None

def main():
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            if p['state']: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            if p['observe']: a['observe_at'] = p['observe']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}, ensure_ascii=False) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 analysis/frontend.py',
         'checks': [{'property': p['id'], 'quick_cmd': './check %s quick' % p['id'], 'thorough_cmd': './check %s thorough' % p['id'], 'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': p['note']} for p in P if not p['na']],
         'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']]}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
if __name__ == '__main__': main()
