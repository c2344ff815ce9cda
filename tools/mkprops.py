import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m} for n,m in state]
    P.append({'id':id,'title':title,'statement':st,'quantifier':{'over':over,'text':q},'why_tests_cant':why,'anchors':a})
API='md_toc/api.py'; GEN='md_toc/generic.py'; CLI='md_toc/cli.py'
p('C01','ATX headings are recognised with their level and visibility',
 'For every line, a heading is recognised exactly when the line is one to six hashes after at most three spaces followed by a blank or by the end of the line (for redcarpet: not indented, followed by a space, and with a text); its level is the number of hashes. '
 'It is listed exactly when its level does not exceed the requested maximum level, for every parser. '
 'When several lines are given at once each is judged on its own: no line changes what is reported for another.',
 ['inputs','configurations'],'every text, every parser, every maximum level, links on or off',
 'The tests try some hundred fixed lines; the rule quantifies over all strings and all positions of blanks, hashes and newlines.',
 [API],[('heading scanner','get_atx_heading'),('header structure','get_md_header')])
p('C02','The text of a heading is what stands between its markers',
 'For every recognised heading, the text that is listed is the line without the opening hashes, without the blanks around the text and without an optional closing sequence of hashes, which counts as such only when it stands alone or after a blank. '
 'Nothing else is removed, added or reordered when links are off.',
 ['inputs','configurations'],'every heading line and every parser',
 'Closing sequences, trailing blanks and backslashes interact in unboundedly many ways; the tests fix a few of them.',
 [API],[('heading scanner','get_atx_heading')])
p('C03','Link labels in the TOC are valid and keep the heading text',
 'With links on, for the CommonMark family of parsers (github, cmark, gitlab, commonmarker, goldmark), every square bracket of the heading text that is not already escaped is preceded by exactly one added backslash, a text ending in a backslash gets one space after it, and nothing else changes. '
 'A label that is empty or blank is refused with the empty-label error and one longer than 999 characters before escaping with the overflow error, on headings only.',
 ['inputs'],'every heading text over all characters, of every length',
 'Runs of backslashes before brackets have unbounded length and the limit of 999 is a single boundary; tests use short fixed labels.',
 [API],[('label escaping','get_atx_heading')])
p('C04','Fenced code is recognised exactly and hides its headings',
 'A fenced code block starts at a line of at most three spaces and at least three backticks or tildes (no backtick after a backtick fence) and lasts until a line of at most three spaces and at least as many of the same character followed only by blanks, or to the end of the document. '
 'No line of such a block, the delimiting lines included, is ever listed; redcarpet has no fenced code.',
 ['inputs','histories'],'every sequence of lines, every parser',
 'The state carried from line to line (fence character and length) makes it a property of all sequences of lines.',
 [API],[('fence rules','is_valid_code_fence_indent, is_opening_code_fence, is_closing_code_fence'),('fence state','build_toc')],
 [('current fence','the run of characters that opened the current block')])
p('C05','The TOC lists exactly the visible headings, in document order',
 'For every file and every set of options the TOC has one entry for every heading outside fenced code whose level does not exceed the requested maximum, in the order of the document, and no other entry. '
 'Exactly the requested number of lines is skipped at the beginning, skipping past the end gives an empty TOC, and reading the same text from the standard input gives the same TOC as reading it from a file.',
 ['inputs','configurations'],'every document, every number of skipped lines, file or standard input',
 'The existing test of the TOC builder is empty; the property is about all documents.',
 [API],[('TOC loop','build_toc')])
p('C06','Duplicate headings get distinct anchors in GitHub style',
 'For the CommonMark family, the anchor of a heading is its slug when no earlier heading of the document has that slug, and the slug followed by a hyphen and the number of earlier headings with that slug otherwise. '
 'Headings that are too deep to be listed count as earlier headings as well, headings in fenced code do not, and no count is carried from one document to another.',
 ['inputs','histories'],'every sequence of headings',
 'The count depends on the whole history of headings; tests build at most two or three.',
 [API],[('duplicate counter','build_anchor_link'),('counter per document','build_toc')],
 [('duplicate counter','number of headings seen per slug')])
p('C07','Slugs of the CommonMark family follow the documented rule',
 'For the CommonMark family the slug of a heading is its lower-cased text without raw HTML tags, comments and processing instructions, without emphasis delimiters, keeping only word characters, hyphens and spaces, with every space replaced by a hyphen; gitlab also collapses runs of hyphens into one. '
 'It depends on nothing but the heading text and the parser.',
 ['inputs'],'every heading text',
 'The tests compare fixed strings; which characters are kept must hold for every code point at every position.',
 [API,'md_toc/constants.py'],[('slug','build_anchor_link, remove_html_tags, anchor_link_punctuation_filter')])
p('C08','Redcarpet anchors follow the redcarpet algorithm',
 'For redcarpet, the anchor keeps the ASCII characters of the text that are not punctuation, lower-cased, with one hyphen for each run of dropped characters between kept ones, skipping everything from < to > and from & to ;. '
 'When nothing is kept of a non-empty text the anchor is "part-" followed by the hexadecimal hash of the text (start 5381, times 33 plus each code point). '
 'Anchors never start or end with an added hyphen and never depend on earlier headings.',
 ['inputs'],'every heading text',
 'The translation of the C routine has four pieces of loop state; tests only cover a dozen strings.',
 [API],[('redcarpet anchor','build_anchor_link')])
p('C09','Every nested TOC entry is indented under its parent',
 'Without the no-indentation option, in every TOC of the CommonMark family an entry deeper than the preceding one is indented by the indentation of the preceding entry plus the width of its list marker plus one space, an entry on a level that is still open aligns with the latest entry of that level, and the first entry is not indented. '
 'For redcarpet the indentation is four spaces per level above the first level; with the no-indentation option there is none.',
 ['inputs','histories','configurations'],'every sequence of levels, ordered and unordered lists, every marker',
 'Marker widths grow with the numbers and the indentation depends on the whole history of levels; tests call single steps.',
 [API],[('indentation log','init_indentation_log, compute_toc_line_indentation_spaces'),('TOC loop','build_toc')],
 [('indentation log','indentation, number and marker of the latest entry per level')])
p('C10','Incoherent heading levels are refused, coherent ones never',
 'With indentation and list coherence on, generation fails with the incoherent-list error exactly when some listed heading is less deep than the first listed one or more than one level deeper than the preceding listed one. '
 'With the no-indentation or the no-list-coherence option it never fails for that reason.',
 ['inputs','histories','configurations'],'every sequence of listed levels',
 'It quantifies over all sequences of levels; no test runs the TOC builder on one.',
 [API],[('coherence check','build_toc')])
p('C11','Ordered lists are numbered consecutively per list',
 'In an ordered TOC every entry has the number of its predecessor in the same list plus one, a level starts again from one when the preceding entry is less deep, and with the constant option every number is one. '
 'For github, cmark, gitlab and commonmarker a number above 999999999 raises the overflow error, and no smaller number does.',
 ['inputs','histories','configurations'],'every sequence of levels, every counter value',
 'Numbers depend on the whole history of levels; tests call the counter for single steps.',
 [API],[('list numbers','increase_index_ordered_list'),('TOC loop','build_toc')],
 [('level counters','latest number per level')])
p('C12','TOC lines have the documented layout',
 'Every TOC line is its indentation, the list marker (for ordered lists the number followed by the closing marker), one space, and the text, as [text](#anchor) unless links are off, followed by the chosen newline string. '
 'An ordered TOC asked for with the default bullet or without an allowed closing marker uses the default closing marker, and an unordered one with a marker the parser does not allow is refused.',
 ['inputs','configurations'],'every heading text, marker, number and option',
 'No test covers how a complete line is put together with all options.',
 [API],[('layout','build_toc_line_without_indentation, build_toc_line, build_toc')])
p('C13','In-place writing replaces only the TOC block',
 'Writing a TOC into a file changes nothing when no line is the marker; with one marker line that line becomes the block (marker, blank line, TOC, blank line, marker); with two or more, the first pair of consecutive marker lines that encloses an old TOC or only blanks becomes the block, and otherwise the block is put before the first marker line. '
 'All other lines keep their text and order, and their line ends become the chosen newline string.',
 ['inputs'],'every file content, marker and TOC',
 'The tests use a handful of fixed files; the property is about all contents before, between and after the markers.',
 [API,GEN],[('in-place writing','write_string_on_file_between_markers'),('marker search','_get_existing_toc'),('line editing','_remove_line_intervals')])
p('C14','In-place writing is idempotent and agrees with the comparison',
 'Writing the same TOC again leaves the file exactly as the first writing left it, and reports it as equal when the TOC is a list made by this program whose first entry is not empty. '
 'The comparison of a TOC with a file and the result of writing it in place both say equal exactly when the text between the markers, without surrounding blanks, is the TOC without surrounding blanks.',
 ['inputs','histories'],'every file content and TOC, every number of repeated writings',
 'Idempotence is about pairs of runs on arbitrary files; the corresponding tests are empty.',
 [API,GEN],[('comparison','tocs_equal'),('in-place writing','write_string_on_file_between_markers'),('old TOC detection','_get_existing_toc, _detect_toc_list')])
p('C15','Files are written only on request and after all TOCs were built',
 'No file is created, changed or removed unless in-place writing is requested, and then only the named files are. '
 'When building the TOC of any of the named files fails, none of the files has been changed, and the standard input is never written to.',
 ['inputs','fault_sequences','configurations'],'every list of files, every option set, every failing file',
 'No test looks at the file system around a failing or a read-only run.',
 [API,CLI],[('command line','CliToApi.write_toc'),('in-place writing','write_strings_on_files_between_markers')])
p('C16','Command line options mean what they say and exit codes tell the result',
 'For every command line the TOC printed or written is the one obtained with the corresponding options: parser, marker, ordering, levels, links, indentation, coherence, skipped lines and newline string. '
 'The exit code is 128 exactly when the diff option is given and some TOC differs from the one in its file, 1 exactly when an error occurs, and 0 otherwise.',
 ['configurations','inputs'],'every combination of options and files',
 'The command line has no test at all.',
 [CLI,'md_toc/__main__.py'],[('option mapping','CliToApi.write_toc, CliInterface'),('exit code','main')])
p('C17','Emphasis removal deletes only emphasis delimiters',
 'For every text of the CommonMark family, removing emphasis deletes only asterisks and underscores (and NUL characters) and keeps all other characters in order; texts without them are unchanged. '
 'Asterisks and underscores that are escaped, inside code spans, autolinks, tags or link destinations, or not part of a delimiter pair under the CommonMark rules stay.',
 ['inputs'],'every heading text',
 'The delimiter algorithm depends on arbitrarily long runs and nestings; the tests contain the examples of the specification only.',
 [API,'md_toc/cmark/inlines_c.py'],[('delimiter algorithm','remove_emphasis, inlines_c'),('deletion of ranges','filter_indices_from_line')])
p('C18','Only documented errors leave the TOC generation',
 'Whatever the content of a readable text file, building its TOC with valid options either returns a text or raises one of the documented errors (empty link label, overflowing link label, overflowing list number, incoherent list). '
 'It never fails with an index, key, type or attribute error and always ends.',
 ['inputs','configurations'],'every document and every valid option set',
 'It is a statement about all documents; earlier releases crashed on a few short ones that no test contained.',
 [API,'md_toc/cmark/inlines_c.py'],[('whole pipeline','build_toc')])
p('C20','Several files are processed independently of each other',
 'The list of TOCs of several files has one element per file, in the order given, each being the TOC of that file alone; the same file given twice gives the same TOC twice. '
 'Writing several files gives each the content that writing it alone would give, and reports equal exactly when every one is.',
 ['inputs','histories'],'every list of files',
 'Leaks between files show only for particular combinations; no test passes more than one file.',
 [API],[('several files','build_multiple_tocs, write_strings_on_files_between_markers')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
