"""Which contracts, obligations and search decide each property."""

FAM = ('github', 'cmark', 'gitlab', 'commonmarker', 'goldmark')


def comp(*names):
    """Select obligations by the name of the component they are about."""

    def f(what):
        return any(n in what for n in names)

    f.names = names
    return f


def every(case):
    return True


def links_off(case):
    return case['no_links'] is True


def family(case):
    return case['parser'] != 'redcarpet'


class Use:
    """Obligations of one contract that a property rests on."""

    def __init__(self, target, cases=every, comps=None, weight=0):
        self.target, self.cases, self.comps = target, cases, comps
        self.weight = weight


A = 'md_toc.api.'
V = 'contracts.'
G = 'md_toc.generic.'
K = 'md_toc.cmark.'

def whole(comps=None, cases=every):
    """The contract of build_toc."""
    return Use(A + 'build_toc', cases, comps, weight=10)


def numbered(case):
    return case.get('ordered') is not False


PROPS = {
    'C01': dict(
        modules=['headings'],
        uses=[
            Use(A + 'get_atx_heading', links_off,
                comp('header_type', 'visible', 'outcome', 'exception')),
        ],
        search='headings:C01'),
    'C02': dict(
        modules=['headings'],
        uses=[
            Use(A + 'get_atx_heading', links_off,
                comp('header_text_trimmed', 'outcome')),
        ],
        search='headings:C02'),
    'C03': dict(
        modules=['headings'],
        uses=[
            Use(A + 'get_atx_heading',
                lambda c: c['parser'] != 'redcarpet' and not c['no_links'],
                comp('header_text_trimmed', 'outcome', 'exception')),
        ],
        search='headings:C03'),
    'C04': dict(
        modules=['toc'],
        uses=[
            Use(A + 'is_valid_code_fence_indent'),
            Use(A + 'is_opening_code_fence'),
            Use(A + 'is_closing_code_fence'),
            Use(V + 'fences.opening_fence@view'),
            Use(V + 'fences.closing_fence@view'),
            whole(),
        ],
        search='fences:C04'),
    'C05': dict(
        modules=['toc'],
        uses=[
            Use(V + 'headings.atx_heading@view'),
            Use(A + 'get_md_header'),
            whole(),
        ],
        search='toc:C05'),
    'C06': dict(
        modules=['toc'],
        uses=[
            Use(A + 'build_anchor_link', family),
            Use(V + 'anchors.anchor@view', family),
            Use(A + 'get_md_header', family),
            whole(cases=family),
        ],
        search='toc:C06'),
    'C07': dict(
        modules=['anchors'],
        uses=[
            Use(A + 'build_anchor_link', family),
            Use(A + 'remove_html_tags'),
            Use(A + 'anchor_link_punctuation_filter'),
        ],
        search='anchors:C07'),
    'C08': dict(
        modules=['anchors'],
        uses=[Use(A + 'build_anchor_link', lambda c: not family(c))],
        search='anchors:C08'),
    'C09': dict(
        modules=['toc'],
        uses=[
            Use(A + 'init_indentation_log'),
            Use(A + 'compute_toc_line_indentation_spaces'),
            Use(A + 'build_toc_line'),
            Use(V + 'lists.toc_line@view'),
            whole(),
        ],
        search='toc:C09'),
    'C10': dict(
        modules=['toc'],
        uses=[whole(comp('outcome', 'exception'))],
        search='toc:C10'),
    'C11': dict(
        modules=['toc'],
        uses=[
            Use(A + 'increase_index_ordered_list'),
            whole(cases=numbered),
        ],
        search='toc:C11'),
    'C12': dict(
        modules=['toc'],
        uses=[
            Use(A + 'build_toc_line_without_indentation'),
            Use(V + 'lists.line_without_indentation@view'),
            Use(A + 'build_toc_line'),
            Use(V + 'lists.toc_line@view'),
            whole(),
        ],
        search='toc:C12'),
    'C13': dict(
        modules=['files'],
        uses=[
            Use(G + '_read_line_interval'),
            Use(G + '_string_empty'),
            Use(G + '_detect_toc_list'),
            Use(A + 'write_string_on_file_between_markers'),
            Use(V + 'files.write@view'),
        ],
        search='files:C13'),
    'C14': dict(
        modules=['files'],
        uses=[
            Use(G + '_read_line_interval'),
            Use(G + '_string_empty'),
            Use(G + '_detect_toc_list'),
            Use(A + 'tocs_equal'),
            Use(V + 'files.equal_toc@view'),
            Use(A + 'write_string_on_file_between_markers'),
            Use(V + 'files.write@view'),
        ],
        search='files:C14'),
    'C15': dict(
        modules=['toc', 'files', 'command'],
        uses=[
            Use(A + 'build_multiple_tocs'),
            Use(V + 'toc.tocs@view'),
            Use(A + 'write_string_on_file_between_markers'),
            Use(V + 'files.write@view'),
            Use(A + 'write_strings_on_files_between_markers'),
            Use('md_toc.cli.CliToApi.write_toc'),
        ],
        search='files:C15'),
    'C16': dict(
        modules=['toc', 'files', 'command'],
        uses=[
            Use(A + 'build_multiple_tocs'),
            Use(V + 'toc.tocs@view'),
            Use(A + 'tocs_equal'),
            Use(V + 'files.equal_toc@view'),
            Use('md_toc.cli.CliToApi.write_toc'),
            Use('md_toc.__main__.main'),
        ],
        search='files:C16'),
    'C17': dict(
        modules=['emphasis'],
        uses=[
            Use(K + 'utf8_c._cmark_cmark_utf8proc_is_space'),
            Use(K + 'utf8_c._cmark_cmark_utf8proc_is_punctuation'),
            Use(K + 'inlines_c._cmark_scan_delims'),
            Use(K + 'inlines_c._cmark_handle_backslash',
                comps=comp('final', 'outcome', 'exception')),
            Use(K + 'inlines_c._cmark_handle_delim@first',
                comps=comp('ensures', 'final subj.pos', 'outcome',
                           'exception')),
            Use(K + 'inlines_c._cmark_handle_delim@next',
                comps=comp('ensures', 'final subj.pos', 'outcome',
                           'exception')),
            Use(K + 'inlines_c._cmark_remove_delimiter@alone'),
            Use(K + 'inlines_c._cmark_remove_delimiter@first'),
            Use(K + 'inlines_c._cmark_remove_delimiter@last'),
            Use(K + 'inlines_c._cmark_remove_delimiter@between'),
            Use(K + 'chunk_h._cmark_cmark_chunk_rtrim'),
            Use(K + 'inlines_c._cmark_skip_spaces'),
            Use(K + 'inlines_c._cmark_take_while'),
            Use(K + 'inlines_c._cmark_skip_line_end'),
            Use(K + 'inlines_c._cmark_manual_scan_link_url_2'),
            Use(K + 'inlines_c._cmark_manual_scan_link_url'),
            Use(K + 'inlines_c._cmark_subject_find_special_char',
                comps=comp('ensures', 'outcome', 'exception', 'modified')),
        ],
        level='exploration',
        assumptions=['the preconditions of the contracts (no NUL, positions '
                     'inside of the text, a well-formed list) hold at their callers in '
                     'inlines_c, which are not under contract'],
        search='emphasis:C17'),
    'C18': dict(
        modules=['toc'],
        uses=[whole(comp('outcome', 'exception'))],
        search='toc:C18'),
    'C20': dict(
        modules=['toc', 'files'],
        uses=[
            Use(A + 'build_multiple_tocs'),
            Use(V + 'toc.tocs@view'),
            Use(V + 'toc.toc@view'),
            Use(A + 'write_strings_on_files_between_markers'),
        ],
        search='toc:C20'),
}

NOTES = {
    'C13': 'Proved for all files, markers and TOCs: which lines are found and '
    'which line edits are made, in which order. Assumed: the contracts of '
    'fpyutils (what a line edit writes). '
    'Bounded: the bytes of the file after the edits.',
    'C14': 'Proved for all files: the comparison and the result of writing '
    'both say equal exactly when the text between the markers is the TOC. '
    'Bounded: writing twice leaves the same bytes (two runs through '
    'fpyutils, whose contracts are assumed).',
    'C15': 'Proved for all options and lists of files: the effects of the '
    'command are its prints, or the edits of the named files after all TOCs '
    'were built, and the standard input is refused. Assumed: the contracts '
    'of fpyutils; the argument parser.',
    'C16': 'Proved for all parsed options: the result of the command and what '
    'it prints or writes, and the exit code of main. Assumed there, and '
    'bounded: the argument parser (option names, defaults, choices).',
    'C17': 'Bounded, not counted as proved: the delimiter and bracket lists, '
    'with an independent implementation of the CommonMark rules as the '
    'oracle. Proved for all texts, function by function: which runs of '
    'delimiters can open and close and that they are put at the end of the '
    'list with their place, the removal of one delimiter, what a backslash '
    'takes, runs of backticks, blanks, link destinations, and that no special '
    'character is skipped.',
    'C20': 'Proved for all lists of files, on the contract of build_toc '
    '(proved under C05) and of the single-file writer (proved under C13).',
}
for _p, _n in NOTES.items():
    PROPS[_p]['note'] = _n
