"""build_toc: the table of contents as a function of the lines of the
document (C04-C06, C09-C12, C18)."""
from md_toc.exceptions import (GithubEmptyLinkLabel,
                               GithubOverflowCharsLinkLabel,
                               GithubOverflowOrderedListMarker,
                               StringCannotContainNewlines,
                               TocDoesNotRenderAsCoherentList)
from pyvc.contract import (BOOL, FAMILY, INT, STR, STRS, NotIn, OneOf,
                           contract)
from pyvc.spec import (become, doc_of, document, forall, implies, initial,
                       line_at, listing, nlines,
                       opaque, positive, reads, rec, same_map, world)

from .anchors import (digest, has_newline, redcarpet_anchor, slug,
                      with_number)
from .fences import PARSER, closing, is_fence, opening
from .headings import label_error, label_of, level_of
from .lists import LEVELS, MAX_NUMBER, bare, bullets, closings, indented, under

ST = ('parser', 'ordered', 'constant')


# ------------------------------------------------------------ the document
@rec('optstr', static=ST)
def fence(d, s, k, parser):
    """The fence of the code block that line k is in or closes."""
    if k <= s:
        return None
    f = fence(d, s, k - 1, parser)
    line = line_at(d, k - 1)
    if f is None:
        return opening(line, parser)
    if closing(line, f, False, parser):
        return None
    return f


def level(d, s, k, parser):
    """Level of the heading on line k, 0 if it has none."""
    line = line_at(d, k)
    return (0 if fence(d, s, k, parser) is not None
            or opening(line, parser) is not None
            else level_of(line, parser))


def shown(d, s, k, parser, keep):
    """Level of the TOC entry of line k, 0 if it has none."""
    lev = level(d, s, k, parser)
    return lev if lev <= keep else 0


@rec('map', static=ST)
def anchors(d, s, k, parser, no_links):
    """How many headings before line k have an anchor."""
    if k <= s:
        return {}
    m = anchors(d, s, k - 1, parser, no_links)
    if parser == 'redcarpet':
        return m
    if level(d, s, k - 1, parser) == 0:
        return m
    key = digest(slug(label_of(line_at(d, k - 1), parser, no_links), parser))
    n = m[key] if key in m else 0
    m[key] = n + 1
    return m


def name(d, s, k, parser, no_links):
    """Anchor of the heading on line k."""
    t = label_of(line_at(d, k), parser, no_links)
    if parser == 'redcarpet':
        return redcarpet_anchor(t)
    a = slug(t, parser)
    m = anchors(d, s, k, parser, no_links)
    key = digest(a)
    return with_number(a, m[key] if key in m else 0)


# ----------------------------------------------------------------- the list
@rec('int', static=ST)
def last(d, s, k, parser, keep):
    """Level of the last entry before line k."""
    if k <= s:
        return 0
    lev = shown(d, s, k - 1, parser, keep)
    return lev if lev != 0 else last(d, s, k - 1, parser, keep)


@rec('int', static=ST)
def first(d, s, k, parser, keep):
    """Level of the first entry, if it is before line k."""
    if k <= s:
        return 0
    f = first(d, s, k - 1, parser, keep)
    return f if f != 0 else shown(d, s, k - 1, parser, keep)


@rec('map', static=ST)
def numbers(d, s, k, parser, keep):
    """Number of the last entry of every level."""
    if k <= s:
        return {}
    m = numbers(d, s, k - 1, parser, keep)
    lev = shown(d, s, k - 1, parser, keep)
    if lev == 0:
        return m
    p = last(d, s, k - 1, parser, keep)
    key = 'h' + str(lev)
    m[key] = m[key] + 1 if key in m and not (p != 0 and p < lev) else 1
    return m


def number(d, s, k, parser, keep, ordered, constant):
    """Number of the entry of line k."""
    if constant or not ordered:
        return 1
    m = numbers(d, s, k, parser, keep)
    lev = shown(d, s, k, parser, keep)
    p = last(d, s, k, parser, keep)
    key = 'h' + str(lev)
    return m[key] + 1 if key in m and not (p != 0 and p < lev) else 1


@rec('int', static=ST)
def column(d, s, k, i, parser, keep, ordered, constant, marker):
    """Spaces before the last entry of level i."""
    if k <= s:
        return 0
    lev = shown(d, s, k - 1, parser, keep)
    old = column(d, s, k - 1, i, parser, keep, ordered, constant, marker)
    if parser == 'redcarpet':
        return 4 * (lev - 1) if lev == i else old
    p = last(d, s, k - 1, parser, keep)
    parent = under(
        column(d, s, k - 1, p, parser, keep, ordered, constant, marker),
        marker,
        width(d, s, k - 1, p, parser, keep, ordered, constant),
        ordered)
    return (old if lev == 0
            else (0 if p == 0 else parent if lev > p else old) if lev == i
            else 0 if p != 0 and lev < p and i > lev else old)


@rec('int', static=ST)
def width(d, s, k, i, parser, keep, ordered, constant):
    """Number of the last entry of level i, 0 when a shallower one came."""
    if k <= s:
        return 0
    lev = shown(d, s, k - 1, parser, keep)
    old = width(d, s, k - 1, i, parser, keep, ordered, constant)
    if parser == 'redcarpet':
        return old
    p = last(d, s, k - 1, parser, keep)
    n = (number(d, s, k - 1, parser, keep, ordered, constant)
         if ordered else old)
    return (old if lev == 0
            else n if lev == i
            else 0 if p != 0 and lev < p and i > lev else old)


def indent(d, s, k, parser, keep, ordered, constant, marker, no_indentation):
    """Spaces before the entry of line k."""
    lev = shown(d, s, k, parser, keep)
    return (0 if no_indentation else
            column(d, s, k + 1, lev, parser, keep, ordered, constant, marker))


def incoherent(d, s, k, parser, keep):
    """The entry of line k is shallower than the first one or skips a
    level."""
    lev = shown(d, s, k, parser, keep)
    f = first(d, s, k, parser, keep)
    p = last(d, s, k, parser, keep)
    return f != 0 and (lev < f or lev > p + 1)


def error_at(d, s, k, parser, keep, ordered, constant, marker, no_links,
             no_indentation, no_list_coherence):
    """Why line k has no TOC entry, 0 if there is no reason."""
    if level(d, s, k, parser) == 0:
        return 0
    line = line_at(d, k)
    e = label_error(line, parser, no_links)
    if e == 1 or e == 2:
        return e
    if has_newline(label_of(line, parser, no_links)):
        return 5
    if shown(d, s, k, parser, keep) == 0:
        return 0
    if (number(d, s, k, parser, keep, ordered, constant) > MAX_NUMBER
            and parser != 'goldmark' and parser != 'redcarpet'):
        return 3
    if (not no_indentation and not no_list_coherence
            and incoherent(d, s, k, parser, keep)):
        return 4
    if not ordered and marker not in bullets(parser):
        return 6
    return 0


@rec('int', static=ST, sticky='k')
def error(d, s, k, parser, keep, ordered, constant, marker, no_links,
          no_indentation, no_list_coherence):
    """The first error before line k."""
    if k <= s:
        return 0
    e = error(d, s, k - 1, parser, keep, ordered, constant, marker, no_links,
              no_indentation, no_list_coherence)
    if e != 0:
        return e
    return error_at(d, s, k - 1, parser, keep, ordered, constant, marker,
                    no_links, no_indentation, no_list_coherence)


def entry(d, s, k, parser, keep, ordered, constant, marker, no_links,
          no_indentation):
    return indented(
        bare(ordered, no_links,
             number(d, s, k, parser, keep, ordered, constant), marker,
             label_of(line_at(d, k), parser, no_links),
             name(d, s, k, parser, no_links)),
        indent(d, s, k, parser, keep, ordered, constant, marker,
               no_indentation))


@rec('str', static=ST)
def text(d, s, k, parser, keep, ordered, constant, marker, no_links,
         no_indentation, newline):
    """The TOC of the lines before line k."""
    if k <= s:
        return ''
    t = text(d, s, k - 1, parser, keep, ordered, constant, marker, no_links,
             no_indentation, newline)
    if shown(d, s, k - 1, parser, keep) == 0:
        return t
    return t + entry(d, s, k - 1, parser, keep, ordered, constant, marker,
                     no_links, no_indentation) + newline


# ------------------------------------------------------------------ options
def is_ordered(ordered, constant):
    return ordered or constant


def marker_of(parser, ordered, constant, list_marker):
    if not is_ordered(ordered, constant):
        return list_marker
    return list_marker if list_marker in closings(parser) else '.'


# --------------------------------------------------------------- invariants
def inv_position(f: 'file', line: 'str', arg_skip_lines):
    """The current line is the last one read."""
    d, k, s = doc_of(f), reads(f) - 1, arg_skip_lines
    n = nlines(d)
    return (line == line_at(d, k) and k >= 0 and implies(s < n, s <= k
                                                         and k <= n)
            and implies(s >= n, k >= n))


def inv_flag(f: 'file', is_within_code_fence: 'bool', arg_skip_lines, arg_parser):
    d, k, s = doc_of(f), reads(f) - 1, arg_skip_lines
    return implies(k < nlines(d),
                   is_within_code_fence == (fence(d, s, k, arg_parser) is not None))


def inv_end(f: 'file', is_document_end: 'bool'):
    return implies(reads(f) - 1 < nlines(doc_of(f)), not is_document_end)


def inv_fence(f: 'file', code_fence: 'optstr', arg_skip_lines, arg_parser):
    d, k, s = doc_of(f), reads(f) - 1, arg_skip_lines
    return implies(k < nlines(d),
                   implies(fence(d, s, k, arg_parser) is not None,
                           code_fence is not None
                           and code_fence == fence(d, s, k, arg_parser)))


def inv_isfence(code_fence: 'optstr'):
    return code_fence is None or is_fence(code_fence)


def inv_last(f: 'file', header_type_prev: 'int', arg_skip_lines, arg_parser,
             arg_keep_header_levels):
    d, k, s = doc_of(f), reads(f) - 1, arg_skip_lines
    return implies(s < nlines(d), header_type_prev == last(
        d, s, k, arg_parser, arg_keep_header_levels))


def inv_first(f: 'file', header_type_first: 'int', arg_skip_lines, arg_parser,
              arg_keep_header_levels, arg_no_indentation,
              arg_no_list_coherence):
    d, k, s = doc_of(f), reads(f) - 1, arg_skip_lines
    return implies(s < nlines(d) and not arg_no_indentation
                   and not arg_no_list_coherence,
                   header_type_first == first(d, s, k, arg_parser, arg_keep_header_levels))


def inv_both(header_type_first: 'int', header_type_prev: 'int',
             arg_no_indentation, arg_no_list_coherence):
    return (arg_no_indentation or arg_no_list_coherence
            or (header_type_first == 0) == (header_type_prev == 0))


def inv_range(header_type_prev: 'int'):
    return 0 <= header_type_prev and header_type_prev <= 6


def inv_anchors(f: 'file', header_duplicate_counter: 'map', arg_skip_lines, arg_parser,
                arg_no_links):
    d, k, s = doc_of(f), reads(f) - 1, arg_skip_lines
    return implies(s < nlines(d), same_map(
        header_duplicate_counter, anchors(d, s, k, arg_parser, arg_no_links)))


def inv_numbers(f: 'file', header_type_counter: 'map', arg_skip_lines, arg_parser,
                arg_keep_header_levels):
    d, k, s = doc_of(f), reads(f) - 1, arg_skip_lines
    return implies(s < nlines(d), same_map(
        header_type_counter, numbers(d, s, k, arg_parser, arg_keep_header_levels)))


def inv_positive(header_type_counter: 'map'):
    return positive(header_type_counter)


def inv_log(f: 'file', indentation_log: 'dict', arg_skip_lines, arg_parser,
            arg_keep_header_levels, arg_ordered, arg_constant_ordered_list,
            arg_list_marker, arg_no_indentation):
    d, k, s = doc_of(f), reads(f) - 1, arg_skip_lines
    o = is_ordered(arg_ordered, arg_constant_ordered_list)
    m = marker_of(arg_parser, arg_ordered, arg_constant_ordered_list,
                  arg_list_marker)
    r = True
    for i in LEVELS:
        row = indentation_log[i]
        r = (r and row['list_marker'] == m
             and row['indentation_spaces'] == column(
                 d, s, k, i, arg_parser, arg_keep_header_levels, o,
                 arg_constant_ordered_list, m)
             and row['index'] == width(
                 d, s, k, i, arg_parser, arg_keep_header_levels, o,
                 arg_constant_ordered_list))
    return implies(s < nlines(d) and not arg_no_indentation, r)


def inv_markers(indentation_log: 'dict', arg_parser, arg_ordered,
                arg_constant_ordered_list, arg_list_marker):
    m = marker_of(arg_parser, arg_ordered, arg_constant_ordered_list,
                  arg_list_marker)
    r = True
    for i in LEVELS:
        r = (r and indentation_log[i]['list_marker'] == m
             and indentation_log[i]['indentation_spaces'] >= 0 and indentation_log[i]['index'] >= 0)
    return r


def inv_fresh(indentation_log: 'dict', header_type_prev: 'int'):
    """Nothing is indented before the first entry."""
    r = True
    for i in LEVELS:
        r = r and indentation_log[i]['indentation_spaces'] == 0
    return header_type_prev != 0 or r


def inv_text(f: 'file', toc: 'joined', arg_skip_lines, arg_parser,
             arg_keep_header_levels, arg_ordered, arg_constant_ordered_list,
             arg_list_marker, arg_no_links, arg_no_indentation,
             arg_newline_string):
    d, k, s = doc_of(f), reads(f) - 1, arg_skip_lines
    o = is_ordered(arg_ordered, arg_constant_ordered_list)
    m = marker_of(arg_parser, arg_ordered, arg_constant_ordered_list,
                  arg_list_marker)
    return (implies(s < nlines(d), toc == text(
        d, s, k, arg_parser, arg_keep_header_levels, o,
        arg_constant_ordered_list, m, arg_no_links, arg_no_indentation,
        arg_newline_string)) and implies(s >= nlines(d), toc == ''))


def inv_error(f: 'file', arg_skip_lines, arg_parser, arg_keep_header_levels,
              arg_ordered, arg_constant_ordered_list, arg_list_marker,
              arg_no_links, arg_no_indentation, arg_no_list_coherence):
    d, k, s = doc_of(f), reads(f) - 1, arg_skip_lines
    o = is_ordered(arg_ordered, arg_constant_ordered_list)
    m = marker_of(arg_parser, arg_ordered, arg_constant_ordered_list,
                  arg_list_marker)
    return implies(s < nlines(d), error(
        d, s, k, arg_parser, arg_keep_header_levels, o,
        arg_constant_ordered_list, m, arg_no_links, arg_no_indentation,
        arg_no_list_coherence) == 0)


# skipping lines
def inv_skip(f: 'file', loop: 'bool', line_counter: 'int', arg_skip_lines):
    n, s = nlines(doc_of(f)), arg_skip_lines
    return (implies(loop, reads(f) == line_counter - 1 and line_counter >= 1 and reads(f) <= s
                    and reads(f) <= n)
            and implies(not loop, (reads(f) == s and s <= n)
                        or (reads(f) == n + 1 and n + 1 <= s)))


def inv_skip2(f: 'file', i: 'int', arg_skip_lines):
    n, s = nlines(doc_of(f)), arg_skip_lines
    return reads(f) == i and 0 <= i and i <= s and i <= n


def inv_skip3(f: 'file', counter: 'int', arg_skip_lines):
    n, s = nlines(doc_of(f)), arg_skip_lines
    return reads(f) == counter and counter <= n


def toc_pre(filename, ordered, no_links, no_indentation, no_list_coherence,
            keep_header_levels, parser, list_marker, skip_lines,
            constant_ordered_list, newline_string):
    return keep_header_levels >= 1


def look(f, filename, ordered, no_links, no_indentation, no_list_coherence,
         keep_header_levels, parser, list_marker, skip_lines,
         constant_ordered_list, newline_string):
    """The line an exception is about."""
    o = is_ordered(ordered, constant_ordered_list)
    m = marker_of(parser, ordered, constant_ordered_list, list_marker)
    return error(doc_of(f), skip_lines, reads(f), parser, keep_header_levels,
                 o, constant_ordered_list, m, no_links, no_indentation,
                 no_list_coherence) == 0


CASES = []
for p in (OneOf(*FAMILY), 'redcarpet'):
    CASES.append(dict(parser=p, ordered=False, constant_ordered_list=False))
    for m in ('.', ')', NotIn('.', ')')):
        CASES.append(dict(parser=p, ordered=True,
                          constant_ordered_list=False, list_marker=m))
        CASES.append(dict(parser=p, constant_ordered_list=True,
                          list_marker=m))
CASES = [dict(filename=f, **c) for f in ('-', NotIn('-')) for c in CASES]


# ------------------------------------------------- what callers rely on
@opaque('int')
def failure(w, filename, ordered, no_links, no_indentation,
            no_list_coherence, keep_header_levels, parser, list_marker,
            skip_lines, constant_ordered_list):
    """Why there is no TOC of a file, 0 if there is one."""
    become(w)
    if skip_lines < 0:
        return 6
    d = document(filename)
    n = nlines(d)
    if skip_lines >= n:
        return 0
    o = is_ordered(ordered, constant_ordered_list)
    m = marker_of(parser, ordered, constant_ordered_list, list_marker)
    e = error(d, skip_lines, n, parser, keep_header_levels, o,
              constant_ordered_list, m, no_links, no_indentation,
              no_list_coherence)
    return e if 1 <= e and e <= 6 else 0


@opaque('str')
def toc_of(w, filename, ordered, no_links, no_indentation,
           keep_header_levels, parser, list_marker, skip_lines,
           constant_ordered_list, newline_string):
    """The TOC of a file."""
    become(w)
    d = document(filename)
    n = nlines(d)
    if skip_lines >= n:
        return ''
    o = is_ordered(ordered, constant_ordered_list)
    m = marker_of(parser, ordered, constant_ordered_list, list_marker)
    return text(d, skip_lines, n, parser, keep_header_levels, o,
                constant_ordered_list, m, no_links, no_indentation,
                newline_string)


def fail(e):
    if e == 1:
        raise GithubEmptyLinkLabel
    if e == 2:
        raise GithubOverflowCharsLinkLabel
    if e == 3:
        raise GithubOverflowOrderedListMarker
    if e == 4:
        raise TocDoesNotRenderAsCoherentList
    if e == 5:
        raise StringCannotContainNewlines
    if e != 0:
        raise ValueError


def toc_view(filename, ordered, no_links, no_indentation, no_list_coherence,
             keep_header_levels, parser, list_marker, skip_lines,
             constant_ordered_list, newline_string):
    fail(failure(world(), filename, ordered, no_links, no_indentation,
                 no_list_coherence, keep_header_levels, parser, list_marker,
                 skip_lines, constant_ordered_list))
    return toc_of(world(), filename, ordered, no_links, no_indentation,
                  keep_header_levels, parser, list_marker, skip_lines,
                  constant_ordered_list, newline_string)


@contract('md_toc.api.build_toc',
          dict(filename=STR, ordered=BOOL, no_links=BOOL,
               no_indentation=BOOL, no_list_coherence=BOOL,
               keep_header_levels=INT, parser=PARSER, list_marker=STR,
               skip_lines=INT, constant_ordered_list=BOOL,
               newline_string=STR),
          requires=toc_pre, hints=[look],
          cases=CASES,
          invariants=[inv_position, inv_flag, inv_end, inv_fence, inv_isfence,
                      inv_last, inv_first, inv_both, inv_range, inv_anchors,
                      inv_numbers, inv_positive, inv_log, inv_markers, inv_fresh, inv_text, inv_error,
                      inv_skip, inv_skip2, inv_skip3],
          view=toc_view, view_reveal=('failure', 'toc_of'),
          config=dict(gen=False, head_exit=True, join=True))
def toc(filename, ordered, no_links, no_indentation, no_list_coherence,
        keep_header_levels, parser, list_marker, skip_lines,
        constant_ordered_list, newline_string):
    if skip_lines < 0:
        raise ValueError
    d = document(filename)
    n = nlines(d)
    if skip_lines >= n:
        return ''
    o = is_ordered(ordered, constant_ordered_list)
    m = marker_of(parser, ordered, constant_ordered_list, list_marker)
    e = error(d, skip_lines, n, parser, keep_header_levels, o,
              constant_ordered_list, m, no_links, no_indentation,
              no_list_coherence)
    if e == 1:
        raise GithubEmptyLinkLabel
    if e == 2:
        raise GithubOverflowCharsLinkLabel
    if e == 3:
        raise GithubOverflowOrderedListMarker
    if e == 4:
        raise TocDoesNotRenderAsCoherentList
    if e == 5:
        raise StringCannotContainNewlines
    if e == 6:
        raise ValueError
    return text(d, skip_lines, n, parser, keep_header_levels, o,
                constant_ordered_list, m, no_links, no_indentation,
                newline_string)


# ------------------------------------------------------------ several files
@rec('int', sticky='k')
def failures(w, filenames, ordered, no_links, no_indentation,
             no_list_coherence, keep_header_levels, parser, list_marker,
             skip_lines, constant_ordered_list, k):
    """Why the first of k files without a TOC has none."""
    if k <= 0:
        return 0
    e = failures(w, filenames, ordered, no_links, no_indentation,
                 no_list_coherence, keep_header_levels, parser, list_marker,
                 skip_lines, constant_ordered_list, k - 1)
    if e != 0:
        return e
    return failure(w, filenames[k - 1], ordered, no_links, no_indentation,
                   no_list_coherence, keep_header_levels, parser,
                   list_marker, skip_lines, constant_ordered_list)


def inv_tocs(tocs: 'list', counter: 'int', arg_filenames, arg_ordered,
             arg_no_links, arg_no_indentation, arg_no_list_coherence,
             arg_keep_header_levels, arg_parser, arg_list_marker,
             arg_skip_lines, arg_constant_ordered_list, arg_newline_string):
    return (len(tocs) == counter and counter >= 0
            and counter <= len(arg_filenames)
            and failures(initial(), arg_filenames, arg_ordered, arg_no_links,
                         arg_no_indentation, arg_no_list_coherence,
                         arg_keep_header_levels, arg_parser, arg_list_marker,
                         arg_skip_lines, arg_constant_ordered_list,
                         counter) == 0)


def inv_next(counter: 'int', arg_filenames, arg_ordered, arg_no_links,
             arg_no_indentation, arg_no_list_coherence,
             arg_keep_header_levels, arg_parser, arg_list_marker,
             arg_skip_lines, arg_constant_ordered_list):
    if counter < 0 or counter >= len(arg_filenames):
        return True
    if failures(initial(), arg_filenames, arg_ordered, arg_no_links,
                arg_no_indentation, arg_no_list_coherence,
                arg_keep_header_levels, arg_parser, arg_list_marker,
                arg_skip_lines, arg_constant_ordered_list, counter) != 0:
        return True
    return failures(
        initial(), arg_filenames, arg_ordered, arg_no_links,
        arg_no_indentation, arg_no_list_coherence, arg_keep_header_levels,
        arg_parser, arg_list_marker, arg_skip_lines,
        arg_constant_ordered_list, counter + 1) == failure(
            initial(), arg_filenames[counter], arg_ordered, arg_no_links,
            arg_no_indentation, arg_no_list_coherence,
            arg_keep_header_levels, arg_parser, arg_list_marker,
            arg_skip_lines, arg_constant_ordered_list)


def inv_each(tocs: 'list', counter: 'int', arg_filenames, arg_ordered,
             arg_no_links, arg_no_indentation, arg_keep_header_levels,
             arg_parser, arg_list_marker, arg_skip_lines,
             arg_constant_ordered_list, arg_newline_string):
    return forall(0, counter, lambda j: j >= len(tocs) or j >= len(
        arg_filenames) or tocs[j] == toc_of(initial(), arg_filenames[j], arg_ordered, arg_no_links,
        arg_no_indentation, arg_keep_header_levels, arg_parser,
        arg_list_marker, arg_skip_lines, arg_constant_ordered_list,
        arg_newline_string))


def tocs_pre(filenames, ordered, no_links, no_indentation, no_list_coherence,
             keep_header_levels, parser, list_marker, skip_lines,
             constant_ordered_list, newline_string):
    return keep_header_levels >= 1


def one_each(filenames, ordered, no_links, no_indentation, no_list_coherence,
             keep_header_levels, parser, list_marker, skip_lines,
             constant_ordered_list, newline_string, result):
    return len(result) == len(filenames)


@opaque('strs')
def toc_list(w, filenames, ordered, no_links, no_indentation,
             keep_header_levels, parser, list_marker, skip_lines,
             constant_ordered_list, newline_string):
    """The TOCs of some files."""
    return listing(len(filenames), lambda k: toc_of(
        w, filenames[k], ordered, no_links, no_indentation,
        keep_header_levels, parser, list_marker, skip_lines,
        constant_ordered_list, newline_string))


def tocs_view(filenames, ordered, no_links, no_indentation,
              no_list_coherence, keep_header_levels, parser, list_marker,
              skip_lines, constant_ordered_list, newline_string):
    if len(filenames) == 0:
        filenames.append('-')
    fail(failures(world(), filenames, ordered, no_links, no_indentation,
                  no_list_coherence, keep_header_levels, parser,
                  list_marker, skip_lines, constant_ordered_list,
                  len(filenames)))
    return toc_list(world(), filenames, ordered, no_links, no_indentation,
                    keep_header_levels, parser, list_marker, skip_lines,
                    constant_ordered_list, newline_string)


@contract('md_toc.api.build_multiple_tocs',
          dict(filenames=STRS, ordered=BOOL, no_links=BOOL,
               no_indentation=BOOL, no_list_coherence=BOOL,
               keep_header_levels=INT, parser=PARSER, list_marker=STR,
               skip_lines=INT, constant_ordered_list=BOOL,
               newline_string=STR),
          requires=tocs_pre, mutates=('filenames', ), ensures=one_each,
          cases=[dict(parser=OneOf(*PARSER.vals))],
          view=tocs_view, view_reveal=('toc_list', ), view_unfold=2,
          invariants=[inv_tocs, inv_next, inv_each], config=dict(gen=False))
def tocs(filenames, ordered, no_links, no_indentation, no_list_coherence,
         keep_header_levels, parser, list_marker, skip_lines,
         constant_ordered_list, newline_string):
    """The TOC of each file, in order; the standard input stands in for no
    files."""
    if len(filenames) == 0:
        filenames.append('-')
        fail(failure(world(), '-', ordered, no_links, no_indentation,
                     no_list_coherence, keep_header_levels, parser,
                     list_marker, skip_lines, constant_ordered_list))
        return [toc_of(world(), '-', ordered, no_links, no_indentation,
                       keep_header_levels, parser, list_marker, skip_lines,
                       constant_ordered_list, newline_string)]
    n = len(filenames)
    fail(failures(world(), filenames, ordered, no_links, no_indentation,
                  no_list_coherence, keep_header_levels, parser,
                  list_marker, skip_lines, constant_ordered_list, n))
    return listing(n, lambda k: toc_of(
        world(), filenames[k], ordered, no_links, no_indentation,
        keep_header_levels, parser, list_marker, skip_lines,
        constant_ordered_list, newline_string))
