"""ATX headings: recognition, level, text and link labels (C01-C03)."""
from md_toc.exceptions import (GithubEmptyLinkLabel,
                               GithubOverflowCharsLinkLabel)
from pyvc.contract import (BOOL, ENUM, INT, PARSERS, STR, contract)
from pyvc.spec import (exists, forall, implies, nspan, one_line, opaque, rec,
                       rspan, span)

from .fences import PARSER, blanks

WS = ' \t\n\x0b\x0c\r'


# ------------------------------------------------------------ specification
@opaque('int', static=('parser', ))
def heading_level(s, parser):
    """Level of the ATX heading on the line s (no newline), 0 if none."""
    if parser == 'redcarpet':
        j = span(s, 0, '#')
        if j > 6:
            j = 6
        if j == 0:
            return 0
        if j < len(s) and s[j] != ' ':
            return 0
        a = span(s, j, ' ')
        if redcarpet_end(s, a) <= a:
            return 0
        return j
    i = span(s, 0, ' ')
    if i > 3:
        return 0
    j = span(s, i, '#')
    if j == i or j - i > 6:
        return 0
    if j < len(s) and not s[j] in blanks(parser):
        return 0
    return j - i


def redcarpet_end(s, a):
    """End of the text that starts at a: trailing hashes and then trailing
    spaces are dropped."""
    h = rspan(s, 0, len(s), '#')
    return rspan(s, 0, h, ' ')


@opaque('str', static=('parser', ))
def heading_text(s, parser):
    """Text of the heading on line s (a line with a heading)."""
    i = span(s, 0, ' ')
    j = span(s, i, '#')
    a = span(s, j, blanks(parser))
    e = rspan(s, a, len(s), blanks(parser))
    h = rspan(s, a, e, '#')
    # a closing sequence stands alone or after a blank
    if h < e and (h == a or s[h - 1] in blanks(parser)):
        e = rspan(s, a, h, blanks(parser))
    return s[a:e]


def backslashes(t, k):
    """Number of backslashes right before position k of t."""
    return k - rspan(t, 0, k, '\\')


@rec('str')
def escaped(t, k):
    """The first k characters of t, with every bracket that is not escaped
    already preceded by a backslash."""
    if k <= 0:
        return ''
    c = t[k - 1]
    if (c == '[' or c == ']') and backslashes(t, k - 1) % 2 == 0:
        return escaped(t, k - 1) + '\\' + c
    return escaped(t, k - 1) + c


def guarded(t):
    """A trailing backslash must not escape the closing bracket."""
    if len(t) > 0 and t[len(t) - 1] == '\\':
        return t + ' '
    return t


NONE = {'header_type': None, 'header_text_trimmed': None, 'visible': False}


def no_heading():
    return {'header_type': None, 'header_text_trimmed': None,
            'visible': False}


def heading(s, keep, parser, no_links):
    """Structure of the heading on one line without its newline."""
    lev = heading_level(s, parser)
    if lev == 0:
        return no_heading()
    if parser == 'redcarpet':
        a = span(s, lev, ' ')
        t = s[a:redcarpet_end(s, a)]
        if not no_links and s[len(s) - 1] == '\\':
            t = t + ' '
        return {'header_type': lev, 'header_text_trimmed': t,
                'visible': lev <= keep}
    t = heading_text(s, parser)
    if not no_links:
        t = guarded(t)
        if span(t, 0, WS) == len(t):
            raise GithubEmptyLinkLabel
        if len(t) > 999:
            raise GithubOverflowCharsLinkLabel
        t = escaped(t, len(t))
    return {'header_type': lev, 'header_text_trimmed': t,
            'visible': lev <= keep}


def line_pre(line, keep_header_levels, parser, no_links):
    return one_line(line)


# --------------------------------------------------------- loop invariants
def inv_escape(F: 'str', F_0, i: 'int'):
    k = i - (len(F) - len(F_0))
    return (0 <= k and k <= len(F_0) and i <= len(F)
            and F[0:i] == escaped(F_0, k) and F[i:] == F_0[k:]
            and backslashes(F, i) == backslashes(F_0, k))


def inv_copy(F: 'str', out: 'joined', counter: 'for'):
    return out == escaped(F, counter)


def inv_odd(F: 'str', odd: 'bool', counter: 'for'):
    return odd == (backslashes(F, counter) % 2 == 1)


def level_range(line, keep_header_levels, parser, no_links, result):
    lev = result[0]['header_type']
    return lev is None or (1 <= lev and lev <= 6)


# the same in terms of three functions of the line
def without_newline(line):
    return line[0:rspan(line, 0, len(line), '\n')]


@opaque('int', static=('parser', ))
def level_of(line, parser):
    """Level of the heading on a line, 0 if there is none."""
    if len(line) == 0:
        return 0
    return heading_level(without_newline(line), parser)


@opaque('int', static=('parser', ))
def label_error(line, parser, no_links):
    """1: the label is empty, 2: it is too long, 0: it is fine."""
    if parser == 'redcarpet' or no_links:
        return 0
    t = guarded(heading_text(without_newline(line), parser))
    if span(t, 0, WS) == len(t):
        return 1
    if len(t) > 999:
        return 2
    return 0


@opaque('str', static=('parser', ))
def label_of(line, parser, no_links):
    """Text of the heading as it is written in the TOC."""
    s = without_newline(line)
    if parser == 'redcarpet':
        lev = heading_level(s, parser)
        a = span(s, lev, ' ')
        t = s[a:redcarpet_end(s, a)]
        if not no_links and s[len(s) - 1] == '\\':
            return t + ' '
        return t
    t = heading_text(s, parser)
    if no_links:
        return t
    t = guarded(t)
    return escaped(t, len(t))


def atx_view(line, keep_header_levels, parser, no_links):
    if keep_header_levels < 1:
        raise ValueError
    lev = level_of(line, parser)
    if lev == 0:
        return [no_heading()]
    e = label_error(line, parser, no_links)
    if e == 1:
        raise GithubEmptyLinkLabel
    if e == 2:
        raise GithubOverflowCharsLinkLabel
    return [{'header_type': lev,
             'header_text_trimmed': label_of(line, parser, no_links),
             'visible': lev <= keep_header_levels}]


@contract('md_toc.api.get_atx_heading',
          dict(line=STR, keep_header_levels=INT, parser=PARSER,
               no_links=ENUM(False, True)),
          requires=line_pre,
          reveal=('heading_level', 'heading_text', 'one_line'),
          ensures=level_range, view=atx_view,
          view_reveal=('level_of', 'label_error', 'label_of',
                       'heading_level'),
          invariants=[inv_escape, inv_copy, inv_odd],
          config=dict(unroll=4, spec_ask=True))
def atx_heading(line, keep_header_levels, parser, no_links):
    if keep_header_levels < 1:
        raise ValueError
    if len(line) == 0:
        return [no_heading()]
    s = line[0:rspan(line, 0, len(line), '\n')]
    return [heading(s, keep_header_levels, parser, no_links)]
