"""Anchors (C06, C07, C08)."""
import hashlib
import re

from md_toc import api as _api
from md_toc.exceptions import (GithubEmptyLinkLabel,
                               GithubOverflowCharsLinkLabel,
                               StringCannotContainNewlines)
from pyvc.contract import ENUM, FAMILY, INT, MAP, PARSERS, STR, contract
from pyvc.spec import keep, nspan, one_line, opaque, rec, span

from . import html_patterns as P
from .fences import PARSER
from .headings import label_error, label_of, level_of

STRIPPED = ' -&+$,/:;=?@"#{}|^~[]`\\*()%.!\''


# --------------------------------------------------- CommonMark family rules
@opaque('str', static=('parser', ))
def no_html(line, parser):
    """The text without its raw HTML."""
    if parser == 'redcarpet':
        return line
    if parser == 'github' or parser == 'commonmarker':
        pats = P.GITHUB
    else:
        pats = P.CMARK
    for r in pats:
        line = re.sub(r, '', line, flags=re.DOTALL)
    return line


@contract('md_toc.api.remove_html_tags', dict(line=STR, parser=PARSER),
          reveal=('no_html', ))
def html_removed(line, parser):
    return no_html(line, parser)


@opaque('str', static=('parser', ))
def no_emphasis(line, parser):
    """The text without its emphasis delimiters (C17 says more)."""
    return _api.remove_emphasis(line, parser)


@contract('md_toc.api.remove_emphasis', dict(line=STR, parser=PARSER),
          trusted='a pure function of the text; what it removes is the '
          'subject of C17')
def emphasis_removed(line, parser):
    return no_emphasis(line, parser)


@contract('md_toc.api.anchor_link_punctuation_filter',
          dict(input_string=STR, parser=ENUM(*FAMILY)))
def punctuation(input_string, parser):
    return keep(input_string, 'word- ')


@opaque('str', static=('parser', ))
def slug(t, parser):
    """Anchor of a heading text before duplicates are told apart."""
    s = no_emphasis(no_html(t.lower(), parser), parser)
    s = keep(s, 'word- ').replace(' ', '-')
    if parser == 'gitlab':
        s = re.sub('-+', '-', s)
    return s


def digest(s):
    return hashlib.sha1(s.encode('UTF-8')).hexdigest()


# ----------------------------------------------------------- redcarpet rules
@rec('int')
def mode(t, k):
    """0: text, 1: within <...>, 2: within &...; after k characters."""
    if k <= 0:
        return 0
    m = mode(t, k - 1)
    c = t[k - 1]
    if m == 1:
        if c == '>':
            return 0
        return 1
    if m == 2:
        if c == ';':
            return 0
        return 2
    if c == '<':
        return 1
    if c == '&':
        return 2
    return 0


def dropped(c):
    """Characters that never are in an anchor."""
    return ord(c) > 127 or c in STRIPPED


@rec('int')
def n_kept(t, k):
    """Number of characters kept among the first k."""
    if k <= 0:
        return 0
    c = t[k - 1]
    if mode(t, k - 1) != 0 or c == '<' or c == '&' or dropped(c):
        return n_kept(t, k - 1)
    return n_kept(t, k - 1) + 1


@rec('int')
def was_dropped(t, k):
    """1 when the last character looked at was dropped."""
    if k <= 0:
        return 0
    c = t[k - 1]
    if mode(t, k - 1) != 0 or c == '<' or c == '&':
        return was_dropped(t, k - 1)
    if dropped(c):
        return 1
    return 0


@rec('str')
def kept(t, k):
    """What the first k characters contribute."""
    if k <= 0:
        return ''
    c = t[k - 1]
    if mode(t, k - 1) != 0 or c == '<' or c == '&':
        return kept(t, k - 1)
    if dropped(c):
        if n_kept(t, k - 1) > 0 and was_dropped(t, k - 1) == 0:
            return kept(t, k - 1) + '-'
        return kept(t, k - 1)
    return kept(t, k - 1) + c.lower()


@rec('int')
def hash33(t, k):
    if k <= 0:
        return 5381
    return 33 * hash33(t, k - 1) + ord(t[k - 1])


@opaque('str')
def redcarpet_anchor(t):
    n = len(t)
    if n > 0 and n_kept(t, n) == 0:
        return 'part-' + '{:x}'.format(hash33(t, n))
    a = kept(t, n)
    if n_kept(t, n) > 0 and was_dropped(t, n) == 1:
        # no hyphen at the end
        return a[0:len(a) - 1]
    return a


def inv_scan(header_text_trimmed: 'str', i: 'int'):
    """The main loop: everything before position i was looked at."""
    t = header_text_trimmed
    n = len(t)
    return 0 <= i and i <= n + 1 and (i > n or mode(t, i) == 0)


def inv_kept(header_text_trimmed: 'str',
             header_text_trimmed_middle_stage: 'joined', i: 'int'):
    t = header_text_trimmed
    n = len(t)
    out = header_text_trimmed_middle_stage
    return out == kept(t, i) if i <= n else out == kept(t, n)


def inv_inserted(header_text_trimmed: 'str', inserted: 'int', i: 'int'):
    t = header_text_trimmed
    n = len(t)
    return inserted >= 0 and inserted == n_kept(t, i if i <= n else n)


def inv_stripped(header_text_trimmed: 'str', stripped: 'int', i: 'int'):
    t = header_text_trimmed
    n = len(t)
    return (stripped in (0, 1)
            and stripped == was_dropped(t, i if i <= n else n))


def inv_skip(t: 'str', i: 'int', i_0, m):
    return (i_0 <= i and i <= len(t) and (i == i_0 or mode(t, i) == m)
            and kept(t, i) == kept(t, i_0) and n_kept(t, i) == n_kept(t, i_0)
            and was_dropped(t, i) == was_dropped(t, i_0))


def inv_tag(header_text_trimmed: 'str', i: 'int', i_0):
    """Skipping a tag."""
    return inv_skip(header_text_trimmed, i, i_0, 1)


def inv_entity(header_text_trimmed: 'str', i: 'int', i_0):
    """Skipping an entity."""
    return inv_skip(header_text_trimmed, i, i_0, 2)


def inv_hash(header_text_trimmed: 'str', hash: 'int', counter: 'int'):
    return (counter >= 0 and counter <= len(header_text_trimmed)
            and hash == hash33(header_text_trimmed, counter))


def inv_hash2(header_text_trimmed: 'str', hash: 'int', i: 'int'):
    return (0 <= i and i <= len(header_text_trimmed)
            and hash == hash33(header_text_trimmed, i))


@opaque('bool')
def has_newline(t):
    t = t.replace('\r\n', '\n').replace('\r', '\n').lstrip('\n').rstrip('\n')
    return nspan(t, 0, '\n') < len(t)


@opaque('str')
def with_number(s, n):
    """The n-th repetition of an anchor."""
    if n > 0:
        return s + '-' + str(n)
    return s


def anchor_view(header_text_trimmed, header_duplicate_counter, parser):
    if has_newline(header_text_trimmed):
        raise StringCannotContainNewlines
    if parser == 'redcarpet':
        return redcarpet_anchor(header_text_trimmed)
    s = slug(header_text_trimmed, parser)
    k = digest(s)
    n = (header_duplicate_counter[k]
         if k in header_duplicate_counter else 0)
    header_duplicate_counter[k] = n + 1
    return with_number(s, n)


@contract('md_toc.api.build_anchor_link',
          dict(header_text_trimmed=STR, header_duplicate_counter=MAP,
               parser=PARSER),
          mutates=('header_duplicate_counter', ),
          reveal=('slug', 'redcarpet_anchor', 'has_newline'),
          view=anchor_view, view_reveal=('with_number', ),
          invariants=[inv_scan, inv_kept, inv_inserted, inv_stripped,
                      inv_tag, inv_entity, inv_hash,
                      inv_hash2],
          config=dict(gen=False))
def anchor(header_text_trimmed, header_duplicate_counter, parser):
    if has_newline(header_text_trimmed):
        raise StringCannotContainNewlines
    if parser == 'redcarpet':
        return redcarpet_anchor(header_text_trimmed)
    s = slug(header_text_trimmed, parser)
    k = digest(s)
    n = 0
    if k in header_duplicate_counter:
        n = header_duplicate_counter[k]
    header_duplicate_counter[k] = n + 1
    if n > 0:
        return s + '-' + str(n)
    return s


# ------------------------------------------------ heading and anchor together
def header_pre(header_text_line, header_duplicate_counter, keep_header_levels,
               parser, no_links):
    return one_line(header_text_line)


def header_range(header_text_line, header_duplicate_counter,
                 keep_header_levels, parser, no_links, result):
    h = result[0]
    return h is None or (1 <= h['header_type'] and h['header_type'] <= 6)


@contract('md_toc.api.get_md_header',
          dict(header_text_line=STR, header_duplicate_counter=MAP,
               keep_header_levels=INT, parser=PARSER,
               no_links=ENUM(False, True)),
          requires=header_pre, ensures=header_range,
          mutates=('header_duplicate_counter', ))
def md_header(header_text_line, header_duplicate_counter, keep_header_levels,
              parser, no_links):
    """The heading of one line: only a line with a heading counts its
    anchor."""
    if keep_header_levels < 1:
        raise ValueError
    lev = level_of(header_text_line, parser)
    if lev == 0:
        return [None]
    e = label_error(header_text_line, parser, no_links)
    if e == 1:
        raise GithubEmptyLinkLabel
    if e == 2:
        raise GithubOverflowCharsLinkLabel
    t = label_of(header_text_line, parser, no_links)
    return [{
        'header_type': lev,
        'text_original': t,
        'text_anchor_link': anchor_view(t, header_duplicate_counter, parser),
        'visible': lev <= keep_header_levels,
    }]
