"""Ordered list numbers, indentation and the layout of the TOC lines
(C09, C11, C12)."""
from md_toc.exceptions import GithubOverflowOrderedListMarker
from pyvc.contract import (BOOL, ENUM, INT, Kind, MAP, PARSERS, STR, contract)
from pyvc.spec import opaque, span

from .fences import PARSER

LEVELS = (1, 2, 3, 4, 5, 6)
MAX_NUMBER = 999999999


def bullets(parser):
    return ('-', '+', '*')


def closings(parser):
    if parser == 'redcarpet':
        return ('.', )
    return ('.', ')')


def marker_ok(parser, ordered, list_marker):
    if ordered:
        return list_marker in closings(parser)
    return list_marker in bullets(parser)


# ------------------------------------------------------------------ numbers
def increase_pre(header_type_count, header_type_prev, header_type_curr,
                 parser):
    return True


@contract('md_toc.api.increase_index_ordered_list',
          dict(header_type_count=MAP, header_type_prev=INT,
               header_type_curr=INT, parser=PARSER),
          mutates=('header_type_count', ))
def increase(header_type_count, header_type_prev, header_type_curr, parser):
    """Counts the entries of a list: a level starts again from one when the
    previous entry has a smaller level."""
    if header_type_prev < 0:
        raise ValueError
    if header_type_curr < 1:
        raise ValueError
    key = 'h' + str(header_type_curr)
    deeper = header_type_prev != 0 and header_type_prev < header_type_curr
    n = (header_type_count[key] + 1
         if key in header_type_count and not deeper else 1)
    header_type_count[key] = n
    if n > MAX_NUMBER and parser != 'goldmark' and parser != 'redcarpet':
        raise GithubOverflowOrderedListMarker


# -------------------------------------------------------------- indentation
@contract('md_toc.api.init_indentation_log',
          dict(parser=PARSER, list_marker=STR))
def init_log(parser, list_marker):
    return {
        i: {
            'index': 0,
            'list_marker': list_marker,
            'indentation_spaces': 0,
        }
        for i in LEVELS
    }


def under(spaces, list_marker, index, ordered):
    """Column of the entries below an entry."""
    if ordered:
        return spaces + len(list_marker) + len(str(index)) + 1
    return spaces + len(list_marker) + 1


LOG = Kind('dict', items={
    i: Kind('dict', items={
        'index': INT,
        'list_marker': STR,
        'indentation_spaces': INT,
    })
    for i in LEVELS
})


@contract('md_toc.api.compute_toc_line_indentation_spaces',
          dict(header_type_curr=ENUM(1, 2, 3, 4, 5, 6),
               header_type_prev=ENUM(0, 1, 2, 3, 4, 5, 6),
               parser=PARSER, ordered=ENUM(False, True), list_marker=STR,
               indentation_log=LOG, index=INT),
          mutates=('indentation_log', ))
def compute_spaces(header_type_curr, header_type_prev, parser, ordered,
                   list_marker, indentation_log, index):
    """Spaces before a TOC entry: those of the parent entry, the width of
    the parent's list marker and one."""
    if index < 1:
        raise ValueError
    if not marker_ok(parser, ordered, list_marker):
        raise ValueError
    curr, prev = header_type_curr, header_type_prev
    if parser == 'redcarpet':
        indentation_log[curr]['indentation_spaces'] = 4 * (curr - 1)
    else:
        parent = (under(indentation_log[prev]['indentation_spaces'],
                        indentation_log[prev]['list_marker'],
                        indentation_log[prev]['index'], ordered)
                  if prev != 0 and curr > prev else 0)
        for i in LEVELS:
            row = indentation_log[i]
            mine = i == curr
            # the deeper levels start again
            again = prev != 0 and curr < prev and i > curr
            old = row['indentation_spaces']
            row['indentation_spaces'] = (
                (0 if prev == 0 else parent if curr > prev else old)
                if mine else 0 if again else old)
            row['index'] = (index if mine and ordered else
                            0 if again else row['index'])
            row['list_marker'] = (list_marker if mine or again else
                                  row['list_marker'])


# ------------------------------------------------------------------- layout
HEADER = Kind('dict', items={
    'header_type': INT,
    'text_original': STR,
    'text_anchor_link': STR,
    'visible': BOOL,
})


@opaque('str')
def bare(ordered, no_links, index, list_marker, text, name):
    """An entry of the list."""
    if ordered:
        m = str(index) + list_marker
    else:
        m = list_marker
    if no_links:
        return m + ' ' + text
    return m + ' [' + text + '](#' + name + ')'


def bare_view(header, ordered, no_links, index, parser, list_marker):
    if (header['header_type'] < 1 or index < 1
            or not marker_ok(parser, ordered, list_marker)):
        raise ValueError
    return bare(ordered, no_links, index, list_marker,
                header['text_original'], header['text_anchor_link'])


@opaque('str')
def indented(line, spaces):
    return ' ' * spaces + line


def toc_line_view(toc_line_no_indent, no_of_indentation_spaces):
    if no_of_indentation_spaces < 0:
        raise ValueError
    return indented(toc_line_no_indent, no_of_indentation_spaces)


@contract('md_toc.api.build_toc_line_without_indentation',
          dict(header=HEADER, ordered=BOOL, no_links=BOOL, index=INT,
               parser=PARSER, list_marker=STR),
          view=bare_view, view_reveal=('bare', ))
def line_without_indentation(header, ordered, no_links, index, parser,
                             list_marker):
    if header['header_type'] < 1:
        raise ValueError
    if index < 1:
        raise ValueError
    if not marker_ok(parser, ordered, list_marker):
        raise ValueError
    if ordered:
        m = str(index) + list_marker
    else:
        m = list_marker
    if no_links:
        return m + ' ' + header['text_original']
    return (m + ' [' + header['text_original'] + '](#'
            + header['text_anchor_link'] + ')')


@contract('md_toc.api.build_toc_line',
          dict(toc_line_no_indent=STR, no_of_indentation_spaces=INT),
          view=toc_line_view, view_reveal=('indented', ))
def toc_line(toc_line_no_indent, no_of_indentation_spaces):
    if no_of_indentation_spaces < 0:
        raise ValueError
    return ' ' * no_of_indentation_spaces + toc_line_no_indent
