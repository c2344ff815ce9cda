"""Code fences (property C04)."""
from pyvc.contract import BOOL, ENUM, FAMILY, OPTSTR, PARSERS, STR, contract
from pyvc.spec import exists, forall, implies, nspan, opaque, rec, rspan, span

PARSER = ENUM(*PARSERS)


def blanks(parser):
    """Characters treated as blanks by a parser besides the newline."""
    if parser in ('github', 'commonmarker'):
        return ' '
    return ' \t'


@contract('md_toc.api.is_valid_code_fence_indent',
          dict(line=STR, parser=PARSER))
def fence_indent(line, parser):
    """At most three leading spaces (never for redcarpet)."""
    if parser == 'redcarpet':
        return False
    return span(line, 0, ' ') <= 3


@opaque('bool')
def is_fence(fence):
    """A run of at least three backticks or tildes."""
    return len(fence) >= 3 and (span(fence, 0, '`') == len(fence)
                                or span(fence, 0, '~') == len(fence))


def opens_with_fence(line, parser, result):
    return result is None or is_fence(result)


@opaque('optstr', static=('parser', ))
def opening(line, parser):
    return opening_fence(line, parser)


def opening_view(line, parser):
    return opening(line, parser)


@contract('md_toc.api.is_opening_code_fence', dict(line=STR, parser=PARSER),
          ensures=opens_with_fence, reveal=('is_fence', ),
          view=opening_view, view_reveal=('opening', ))
def opening_fence(line, parser):
    """The run of fence characters that opens a fenced code block."""
    if parser == 'redcarpet':
        return None
    i = span(line, 0, ' ')
    if i > 3:
        return None
    if i >= len(line):
        return None
    end = rspan(line, i, len(line), '\n')
    if line[i] == '`':
        j = span(line, i, '`')
        # no backtick in the info string
        if nspan(line, j, '`') < end:
            return None
    elif line[i] == '~':
        j = span(line, i, '~')
    else:
        return None
    if j - i < 3:
        return None
    return line[i:j]


def fence_pre(line, fence, is_document_end, parser):
    return is_fence(fence)


@opaque('bool', static=('parser', ))
def closing(line, fence, is_document_end, parser):
    return closing_fence(line, fence, is_document_end, parser)


def closing_view(line, fence, is_document_end, parser):
    return closing(line, fence, is_document_end, parser)


@contract('md_toc.api.is_closing_code_fence',
          dict(line=STR, fence=STR, is_document_end=BOOL, parser=PARSER),
          requires=fence_pre, reveal=('is_fence', ),
          view=closing_view, view_reveal=('closing', 'is_fence'))
def closing_fence(line, fence, is_document_end, parser):
    if parser == 'redcarpet':
        return False
    i = span(line, 0, ' ')
    if i > 3:
        return False
    if is_document_end:
        return True
    if i >= len(line):
        return False
    if line[i] != fence[0]:
        return False
    if fence[0] == '`':
        j = span(line, i, '`')
    else:
        j = span(line, i, '~')
    if j - i < len(fence):
        return False
    return span(line, j, blanks(parser) + '\n') == len(line)
