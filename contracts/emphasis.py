"""Reading the text for emphasis: delimiter runs, backslashes, backticks and
link destinations (C17)."""
import unicodedata

from md_toc.cmark.chunk_h import _cmarkCmarkChunk
from md_toc.cmark.inlines_c import _cmarkDelimiter, _cmarkSubject
from pyvc.contract import BOOL, ENUM, INST, INT, STR, Kind, contract, symbolic
from pyvc.spec import before, nspan, opaque, rec, span

CHUNK = INST(_cmarkCmarkChunk, data=STR, length=INT)
SUBJECT = INST(_cmarkSubject, input=CHUNK, pos=INT)
SUBJECT_AT = INST(_cmarkSubject, input=CHUNK, pos=INT, line=INT,
                  column_offset=INT, block_offset=INT,
                  mem=Kind('const', val=None))
ASCII = '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'


def code_point(char):
    return 0 <= char and char <= 0x10ffff


@contract('md_toc.cmark.utf8_c._cmark_cmark_utf8proc_is_space',
          dict(char=INT), requires=code_point, config=dict(soft=True))
def space(char):
    """A Unicode whitespace character."""
    c = chr(char)
    return (c == '\t' or c == '\n' or c == '\x0c' or c == '\r'
            or unicodedata.category(c) == 'Zs')


@contract('md_toc.cmark.utf8_c._cmark_cmark_utf8proc_is_punctuation',
          dict(char=INT), requires=code_point, config=dict(soft=True))
def punctuation(char):
    """ASCII punctuation or anything in the general categories P."""
    c = chr(char)
    return c in ASCII or unicodedata.category(c).startswith('P')


def text(subj):
    """The text that is read: trailing blanks do not count."""
    return subj.input.data[:subj.input.length]


def reading(subj):
    d = subj.input.data
    return (0 <= subj.input.length and subj.input.length <= len(d)
            and nspan(d, 0, '\x00') == len(d)
            and 0 <= subj.pos and subj.pos <= subj.input.length)


def at_a_run(subj, c):
    return (reading(subj) and subj.pos < subj.input.length
            and subj.input.data[subj.pos] == c)


def flanking(d, i, j, c):
    """Whether the run of c in d[i:j] can open and close emphasis."""
    before = 10 if i == 0 else ord(d[i - 1])
    after = 10 if j == len(d) else ord(d[j])
    left = not space(after) and (not punctuation(after) or space(before)
                                 or punctuation(before))
    right = not space(before) and (not punctuation(before) or space(after)
                                   or punctuation(after))
    if c == '*':
        return left, right
    return (left and (not right or punctuation(before)),
            right and (not left or punctuation(after)))


@contract('md_toc.cmark.inlines_c._cmark_scan_delims',
          dict(subj=SUBJECT, c=ENUM('*', '_')), requires=at_a_run,
          mutates=('subj', ), config=dict(soft=True))
def delimiter_run(subj, c):
    """The length of the run of c and whether it can open and close
    emphasis."""
    d = text(subj)
    i = subj.pos
    j = span(d, i, c)
    subj.pos = j
    can_open, can_close = flanking(d, i, j, c)
    return j - i, can_open, can_close


def at_a_backslash(subj):
    return (reading(subj) and subj.pos < subj.input.length
            and subj.input.data[subj.pos] == '\\')


@contract('md_toc.cmark.inlines_c._cmark_handle_backslash',
          dict(subj=SUBJECT_AT), requires=at_a_backslash,
          mutates=('subj', ), config=dict(soft=True))
def backslash(subj):
    """A backslash takes the ASCII punctuation (or the end of the line)
    that follows it."""
    d = text(subj)
    i = subj.pos + 1
    if i < len(d) and d[i] in ASCII:
        subj.pos = i + 1
    elif i < len(d) and d[i] == '\r':
        subj.pos = i + 2 if i + 1 < len(d) and d[i + 1] == '\n' else i + 1
    elif i < len(d) and d[i] == '\n':
        subj.pos = i + 1
    else:
        subj.pos = i


def reading_on(subj, function_name):
    return reading(subj)


@contract('md_toc.cmark.inlines_c._cmark_take_while',
          dict(subj=SUBJECT, function_name=ENUM('_cmark_isbacktick')),
          requires=reading_on,
          mutates=('subj', ), config=dict(soft=True))
def backticks(subj, function_name):
    """A run of backticks."""
    i = subj.pos
    j = span(text(subj), i, '`')
    subj.pos = j
    return _cmarkCmarkChunk(subj.input.data[i:], j - i)


@contract('md_toc.cmark.inlines_c._cmark_skip_line_end',
          dict(subj=SUBJECT), requires=reading,
          mutates=('subj', ), config=dict(soft=True))
def skip_line_end(subj):
    d = text(subj)
    i = subj.pos
    if i < len(d) and d[i] == '\r':
        subj.pos = i + 1
    if subj.pos < len(d) and d[subj.pos] == '\n':
        subj.pos = subj.pos + 1
    return subj.pos > i or subj.pos == len(d)


def in_chunk(input, offset):
    return (0 <= offset and offset <= input.length
            and input.length <= len(input.data))


@rec('int')
def url_end(d, n, i, depth, start):
    """End of a link destination without angle brackets, read up to i with
    depth open parentheses; -1 if there is none."""
    if i >= n:
        return -1
    if d[i] == '\\' and i + 1 < n and d[i + 1] in ASCII:
        return url_end(d, n, i + 2, depth, start)
    if d[i] == '(':
        return (url_end(d, n, i + 1, depth + 1, start) if depth < 32
                else -1)
    if d[i] == ')':
        return (url_end(d, n, i + 1, depth - 1, start) if depth != 0 else i)
    if space(ord(d[i])):
        return i if i > start and depth == 0 else -1
    return url_end(d, n, i + 1, depth, start)


def inv_url(i: 'int', nb_p: 'int', arg_input, arg_offset):
    n = arg_input.length
    return (arg_offset <= i and 0 <= nb_p
            and (url_end(arg_input.data, n, i, nb_p, arg_offset)
                 == url_end(arg_input.data, n, arg_offset, 0, arg_offset)))


@contract('md_toc.cmark.inlines_c._cmark_manual_scan_link_url_2',
          dict(input=CHUNK, offset=INT), requires=in_chunk,
          invariants=[inv_url], unfold=2, config=dict(soft=True))
def plain_url(input, offset):
    e = url_end(input.data, input.length, offset, 0, offset)
    if e < 0:
        return -1, None
    return e - offset, _cmarkCmarkChunk(input.data[offset:], e - offset)


@rec('int')
def pointy_end(d, n, i):
    """End of a link destination in angle brackets, read up to i."""
    if i >= n:
        return i
    if d[i] == '>':
        return i + 1
    if d[i] == '\\':
        return pointy_end(d, n, i + 2)
    if d[i] == '\n' or d[i] == '<':
        return -1
    return pointy_end(d, n, i + 1)


def inv_pointy(i: 'int', arg_input, arg_offset):
    n = arg_input.length
    return (arg_offset < i
            and (pointy_end(arg_input.data, n, i)
                 == pointy_end(arg_input.data, n, arg_offset + 1)))


@contract('md_toc.cmark.inlines_c._cmark_manual_scan_link_url',
          dict(input=CHUNK, offset=INT), requires=in_chunk,
          invariants=[inv_pointy], unfold=2, config=dict(soft=True))
def url(input, offset):
    d = input.data
    if not (offset < input.length and d[offset] == '<'):
        return plain_url(input, offset)
    e = pointy_end(d, input.length, offset + 1)
    if e < 0 or e >= input.length:
        return -1, None
    return e - offset, _cmarkCmarkChunk(d[offset + 1:], e - 2 - offset)


SPECIAL = '\r\n\\`&_*[]<!'


@opaque('int')
def some_position(d, n, i):
    """A name for the result, of which the contract says what matters."""
    return 0


def at_a_character(subj, options):
    return reading(subj) and subj.pos < subj.input.length


def nothing_special(subj, options, result):
    """Everything that matters is looked at."""
    d = subj.input.data
    return (subj.pos < result and result <= subj.input.length
            and nspan(d, subj.pos + 1, SPECIAL) >= result)


def inv_special(n: 'int', arg_subj):
    return (arg_subj.pos < n and n <= arg_subj.input.length
            and nspan(arg_subj.input.data, arg_subj.pos + 1, SPECIAL) >= n)


@contract('md_toc.cmark.inlines_c._cmark_subject_find_special_char',
          dict(subj=SUBJECT, options=ENUM(0)), requires=at_a_character,
          ensures=nothing_special, invariants=[inv_special],
          config=dict(soft=True))
def special(subj, options):
    return some_position(subj.input.data, subj.input.length, subj.pos)


# ------------------------------------------------------------- delimiters
def subject(last):
    return INST(_cmarkSubject, input=CHUNK, pos=INT, line=INT,
                column_offset=INT, block_offset=INT,
                mem=Kind('const', val=None), last_delim=last)


def a_delimiter(subj, c, smart, result):
    """The run becomes a delimiter at the end of the list exactly when it can
    open or close, and remembers where it is."""
    n = result.length
    can_open, can_close = flanking(text(subj), subj.pos - n, subj.pos, c)
    base = subj.column_offset + subj.block_offset
    x = subj.last_delim
    pushed = x is not None and x.inl_text is result
    if pushed:
        return (n == subj.pos - before(subj, 'pos')
                and (can_open or can_close) and x.delim_char == c
                and x.length == n and x.can_open == can_open
                and x.can_close == can_close
                and x.offset == 0 and x.opener_offset == 0 and x.next is None
                and (x.previous is None or x.previous.next is x)
                and result.start_column == subj.pos - n + 1 + base
                and result.end_column == subj.pos + base)
    return n == subj.pos - before(subj, 'pos') and not can_open and not can_close


def at_a_delimiter(subj, c, smart):
    return at_a_run(subj, c)


def where_the_run_ends(subj, c, smart):
    delimiter_run(subj, c)


for _name, _last in (
        ('first', Kind('const', val=None)),
        ('next', INST(_cmarkDelimiter, previous=Kind('const', val=None),
                      next=Kind('const', val=None),
                      inl_text=Kind('const', val=None), length=INT,
                      can_open=BOOL, can_close=BOOL))):
    contract('md_toc.cmark.inlines_c._cmark_handle_delim@' + _name,
             dict(subj=subject(_last), c=ENUM('*', '_'), smart=ENUM(False)),
             requires=at_a_delimiter, ensures=a_delimiter, mutates=('subj', ),
             config=dict(soft=True))(where_the_run_ends)


# ----------------------------------------------------------------- blanks
def inv_skipped(skipped: 'bool', arg_subj):
    i = before(arg_subj, 'pos')
    return (skipped == (arg_subj.pos > i) and arg_subj.pos >= i
            and span(text(arg_subj), i, ' \t') >= arg_subj.pos)


@contract('md_toc.cmark.inlines_c._cmark_skip_spaces',
          dict(subj=SUBJECT), requires=reading, invariants=[inv_skipped],
          mutates=('subj', ), config=dict(soft=True))
def skip_spaces(subj):
    i = subj.pos
    subj.pos = span(text(subj), i, ' \t')
    return subj.pos > i


@rec('int')
def trimmed(d, n):
    """d[:n] without the blanks at its end."""
    if n <= 0 or not space(ord(d[n - 1])):
        return n
    return trimmed(d, n - 1)


def a_chunk(c):
    return 0 <= c.length and c.length <= len(c.data)


def inv_trimmed(c, arg_c):
    n = before(arg_c, 'length')
    return (0 <= arg_c.length and arg_c.length <= n
            and trimmed(arg_c.data, n) == trimmed(arg_c.data, arg_c.length))


@contract('md_toc.cmark.chunk_h._cmark_cmark_chunk_rtrim', dict(c=CHUNK),
          requires=a_chunk, mutates=('c', ), invariants=[inv_trimmed],
          unfold=2, config=dict(soft=True))
def rtrim(c):
    c.length = trimmed(c.data, c.length)


# ------------------------------------------------------ the list of delimiters
NODE = INST(_cmarkDelimiter, previous=Kind('const', val=None),
            next=Kind('const', val=None))


def linked(has_previous, has_next):
    """A delimiter with its neighbours: a removal looks at nothing else."""

    def setup(ip, env, st):
        d = env['delim']
        o = st.obj(d).fields
        if has_previous:
            o['previous'] = symbolic(ip, NODE, 'previous', st)
            st.obj(o['previous']).fields['next'] = d
        if has_next:
            o['next'] = symbolic(ip, NODE, 'next', st)
            st.obj(o['next']).fields['previous'] = d
        else:
            st.obj(env['subj']).fields['last_delim'] = d

    return setup


def unlink(subj, delim):
    p = delim.previous
    n = delim.next
    if p is not None:
        p.next = n
    if n is not None:
        n.previous = p
    else:
        subj.last_delim = p


SHAPES = {'alone': (False, False), 'first': (False, True),
          'last': (True, False), 'between': (True, True)}
for _name, _shape in SHAPES.items():
    contract('md_toc.cmark.inlines_c._cmark_remove_delimiter@' + _name,
             dict(subj=INST(_cmarkSubject, last_delim=NODE), delim=NODE),
             setup=linked(*_shape), mutates=('subj', 'delim'),
             config=dict(soft=True))(unlink)
