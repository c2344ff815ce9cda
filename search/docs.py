"""Documents: generator, options, and what the contracts say about the TOC."""
from contracts import anchors as AN
from contracts import fences as F
from contracts import headings as H
from contracts import lists as L
from md_toc import api
from md_toc.exceptions import TocDoesNotRenderAsCoherentList

from .common import (FAMILY, PARSERS, WORDS, heading_line, limit, mined,
                     outcome, put, stdin, text)

#: characters that end a line for no text file reader of this program but
#: that change how a generated line is seen by str.splitlines
PLAIN = ('a', 'b', 'foo', 'bar', 'Foo', 'foo bar', 'x1', 'É', 'a-b', 'a_b',
         '1', '-1', 'foo-1', 'foo-2', '#', '\\', '[', ']', '*a*', '`c`',
         '<b>', '&amp;', '.', '!', '(x)')

FENCES = ('```', '~~~', '````', '   ```', '``` x', '~~~ y', '    ~~~',
          '``` a`b', '~~~~ ')


def universal(t):
    """What reading a text file does to its line ends."""
    return t.replace('\r\n', '\n').replace('\r', '\n')


def lines_of(t):
    t = universal(t)
    out = t.split('\n')
    last = out.pop()
    out = [x + '\n' for x in out]
    if last:
        out.append(last)
    return out


def read(t, parser, skip=0):
    """[(level, line)] of the headings outside fenced code."""
    out = []
    fence = None
    for ln in lines_of(t)[skip:]:
        if fence is not None:
            if F.closing_fence(ln, fence, False, parser):
                fence = None
            continue
        fence = F.opening_fence(ln, parser)
        if fence is not None:
            continue
        s = ln.rstrip('\n')
        if s == '':
            continue
        lev = H.heading_level(s, parser)
        if lev:
            out.append((lev, s))
    return out


def entries(t, o):
    """[(level, text, anchor)] of the TOC entries; raises the documented
    errors for link labels."""
    p = o['parser']
    counter = {}
    out = []
    for lev, s in read(t, p, o.get('skip', 0)):
        h = H.heading(s, o['keep'], p, o['no_links'])
        x = h['header_text_trimmed']
        a = AN.anchor(x, counter, p)
        if h['visible']:
            out.append((lev, x, a))
    return out


def numbers(levels, o):
    """Numbers of the entries (ordered lists)."""
    out = []
    count = {}
    prev = 0
    for lv in levels:
        if o['constant'] or not o['ordered']:
            out.append(1)
        else:
            L.increase(count, prev, lv, o['parser'])
            out.append(count['h%d' % lv])
        prev = lv
    return out


def list_marker(o):
    m, p = o['marker'], o['parser']
    ordered = o['ordered']
    if ordered and m == '-':
        m = '.'
    if o['constant']:
        ordered = True
    if ordered and m not in L.closings(p):
        m = '.'
    return ordered, m


def coherent(levels):
    first = prev = None
    for lv in levels:
        if first is None:
            first = prev = lv
        if lv < first or lv > prev + 1:
            return False
        prev = lv
    return True


def indentation(levels, nums, o):
    ordered, m = list_marker(o)
    if o['no_indentation']:
        return [0] * len(levels)
    log = L.init_log(o['parser'], m)
    out = []
    # with the coherence check the first entry counts as its own
    # predecessor, which makes no difference for the spaces
    prev = 0
    for lv, n in zip(levels, nums):
        L.compute_spaces(lv, prev, o['parser'], ordered, m, log, n)
        out.append(log[lv]['indentation_spaces'])
        prev = lv
    return out


def toc(t, o):
    """The whole TOC (the documented errors are raised in document order by
    the program; here only whether one is due matters)."""
    es = entries(t, o)
    levels = [e[0] for e in es]
    if not o['no_indentation'] and not o['no_coherence']:
        if not coherent(levels):
            raise TocDoesNotRenderAsCoherentList
    ordered, m = list_marker(o)
    if es and not ordered and m not in L.bullets(o['parser']):
        raise ValueError
    nums = numbers(levels, o)
    ind = indentation(levels, nums, o)
    out = []
    for (lv, x, a), n, k in zip(es, nums, ind):
        h = {'header_type': lv, 'text_original': x, 'text_anchor_link': a,
             'visible': True}
        out.append(L.toc_line(L.line_without_indentation(
            h, ordered, o['no_links'], n, o['parser'], m), k) + o['nl'])
    return ''.join(out)


def options(rng, **fixed):
    o = {
        'parser': rng.choice(PARSERS),
        'ordered': rng.random() < 0.4,
        'no_links': rng.random() < 0.3,
        'no_indentation': rng.random() < 0.15,
        'no_coherence': rng.random() < 0.4,
        'keep': rng.choice((1, 2, 3, 3, 4, 6, 6, 6)),
        'marker': rng.choice(('-', '-', '-', '+', '*', '.', ')')),
        'skip': rng.choice((0, 0, 0, 0, 0, 1, 2, 3, 5, 20)),
        'constant': rng.random() < 0.15,
        'nl': rng.choice(('\n', '\n', '\n', '\r\n', '\r')),
    }
    if not o['ordered'] and not o['constant'] and o['marker'] in '.)':
        o['marker'] = '-'
    o.update(fixed)
    return o


def call(path, o):
    return outcome(
        api.build_toc, path, ordered=o['ordered'], no_links=o['no_links'],
        no_indentation=o['no_indentation'],
        no_list_coherence=o['no_coherence'], keep_header_levels=o['keep'],
        parser=o['parser'], list_marker=o['marker'],
        skip_lines=o.get('skip', 0), constant_ordered_list=o['constant'],
        newline_string=o['nl'])


def build(t, o, name='doc.md'):
    with limit(20):
        return call(put(name, t), o)


def walk(rng, n):
    """Levels of a coherent walk with occasional jumps."""
    lv = rng.choice((1, 1, 1, 2, 3))
    jump = rng.choice((0, 0, 0.1, 0.4))
    out = []
    for _ in range(n):
        out.append(lv)
        r = rng.random()
        if r < jump:
            lv = rng.randint(1, 6)
        elif r < 0.45:
            lv = min(6, lv + 1)
        elif r < 0.7:
            lv = rng.randint(1, lv)
    return out


def document(rng, words=PLAIN, fences=0.12, noise=0.2, maxn=9, wild=0.1,
             big=True):
    n = rng.randint(0, maxn)
    if big and rng.random() < 0.06:
        n = rng.choice((11, 12, 13, 21, 101, 102) + tuple(
            k + 1 for k in mined()[1] if k < 400))
    out = []
    flat = n > 15 or rng.random() < 0.2
    levels = walk(rng, n)
    if flat:
        base = rng.randint(1, 3)
        levels = [base if rng.random() < 0.93 else base + 1
                  for _ in range(n)]
    small = rng.choice((words, words, ('foo', 'Foo', 'bar')))
    for lv in levels:
        while rng.random() < noise:
            out.append(rng.choice(('', 'text', '    # code', '#no', ' ',
                                   '\t# t', '> # q', 'Title', '===', '---',
                                   '- # x', '\\# y')))
        if rng.random() < fences and not flat:
            out.append(rng.choice(FENCES))
        if rng.random() < wild:
            out.append(heading_line(rng))
        elif rng.random() < 0.5:
            out.append('#' * lv + ' ' + rng.choice(small))
        else:
            t = text(rng, 1, 3, words).replace('\n', ' ').replace('\r', ' ')
            out.append('#' * lv + ' ' + t)
    end = rng.choice(('\n', '\n', '\n', '\n', '\r\n', '\r'))
    t = end.join(out)
    if out and rng.random() < 0.85:
        t += end
    return t
