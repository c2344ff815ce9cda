"""Search for C17: the delimiter rules of CommonMark 0.30, written from the
text of the specification."""
import re
import string
import unicodedata

from md_toc import api

from .anchors import CHARS, one, subsequence
from .common import FAMILY, WORDS, limit, mined, outcome, strings, text


def space(c):
    return c == '' or unicodedata.category(c) == 'Zs' or c in '\t\n\x0c\r'


def punct(c):
    return c != '' and (c in string.punctuation
                        or unicodedata.category(c)[0] == 'P')


class Run:

    def __init__(self, t, a, b):
        self.a, self.b, self.c, self.n = a, b, t[a], b - a
        before, after = t[a - 1:a], t[b:b + 1]
        left = not space(after) and (not punct(after) or space(before)
                                     or punct(before))
        right = not space(before) and (not punct(before) or space(after)
                                       or punct(after))
        if self.c == '_':
            self.opens = left and (not right or punct(before))
            self.closes = right and (not left or punct(after))
        else:
            self.opens, self.closes = left, right


ESC = r'\\\\[!-/:-@\\[-`{-~]'
TAG = re.compile(
    r'<[A-Za-z][A-Za-z0-9-]*'
    r'(?:[ \t\n\r]+[A-Za-z_:][A-Za-z0-9_.:-]*'
    r'(?:[ \t\n\r]*=[ \t\n\r]*'
    r'(?:[^ \t\n\r"\'=<>`]+|\'[^\']*\'|"[^"]*"))?)*[ \t\n\r]*/?>'
    r'|</[A-Za-z][A-Za-z0-9-]*[ \t\n\r]*>')
URI = re.compile(r'<[A-Za-z][A-Za-z0-9.+-]{1,31}:[^\x00-\x20<>]*>')
#: comments, sections, instructions and declarations
MARKUP = re.compile(
    r'<!---->|<!--(?:-?[^>-])(?:-?[^-])*-->|<!\[CDATA\[.*?\]\]>'
    r'|<\?.*?\?>|<![A-Z]+[ \t]+[^>]*>', re.DOTALL)
LABEL = '[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?'
MAIL = re.compile(r"<[a-zA-Z0-9.!#$%&'*+/=?^_`{|}~-]+@" + LABEL
                  + r'(?:\.' + LABEL + ')*>')
TITLE = re.compile(
    r'"(?:%s|[^"\\])*"|\'(?:%s|[^\'\\])*\'|\((?:%s|[^()\\])*\)' % (
        (ESC + r'|\\',) * 3))
POINTY = re.compile(r'<(?:%s|[^<>\n\\]|\\)*>' % ESC)
WS = ' \t\n\r'


def destination(t, i):
    """The end of a link destination at i, or None."""
    if t[i:i + 1] == '<':
        m = POINTY.match(t, i)
        return m.end() if m else None
    depth = 0
    k = i
    while k < len(t):
        c = t[k]
        if c == '\\' and t[k + 1:k + 2] and t[k + 1] in string.punctuation:
            k += 2
            continue
        if c == '(':
            depth += 1
            if depth > 32:
                return None
        elif c == ')':
            if depth == 0:
                break
            depth -= 1
        elif c == ' ' or ord(c) < 32 or c == '\x7f':
            break
        k += 1
    return k if depth == 0 else None


def tail(t, i):
    """The end of the (destination "title") part of a link at i, or
    None."""
    if t[i:i + 1] != '(':
        return None
    i += 1
    while t[i:i + 1] and t[i] in WS:
        i += 1
    k = destination(t, i)
    if k is None:
        return None
    j = k
    while t[j:j + 1] and t[j] in WS:
        j += 1
    if j > k:
        m = TITLE.match(t, j)
        if m:
            j = m.end()
            while t[j:j + 1] and t[j] in WS:
                j += 1
    return j + 1 if t[j:j + 1] == ')' else None


def plain(t):
    """The positions of the emphasis delimiters of t."""
    gone = set()
    rs = []
    brackets = []  # image, number of runs before, active
    bang = -1
    i = 0
    while i < len(t):
        c = t[i]
        if c == '\\' and t[i + 1:i + 2] and t[i + 1] in string.punctuation:
            i += 2
        elif c == '`':
            j = i
            while t[j:j + 1] == '`':
                j += 1
            k = j
            while True:
                k = t.find('`', k)
                if k < 0:
                    break
                e = k
                while t[e:e + 1] == '`':
                    e += 1
                if e - k == j - i:
                    break
                k = e
            i = j if k < 0 else e
        elif c == '<':
            m = (URI.match(t, i) or MAIL.match(t, i) or TAG.match(t, i)
                 or MARKUP.match(t, i))
            i = m.end() if m else i + 1
        elif c in '*_':
            j = i
            while t[j:j + 1] == c:
                j += 1
            rs.append(Run(t, i, j))
            i = j
        elif c == '[':
            brackets.append([t[i - 1:i] == '!' and bang == i - 1, len(rs),
                             True])
            i += 1
        elif c == ']':
            i += 1
            if brackets:
                image, n, active = brackets.pop()
                e = tail(t, i) if active else None
                if e is not None:
                    match(rs, n, gone)
                    if not image:
                        for b in brackets:
                            if not b[0]:
                                b[2] = False
                    i = e
        else:
            if c == '!':
                bang = i
            i += 1
    match(rs, 0, gone)
    return gone


def match(rs, bottom, gone):
    """Process the runs from bottom on and drop them."""
    k = bottom
    while k < len(rs):
        r = rs[k]
        hit = None
        if r.closes:
            for o in range(k - 1, bottom - 1, -1):
                q = rs[o]
                if q.opens and q.c == r.c and (
                        not (q.closes or r.opens)
                        or (q.n + r.n) % 3 != 0
                        or (q.n % 3 == 0 and r.n % 3 == 0)):
                    hit = o
                    break
        if hit is None:
            k += 1
            continue
        q = rs[hit]
        n = 2 if q.b - q.a >= 2 and r.b - r.a >= 2 else 1
        gone.update(range(q.b - n, q.b))
        gone.update(range(r.a, r.a + n))
        q.b -= n
        r.a += n
        del rs[hit + 1:k]
        k = hit + 1
        if q.a == q.b:
            del rs[hit]
            k -= 1
        if r.a == r.b:
            del rs[k]
    del rs[bottom:]


#: declarations on which the versions of the specification differ
UNSURE = re.compile(r'<!(?![A-Z]+[ \t])[A-Za-z]')


class C17:
    rule = ('texts over small alphabets of delimiters (enumerated) and '
            'random ones; nothing but delimiters may go, and the texts are '
            'compared with the '
            'delimiter and link rules of CommonMark; non-trivial: the text has * or _')

    @staticmethod
    def cases(rng, tier):
        n = 0
        q = tier == 'quick'
        for a, k in (('*a ', 9 if q else 11), ('*_a', 8 if q else 10),
                     ('_a.', 7 if q else 9), ('*_ .a', 6), ('*`\\a', 6),
                     ('*[](a', 6), ('_*<>a', 5), ('*&;#', 5),
                     ('*\xa0«é', 6), ('_\xa0«a²', 6)):
            for s in strings(a, k):
                n += 1
                yield {'t': s, 'parser': FAMILY[n % 5]}
        for w in mined()[0]:
            for f in ('*%s*', '_%s_', '%s*a*', '**a**%s', '*a %s*'):
                n += 1
                yield {'t': f.replace('%s', w).replace('\n', '').replace(
                    '\r', ''), 'parser': FAMILY[n % 5]}
        words = ('*', '**', '***', '_', '__', '___', 'a', 'b', ' ', '.',
                 '`', '\\', '(', ')', 'é', '\xa0', '«', '“', '\u3000', '-',
                 '"', "'", '!', '[', ']', '<', '>', '&', '²', '\x00')
        linky = ('*', '**', '_', '__', 'a', 'b', ' ', '.', '[', '](b)',
                 '](', '](<b>)', '](b "c")', '](b (c))', ')', ']', '`',
                 '<a>', '\\', '&amp;', '<', '>', '!', '(', '[a]', '"',
                 '<http://a_b*c>', '<a*b@c.d>', ' (c)', "'", '<b c="*">',
                 '![', '</a>', '&#42;', '&', ';')
        markup = linky + ('<!--', '-->', '--', '<!', '<!A ', '<![CDATA[',
                          ']]>', '<?', '?>', '?', '-', ']', 'A', 'CDATA[')
        nested = ('*', '_', '**', '[', '![', '](b)', ']', '](b)', '[', 'a',
                  ' ')
        while True:
            r = rng.random()
            if r < 0.8:
                t = ''.join(rng.choice(words if r < 0.4 else linky if r < 0.6
                                       else markup if r < 0.7 else nested)
                            for _ in range(rng.randint(1, 14)))
            else:
                t = one(rng)
            yield {'t': t, 'parser': rng.choice(FAMILY), '_r': 1}

    @staticmethod
    def nontrivial(x):
        return '*' in x['t'] or '_' in x['t']

    @staticmethod
    def judge(x):
        t = x['t']
        with limit():
            kind, got = outcome(api.remove_emphasis, t, x['parser'])
        if kind != 'return':
            return None
        u = t.replace('\x00', '')
        if not subsequence(u, got):
            return 'more than delimiters is removed: %r becomes %r' % (t, got)
        if not ('*' in t or '_' in t) and got != u:
            return '%r becomes %r' % (t, got)
        if any(c in t for c in ('\n', '\r', '`' * 80, '??>', ']]]>')):
            return None
        if '<!' in t and UNSURE.search(u):
            return None
        gone = plain(u)
        want = ''.join(c for i, c in enumerate(u) if i not in gone)
        if got != want:
            return '%r becomes %r, expected %r' % (t, got, want)
        return None
