"""Languages of regular expressions.

The name of a language is its minimal automaton, so that two patterns that
accept the same texts get the same name whatever they look like.  Lookahead is
supported (alternating automata), backreferences and anchors are not.
"""
import functools
import hashlib
import re
import sys

try:
    from re import _constants as K
    from re import _parser as P
except ImportError:  # before Python 3.11
    import sre_constants as K
    import sre_parse as P

TOP = sys.maxunicode


class NotRegular(Exception):
    pass


# ------------------------------------------------------------- character sets
def norm(iv):
    out = []
    for a, b in sorted(iv):
        if out and a <= out[-1][1] + 1:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return tuple((a, b) for a, b in out)


def complement(iv):
    out, at = [], 0
    for a, b in iv:
        if a > at:
            out.append((at, a - 1))
        at = b + 1
    if at <= TOP:
        out.append((at, TOP))
    return tuple(out)


@functools.lru_cache(None)
def category(pattern):
    r = re.compile(pattern)
    out, start = [], None
    for c in range(TOP + 2):
        y = c <= TOP and r.match(chr(c)) is not None
        if y and start is None:
            start = c
        elif not y and start is not None:
            out.append((start, c - 1))
            start = None
    return tuple(out)


CATEGORIES = {
    K.CATEGORY_DIGIT: r'\d', K.CATEGORY_NOT_DIGIT: r'\D',
    K.CATEGORY_SPACE: r'\s', K.CATEGORY_NOT_SPACE: r'\S',
    K.CATEGORY_WORD: r'\w', K.CATEGORY_NOT_WORD: r'\W'}


def char_set(items):
    iv, neg = [], False
    for op, a in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            iv.append((a, a))
        elif op is K.RANGE:
            iv.append(a)
        elif op is K.CATEGORY and a in CATEGORIES:
            iv += category(CATEGORIES[a])
        else:
            raise NotRegular(str(op))
    iv = norm(iv)
    return complement(iv) if neg else iv


# ------------------------------------------------------------------- patterns
def sequence(sub, dotall):
    out = ()
    for op, a in sub:
        if op is K.LITERAL:
            out += (('cs', ((a, a), )), )
        elif op is K.NOT_LITERAL:
            out += (('cs', complement(((a, a), ))), )
        elif op is K.IN:
            out += (('cs', char_set(a)), )
        elif op is K.ANY:
            out += (('cs', ((0, TOP), ) if dotall else complement(
                ((10, 10), ))), )
        elif op is K.BRANCH:
            out += (('alt', tuple(sequence(s, dotall) for s in a[1])), )
        elif op is K.SUBPATTERN:
            if a[1] or a[2]:
                raise NotRegular('flags')
            out += sequence(a[3], dotall)
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, s = a
            s = sequence(s, dotall)
            if lo > 1000 or (hi is not K.MAXREPEAT and hi > 1000):
                raise NotRegular('large repetition')
            out += s * lo
            if hi is K.MAXREPEAT:
                out += (('star', s), )
            else:
                tail = ()
                for _ in range(hi - lo):
                    tail = (('alt', ((), s + tail)), )
                out += tail
        elif op in (K.ASSERT_NOT, K.ASSERT) and a[0] == 1:
            out += (('not' if op is K.ASSERT_NOT else 'and',
                     sequence(a[1], dotall)), )
        else:
            raise NotRegular(str(op))
    return out


# ------------------------------------------- boolean functions (shared graphs)
class Bdd:

    def __init__(self):
        self.nodes, self.cache = {}, {}

    def node(self, v, a, b):
        return a if a is b or a == b else self.nodes.setdefault(
            (v, a, b), (v, a, b))

    def ite(self, f, g, h):
        if f is True:
            return g
        if f is False:
            return h
        if g == h:
            return g
        if g is True and h is False:
            return f
        key = (f, g, h)
        r = self.cache.get(key)
        if r is None:
            v = min(x[0] for x in (f, g, h) if not isinstance(x, bool))

            def cof(x, i):
                if isinstance(x, bool) or x[0] != v:
                    return x
                return x[i]

            r = self.node(v, self.ite(cof(f, 1), cof(g, 1), cof(h, 1)),
                          self.ite(cof(f, 2), cof(g, 2), cof(h, 2)))
            self.cache[key] = r
        return r

    def neg(self, f):
        return self.ite(f, False, True)

    def conj(self, f, g):
        return self.ite(f, g, False)

    def disj(self, f, g):
        return self.ite(f, True, g)


ALL = ('all', )


class Alternating:

    def __init__(self, seq):
        self.b = Bdd()
        self.ids, self.states = {}, []
        self.start = self.var(seq)
        cuts = {0, TOP + 1}
        self.find_cuts(seq, cuts)
        cuts = sorted(cuts)
        self.cells = [(a, b - 1) for a, b in zip(cuts, cuts[1:])]
        self.memo = {}

    def find_cuts(self, seq, cuts):
        for x in seq:
            if x[0] == 'cs':
                for a, b in x[1]:
                    cuts |= {a, b + 1}
            elif x[0] == 'alt':
                for s in x[1]:
                    self.find_cuts(s, cuts)
            elif x[0] in ('star', 'not', 'and'):
                self.find_cuts(x[1], cuts)

    def var(self, seq):
        if seq not in self.ids:
            self.ids[seq] = len(self.states)
            self.states.append(seq)
        return self.b.node(self.ids[seq], True, False)

    def null(self, seq, seen=frozenset()):
        if not seq:
            return True
        x, r = seq[0], seq[1:]
        if x[0] == 'cs':
            return False
        if x == ALL:
            return True
        if x[0] == 'alt':
            return any(self.null(s + r, seen) for s in x[1])
        if x[0] == 'star':
            if seq in seen:
                return False
            return self.null(r, seen) or self.null(x[1] + seq,
                                                   seen | {seq})
        t = self.null(x[1] + (ALL, ))
        return self.null(r, seen) and (t if x[0] == 'and' else not t)

    def step(self, seq, c, seen=frozenset()):
        """What must hold of the rest after the character c."""
        if not seq:
            return False
        x, r = seq[0], seq[1:]
        b = self.b
        if x[0] == 'cs':
            return self.var(r) if any(p <= c <= q for p, q in x[1]) else False
        if x == ALL:
            return True
        if x[0] == 'alt':
            f = False
            for s in x[1]:
                f = b.disj(f, self.step(s + r, c, seen))
            return f
        if x[0] == 'star':
            if seq in seen:
                return False
            return b.disj(self.step(r, c, seen),
                          self.step(x[1] + seq, c, seen | {seq}))
        t = self.step(x[1] + (ALL, ), c)
        return b.conj(self.step(r, c, seen),
                      t if x[0] == 'and' else b.neg(t))

    def post(self, f, c):
        if isinstance(f, bool):
            return f
        key = (f, c)
        if key not in self.memo:
            v, g, h = f
            self.memo[key] = self.b.ite(
                self.step(self.states[v], c), self.post(g, c),
                self.post(h, c))
        return self.memo[key]

    def accepts(self, f):
        while not isinstance(f, bool):
            f = f[1] if self.null(self.states[f[0]]) else f[2]
        return f


@functools.lru_cache(None)
def language(pattern, flags=0):
    """Name of the set of texts that the pattern matches entirely."""
    p = P.parse(pattern, flags)
    have = p.state.flags & ~re.UNICODE
    if have & ~re.DOTALL:
        raise NotRegular('flags')
    a = Alternating(sequence(p, bool(have & re.DOTALL)))
    order, index, rows = [a.start], {a.start: 0}, []
    for f in order:
        row = []
        for lo, hi in a.cells:
            g = a.post(f, lo)
            if g not in index:
                index[g] = len(order)
                order.append(g)
                if len(order) > 2000:
                    raise NotRegular('large automaton')
            row.append(index[g])
        rows.append(row)
    # minimal automaton
    block = [int(a.accepts(f)) for f in order]
    while True:
        sig = {}
        new = [sig.setdefault((block[i], tuple(block[j] for j in rows[i])),
                              len(sig)) for i in range(len(order))]
        if len(set(new)) == len(set(block)):
            break
        block = new
    # canonical numbers
    rep = {}
    for i, x in enumerate(block):
        rep.setdefault(x, i)
    num, queue, out = {block[0]: 0}, [block[0]], []
    for x in queue:
        i = rep[x]
        edges = []
        for (lo, hi), j in zip(a.cells, rows[i]):
            y = block[j]
            if y not in num:
                num[y] = len(num)
                queue.append(y)
            if edges and edges[-1][2] == num[y]:
                edges[-1][1] = hi
            else:
                edges.append([lo, hi, num[y]])
        out.append((a.accepts(order[i]), edges))
    return hashlib.sha1(repr(out).encode()).hexdigest()[:12]
