"""Term layer of pyvc: strings, character sets and the background axioms.

A Python string is modelled as a value of the uninterpreted sort Str together
with a length function L and a code point function A (Str x Int -> Int).  The
string operations used by the verified code are defined by the axioms below;
every axiom is a definition of a Python built-in (slice, concatenation,
repetition, first index outside a character set, ...), see DESIGN.md.
"""
import z3

I = z3.IntSort()
B = z3.BoolSort()
Str = z3.DeclareSort('Str')
L = z3.Function('L', Str, I)
A = z3.Function('A', Str, I, I)
fSlice = z3.Function('slice', Str, I, I, Str)
fCat = z3.Function('cat', Str, Str, Str)
fRep = z3.Function('rep', I, I, Str)
fItoa = z3.Function('itoa', I, Str)
fHex = z3.Function('hexstr', I, Str)
fLower = z3.Function('lower', Str, Str)
fSha = z3.Function('sha1hex', Str, Str)
fEmp = z3.Function('asstr_code', I, Str)
fExt = z3.Function('extdiff', Str, Str, I)
fCLower = z3.Function('clower', I, I)
isword = z3.Function('isword', I, B)
#: documents: sequences of lines as text files deliver them
Doc = z3.DeclareSort('Doc')
fLine = z3.Function('line', Doc, I, Str)
fLines = z3.Function('nlines', Doc, I)
World = z3.DeclareSort('World')
fDoc = z3.Function('document', World, Str, Doc)
W0 = z3.Const('world', World)
StrSeq = z3.DeclareSort('StrSeq')
fSeqLen = z3.Function('seqlen', StrSeq, I)
fSeqAt = z3.Function('seqat', StrSeq, I, Str)

AXIOMS = []          # background axioms, grow only
_n = [0]


def fresh_int(name='i'):
    _n[0] += 1
    return z3.Int('%s!%d' % (name, _n[0]))


def fresh_bool(name='b'):
    _n[0] += 1
    return z3.Bool('%s!%d' % (name, _n[0]))


def fresh_str(name='s'):
    _n[0] += 1
    return z3.Const('%s!%d' % (name, _n[0]), Str)


def fresh_name(name):
    _n[0] += 1
    return '%s!%d' % (name, _n[0])


def _base_axioms():
    s, t = z3.Consts('s t', Str)
    a, b, k, n, c, m = z3.Ints('a b k n c m')
    FA = z3.ForAll
    ax = [
        FA([s], L(s) >= 0, patterns=[L(s)]),
        FA([s, k], z3.And(A(s, k) >= 0, A(s, k) <= 0x10ffff),
           patterns=[A(s, k)]),
        FA([s, a, b],
           z3.Implies(z3.And(0 <= a, a <= b, b <= L(s)),
                      L(fSlice(s, a, b)) == b - a),
           patterns=[fSlice(s, a, b)]),
        FA([s, a, b, k],
           z3.Implies(z3.And(0 <= a, a <= b, b <= L(s), 0 <= k, k < b - a),
                      A(fSlice(s, a, b), k) == A(s, a + k)),
           patterns=[A(fSlice(s, a, b), k)]),
        FA([s, t], L(fCat(s, t)) == L(s) + L(t), patterns=[fCat(s, t)]),
        FA([s, t, k],
           z3.And(
               z3.Implies(z3.And(0 <= k, k < L(s)),
                          A(fCat(s, t), k) == A(s, k)),
               z3.Implies(z3.And(L(s) <= k, k < L(s) + L(t)),
                          A(fCat(s, t), k) == A(t, k - L(s)))),
           patterns=[A(fCat(s, t), k)]),
        FA([c, n], L(fRep(c, n)) == z3.If(n > 0, n, 0),
           patterns=[fRep(c, n)]),
        FA([c, n, k],
           z3.Implies(z3.And(0 <= k, k < n), A(fRep(c, n), k) == c),
           patterns=[A(fRep(c, n), k)]),
        # decimal representation of non negative integers
        FA([n], z3.And(L(fItoa(n)) >= 1,
                       z3.Implies(z3.And(0 <= n, n <= 9), L(fItoa(n)) == 1),
                       z3.Implies(n >= 10, L(fItoa(n)) >= 2)),
           patterns=[fItoa(n)]),
        FA([n, k],
           z3.Implies(z3.And(n >= 0, 0 <= k, k < L(fItoa(n))),
                      z3.And(A(fItoa(n), k) >= 48, A(fItoa(n), k) <= 57)),
           patterns=[A(fItoa(n), k)]),
        FA([n, m], z3.Implies(fItoa(n) == fItoa(m), n == m),
           patterns=[z3.MultiPattern(fItoa(n), fItoa(m))]),
        # sha1 is treated as injective (listed assumption)
        FA([s, t], z3.Implies(fSha(s) == fSha(t), s == t),
           patterns=[z3.MultiPattern(fSha(s), fSha(t))]),
        # word characters, on the ASCII range
        FA([c],
           z3.Implies(z3.And(0 <= c, c < 128),
                      isword(c) == z3.Or(z3.And(48 <= c, c <= 57),
                                         z3.And(65 <= c, c <= 90), c == 95,
                                         z3.And(97 <= c, c <= 122))),
           patterns=[isword(c)]),
        FA([c],
           z3.Implies(z3.And(0 <= c, c < 128),
                      fCLower(c) == z3.If(z3.And(65 <= c, c <= 90), c + 32,
                                          c)),
           patterns=[fCLower(c)]),
    ]
    return ax


AXIOMS.extend(_base_axioms())

_lits = {}


def lit_term(s):
    """The Str term of a literal."""
    if s not in _lits:
        t = z3.Const('lit!%s' % s.encode('unicode_escape').decode(), Str)
        _lits[s] = t
        AXIOMS.append(L(t) == len(s))
        for i, ch in enumerate(s):
            AXIOMS.append(A(t, z3.IntVal(i)) == ord(ch))
        # Only the literal itself: rules out L==0 twins
        if s == '':
            x = z3.Const('x', Str)
            AXIOMS.append(
                z3.ForAll([x], z3.Implies(L(x) == 0, x == t),
                          patterns=[L(x)]))
    return _lits[s]


UNI_SPACE = frozenset(
    c for c in range(0x110000) if chr(c).isspace())


class CS:
    """A set of code points: a finite set, a predicate, or a complement."""
    _all = {}

    def __init__(self, codes=(), preds=(), neg=False):
        self.codes = frozenset(codes)
        self.preds = frozenset(preds)
        self.neg = neg

    def key(self):
        return (self.neg, tuple(sorted(self.codes)), tuple(sorted(self.preds)))

    def compl(self):
        return CS(self.codes, self.preds, not self.neg)

    def has(self, c):
        ors = []
        cs = sorted(self.codes)
        i = 0
        while i < len(cs):
            j = i
            while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1:
                j += 1
            if j - i >= 2:
                ors.append(z3.And(c >= cs[i], c <= cs[j]))
            else:
                ors += [c == x for x in cs[i:j + 1]]
            i = j + 1
        for p in sorted(self.preds):
            if p == 'word':
                ors.append(isword(c))
            else:
                raise KeyError(p)
        r = z3.Or(ors) if ors else z3.BoolVal(False)
        return z3.simplify(z3.Not(r)) if self.neg else z3.simplify(r)

    def has_py(self, ch):
        import re
        r = ord(ch) in self.codes or any(
            p == 'word' and re.fullmatch(r'\w', ch) for p in self.preds)
        return (not r) if self.neg else r


_spans = {}
_rspans = {}


def span_fn(cs):
    """span_cs(s, f, t): first index in [f, t) whose code is not in cs, or t."""
    k0 = cs.key()
    if k0 not in _spans:
        f = z3.Function('span!%d' % len(_spans), Str, I, I, I)
        _spans[k0] = f
        s = z3.Const('s', Str)
        a, b, k = z3.Ints('a b k')
        AXIOMS.append(
            z3.ForAll([s, a, b],
                      z3.Implies(a <= b,
                                 z3.And(a <= f(s, a, b), f(s, a, b) <= b,
                                        z3.Implies(f(s, a, b) > a,
                                                   z3.And(cs.has(A(s, a)),
                                                          cs.has(A(s, f(s, a, b) - 1)))),
                                        z3.Implies(f(s, a, b) < b,
                                                   z3.Not(cs.has(A(s, f(s, a, b))))))),
                      patterns=[f(s, a, b)]))
        AXIOMS.append(
            z3.ForAll([s, a, b, k],
                      z3.Implies(z3.And(a <= b, a <= k, k < f(s, a, b)),
                                 cs.has(A(s, k))),
                      patterns=[z3.MultiPattern(f(s, a, b), A(s, k))]))
    return _spans[k0]


def rspan_fn(cs):
    """rspan_cs(s, f, t): smallest e in [f, t] with s[e:t] all in cs."""
    k0 = cs.key()
    if k0 not in _rspans:
        f = z3.Function('rspan!%d' % len(_rspans), Str, I, I, I)
        _rspans[k0] = f
        s = z3.Const('s', Str)
        a, b, k = z3.Ints('a b k')
        AXIOMS.append(
            z3.ForAll([s, a, b],
                      z3.Implies(a <= b,
                                 z3.And(a <= f(s, a, b), f(s, a, b) <= b,
                                        z3.Implies(f(s, a, b) < b,
                                                   z3.And(cs.has(A(s, f(s, a, b))),
                                                          cs.has(A(s, b - 1)))),
                                        z3.Implies(f(s, a, b) > a,
                                                   z3.Not(cs.has(A(s, f(s, a, b) - 1)))))),
                      patterns=[f(s, a, b)]))
        AXIOMS.append(
            z3.ForAll([s, a, b, k],
                      z3.Implies(z3.And(a <= b, f(s, a, b) <= k, k < b),
                                 cs.has(A(s, k))),
                      patterns=[z3.MultiPattern(f(s, a, b), A(s, k))]))
    return _rspans[k0]


def iv(x):
    """z3 integer of a Python int or an ArithRef."""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def bv(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


def sm(x):
    """Simplify; Python values are returned for constants."""
    if isinstance(x, (int, bool)):
        return x
    x = z3.simplify(x)
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return sm(iv(a) + iv(b))


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return sm(iv(a) - iv(b))


def And_(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return sm(z3.And(out)) if len(out) > 1 else out[0]


def Or_(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return sm(z3.Or(out)) if len(out) > 1 else out[0]


def Not_(x):
    if isinstance(x, bool):
        return not x
    return sm(z3.Not(x))


def If_(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a):
        return sm(z3.If(c, bv(a), bv(b)))
    return sm(z3.If(c, iv(a), iv(b)))


# ---------------------------------------------------------------- strings
class SStr:
    """Base class of the symbolic strings."""

    def length(self):
        raise NotImplementedError

    def at(self, k):
        raise NotImplementedError

    def term(self):
        raise NotImplementedError

    def anchor(self):
        """(base term, offset) when self is a window of a base term."""
        return None


class SBase(SStr):

    def __init__(self, t):
        self.t = t

    def length(self):
        return L(self.t)

    def at(self, k):
        return A(self.t, iv(k))

    def term(self):
        return self.t

    def anchor(self):
        return self.t, 0

    def __repr__(self):
        return 'SBase(%s)' % self.t


class SSlice(SStr):
    """base[a:b]; 0 <= a <= b <= L(base) is known where it is created."""

    def __init__(self, t, a, b):
        self.t, self.a, self.b = t, a, b

    def length(self):
        return sub(self.b, self.a)

    def at(self, k):
        return A(self.t, iv(add(self.a, k)))

    def term(self):
        if self.a == 0 and not isinstance(self.b, int) and z3.eq(
                iv(self.b), L(self.t)):
            return self.t
        return fSlice(self.t, iv(self.a), iv(self.b))

    def anchor(self):
        return self.t, self.a

    def __repr__(self):
        return 'SSlice(%s,%s,%s)' % (self.t, self.a, self.b)


class SRep(SStr):

    def __init__(self, code, n):
        self.code, self.n = code, n       # n may be negative

    def length(self):
        if isinstance(self.n, int):
            return max(self.n, 0)
        return sm(z3.If(self.n > 0, self.n, 0))

    def at(self, k):
        return iv(self.code)

    def term(self):
        return fRep(iv(self.code), iv(self.n))


class SCat(SStr):
    """Concatenation of >= 2 parts (SStr or str literals)."""

    def __init__(self, parts):
        self.parts = parts

    def length(self):
        r = 0
        for p in self.parts:
            r = add(r, slen(p))
        return r

    def at(self, k):
        # chain of ifs
        k = iv(k)
        offs = []
        o = 0
        for p in self.parts:
            offs.append(o)
            o = add(o, slen(p))
        r = sat(self.parts[-1], sub(k, offs[-1]))
        for p, q in list(zip(self.parts, offs))[-2::-1]:
            r = z3.If(k < iv(add(q, slen(p))), iv(sat(p, sub(k, q))), iv(r))
        return r

    def term(self):
        t = sterm(self.parts[0])
        for p in self.parts[1:]:
            t = fCat(t, sterm(p))
        return t


class SRev(SStr):

    def __init__(self, s):
        self.s = s

    def length(self):
        return slen(self.s)

    def at(self, k):
        return sat(self.s, sub(sub(slen(self.s), 1), k))

    def term(self):
        return reify(self)


class SMap(SStr):
    """Character-wise image: each code c becomes f(c)."""

    def __init__(self, s, frm, to):
        self.s, self.frm, self.to = s, frm, to

    def length(self):
        return slen(self.s)

    def at(self, k):
        c = iv(sat(self.s, k))
        return sm(z3.If(c == self.frm, z3.IntVal(self.to), c))

    def term(self):
        return reify(self)


_reified = {}


def reify(s):
    """A Str constant equal to s (definition added to the axioms)."""
    k = z3.Int('k')
    ln = iv(slen(s))
    body = iv(s.at(k))
    key = (ln.get_id(), body.get_id())
    if key in _reified:
        return _reified[key][0]
    t = fresh_str('reified')
    _reified[key] = (t, ln, body)
    AXIOMS.append(L(t) == z3.If(ln >= 0, ln, 0))
    AXIOMS.append(
        z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ln), A(t, k) == body),
                  patterns=[A(t, k)]))
    return t


def slen(s):
    if isinstance(s, str):
        return len(s)
    return sm(s.length())


def sat(s, k):
    """Code point of s at index k (int or term), assumed in range."""
    if isinstance(s, str):
        k = sm(k)
        if isinstance(k, int) and 0 <= k < len(s):
            return ord(s[k])
        if len(s) == 0:
            return 0
        return A(lit_term(s), iv(k))
    return sm(s.at(k))


def sterm(s):
    if isinstance(s, str):
        return lit_term(s)
    return s.term()


def scat(parts):
    out = []

    def push(p):
        if isinstance(p, SCat):
            for q in p.parts:
                push(q)
        elif isinstance(p, str):
            if p == '':
                return
            if out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        else:
            if sm(p.length()) == 0 and isinstance(sm(p.length()), int):
                return
            out.append(p)
    for p in parts:
        push(p)
    if not out:
        return ''
    if len(out) == 1:
        return out[0]
    return SCat(out)


def window(s):
    """s as (base term, from, to) for the span functions."""
    if isinstance(s, str):
        return lit_term(s), 0, len(s)
    if isinstance(s, SBase):
        return s.t, 0, L(s.t)
    if isinstance(s, SSlice):
        return s.t, s.a, s.b
    t = s.term()
    return t, 0, L(t)


def sspan(s, i, cs):
    """First index >= i of s outside cs (or len(s)), relative to s."""
    if isinstance(s, str) and isinstance(i, int):
        j = i
        while j < len(s) and cs.has_py(s[j]):
            j += 1
        return j
    t, a, b = window(s)
    return sub(span_fn(cs)(t, iv(add(a, i)), iv(b)), a)


def srspan(s, j, cs, lo=0):
    """Smallest e >= lo with s[e:j] all in cs."""
    if isinstance(s, str) and isinstance(j, int) and isinstance(lo, int):
        while j > lo and cs.has_py(s[j - 1]):
            j -= 1
        return j
    t, a, b = window(s)
    return sub(rspan_fn(cs)(t, iv(add(a, lo)), iv(add(a, j))), a)


def mkslice(s, a, b):
    """s[a:b] for already normalised bounds 0 <= a <= b <= len(s)."""
    if isinstance(s, str) and isinstance(a, int) and isinstance(b, int):
        return s[a:b]
    if isinstance(a, int) and isinstance(b, int) and a >= b:
        return ''
    if isinstance(s, SCat):
        # Structural slicing on exact part boundaries.
        offs = [0]
        for p in s.parts:
            offs.append(add(offs[-1], slen(p)))

        def same(x, y):
            d = sub(x, y)
            return isinstance(d, int) and d == 0
        ia = next((i for i, o in enumerate(offs) if same(o, a)), None)
        ib = next((i for i, o in enumerate(offs) if same(o, b)), None)
        if ia is not None and ib is not None and ia <= ib:
            return scat(s.parts[ia:ib])
    if isinstance(s, SRev):
        n = slen(s.s)
        return SRev(mkslice(s.s, sub(n, b), sub(n, a)))
    t, x, y = window(s)
    if isinstance(s, SBase) and isinstance(a, int) and a == 0 and z3.eq(iv(b), L(s.t)):
        return s
    return SSlice(t, add(x, a), add(x, b))


def str_eq(s, t):
    """Formula (or bool) for s == t."""
    if isinstance(s, str) and isinstance(t, str):
        return s == t
    if isinstance(s, str):
        s, t = t, s
    ls, lt = slen(s), slen(t)
    if isinstance(t, str):
        # finite conjunction
        le = sm(iv(ls) == len(t))
        if le is False:
            return False
        return And_(le, *[
            sm(iv(sat(s, i)) == ord(ch)) for i, ch in enumerate(t)
        ])
    if isinstance(ls, int) and ls <= 4:
        return And_(sm(iv(lt) == ls),
                    *[sm(iv(sat(s, i)) == iv(sat(t, i))) for i in range(ls)])
    if isinstance(lt, int) and lt <= 4:
        return str_eq(t, s)
    # structural comparison of concatenations: strip equal ends
    ps = list(s.parts) if isinstance(s, SCat) else [s]
    pt = list(t.parts) if isinstance(t, SCat) else [t]
    ch = True
    while ps and pt and ch:
        ch = False
        if part_same(ps[0], pt[0]):
            ps.pop(0); pt.pop(0); ch = True
        elif part_same(ps[-1], pt[-1]):
            ps.pop(); pt.pop(); ch = True
    s, t = scat(ps), scat(pt)
    if isinstance(s, str) or isinstance(t, str):
        return str_eq(s, t)
    if len(ps) + len(pt) < 2:
        return True
    ls, lt = slen(s), slen(t)
    if isinstance(s, SBase) and isinstance(t, SBase):
        ext_pair(s.t, t.t)
        return sm(s.t == t.t)
    if (isinstance(s, (SBase, SMap)) and isinstance(t, (SBase, SMap))):
        ext_pair(s.term(), t.term())
        return sm(s.term() == t.term())
    if not any(isinstance(x, (SRev, SMap)) for x in (s, t)):
        ext_pair(s.term(), t.term())
    return And_(sm(iv(ls) == iv(lt)), pointwise(s, t, ls))


_ext = set()


def ext_pair(a, b):
    """Make extensionality available for the pair of Str terms a, b."""
    if z3.eq(a, b):
        return
    key = (a.get_id(), b.get_id())
    if key in _ext or (key[1], key[0]) in _ext:
        return
    _ext.add(key)
    _keep.append((a, b))
    d = fExt(a, b)
    AXIOMS.append(
        z3.Implies(
            z3.And(L(a) == L(b),
                   z3.Implies(z3.And(0 <= d, d < L(a)), A(a, d) == A(b, d))),
            a == b))
    if a.num_args() and a.num_args() == b.num_args() and z3.eq(
            a.decl(), b.decl()):
        for x, y in zip(a.children(), b.children()):
            if x.sort() == Str:
                ext_pair(x, y)


_keep = []


def part_same(p, q):
    if isinstance(p, str) or isinstance(q, str):
        return isinstance(p, str) and isinstance(q, str) and p == q
    if type(p) is not type(q):
        return False
    return z3.eq(z3.simplify(p.term()), z3.simplify(q.term()))


def pointwise(s, t, n):
    """forall k in [0, n): s[k] == t[k], with window-shifted triggers."""
    fs = []
    for x, y in ((s, t), (t, s)):
        an = x.anchor()
        if an is None:
            continue
        base, off = an
        j = z3.Int('j')
        fs.append(
            z3.ForAll([j],
                      z3.Implies(
                          z3.And(j >= iv(off), j < iv(add(off, n))),
                          A(base, j) == iv(sat(y, sub(j, off)))),
                      patterns=[A(named(base), j)]))
    if not fs:
        a = SBase(s.term())
        return pointwise(a, t, n)
    return z3.And(fs)


_named = {}


def has_ite(t):
    work = [t]
    seen = set()
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_OR, z3.Z3_OP_AND,
                                   z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE,
                                   z3.Z3_OP_GE):
                return True
            work += list(x.children())
    return False


def named(t):
    """t, or a constant defined to be t when t cannot occur in a pattern."""
    if not has_ite(t):
        return t
    k = t.get_id()
    if k not in _named:
        c = z3.Const(fresh_name('named'), t.sort())
        AXIOMS.append(c == t)
        _named[k] = (c, t)
    return _named[k][0]
