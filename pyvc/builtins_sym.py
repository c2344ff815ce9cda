"""Symbolic meaning of the Python built-ins used by the verified code.

Everything here is an assumption about CPython (listed in the evidence as part
of the trusted base)."""
import builtins
import copy as _copy
import hashlib
import os
import re
import sys
import traceback
import unicodedata

import z3

from . import regexes
from . import spec as specmod
from .terms import *  # noqa
from .values import *  # noqa

try:
    import re._parser as sre_parse
    import re._constants as sre_const
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sre_const


class SBytes(PyObj):

    def __init__(self, s):
        self.s = s
        self.o = self


class SDigest(PyObj):

    def __init__(self, s):
        self.s = s
        self.o = self


def charset(v):
    if isinstance(v, str):
        return CS(map(ord, v))
    if isinstance(v, PyObj) and isinstance(v.o, (list, tuple, set, frozenset)):
        return CS(ord(c) for c in v.o)
    if isinstance(v, tuple) and all(isinstance(c, str) for c in v):
        return CS(ord(c) for c in v)
    raise Unsupported('character set %r' % (v, ))


def listify(v, st):
    """Concrete charset argument that may be a heap list of literals."""
    if isinstance(v, Ref) and isinstance(st.obj(v), ListObj):
        o = st.obj(v)
        if o.pre is None and all(isinstance(x, str) for x in o.items):
            return tuple(o.items)
    return v


# ------------------------------------------------------------------ regexes
_classes = {}


def single_class(pattern):
    """CS of a pattern that is exactly one character class, or None."""
    if pattern in _classes:
        return _classes[pattern]
    r = None
    try:
        p = sre_parse.parse(pattern)
        if len(p) == 1:
            op, av = p[0]
            if op is sre_const.IN:
                codes, preds, neg, ok = [], [], False, True
                for o, a in av:
                    if o is sre_const.NEGATE:
                        neg = True
                    elif o is sre_const.LITERAL:
                        codes.append(a)
                    elif o is sre_const.RANGE and a[1] - a[0] < 300:
                        codes += range(a[0], a[1] + 1)
                    elif (o is sre_const.CATEGORY
                          and a is sre_const.CATEGORY_WORD):
                        preds.append('word')
                    else:
                        ok = False
                if ok:
                    r = CS(codes, preds, neg)
            elif op is sre_const.LITERAL:
                r = CS([av])
            elif op is sre_const.NOT_LITERAL:
                r = CS([av], neg=True)
    except re.error:
        r = None
    _classes[pattern] = r
    return r


_filters = {}


def filter_fn(cs):
    """filter_cs(s): the characters of s that belong to cs."""
    k = cs.key()
    if k not in _filters:
        f = z3.Function('filter!%d' % len(_filters), Str, Str)
        _filters[k] = f
        s = z3.Const('s', Str)
        i = z3.Int('i')
        AXIOMS.append(
            z3.ForAll([s], L(f(s)) <= L(s), patterns=[f(s)]))
        AXIOMS.append(
            z3.ForAll([s, i],
                      z3.Implies(z3.And(0 <= i, i < L(f(s))),
                                 cs.has(A(f(s), i))),
                      patterns=[A(f(s), i)]))
    return _filters[k]


def sfilter(s, cs):
    if isinstance(s, str):
        return ''.join(c for c in s if cs.has_py(c))
    return SBase(filter_fn(cs)(sterm(s)))


def re_flags(v):
    if isinstance(v, PyObj):
        return int(v.o)
    if isinstance(v, int):
        return v
    raise Unsupported('regex flags')


def h_re_sub(ip, args, kw, st):
    names = ['pattern', 'repl', 'string', 'count', 'flags']
    a = dict(zip(names, args))
    a.update(kw)
    pat, rep, s = a['pattern'], a['repl'], a['string']
    flags = re_flags(a.get('flags', 0))
    if a.get('count', 0) != 0:
        raise Unsupported('re.sub count')
    if not (isinstance(pat, str) and isinstance(rep, str)):
        raise Unsupported('symbolic regex')
    ip.externals.add('re.sub')
    if isinstance(s, str):
        return [(st, re.sub(pat, rep, s, flags=flags))]
    cs = single_class(pat)
    if cs is not None and rep == '' and (flags & ~int(re.DOTALL)) == 0:
        return [(st, sfilter(s, cs.compl()))]
    f = ip.uf('resub!%r!%r!%d' % (pat, rep, flags), [Str], Str)
    return [(st, SBase(f(sterm(s))))]


def h_re_fullmatch(ip, args, kw, st):
    names = ['pattern', 'string', 'flags']
    a = dict(zip(names, args))
    a.update(kw)
    pat, s = a['pattern'], a['string']
    flags = re_flags(a.get('flags', 0))
    if not isinstance(pat, str):
        raise Unsupported('symbolic regex')
    if isinstance(s, str):
        m = re.fullmatch(pat, s, flags)
        return [(st, None if m is None else PyObj(m))]
    cs = single_class(pat)
    ip.externals.add('re.fullmatch')
    if cs is not None:
        n = slen(s)
        c = And_(sm(iv(n) == 1), sm(cs.has(iv(sat(s, 0)))))
    else:
        try:
            name = regexes.language(pat, flags)
        except regexes.NotRegular:
            name = '%r!%d' % (pat, flags)
        f = ip.uf('fullmatch!' + name, [Str], B)
        c = f(sterm(s))
    return [(st, Opt(Not_(c), PyObj(_MATCH)))]


_MATCH = object()


# ------------------------------------------------------------------ functions
def h_len(ip, args, kw, st):
    out = []
    for s, v in ip.unopt(st, args[0]):
        if v is None:
            ip.throw(s, 'TypeError', 'len of None')
        elif is_str(v):
            out.append((s, slen(v)))
        elif isinstance(v, tuple):
            out.append((s, len(v)))
        elif isinstance(v, PyObj):
            out.append((s, len(v.o)))
        elif isinstance(v, Ref):
            o = s.obj(v)
            if isinstance(o, ListObj):
                out.append((s, o.length()))
            elif isinstance(o, DictObj):
                out.append((s, len(o.items)))
            elif isinstance(o, SeqDict):
                out.append((s, o.n))
            else:
                raise Unsupported('len of %r' % o)
        elif isinstance(v, Range):
            n, _ = ip.iter_view(v, s)
            out.append((s, n))
        else:
            raise Unsupported('len of %r' % (v, ))
    return out


def h_str(ip, args, kw, st):
    return ip.to_str(args[0], st)


def h_ord(ip, args, kw, st):
    v = args[0]
    if isinstance(v, str):
        if len(v) != 1:
            ip.throw(st, 'TypeError', 'ord')
            return []
        return [(st, ord(v))]
    n = slen(v)
    s = ip.need(st, sm(iv(n) == 1), 'TypeError', 'ord')
    if s is None:
        return []
    return [(s, sat(v, 0))]


def h_chr(ip, args, kw, st):
    v = args[0]
    if isinstance(v, int):
        return [(st, chr(v))]
    s = ip.need(st, sm(z3.And(v >= 0, v <= 0x10ffff)), 'ValueError', 'chr')
    return [] if s is None else [(s, SRep(v, 1))]


fCategory = z3.Function('category', I, Str)


def h_category(ip, args, kw, st):
    """The general category of a character: some text."""
    v = args[0]
    if isinstance(v, str):
        return [(st, unicodedata.category(v))]
    ip.externals.add('unicodedata.category: some text for every character')
    s = ip.need(st, sm(iv(slen(v)) == 1), 'TypeError', 'category')
    return [] if s is None else [
        (s, SBase(fCategory(iv(sat(v, 0)))))]


def h_range(ip, args, kw, st):
    if len(args) == 1:
        return [(st, Range(0, args[0]))]
    if len(args) == 2:
        return [(st, Range(args[0], args[1]))]
    if all(isinstance(a, int) for a in args):
        return [(st, PyObj(list(range(*args))))]
    raise Unsupported('range step')


def h_isinstance(ip, args, kw, st):
    v, c = args
    cl = tuple(x.o for x in c) if isinstance(c, tuple) else (c.o, )
    out = []
    for s, v in ip.unopt(st, v):
        if is_str(v):
            r = str in cl
        elif is_bool(v):
            r = bool in cl or int in cl
        elif is_int(v):
            r = int in cl
        elif v is None:
            r = type(None) in cl
        elif isinstance(v, PyObj):
            r = isinstance(v.o, cl)
        elif isinstance(v, Ref):
            o = s.obj(v)
            t = {ListObj: list, DictObj: dict, MapObj: dict}.get(type(o))
            if t is None and isinstance(o, InstObj):
                t = o.cls
            r = t is not None and issubclass(t, cl)
        elif isinstance(v, tuple):
            r = tuple in cl
        else:
            raise Unsupported('isinstance')
        out.append((s, r))
    return out


def _minmax(which):

    def h(ip, args, kw, st):
        if len(args) == 1 or kw:
            raise Unsupported('min/max of iterable')
        r = args[0]
        for x in args[1:]:
            if isinstance(r, int) and isinstance(x, int):
                r = min(r, x) if which == 'min' else max(r, x)
            else:
                c = iv(r) <= iv(x)
                r = sm(z3.If(c, iv(r), iv(x)) if which == 'min' else z3.
                       If(c, iv(x), iv(r)))
        return [(st, r)]

    return h


def h_list(ip, args, kw, st):
    st = st.copy()
    if not args:
        return [(st, st.alloc(ListObj()))]
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.obj(v), ListObj):
        return [(st, st.alloc(st.obj(v).copy()))]
    n, get = ip.iter_view(v, st)
    if isinstance(n, int):
        return [(st, st.alloc(ListObj([ip.materialize(get(k), st) for k in range(n)])))]
    return [(st, st.alloc(ListObj([], AbsSeq(n, get))))]


def h_tuple(ip, args, kw, st):
    if not args:
        return [(st, ())]
    v = args[0]
    if isinstance(v, tuple):
        return [(st, v)]
    n, get = ip.iter_view(v, st)
    if isinstance(n, int):
        return [(st, tuple(get(k) for k in range(n)))]
    raise Unsupported('tuple of abstract sequence')


def h_dict(ip, args, kw, st):
    st = st.copy()
    if not args:
        return [(st, st.alloc(DictObj(kw)))]
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.obj(v), (DictObj, MapObj)):
        o = st.obj(v).copy()
        if kw:
            o.items.update(kw)
        return [(st, st.alloc(o))]
    raise Unsupported('dict()')


def h_enumerate(ip, args, kw, st):
    if kw or len(args) > 1:
        raise Unsupported('enumerate start')
    return [(st, Bound(args[0], '__enum__'))]


def h_zip(ip, args, kw, st):
    return [(st, Bound(tuple(args), '__zip__'))]


def h_reversed(ip, args, kw, st):
    v = args[0]
    n, get = ip.iter_view(v, st)
    if isinstance(n, int):
        return [(st, tuple(get(k) for k in reversed(range(n))))]
    st = st.copy()
    return [(st, st.alloc(ListObj([], AbsSeq(
        n, lambda k: get(sub(sub(n, 1), k))))))]


def h_int(ip, args, kw, st):
    v = args[0]
    if is_int(v):
        return [(st, v)]
    if isinstance(v, bool):
        return [(st, int(v))]
    if isinstance(v, z3.BoolRef):
        return [(st, sm(ip.toint(v)))]
    raise Unsupported('int()')


def h_bool(ip, args, kw, st):
    return [(st, ip.truth(args[0], st))]


def h_abs(ip, args, kw, st):
    v = args[0]
    if isinstance(v, int):
        return [(st, abs(v))]
    return [(st, sm(z3.If(v >= 0, v, -v)))]


def h_deepcopy(ip, args, kw, st):
    st = st.copy()

    def dc(v):
        if isinstance(v, Ref):
            o = st.obj(v)
            if isinstance(o, ListObj):
                return st.alloc(ListObj([dc(x) for x in o.items], o.pre))
            if isinstance(o, DictObj):
                return st.alloc(DictObj({k: dc(x) for k, x in o.items.items()}))
            if isinstance(o, MapObj):
                return st.alloc(o.copy())
            if isinstance(o, InstObj) and not any(
                    isinstance(x, Ref) for x in o.fields.values()):
                return st.alloc(o.copy())
            raise Unsupported('deepcopy')
        return v
    return [(st, dc(args[0]))]


def h_before(ip, args, kw, st):
    r, name = args
    if not isinstance(r, Ref) or r.addr not in ip.entry_heap:
        raise Unsupported('no such object at the call')
    return [(st, ip.entry_heap[r.addr].fields[name])]


def h_given(ip, args, kw, st):
    return [(st, ip.given)]


def h_exit(ip, args, kw, st):
    """Leaving the program with an exit code."""
    v = args[0] if args else 0
    ip.throw(st, 'SystemExit')
    ip.sink[-1][1].code = 0 if v is None else v
    return []


def h_report(ip, args, kw, st):
    """The standard error is not looked at."""
    return [(st, None)]


def h_sha1(ip, args, kw, st):
    if args and isinstance(args[0], SBytes):
        ip.externals.add('hashlib.sha1')
        return [(st, SDigest(args[0].s))]
    raise Unsupported('sha1')


def h_print(ip, args, kw, st):
    """Printing is an effect."""
    end = kw.get('end', '\n')
    sep = kw.get('sep', ' ')
    if set(kw) - {'end', 'sep'} or not is_str(end) or len(args) > 1:
        raise Unsupported('print arguments')
    out = []
    for s, v in ip.to_str(args[0], st) if args else [(st, '')]:
        out += h_act(ip, ['print', scat([v, end])], {}, s)
    return out


# -------------------------------------------------- specification vocabulary
def h_span(ip, args, kw, st):
    s, i, cs = args
    return [(st, sspan(s, i, charset(listify(cs, st))))]


def h_nspan(ip, args, kw, st):
    s, i, cs = args
    return [(st, sspan(s, i, charset(listify(cs, st)).compl()))]


def h_rspan(ip, args, kw, st):
    s, lo, j, cs = args
    return [(st, srspan(s, j, charset(listify(cs, st)), lo))]


def quant(which):

    def h(ip, args, kw, st):
        lo, hi, lam = args
        import ast
        if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 16:
            acc = which == 'all'
            for k in range(lo, hi):
                r = ip.call(lam, [k], {}, st)
                if len(r) != 1:
                    raise Unsupported('forking quantifier body')
                t = ip.truth(r[0][1], st)
                acc = And_(acc, t) if which == 'all' else Or_(acc, t)
            return [(st, acc)]
        k = z3.Int(fresh_name('q'))
        ip.binders += 1
        sink, ip.sink = ip.sink, []
        try:
            s2 = st.copy()
            s2.pc += [k >= iv(lo), k < iv(hi)]
            n = len(s2.pc)
            parts = []
            for s3, v in ip.call(lam, [k], {}, s2):
                extra = s3.pc[n:]
                parts.append(Or_(Not_(And_(*extra)) if extra else False,
                                 ip.truth(v, s3)))
            if ip.sink:
                raise Unsupported('exception under a quantifier')
            body = And_(*parts)
        finally:
            ip.sink = sink
            ip.binders -= 1
        rng = z3.And(k >= iv(lo), k < iv(hi))
        if which == 'all':
            return [(st, ip.mkforall(k, rng, body))]
        return [(st, Not_(bv(ip.mkforall(k, rng, Not_(body)))))]

    return h


def h_implies(ip, args, kw, st):
    a, b = args
    return [(st, Or_(Not_(ip.truth(a, st)), ip.truth(b, st)))]


def h_keep(ip, args, kw, st):
    s, which = args
    return [(st, sfilter(s, named_class(which)))]


def named_class(which):
    if which == 'word- ':
        return CS(map(ord, '- '), ['word'])
    if len(which) == 2 and which[0] == '!':
        return CS([ord(which[1])], neg=True)
    raise Unsupported('class %r' % which)


# ---------------------------------------------------------------- documents
def doc_line(ip, d, k, st):
    """[(state, line k of d)] with the facts about it."""
    t = fLine(d, iv(k))
    key = ('line', t.get_id())
    if not st.ghost.get(key):
        st = st.copy()
        st.ghost[key] = True
        ip.kept.append(t)
        n = fLines(d)
        ol = ip.uf('pyvc.spec.one_line', [Str], B)(t)
        st.facts += ip.universal([
            n >= 0,
            z3.Implies(iv(k) >= 0, z3.And((L(t) == 0) == (iv(k) >= n),
                                          L(t) >= 0)), ol])
    return [(st, SBase(t))]


def h_document(ip, args, kw, st):
    if args[0] == '-':
        return [(st, fDoc(W0, lit_term('-')))]
    d = fDoc(st.obj(ip.world).term, sterm(args[0]))
    e = ip.eq(args[0], '-', st)
    if not isinstance(e, bool):
        st = st.copy()
        st.facts += ip.universal(
            [z3.Implies(e, d == fDoc(W0, lit_term('-')))])
    return [(st, d)]


def h_world(ip, args, kw, st):
    return [(st, st.obj(ip.world).term)]


def h_initial(ip, args, kw, st):
    return [(st, W0)]


def h_become(ip, args, kw, st):
    st = st.copy()
    st.mut(ip.world).term = args[0]
    return [(st, None)]


def h_act(ip, args, kw, st):
    """An effect: the world after it."""
    st = st.copy()
    w = st.mut(ip.world)
    zs = []
    for v in args[1:]:
        if is_str(v):
            zs.append(named(sterm(v)))
        elif is_bool(v):
            zs.append(bv(v))
        elif is_int(v):
            zs.append(iv(v))
        elif v is None:
            zs.append(z3.IntVal(-1))
        else:
            raise Unsupported('argument of an effect %r' % (v, ))
    f = ip.uf('act!%s!%s' % (args[0], ','.join(str(z.sort()) for z in zs)),
              [World] + [z.sort() for z in zs], World)
    w.term = f(w.term, *zs)
    return [(st, None)]


def h_numbered(ip, args, kw, st):
    """Dictionary of the keys 1..n."""
    n, f = args

    def get(ip, k, s):
        (s, v), = ip.call(f, [k], {}, s)
        return s, v

    st = st.copy()
    return [(st, st.alloc(SeqDict(n, get)))]


def h_listing(ip, args, kw, st):
    """List of n texts."""
    n, f = args
    st = st.copy()

    def get(k, s=st):
        ip.binders += 1
        try:
            s = s.copy()
            ip.assume(s, And_(sm(iv(k) >= 0), sm(iv(k) < iv(n))))
            (s2, v), = ip.call(f, [k], {}, s)
        finally:
            ip.binders -= 1
        return v

    return [(st, st.alloc(ListObj([], AbsSeq(n, get, shape='str'))))]


fMarks = z3.Function('marks', Doc, Str, I)
fMark = z3.Function('mark', Doc, Str, I, I)
fText = z3.Function('text', Doc, Str)


def h_marks(ip, args, kw, st):
    n = fMarks(args[0], sterm(args[1]))
    st = st.copy()
    st.facts.append(n >= 0)
    return [(st, n)]


def h_mark(ip, args, kw, st):
    d, m, k = args
    k = iv(k)
    m = sterm(m)
    t, u, n = fMark(d, m, k), fMark(d, m, k + 1), fMarks(d, m)
    st = st.copy()
    if not ip.binders:
        st.facts += [
            n >= 0, z3.Implies(z3.And(k >= 1, k <= n),
                               z3.And(t >= 1, t <= fLines(d))),
            z3.Implies(z3.And(k >= 1, k < n), t < u)]
    return [(st, t)]


def h_text_of(ip, args, kw, st):
    t = SBase(fText(args[0]))
    st = st.copy()
    st.facts.append(bv(sm(iv(sspan(t, 0, CS([13], neg=True)))
                       == iv(slen(t)))))
    return [(st, t)]


def h_nlines(ip, args, kw, st):
    n = fLines(args[0])
    st = st.copy()
    st.facts.append(n >= 0)
    return [(st, n)]


def h_line_at(ip, args, kw, st):
    return doc_line(ip, args[0], args[1], st)


def h_reads(ip, args, kw, st):
    return [(st, st.obj(args[0]).pos)]


def h_doc_of(ip, args, kw, st):
    return [(st, st.obj(args[0]).content)]


def h_same_map(ip, args, kw, st):
    a, b = (ip.as_map(st.obj(x)) for x in args)
    if a is None or b is None:
        raise Unsupported('same_map')
    return [(st, sm(z3.And(a.has == b.has, a.val == b.val)))]


def h_positive(ip, args, kw, st):
    m = ip.as_map(st.obj(args[0]))
    if m is None:
        raise Unsupported('positive')
    k = z3.Const('key', Str)
    pats = [m.val[k]] if z3.is_const(m.val) and z3.is_const(m.has) else []
    return [(st, z3.ForAll([k], z3.Implies(m.has[k], m.val[k] >= 1),
                           patterns=pats))]


def h_open(ip, args, kw, st):
    """Reading a text file; decoding never fails and the file exists."""
    name = args[0] if args else kw.get('file')
    mode = args[1] if len(args) > 1 else kw.get('mode', 'r')
    if (mode not in ('r', 'rt') or len(args) > 2 or not is_str(name)
            or set(kw) - {'newline', 'mode', 'file', 'encoding'}
            or kw.get('newline') is not None
            or kw.get('encoding', None) not in (None, 'utf-8', 'UTF-8')):
        raise Unsupported('open')
    ip.externals.add('open: a readable text file in universal newlines mode')
    st = st.copy()
    return [(st, st.alloc(FileObj(fDoc(st.obj(ip.world).term, sterm(name)), 0)))]


def file_method(ip, ref, o, name, args, kw, st):
    if o.closed is True:
        ip.throw(st, 'ValueError', 'closed file')
        return []
    if name == 'readline' and not args:
        st = st.copy()
        m = st.mut(ref)
        k = m.pos
        m.pos = add(k, 1)
        return doc_line(ip, m.content, k, st)
    if name in ('tell', 'seek') and getattr(o, 'stream', False):
        ip.throw(st, 'OSError', 'not seekable')
        return []
    if name == 'tell' and not args:
        return [(st, o.pos)]
    if name == 'seek' and len(args) == 1 and is_int(args[0]):
        st = st.copy()
        st.mut(ref).pos = args[0]
        return [(st, args[0])]
    if name == 'close' and not args:
        st = st.copy()
        if not getattr(o, 'stream', False):
            st.mut(ref).closed = True
        return [(st, None)]
    raise Unsupported('method %s of a file' % name)


HANDLERS = {
    builtins.open: h_open,
    specmod.document: h_document,
    specmod.nlines: h_nlines,
    specmod.line_at: h_line_at,
    specmod.reads: h_reads,
    specmod.doc_of: h_doc_of,
    specmod.same_map: h_same_map,
    specmod.positive: h_positive,
    specmod.world: h_world,
    specmod.become: h_become,
    specmod.initial: h_initial,
    specmod.given: h_given,
    specmod.before: h_before,
    sys.exit: h_exit,
    traceback.print_exc: h_report,
    specmod.act: h_act,
    specmod.numbered: h_numbered,
    specmod.listing: h_listing,
    specmod.marks: h_marks,
    specmod.mark: h_mark,
    specmod.text_of: h_text_of,
    builtins.len: h_len,
    builtins.str: h_str,
    builtins.ord: h_ord,
    builtins.chr: h_chr,
    unicodedata.category: h_category,
    builtins.range: h_range,
    builtins.isinstance: h_isinstance,
    builtins.min: _minmax('min'),
    builtins.max: _minmax('max'),
    builtins.list: h_list,
    builtins.tuple: h_tuple,
    builtins.dict: h_dict,
    builtins.enumerate: h_enumerate,
    builtins.zip: h_zip,
    builtins.reversed: h_reversed,
    builtins.int: h_int,
    builtins.bool: h_bool,
    builtins.abs: h_abs,
    builtins.print: h_print,
    re.sub: h_re_sub,
    re.fullmatch: h_re_fullmatch,
    hashlib.sha1: h_sha1,
    _copy.deepcopy: h_deepcopy,
    _copy.copy: h_deepcopy,
    specmod.span: h_span,
    specmod.nspan: h_nspan,
    specmod.rspan: h_rspan,
    specmod.forall: quant('all'),
    specmod.exists: quant('any'),
    specmod.implies: h_implies,
    specmod.keep: h_keep,
}


# ------------------------------------------------------------------ strings
def lit_args(args):
    return all(isinstance(a, (str, int, tuple)) or a is None for a in args)


def str_method(ip, s, name, args, kw, st):
    if isinstance(s, str) and not kw and all(
            isinstance(a, (str, int)) or a is None for a in args) and name in (
                'lstrip', 'rstrip', 'strip', 'startswith', 'endswith',
                'lower', 'upper', 'replace', 'find', 'isspace', 'count',
                'isdigit', 'isalnum', 'isalpha', 'isascii', 'removeprefix',
                'removesuffix', 'zfill', 'ljust', 'rjust'):
        return [(st, getattr(s, name)(*args))]
    if name in ('lstrip', 'rstrip', 'strip'):
        out = []
        arg = args[0] if args else None
        cs = CS(UNI_SPACE) if arg is None else charset(arg)
        if isinstance(s, SMap) or isinstance(s, SRev) or isinstance(s, SCat):
            s = SBase(s.term()) if not isinstance(s, SCat) else s
        if isinstance(s, SCat):
            return [(st, cat_strip(ip, s, cs, name, st))]
        n = slen(s)
        lo, hi = 0, n
        if name in ('lstrip', 'strip'):
            lo = sspan(s, 0, cs)
        if name in ('rstrip', 'strip'):
            hi = srspan(s, n, cs, lo)
        return [(st, mkslice(s, lo, hi))]
    if name in ('startswith', 'endswith'):
        if len(args) != 1:
            raise Unsupported('startswith range')
        alts = args[0] if isinstance(args[0], tuple) else (args[0], )
        rs = []
        for a in alts:
            n, m = slen(s), slen(a)
            if isinstance(a, str):
                le = sm(iv(n) >= m)
                off = 0 if name == 'startswith' else sub(n, m)
                rs.append(And_(le, *[
                    sm(iv(sat(s, add(off, k))) == ord(c))
                    for k, c in enumerate(a)
                ]))
            else:
                off = 0 if name == 'startswith' else sub(n, m)
                le = sm(iv(n) >= iv(m))
                k = z3.Int(fresh_name('q'))
                body = sm(iv(sat(s, add(off, k))) == iv(sat(a, k)))
                rs.append(And_(le, ip.mkforall(k, z3.And(k >= 0, k < iv(m)),
                                               body)))
        return [(st, Or_(*rs))]
    if name == 'removeprefix' or name == 'removesuffix':
        r = str_method(ip, s, 'startswith' if name == 'removeprefix' else 'endswith', args, kw, st)
        a, b = ip.split(st, r[0][1])
        out = []
        m = slen(args[0])
        if a is not None:
            out.append((a, mkslice(s, m, slen(s)) if name == 'removeprefix'
                        else mkslice(s, 0, sub(slen(s), m))))
        if b is not None:
            out.append((b, s))
        return out
    if name == 'join':
        return str_join(ip, s, args[0], st)
    if name == 'lower':
        n = slen(s)
        if isinstance(n, int) and n == 1:
            c = iv(sat(s, 0))
            if ip.proves(st, c < 128, 500):
                return [(st, SRep(sm(fCLower(c)), 1))]
        return [(st, SBase(fLower(sterm(s))))]
    if name == 'replace':
        if len(args) != 2 or not all(isinstance(a, str) for a in args):
            raise Unsupported('replace')
        a, b = args
        if a == '':
            raise Unsupported('replace of empty')
        if not isinstance(s, str):
            # nothing to replace: identity
            j = sspan(s, 0, CS([ord(a[0])], neg=True))
            if ip.proves(st, sm(iv(j) == iv(slen(s))), 400):
                return [(st, s)]
        if len(a) == 1 and len(b) == 1:
            return [(st, SMap(s, ord(a), ord(b)))]
        if len(a) == 1 and b == '':
            return [(st, sfilter(s, CS([ord(a)], neg=True)))]
        f = ip.uf('replace!%r!%r' % (a, b), [Str], Str)
        return [(st, SBase(f(sterm(s))))]
    if name == 'find':
        a = args[0]
        if len(args) != 1:
            raise Unsupported('find range')
        n = slen(a)
        if isinstance(s, str) and isinstance(n, int) and n == 1:
            c = iv(sat(a, 0))
            r = z3.IntVal(-1)
            for k in reversed(range(len(s))):
                r = z3.If(c == ord(s[k]), z3.IntVal(k), r)
            return [(st, sm(r))]
        if isinstance(a, str) and len(a) == 1:
            j = sspan(s, 0, CS([ord(a)], neg=True))
            return [(st, sm(z3.If(iv(j) < iv(slen(s)), iv(j), -1)))]
        raise Unsupported('find')
    if name == 'split' and args and args[0] == '\n' and len(args) == 1:
        return split_lines(ip, s, st)
    if name == 'encode':
        return [(st, SBytes(s))]
    if name == 'format':
        if isinstance(s, str) and not kw:
            return ip.formatted(ip.template(s, args, False), st)
        raise Unsupported('format')
    if name in ('isspace', ):
        n = slen(s)
        if isinstance(n, int) and n == 1:
            return [(st, sm(CS(UNI_SPACE).has(iv(sat(s, 0)))))]
        j = sspan(s, 0, CS(UNI_SPACE))
        return [(st, And_(sm(iv(n) > 0), sm(iv(j) == iv(n))))]
    if name == 'isascii':
        n = slen(s)
        if isinstance(n, int) and n == 1:
            return [(st, sm(iv(sat(s, 0)) < 128))]
    raise Unsupported('str.%s' % name)


def cat_strip(ip, s, cs, name, st):
    """strip of a concatenation with literal ends."""
    t = SBase(s.term())
    n = slen(t)
    lo, hi = 0, n
    if name in ('lstrip', 'strip'):
        lo = sspan(t, 0, cs)
    if name in ('rstrip', 'strip'):
        hi = srspan(t, n, cs, lo)
    return mkslice(t, lo, hi)


_split = {}


def split_lines(ip, s, st):
    if isinstance(s, str):
        st = st.copy()
        return [(st, st.alloc(ListObj(s.split('\n'))))]
    if not _split:
        f = z3.Function('split.n', Str, I)
        so = z3.Function('split.from', Str, I, I)
        eo = z3.Function('split.to', Str, I, I)
        sub_ = z3.Function('split.at', Str, I, Str)
        _split.update(n=f, so=so, eo=eo, at=sub_)
        x = z3.Const('x', Str)
        k, j = z3.Ints('k j')
        AXIOMS.append(z3.ForAll([x], f(x) >= 1, patterns=[f(x)]))
        AXIOMS.append(
            z3.ForAll(
                [x, k],
                z3.Implies(
                    z3.And(0 <= k, k < f(x)),
                    z3.And(0 <= so(x, k), so(x, k) <= eo(x, k),
                           eo(x, k) <= L(x),
                           sub_(x, k) == fSlice(x, so(x, k), eo(x, k)),
                           L(sub_(x, k)) == eo(x, k) - so(x, k))),
                patterns=[sub_(x, k)]))
        AXIOMS.append(
            z3.ForAll([x, k, j],
                      z3.Implies(
                          z3.And(0 <= k, k < f(x), 0 <= j,
                                 j < L(sub_(x, k))),
                          z3.And(A(sub_(x, k), j) == A(x, so(x, k) + j),
                                 A(sub_(x, k), j) != 10)),
                      patterns=[A(sub_(x, k), j)]))
        nl = span_fn(CS([10], neg=True))
        AXIOMS.append(
            z3.ForAll([x],
                      z3.Implies(nl(x, 0, L(x)) == L(x),
                                 z3.And(f(x) == 1, sub_(x, 0) == x)),
                      patterns=[f(x)]))
        AXIOMS.append(
            z3.ForAll([x],
                      z3.Implies(nl(x, 0, L(x)) < L(x), f(x) >= 2),
                      patterns=[f(x)]))
    t = sterm(s)
    n = _split['n'](t)
    j = sspan(s, 0, CS([10], neg=True))
    if ip.proves(st, sm(iv(j) == iv(slen(s))), 400):
        st = st.copy()
        return [(st, st.alloc(ListObj([s])))]
    st = st.copy()
    # one part exactly when there is no separator
    st.facts.append((iv(j) == iv(slen(s))) == (n == 1))
    st.facts.append(n >= 1)
    at = _split['at']
    seq = AbsSeq(n, lambda k: SBase(at(t, iv(k))))
    seq.key = ('split', t)
    return [(st, st.alloc(ListObj([], seq)))]


def str_join(ip, sep, v, st):
    if isinstance(v, tuple):
        o = ListObj(list(v))
    elif isinstance(v, Ref):
        o = st.obj(v)
    elif isinstance(v, PyObj) and isinstance(v.o, (list, tuple)):
        o = ListObj(list(v.o))
    elif is_str(v) and sep == '':
        return [(st, v)]
    elif isinstance(v, Bound) or isinstance(v, Range):
        raise Unsupported('join')
    else:
        raise Unsupported('join of %r' % (v, ))
    parts = []
    items = o.items
    if o.pre is not None:
        if o.pre.joined is None or sep != '':
            raise Unsupported('join of an abstract list')
        parts.append(o.pre.joined)
    work = [(st, parts)]
    for k, x in enumerate(items):
        nxt = []
        for s, ps in work:
            for s2, y in ip.unopt(s, x):
                if not is_str(y):
                    ip.throw(s2, 'TypeError', 'join')
                    continue
                q = list(ps)
                if k > 0 and sep != '':
                    q.append(sep)
                q.append(y)
                nxt.append((s2, q))
        work = nxt
    return [(s, scat(ps)) for s, ps in work]


# ------------------------------------------------------------- heap objects
def obj_method(ip, ref, o, name, args, kw, st):
    if isinstance(o, ListObj):
        if name == 'append':
            st = st.copy()
            st.mut(ref).items.append(args[0])
            return [(st, None)]
        if name == 'extend':
            st = st.copy()
            x = ip.aslist(args[0], st)
            if x.pre is not None:
                raise Unsupported('extend with abstract list')
            st.mut(ref).items.extend(x.items)
            return [(st, None)]
        if name == 'pop' and not args:
            if o.items:
                st = st.copy()
                v = st.mut(ref).items.pop()
                return [(st, v)]
        if name == 'clear':
            st = st.copy()
            m = st.mut(ref)
            m.items, m.pre = [], None
            return [(st, None)]
        if name == 'copy':
            st = st.copy()
            return [(st, st.alloc(o.copy()))]
        if name == 'insert' and o.pre is None and isinstance(args[0], int):
            st = st.copy()
            st.mut(ref).items.insert(args[0], args[1])
            return [(st, None)]
    if isinstance(o, (DictObj, MapObj)):
        if name == 'get':
            d = args[1] if len(args) > 1 else None
            out = []
            for s, c in ip.contains(ref, args[0], st):
                a, b = ip.split(s, c)
                if a is not None:
                    out += ip.getitem(ref, args[0], a)
                if b is not None:
                    out.append((b, d))
            return out
        if name == 'setdefault':
            out = []
            for s, c in ip.contains(ref, args[0], st):
                a, b = ip.split(s, c)
                if a is not None:
                    out += ip.getitem(ref, args[0], a)
                if b is not None:
                    for b2 in ip.setitem(ref, args[0], args[1], b.copy()):
                        out.append((b2, args[1]))
            return out
        if isinstance(o, DictObj):
            if name == 'items':
                st = st.copy()
                return [(st, st.alloc(ListObj(list(o.items.items()))))]
            if name == 'keys':
                st = st.copy()
                return [(st, st.alloc(ListObj(list(o.items))))]
            if name == 'values':
                st = st.copy()
                return [(st, st.alloc(ListObj(list(o.items.values()))))]
            if name == 'copy':
                st = st.copy()
                return [(st, st.alloc(o.copy()))]
            if name == 'update' and len(args) == 1 and isinstance(args[0], Ref):
                st = st.copy()
                st.mut(ref).items.update(st.obj(args[0]).items)
                return [(st, None)]
    if isinstance(o, FileObj):
        return file_method(ip, ref, o, name, args, kw, st)
    h = ip.cfg.get('obj_method')
    if h is not None:
        r = h(ip, ref, o, name, args, kw, st)
        if r is not None:
            return r
    raise Unsupported('method %s of %s' % (name, type(o).__name__))


def pyobj_method(ip, recv, name, args, kw, st):
    if isinstance(recv, SDigest) and name == 'hexdigest':
        return [(st, SBase(fSha(sterm(recv.s))))]
    if isinstance(recv.o, (list, tuple, dict)):
        if isinstance(recv.o, dict) and name == 'get' and isinstance(args[0], (str, int)):
            return [(st, ip.wrap(recv.o.get(args[0], args[1] if len(args) > 1 else None)))]
        if name in ('items', 'keys', 'values', 'copy', 'index'):
            r = getattr(recv.o, name)()
            st = st.copy()
            return [(st, ip.lift(list(r) if name != 'copy' else r, st))]
    raise Unsupported('method %s of %r' % (name, recv))
