"""Loops: inductive invariants by Houdini over generated candidates."""
import ast
import inspect
import itertools

import z3

from .terms import *  # noqa
from .values import *  # noqa
from . import values as V_

CAND_MS = 600
#: limit of the candidates a contract states itself
TEMPLATE_MS = 4000
MAX_ROUNDS = 14


def loaded_names(nodes):
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                out.add(x.id)
    return out


def flatten(f):
    out = []
    work = [f]
    while work:
        x = work.pop()
        if isinstance(x, bool):
            continue
        if z3.is_and(x):
            work += list(x.children())
        else:
            out.append(x)
    return out


def atoms_of(f):
    out = []
    work = [f]
    while work:
        x = work.pop()
        if isinstance(x, bool):
            continue
        if z3.is_and(x) or z3.is_or(x) or z3.is_not(x):
            work += list(x.children())
        else:
            out.append(x)
    return out


def symbols(t, memo={}):
    """Names of the 0-ary uninterpreted constants of t."""
    i = t.get_id()
    if i in memo and memo[i][1] is not None:
        return memo[i][0]
    out = set()
    seen = set()
    work = [t]
    while work:
        x = work.pop()
        j = x.get_id()
        if j in seen:
            continue
        seen.add(j)
        if z3.is_quantifier(x):
            work.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
            else:
                work += list(x.children())
    memo[i] = (out, t)
    return out


def shape_of(v, st):
    if v is None:
        return 'none'
    if is_bool(v):
        return 'bool'
    if is_int(v):
        return 'int'
    if is_str(v):
        return 'str'
    if isinstance(v, Opt):
        return 'opt' + shape_of(v.val, st)
    if isinstance(v, tuple):
        return ('tuple', tuple(shape_of(x, st) for x in v))
    if isinstance(v, Ref):
        o = st.obj(v)
        if isinstance(o, DictObj):
            return ('dict', tuple((k, shape_of(x, st)) for k, x in o.items.items()))
    return None


def join_shape(a, b):
    if a == b:
        return a
    if a is None or b is None:
        return None
    if isinstance(a, str) and isinstance(b, str):
        s = {a, b}
        for base in ('str', 'int', 'bool'):
            if s <= {'none', base, 'opt' + base}:
                return 'opt' + base
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0]:
        if a[0] == 'tuple' and len(a[1]) == len(b[1]):
            return ('tuple', tuple(join_shape(x, y) for x, y in zip(a[1], b[1])))
        if a[0] == 'dict' and [k for k, _ in a[1]] == [k for k, _ in b[1]]:
            return ('dict', tuple((k, join_shape(x, y)) for (k, x), (_, y) in zip(a[1], b[1])))
    return None


def shape_bad(s):
    if s is None:
        return True
    if isinstance(s, tuple):
        if s[0] == 'tuple':
            return any(shape_bad(x) for x in s[1])
        return any(shape_bad(x) for _, x in s[1])
    return False


def seq_elem(shape, base):
    """get(k) of an abstract sequence of elements of the given shape."""

    def mk(shape, name):
        if shape == 'int':
            f = z3.Function(name, I, I)
            return lambda k: f(iv(k))
        if shape == 'bool':
            f = z3.Function(name, I, B)
            return lambda k: f(iv(k))
        if shape == 'str':
            f = z3.Function(name, I, Str)
            return lambda k: SBase(f(iv(k)))
        if shape == 'none':
            return lambda k: None
        if isinstance(shape, str) and shape.startswith('opt'):
            f = z3.Function(name + '.none', I, B)
            g = mk(shape[3:], name + '.val')
            return lambda k: Opt(f(iv(k)), g(k))
        if shape[0] == 'tuple':
            gs = [mk(x, '%s.%d' % (name, i)) for i, x in enumerate(shape[1])]
            return lambda k: tuple(g(k) for g in gs)
        if shape[0] == 'dict':
            gs = {q: mk(x, '%s.%s' % (name, q)) for q, x in shape[1]}
            return lambda k: {q: g(k) for q, g in gs.items()}
        raise Unsupported('element shape %r' % (shape, ))

    return mk(shape, base)


class Havoc:
    """Head symbols of one loop for a given set of kinds."""

    def __init__(self, ip, st, kinds, heap):
        self.ip = ip
        self.kinds = dict(kinds)
        self.heap = dict(heap)
        self.head = st.copy()
        self.syms = []       # (symbol, getter(state) -> z3 term or None)
        self.ints = []       # (label, symbol, getter)
        self.bools = []
        h = self.head
        for v, k in kinds.items():
            h.env[v] = self.fresh(k, v, (lambda s, v=v: s.env.get(v, UNBOUND)),
                                  st.env.get(v, UNBOUND))
        for a, k in heap.items():
            h.heap[a] = self.fresh_obj(a, k, st)
        self.cands = None

    def sym(self, t, get, label=None):
        self.syms.append((t, get))
        if z3.is_int(t):
            self.ints.append((label, t, get))
        elif z3.is_bool(t):
            self.bools.append((label, t, get))
        return t

    def fresh(self, kind, name, get, entry):
        if kind == 'int':
            t = fresh_int(name)

            def g(s):
                v = get(s)
                return iv(v) if is_int(v) else None
            return self.sym(t, g, name)
        if kind == 'bool':
            t = fresh_bool(name)

            def g(s):
                v = get(s)
                return bv(v) if is_bool(v) else None
            return self.sym(t, g, name)
        if kind == 'str':
            t = fresh_str(name)

            def g(s):
                v = get(s)
                return sterm(v) if is_str(v) else None
            self.sym(t, g, name)

            def gl(s):
                v = get(s)
                return iv(slen(v)) if is_str(v) else None
            self.ints.append(('len ' + str(name), L(t), gl))
            return SBase(t)
        if isinstance(kind, str) and kind.startswith('opt'):
            n = fresh_bool(str(name) + '.none')

            def g(s):
                v = get(s)
                if v is None:
                    return z3.BoolVal(True)
                if isinstance(v, Opt):
                    return bv(v.isnone)
                if v is UNBOUND or isinstance(v, (Ref, PyObj)):
                    return None
                return z3.BoolVal(False)
            self.sym(n, g, str(name) + '.none')

            def g2(s):
                v = get(s)
                if isinstance(v, Opt):
                    return v.val
                if v is None:
                    # any value will do
                    return self.dflt[kind]
                return v
            return Opt(n, self.fresh(kind[3:], str(name) + '.val', g2, None))
        if kind == 'none':
            return None
        if kind == 'same':
            return entry
        if kind == 'unknown':
            return V_.MAYBE
        if isinstance(kind, tuple) and kind[0] == 'tuple':
            return tuple(
                self.fresh(k, '%s.%d' % (name, i),
                           (lambda s, i=i: self.tget(get(s), i)), None)
                for i, k in enumerate(kind[1]))
        raise Unsupported('havoc of kind %r' % (kind, ))

    def tget(self, v, i):
        return v[i] if isinstance(v, tuple) and len(v) > i else UNBOUND

    dflt = {'optint': 0, 'optstr': '', 'optbool': False}

    def fresh_obj(self, a, kind, st):
        o = st.heap[a]
        get = lambda s: s.heap.get(a)
        if isinstance(o, ListObj):
            name = fresh_name('list')
            n = fresh_int('n')

            def gn(s):
                x = get(s)
                return iv(x.length()) if isinstance(x, ListObj) else None
            self.sym(n, gn, 'len(list@%d)' % a)
            self.head.pc.append(n >= 0)
            joined = None
            if kind == 'str':
                j = fresh_str('joined')

                def gj(s):
                    x = get(s)
                    ps = []
                    if x.pre is not None:
                        if x.pre.joined is None:
                            return None
                        ps.append(x.pre.joined)
                    if not all(is_str(y) for y in x.items):
                        return None
                    return sterm(scat(ps + x.items))
                self.sym(j, gj, 'joined')
                joined = SBase(j)
            seq = AbsSeq(n, seq_elem(kind, name) if kind != 'empty' else None,
                         joined, kind)
            return ListObj([], seq)
        if isinstance(o, MapObj) or kind == 'map':
            has = z3.Const(fresh_name('has'), z3.ArraySort(Str, B))
            val = z3.Const(fresh_name('val'), z3.ArraySort(Str, I))
            ip = self.ip
            self.sym(has, lambda s: ip.as_map(get(s)).has)
            self.sym(val, lambda s: ip.as_map(get(s)).val)
            return MapObj(has, val)
        if isinstance(o, DictObj):
            r = DictObj()
            for k, kk in kind:
                r.items[k] = self.fresh(
                    kk, 'd%d[%s]' % (a, k),
                    (lambda s, k=k: get(s).items.get(k, UNBOUND)),
                    o.items.get(k, UNBOUND))
            return r
        if isinstance(o, InstObj):
            r = InstObj(o.cls)
            for k, kk in kind:
                r.fields[k] = self.fresh(
                    kk, 'o%d.%s' % (a, k),
                    (lambda s, k=k: get(s).fields.get(k, UNBOUND)),
                    o.fields.get(k, UNBOUND))
            return r
        if isinstance(o, V_.WorldObj):
            w = z3.Const(fresh_name('world'), World)
            self.sym(w, lambda s: get(s).term, 'world')
            return V_.WorldObj(w)
        if isinstance(o, FileObj):
            p = fresh_int('pos')
            self.sym(p, lambda s: iv(get(s).pos), 'pos')
            return FileObj(o.content, p, o.closed, o.stream)
        raise Unsupported('havoc of %s' % type(o).__name__)

    def subst(self, f, s):
        """f (over the head symbols) at state s; None when undefined."""
        if isinstance(f, bool):
            return f
        names = symbols(f)
        pairs = []
        for t, get in self.syms:
            if t.decl().name() in names:
                try:
                    v = get(s)
                except (AttributeError, KeyError, TypeError):
                    return None
                if v is None:
                    return None
                pairs.append((t, v))
        if not pairs:
            return f
        return sm(z3.substitute(f, *pairs))


class Cand:
    pass


class FCand(Cand):

    def __init__(self, hv, f, label=''):
        self.hv, self.f, self.label = hv, f, label

    def at(self, ip, s):
        return self.hv.subst(self.f, s)

    def key(self):
        return self.f.get_id()


class EntryOf:
    """Value of a variable at loop entry."""

    def __init__(self, name, value):
        self.name, self.value = name, value

    def __str__(self):
        return self.name + '@entry'


class TCand(Cand):
    """Instantiated template: function over the values of named variables."""

    def __init__(self, fn, binding):
        self.fn, self.binding = fn, binding
        self.label = '%s(%s)' % (fn.__name__, ', '.join(
            '%s=%s' % kv for kv in binding.items()))

    def at(self, ip, s):
        args = []
        for p, v in self.binding.items():
            if isinstance(v, EntryOf):
                args.append(v.value)
                continue
            if v not in s.env or s.env[v] is UNBOUND or s.env[v] is V_.MAYBE:
                return None
            x = s.env[v]
            if template_type(self.fn, p) == 'joined':
                x = joined_of(x, s)
                if x is None:
                    return None
            args.append(x)
        try:
            return ip.formula(self.fn, args, s)
        except Unsupported as e:
            if ip.cfg.get('debug'):
                print('template', self.label, 'unsupported', e)
            return None

    def key(self):
        return self.label


def joined_of(v, s):
    """Text accumulated in a string or in a list of strings."""
    if is_str(v):
        return v
    if isinstance(v, Ref) and isinstance(s.obj(v), ListObj):
        o = s.obj(v)
        ps = []
        if o.pre is not None:
            if o.pre.shape == 'empty':
                pass
            elif o.pre.joined is None:
                return None
            else:
                ps.append(o.pre.joined)
        if not all(is_str(y) for y in o.items):
            return None
        return scat(ps + o.items)
    return None


def template_type(fn, p):
    a = fn.__annotations__.get(p)
    return a if isinstance(a, str) else getattr(a, '__name__', None)


def val_type(v, s):
    sh = shape_of(v, s)
    if isinstance(sh, str):
        return sh
    if isinstance(v, Ref):
        o = s.obj(v)
        if isinstance(o, ListObj):
            return 'list'
        if isinstance(o, MapObj):
            return 'map'
        if isinstance(o, DictObj):
            return 'dict'
        if isinstance(o, FileObj):
            return 'file'
    return None


def instantiate(ip, templates, hv, modified, st):
    """TCands of the contract's invariant templates."""
    out = []
    env = hv.head.env
    for fn in templates:
        allps = list(inspect.signature(fn).parameters)
        ps = [p for p in allps
              if not p.endswith('_0') and not p.startswith('arg_')]
        if any(p.startswith('arg_') and p[4:] not in ip.entry_env
               for p in allps):
            continue
        choices = []
        for p in ps:
            ty = template_type(fn, p)
            fit = [v for v in env
                   if env[v] is not UNBOUND and env[v] is not V_.MAYBE
                   and (ty is None or val_type(env[v], hv.head) == ty
                        or (ty == 'joined'
                            and joined_of(env[v], hv.head) is not None))
                   and not v.startswith('__for')]
            if ty == 'for':
                fit = [v for v in env if v.startswith('__for')]
            elif ty == 'int' and p not in fit:
                # the hidden counters of for loops
                fors = [v for v in env if v.startswith('__for')]
                fit = fors or fit if p == 'counter' else fit + fors
            if p + '_0' in allps:
                fit = [v for v in fit if v in modified]
            if p in fit:
                choices.append([p])
            else:
                choices.append(fit)
        n = 1
        for c in choices:
            n *= len(c)
        if n == 0 or n > 1500:
            continue
        for combo in itertools.product(*choices):
            if len(set(combo)) != len(combo):
                continue
            if not any(v in modified or v.startswith('__for')
                       for v in combo) and not any(
                    isinstance(env[v], Ref) for v in combo):
                continue
            b = dict(zip(ps, combo))
            full = {}
            for p in allps:
                if p.startswith('arg_'):
                    full[p] = EntryOf(p, ip.entry_env[p[4:]])
                elif p.endswith('_0'):
                    v = b[p[:-2]]
                    full[p] = EntryOf(v, st.env.get(v))
                else:
                    full[p] = b[p]
            out.append(TCand(fn, full))
    return out


def weaker(a):
    """Weakened forms of a comparison atom."""
    out = []
    neg = False
    if z3.is_not(a):
        neg, a = True, a.arg(0)
    if z3.is_app(a) and a.num_args() == 2 and z3.is_int(a.arg(0)):
        x, y = a.arg(0), a.arg(1)
        k = a.decl().kind()
        if neg:
            k = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_LT: z3.Z3_OP_GE,
                 z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_GT: z3.Z3_OP_LE}.get(k)
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
            out += [x <= y, x <= y + 1]
        elif k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            out += [x >= y, x >= y - 1]
        elif k == z3.Z3_OP_EQ:
            out += [x <= y, x >= y]
    return out


def gen_cands(ip, hv, st, condf, modified):
    """Initial candidates as formulas over the head symbols."""
    fs = []
    ents = []
    for label, t, get in hv.ints:
        try:
            e = get(st)
        except (AttributeError, KeyError, TypeError):
            e = None
        if e is None:
            continue
        ents.append((label, t, sm(e)))
    U = []
    seen = set()
    for v, x in st.env.items():
        if v in modified and hv.kinds.get(v) != 'same':
            continue
        if is_int(x) and not isinstance(x, bool):
            U.append(iv(x))
        elif is_str(x) and not isinstance(x, str):
            n = slen(x)
            if not isinstance(n, int):
                U.append(n)
    uniq = []
    for u in U:
        if u.get_id() not in seen:
            seen.add(u.get_id())
            uniq.append(u)
    U = uniq[:14]
    for label, t, e in ents:
        fs += [t == iv(e), t >= iv(e), t <= iv(e), t >= 0]
        for u in U:
            fs += [t <= u, t >= u]
    for (l1, a, ea), (l2, b, eb) in itertools.combinations(ents, 2):
        fs += [a - b == iv(sub(ea, eb)), a + b == iv(add(ea, eb)), a <= b,
               b <= a]
    for label, t, get in hv.bools:
        try:
            e = get(st)
        except (AttributeError, KeyError, TypeError):
            e = None
        if e is not None:
            fs.append(t == e)
    # strings that stay the same
    for t, get in hv.syms:
        if t.sort() == Str or z3.is_array(t):
            try:
                e = get(st)
            except (AttributeError, KeyError, TypeError):
                e = None
            if e is not None:
                fs.append(t == e)
    # loop condition
    for f in condf:
        for a in atoms_of(f):
            fs.append(a)
            fs += weaker(a)
    # path condition, with the entry value replaced by the head symbol
    pcs = []
    for c in st.pc[-80:]:
        pcs += flatten(c)
    pcs = pcs[-120:]
    for label, t, e in ents:
        if isinstance(e, int):
            continue
        for c in pcs:
            if contains_term(c, e):
                g = z3.substitute(c, (e, t))
                fs.append(g)
                fs += weaker(g)
    out = []
    ids = set()
    for f in fs:
        f = sm(f)
        if isinstance(f, bool):
            continue
        if f.get_id() in ids:
            continue
        ids.add(f.get_id())
        if not any(t.decl().name() in symbols(f) for t, _ in hv.syms):
            continue
        out.append(FCand(hv, f))
    return out


def contains_term(f, t):
    tid = t.get_id()
    seen = set()
    work = [f]
    while work:
        x = work.pop()
        if x.get_id() == tid:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            work += list(x.children())
    return False


def scan_cands(ip, hv, st, ends, npc):
    """forall k in the scanned interval: the condition under which the body
    went on."""
    out = []
    modnames = {t.decl().name() for t, _ in hv.syms}
    for label, t, get in hv.ints:
        if t.num_args() != 0:
            continue
        e0 = get(st)
        if e0 is None:
            continue
        steps = set()
        for s in ends:
            try:
                v = get(s)
            except (AttributeError, KeyError, TypeError):
                v = None
            if v is None:
                steps.add(None)
                break
            d = sub(v, t)
            steps.add(d if isinstance(d, int) else None)
        if len(steps) != 1 or next(iter(steps)) not in (1, -1):
            continue
        step = next(iter(steps))
        name = t.decl().name()
        disj = []
        for s in ends:
            conj = []
            for c in s.pc[npc:]:
                for a in flatten(c):
                    sy = symbols(a)
                    if name in sy and not (sy & (modnames - {name})):
                        if not z3.is_quantifier(a):
                            conj.append(a)
            disj.append(conj)
        fs = []
        if disj and all(disj):
            fs.append(sm(z3.Or([z3.And(c) for c in disj])))
            common = [a for a in disj[0]
                      if all(any(z3.eq(a, b) for b in c) for c in disj[1:])]
            fs += common
        for f in fs:
            if isinstance(f, bool) or not has_app(f):
                continue
            k = z3.Int('q.scan')
            body = z3.substitute(f, (t, k))
            if step == 1:
                rng = z3.And(k >= iv(e0), k < t)
            else:
                rng = z3.And(k <= iv(e0), k > t)
            g = ip.mkforall(k, rng, body)
            if isinstance(g, bool):
                continue
            out.append(FCand(hv, g, 'scan'))
    return out


def has_app(f):
    work = [f]
    while work:
        x = work.pop()
        if z3.is_app(x):
            if x.num_args() and x.decl().eq(A):
                return True
            work += list(x.children())
    return False


def run_loop(ip, node, st, cond, body, assigned, orelse, counter=None,
             bound=None):
    outs = None
    names = loaded_names([node])
    if concrete_loop(st, names):
        outs = try_unroll(ip, st, cond, body, 70)
    elif isinstance(node, ast.While) and counted(st, node.test):
        outs = try_unroll(ip, st, cond, body, 20)
    elif ip.cfg.get('unroll') and isinstance(node, ast.While) and flagged(
            node):
        outs = try_unroll(ip, st, cond, body, ip.cfg['unroll'])
    if outs is None:
        outs = summarised(ip, node, st, cond, body, assigned, counter)
    if outs is None:
        outs = invariant_loop(ip, node, st, cond, body, assigned, counter,
                              bound)
    res = []
    for kind, s, v in outs:
        if kind == 'exit':
            if orelse:
                res += ip.exec_block(orelse, s)
            else:
                res.append(('next', s, None))
        elif kind == 'break':
            res.append(('next', s, None))
        else:
            res.append((kind, s, v))
    return res


def flagged(node):
    """Loop with a nested loop that is driven by a flag."""
    if not any(isinstance(x, (ast.While, ast.For)) and x is not node
               for x in ast.walk(node)):
        return False
    t = node.test
    parts = t.values if isinstance(t, ast.BoolOp) else [t]
    for p in parts:
        if isinstance(p, ast.UnaryOp) and isinstance(p.op, ast.Not):
            p = p.operand
        if isinstance(p, (ast.Name, ast.Constant)):
            return True
    return False


def summarised(ip, node, st, cond, body, assigned, counter):
    """Prove the loop once for arbitrary entry values and reuse the result
    (loops that rebuild a string only)."""
    if counter is not None or not getattr(ip.current, 'invariants', ()):
        return None
    if not any(is_str(st.env.get(v)) for v in assigned):
        return None
    used = loaded_names([node]) | set(assigned)
    env, back, key = {}, [], []
    for v in sorted(used):
        if v not in st.env:
            continue
        x = st.env[v]
        if isinstance(x, (z3.ArithRef, )):
            t = z3.Int('gen.' + v)
            back.append((t, x))
            env[v] = t
            key.append((v, 'int'))
        elif isinstance(x, z3.BoolRef):
            t = z3.Bool('gen.' + v)
            back.append((t, x))
            env[v] = t
            key.append((v, 'bool'))
        elif isinstance(x, SStr):
            t = z3.Const('gen.' + v, Str)
            back.append((t, x))
            env[v] = SBase(t)
            key.append((v, 'str'))
        elif isinstance(x, (int, str, bool, PyObj)) or x is None:
            env[v] = x
            key.append((v, repr(x)))
        elif x is UNBOUND or x is V_.MAYBE:
            env[v] = x
            key.append((v, 'unbound'))
        else:
            return None
    key = (id(node), tuple(key))
    cache = ip.__dict__.setdefault('summaries', {})
    if key not in cache:
        sn = snap(ip)
        g = St()
        g.env = env
        g.heap = dict(st.heap)
        try:
            outs = invariant_loop(ip, node, g, cond, body, assigned, counter)
        except Unsupported as e:
            if 'time budget' in str(e):
                raise
            outs = None
        if outs is not None:
            for kind, s, v in outs:
                if kind not in ('exit', 'break') or any(
                        s.heap.get(a) is not g.heap[a] for a in g.heap
                ) or len(ip.sink) > sn[0]:
                    outs = None
                    break
        if outs is None:
            rollback(ip, sn)
        cache[key] = outs
    outs = cache[key]
    if outs is None:
        return None
    pairs = []
    for t, x in back:
        if isinstance(x, SStr):
            pairs.append((t, named(sterm(x))))
        else:
            pairs.append((t, x))
    actual = {t.decl().name(): x for t, x in back}

    def sb(x):
        return sm(z3.substitute(x, *pairs)) if pairs else x

    def sv(x):
        if isinstance(x, z3.ExprRef):
            return sb(x)
        if isinstance(x, SBase):
            n = x.t.decl().name()
            if x.t.num_args() == 0 and n in actual:
                return actual[n]
            return SBase(z3.substitute(x.t, *pairs))
        if isinstance(x, SSlice):
            b = sv(SBase(x.t))
            a_, b_ = (y if isinstance(y, int) else sb(y) for y in (x.a, x.b))
            return mkslice(b, a_, b_)
        if isinstance(x, SRep):
            c = x.code if isinstance(x.code, int) else sb(x.code)
            n = x.n if isinstance(x.n, int) else sb(x.n)
            return SRep(c, n)
        if isinstance(x, SCat):
            return scat([p if isinstance(p, str) else sv(p) for p in x.parts])
        if isinstance(x, Opt):
            return Opt(x.isnone if isinstance(x.isnone, bool) else sb(x.isnone),
                       sv(x.val))
        if isinstance(x, SStr):
            return SBase(z3.substitute(x.term(), *pairs))
        return x

    res = []
    for kind, s, v in outs:
        r = st.copy()
        for c in s.pc:
            c = sb(c)
            if not isinstance(c, bool):
                r.pc.append(c)
            elif c is False:
                break
        else:
            for f in s.facts:
                f = sb(f)
                if not isinstance(f, bool):
                    r.facts.append(f)
            for v2 in assigned:
                if v2 in s.env:
                    r.env[v2] = sv(s.env[v2])
            if ip.feasible(r):
                res.append((kind, r, v))
    return res


def concrete_loop(st, names):
    for n in names:
        v = st.env.get(n)
        if isinstance(v, (z3.ExprRef, SStr, Opt, Choice, Ref)):
            return False
    return True


def counted(st, test):
    """A comparison of known numbers."""
    if not isinstance(test, ast.Compare):
        return False
    vs = [st.env.get(n) for n in loaded_names([ast.Expr(value=test)])
          if n in st.env]
    return bool(vs) and all(
        isinstance(v, PyObj) or isinstance(v, int)
        and not isinstance(v, bool) for v in vs) and any(
        isinstance(v, int) for v in vs)


def snap(ip):
    return (len(ip.sink), len(ip.preconditions), len(ip.pre_failed),
            len(ip.loops))


def rollback(ip, sn):
    del ip.sink[sn[0]:]
    del ip.preconditions[sn[1]:]
    del ip.pre_failed[sn[2]:]
    del ip.loops[sn[3]:]


def try_unroll(ip, st, cond, body, k):
    sn = snap(ip)
    live = [st]
    out = []
    for r in range(k + 1):
        nxt = []
        for s in live:
            for s2, t in cond(s):
                go, stop = ip.split(s2, t)
                if stop is not None:
                    out.append(('exit', stop, None))
                if go is not None:
                    if r == k:
                        rollback(ip, sn)
                        return None
                    for kind, s3, v in body(go):
                        if kind in ('next', 'continue'):
                            nxt.append(s3)
                        else:
                            out.append((kind, s3, v))
        live = nxt
        if len(live) > 60:
            rollback(ip, sn)
            return None
        if not live:
            return out
    rollback(ip, sn)
    return None


def init_kind(v, st):
    if v is UNBOUND or v is V_.MAYBE:
        return 'unknown'
    if isinstance(v, (Ref, PyObj, Lambda, Choice, Bound, Range)):
        return 'same'
    sh = shape_of(v, st)
    return sh if sh is not None else 'same'


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, Ref) or isinstance(b, Ref):
        return isinstance(a, Ref) and a == b
    if isinstance(a, PyObj) and isinstance(b, PyObj):
        return a.o is b.o
    return False


def join_kind(k, v, entry, s):
    """Kind after observing value v at the end of the body."""
    if k == 'unknown':
        return k
    if k == 'same':
        return 'same' if same_value(entry, v) else 'unknown'
    if v is UNBOUND or v is V_.MAYBE:
        return 'unknown'
    sh = shape_of(v, s)
    j = join_shape(k, sh) if sh is not None else None
    if j is None or shape_bad(j):
        return 'unknown'
    return j


def obj_kind(o, st, s=None, old=None):
    """Havoc kind of a heap object, joined with its state in s."""
    if isinstance(o, ListObj):
        sh = old
        items = list(o.items)
        if o.pre is not None and o.pre.shape is None:
            raise Unsupported('havoc of an abstract list without shape')
        shapes = [shape_of(x, st) for x in items]
        if o.pre is not None:
            shapes.append(o.pre.shape)
        for x in shapes:
            if x == 'empty':
                continue
            sh = x if sh in (None, 'empty') else join_shape(sh, x)
            if shape_bad(sh):
                raise Unsupported('list element shape')
        return sh or 'empty'
    if isinstance(o, V_.WorldObj):
        return 'world'
    if isinstance(o, (MapObj, FileObj)):
        return 'map' if isinstance(o, MapObj) else 'file'
    if isinstance(o, DictObj):
        if old == 'map':
            return 'map'
        return tuple((k, init_kind(v, st)) for k, v in o.items.items())
    if isinstance(o, InstObj):
        return tuple((k, init_kind(v, st)) for k, v in o.fields.items())
    raise Unsupported('havoc of %s' % type(o).__name__)


def join_obj(kind, entry, o, s):
    if isinstance(o, ListObj):
        return obj_kind(o, s, old=kind)
    if isinstance(o, MapObj):
        return 'map'
    if isinstance(o, V_.WorldObj):
        return 'world'
    if isinstance(o, FileObj):
        return 'file'
    if isinstance(o, (DictObj, InstObj)):
        cur = o.items if isinstance(o, DictObj) else o.fields
        ent = entry.items if isinstance(entry, DictObj) else entry.fields
        if kind == 'map':
            return 'map'
        ks = dict(kind)
        out = []
        if isinstance(o, DictObj) and set(cur) != set(ks):
            raise Unsupported('dict with changing keys in a loop')
        for k in ks:
            out.append((k, join_kind(ks[k], cur.get(k, UNBOUND),
                                     ent.get(k, UNBOUND), s)))
        for k in cur:
            if k not in ks:
                out.append((k, 'unknown'))
        return tuple(out)
    raise Unsupported('join of %s' % type(o).__name__)


def name_terms(ip, cands, s, ends, kinds):
    """Mention the terms of the invariants where the loop is left, for the
    values of the variables there and for those of a complete iteration."""
    env = s.env
    envs = [env]
    for e in ends[:1]:
        envs.append(dict(env, **{
            v: e.env[v] for v in kinds
            if is_int(e.env.get(v)) and is_int(env.get(v))}))
    for e in envs:
        s.env = e
        for c in cands:
            if isinstance(c, TCand):
                try:
                    c.at(ip, s)
                except (KeyError, AttributeError):
                    pass
    s.env = env


def invariant_loop(ip, node, st, cond, body, assigned, counter,
                   bound=None):
    ip.loop_no = getattr(ip, 'loop_no', 0) + 1
    kinds = {v: init_kind(st.env.get(v, UNBOUND), st) for v in sorted(assigned)}
    heap = {}
    sn = snap(ip)
    hv = None
    cands = None
    grown = set()
    scanned = 0
    templates = list(getattr(ip.current, 'invariants', ()) or ())
    exact = (exact_exit(ip, node, assigned, st)
             and not ip.cfg.get('head_exit'))
    debug = ip.cfg.get('debug_loops')
    for rnd in range(MAX_ROUNDS):
        rollback(ip, sn)
        if hv is None:
            hv = Havoc(ip, st, kinds, heap)
            condf = []
            for s, t in cond(hv.head.copy()):
                condf.append(t if not isinstance(t, bool) else True)
                condf += s.pc[len(hv.head.pc):]
            rollback(ip, sn)
            gen = ip.cfg.get('gen', True)
            cands = gen_cands(ip, hv, st, condf, assigned) if gen else []
            if bound is not None and not gen:
                t = hv.head.env.get(counter)
                if isinstance(t, z3.ArithRef):
                    cands.append(FCand(hv, z3.And(t >= 0, t <= iv(bound)),
                                       'counter'))
            cands += instantiate(ip, templates, hv, assigned, st)
            cands = [c for c in cands if holds(ip, c, st)]
            scanned = 0
        head = hv.head.copy()
        npc0 = len(head.pc)
        for c in cands:
            f = c.at(ip, head)
            if f is None:
                continue
            ip.assume(head, f)
        if not ip.feasible(head) and ip.feasible(st):
            # the candidates hold at entry: a fault of the specification
            raise Unsupported('contradictory invariants at line %s' %
                              getattr(node, 'lineno', '?'))
        npc = len(head.pc)
        exits, ends, others = [], [], []
        for s, t in cond(head):
            go, stop = ip.split(s, t)
            if stop is not None and not exact:
                exits.append(('exit', stop, None))
            if go is not None:
                for kind, s3, v in body(go):
                    if kind in ('next', 'continue'):
                        ends.append(s3)
                    else:
                        others.append((kind, s3, v))
        for kind, s, v in others:
            if kind in ('break', 'return'):
                name_terms(ip, cands, s, ends, kinds)
        # states that certainly leave the loop exit exactly
        cont = []
        for s in ends:
            rs = cond(s)
            for s2, t in rs:
                t = sm(t)
                if t is False and not ip.cfg.get('head_exit'):
                    # names the terms of the invariants for the caller
                    for c in cands:
                        if isinstance(c, TCand):
                            c.at(ip, s2)
                    exits.append(('exit', s2, None))
                elif exact:
                    go, stop = ip.split(s2, t)
                    if stop is not None:
                        exits.append(('exit', stop, None))
                    if go is not None:
                        cont.append(go)
                else:
                    cont.append(s2)
        # kinds
        nk, nh = dict(kinds), dict(heap)
        for s in cont:
            for v in kinds:
                nk[v] = join_kind(nk[v], s.env.get(v, UNBOUND),
                                  st.env.get(v, UNBOUND), s)
            for a in st.heap:
                if s.heap.get(a) is not head.heap.get(a):
                    if a not in nh:
                        nh[a] = obj_kind(st.heap[a], st)
                    if isinstance(st.heap[a], DictObj) and isinstance(
                            s.heap[a], MapObj):
                        nh[a] = 'map'
                    else:
                        nh[a] = join_obj(nh[a], st.heap[a], s.heap[a], s)
        if nk == kinds and nh == heap:
            # variables that only the last iteration changes
            for v, k in kinds.items():
                e = st.env.get(v, UNBOUND)
                if (k not in ('same', 'unknown') and v not in grown
                        and e is not UNBOUND and e is not V_.MAYBE
                        and all(s.env.get(v) is head.env.get(v)
                                for s in cont)):
                    nk[v] = 'same'
                    grown.add(v)
        if nk != kinds or nh != heap:
            for v in kinds:
                if kinds[v] == 'same' and nk[v] != 'same' and v in grown:
                    nk[v] = init_kind(st.env[v], st)
            kinds, heap, hv = nk, nh, None
            continue
        if exact:
            for s2, t in cond(st):
                go, stop = ip.split(s2, t)
                if stop is not None:
                    exits.append(('exit', stop, None))
        drop = set()
        for s in cont:
            todo = [(i, c) for i, c in enumerate(cands) if i not in drop]
            fs = []
            for i, c in todo:
                f = c.at(ip, s)
                if f is None:
                    drop.add(i)
                    continue
                f = sm(f)
                if f is True:
                    continue
                fs.append((i, f))
            plain = [f for i, f in fs if not isinstance(f, bool)]
            if len(plain) == len(fs) and len(fs) > 1 and rnd > 1:
                if ip.proves(s, And_(*plain), 2 * CAND_MS):
                    continue
            for i, f in fs:
                if not keeps(ip, s, cands[i], f):
                    drop.add(i)
                    if debug and debug > 2:
                        explain(ip, s, cands[i], f)
        if debug:
            print('%.1fs' % ip.S.time, 'loop@%s round %d: %d cands, %d dropped, %d ends, %d exits, %d others'
                  % (getattr(node, 'lineno', '?'), rnd, len(cands), len(drop),
                     len(ends), len(exits), len(others)))
        if not drop and scanned < 2 and gen:
            scanned += 1
            have = {c.key() for c in cands}
            new = [c for c in scan_cands(ip, hv, st, cont, npc)
                   if c.key() not in have and holds(ip, c, st)]
            if new:
                cands = cands + new
                continue
        if not drop:
            if debug:
                for c in cands:
                    print('   inv:', getattr(c, 'label', ''), c.at(ip, hv.head.copy()) if debug > 1 else '')
            ip.loops.append({
                'function': ip.fn_stack[-1] if ip.fn_stack else '?',
                'line': getattr(node, 'lineno', 0),
                'measure': (counter and 'for') or measure(ip, head, cont,
                                                          cond),
                'invariants': len(cands),
                'paths': len(ends)
            })
            return exits + others
        cands = [c for i, c in enumerate(cands) if i not in drop]
    raise Unsupported('no loop invariant at line %s' %
                      getattr(node, 'lineno', '?'))


def measures(s):
    """{name: value} of what may bound the number of iterations."""
    ints, tops = {}, {'0': 0}
    for v, x in s.env.items():
        if is_int(x):
            ints[v] = iv(x)
            tops[v] = iv(x)
        elif is_str(x):
            tops['len ' + v] = L(sterm(x))
        elif isinstance(x, Ref) and isinstance(s.heap.get(x.addr), FileObj):
            f = s.heap[x.addr]
            ints['line of ' + v] = iv(f.pos)
            tops['lines of ' + v] = fLines(f.content)
        elif isinstance(x, Ref) and isinstance(s.heap.get(x.addr), V_.SeqDict):
            tops['len ' + v] = iv(s.heap[x.addr].n)
    return ints, tops


def measure(ip, head, cont, cond):
    """An expression that is not negative in an iteration that goes on and
    decreases with it: the loop ends."""
    goes = []
    for s in cont:
        for s2, t in cond(s.copy()):
            go, _ = ip.split(s2, t)
            if go is not None:
                goes.append(go)
    if not goes:
        return 'one iteration'
    ints, tops = measures(head)
    ends = [measures(s) for s in goes]
    for v in ints:
        if all(z3.eq(ints[v], i[v]) for i, _ in ends if v in i):
            continue
        if not all(v in i for i, _ in ends):
            continue
        for sign in (1, -1):
            # v goes up or down in all iterations
            for t in tops:
                if t == v or not all(t in x for _, x in ends):
                    continue
                if (sign == -1) != (t == '0'):
                    continue
                m0 = sign * (iv(tops[t]) - ints[v])
                if all(ip.proves(s, z3.And(
                        m0 >= -1, sign * (iv(x[t]) - i[v]) < m0), 1000)
                       for s, (i, x) in zip(goes, ends)):
                    return ('%s - %s' % (t, v)) if sign == 1 else v
    return None


def keeps(ip, s, c, f):
    """Does the candidate hold again at the end of an iteration."""
    if ip.proves(s, f, CAND_MS):
        return True
    if not isinstance(c, TCand) or isinstance(f, bool):
        return False
    parts = f.children() if z3.is_and(f) else [f]
    return all(ip.proves(s, g, TEMPLATE_MS) for g in parts)


def explain(ip, s, c, f):
    """Debugging: which conjuncts of a dropped candidate are not proved."""
    print('  dropped', getattr(c, 'label', c), len(s.pc))
    for g in (f.children() if z3.is_and(f) else [f]):
        if not ip.proves(s, g, 8000):
            print('     unproved:', str(g)[:600])
            if ip.cfg.get('debug_loops') > 3:
                print('     under:', str(s.pc))
                print('     facts:', str(s.facts))


def exact_exit(ip, node, assigned, st):
    """True when a variable that is unbound at entry is used after the
    loop."""
    if not ip.node_stack:
        return False
    un = {v for v in assigned
          if st.env.get(v, UNBOUND) is UNBOUND and not v.startswith('__')}
    if not un:
        return False
    inside = {id(x) for x in ast.walk(node)}
    for x in ast.walk(ip.node_stack[-1]):
        if (isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)
                and x.id in un and id(x) not in inside
                and getattr(x, 'lineno', 0) > getattr(node, 'end_lineno', 0)):
            return True
    return False


def holds(ip, c, st):
    s = st.copy()
    f = c.at(ip, s)
    if f is None:
        return False
    return ip.proves(s, f, CAND_MS)
