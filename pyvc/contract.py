"""Contracts and the verification of one function against its contract."""
import importlib
import itertools
import sys
import time
import traceback

import z3

from . import interp as I_
from .interp import Interp, find_func
from .solver import Solver
from .terms import *  # noqa
from .values import *  # noqa

REGISTRY = {}

PARSERS = ('github', 'cmark', 'gitlab', 'commonmarker', 'goldmark',
           'redcarpet')
FAMILY = PARSERS[:-1]


class Kind:
    """Symbolic shape of a parameter."""

    def __init__(self, name, **kw):
        self.name = name
        self.__dict__.update(kw)


STR = Kind('str')
INT = Kind('int')
BOOL = Kind('bool')
OPTSTR = Kind('optstr')
STRS = Kind('strs')         # a list of strings


def ENUM(*vals):
    return Kind('enum', vals=vals)


MAP = Kind('map')           # dict[str, int], symbolic


def INST(cls, **fields):
    return Kind('inst', cls=cls, fields=fields)


class OneOf(str):
    """A case: the parameter is one of some strings."""

    def __new__(cls, *vals):
        s = str.__new__(cls, '|'.join(vals))
        s.vals = vals
        return s

    def __getnewargs__(self):
        return self.vals

    def holds(self, ip, v, st):
        return Or_(*[ip.eq(v, x, st) for x in self.vals])


class NotIn(str):
    """A case: the parameter is none of some strings."""

    def __new__(cls, *vals):
        s = str.__new__(cls, 'not ' + '|'.join(vals))
        s.vals = vals
        return s

    def __getnewargs__(self):
        return self.vals

    def holds(self, ip, v, st):
        return And_(*[Not_(ip.eq(v, x, st)) for x in self.vals])


class Contract:

    def __init__(self, target, params, spec, requires=None, reveal=(),
                 unfold=1, invariants=(), config=None, in_repo=True,
                 mutates=(), setup=None, trusted=None, lemmas=(),
                 ensures=None, view=None, view_reveal=(), splits=None,
                 hints=(), cases=None):
        self.target = target
        self.params = params
        self.spec = spec
        self.requires = requires
        self.reveal = tuple(reveal)
        self.unfold = unfold
        self.invariants = tuple(invariants)
        self.config = config or {}
        self.in_repo = in_repo
        self.mutates = tuple(mutates)
        self.setup = setup
        self.trusted = trusted          # reason when the body is not proved
        self.lemmas = tuple(lemmas)
        self.ensures = ensures          # over the parameters and the result
        self.hints = tuple(hints)       # terms to look at, over open files
        self.splits = splits or {}      # name: {label: predicate}
        self.view = view                # specification used at call sites
        self.cases = cases              # cases of the proof: [{param: value}]

    def apply(self, ip, env, st):
        """Use of the contract at a call site."""
        args = [env[p] for p in self.params if p in env]
        g = True
        for p, k in self.params.items():
            # the proof is by cases over the enumerated values
            v = env.get(p)
            if (isinstance(v, SBase) and v.t.get_id() in ip.domain
                    and k.name == 'enum'
                    and set(ip.domain[v.t.get_id()]) <= set(k.vals)):
                continue
            if k.name == 'enum' and p in env:
                g = And_(g, Or_(*[ip.eq(v, x, st) for x in k.vals
                                  if isinstance(x, bool) == is_bool(v)
                                  or v is None]))
        if self.requires is not None:
            g = And_(g, ip.formula(self.requires, args, st))
        if g is not True:
            ok = ip.proves(st, g, ip.cfg.get('pre_ms', 4000))
            ip.preconditions.append((self.target, ok))
            if not ok:
                ip.pre_failed.append(
                    (self.target, list(ip.hyps(st)), bv(g)))
        outs = ip.call_obj(self.view or self.spec, args, {}, st)
        if self.ensures is not None:
            for s, v in outs:
                ip.assume(s, ip.formula(self.ensures, args + [v], s))
        return outs


def contract(target, params, **kw):

    def deco(f):
        c = Contract(target, params, f, **{k: v for k, v in kw.items()
                                           if k != 'view_unfold'})
        REGISTRY[target] = c
        f._contract = c
        if c.view is not None:
            # the view is another way to write the specification
            t = f.__module__ + '.' + f.__qualname__ + '@view'
            REGISTRY[t] = Contract(t, params, c.view, requires=c.requires,
                                   reveal=kw.get('view_reveal', ()),
                                   mutates=c.mutates, cases=c.cases,
                                   unfold=kw.get('view_unfold', 1),
                                   config=dict(spec_ask=True))
        return f

    return deco


def resolve(target):
    """(module, qualname, object) of a dotted target."""
    parts = target.split('@')[0].split('.')
    for i in range(len(parts) - 1, 0, -1):
        try:
            mod = importlib.import_module('.'.join(parts[:i]))
        except ImportError:
            continue
        o = mod
        try:
            for p in parts[i:]:
                o = getattr(o, p)
        except AttributeError:
            return mod, '.'.join(parts[i:]), None
        return mod, '.'.join(parts[i:]), o
    return None, None, None


def cases(c):
    """Case split over the enumerated parameters."""
    if c.cases is not None:
        labels = [list(v) for v in c.splits.values()]
        for case in c.cases:
            for combo in itertools.product(*labels):
                yield dict(case, **dict(zip(c.splits, combo)))
        return
    names = [p for p, k in c.params.items() if k.name == 'enum']
    labels = [list(v) for v in c.splits.values()]
    names += list(c.splits)
    for combo in itertools.product(*[c.params[p].vals for p in names
                                     if p in c.params], *labels):
        yield dict(zip(names, combo))


def symbolic(ip, kind, name, st):
    if isinstance(kind, OneOf):
        v = SBase(z3.Const(name, Str))
        ip.assume(st, kind.holds(ip, v, st))
        ip.domain[v.t.get_id()] = kind.vals
        ip.kept.append(v.t)
        return v
    if kind.name == 'str':
        return SBase(z3.Const(name, Str))
    if kind.name == 'int':
        return z3.Int(name)
    if kind.name == 'bool':
        return z3.Bool(name)
    if kind.name == 'optstr':
        return Opt(z3.Bool(name + '.none'), SBase(z3.Const(name, Str)))
    if kind.name == 'optint':
        return Opt(z3.Bool(name + '.none'), z3.Int(name))
    if kind.name == 'map':
        return st.alloc(
            MapObj(z3.Const(name + '.has', z3.ArraySort(Str, B)),
                   z3.Const(name + '.val', z3.ArraySort(Str, I))))
    if kind.name == 'strs':
        return ip.text_seq(z3.Const(name, StrSeq), st)
    if kind.name == 'dict':
        return st.alloc(
            DictObj({
                k: symbolic(ip, v, '%s[%s]' % (name, k), st)
                for k, v in kind.items.items()
            }))
    if kind.name == 'inst':
        return st.alloc(
            InstObj(kind.cls, {
                k: symbolic(ip, v, '%s.%s' % (name, k), st)
                for k, v in kind.fields.items()
            }))
    if kind.name == 'custom':
        return kind.make(ip, name, st)
    if kind.name == 'const':
        return ip.wrap(kind.val)
    raise Unsupported('kind %s' % kind.name)


def stays(ip, o, env, heap):
    """The induction step of: a value of o other than zero stays the same
    along its integer argument."""
    ip.cfg = dict(ip.cfg, no_sticky=True)
    ip.sink = []
    m = z3.Int('m')
    st = St()
    st.heap = dict(heap)
    (st, a), = ip.call_spec(o, o._pyvc, [], dict(env, **{o._sticky: m}), st)
    (st, b), = ip.call_spec(o, o._pyvc, [], dict(env, **{o._sticky: m + 1}),
                            st)
    return ip.S.proves_hard(st.facts, z3.Implies(a != 0, b == a), 20000)


def covers(c):
    """The explicit cases of a contract cover all parameter values."""
    ip = Interp(Solver(), {}, {})
    st = St()
    env = {}
    for p, k in c.params.items():
        env[p] = symbolic(ip, STR if k.name == 'enum' and isinstance(
            k.vals[0], str) else BOOL if k.name == 'enum' else k, p, st)
        if k.name == 'enum' and isinstance(k.vals[0], str):
            ip.assume(st, OneOf(*k.vals).holds(ip, env[p], st))
    g = Or_(*[And_(*[v.holds(ip, env[p], st)
                     if isinstance(v, (OneOf, NotIn))
                     else ip.eq(env[p], v, st) for p, v in case.items()])
              for case in c.cases])
    return ip.proves(st, g)


class Result:
    """Outcome of the verification of one function case."""

    def __init__(self, target, case):
        self.target, self.case = target, case
        self.obligations = []       # (name, ok)
        self.unsupported = None
        self.models = []
        self.applied = set()
        self.inlined = set()
        self.externals = set()
        self.loops = []
        self.seconds = 0.0
        self.solver_s = 0.0
        self.queries = 0
        self.paths = 0

    def ok(self):
        return (self.unsupported is None and self.obligations
                and all(o[1] for o in self.obligations))

    def asdict(self):
        d = dict(self.__dict__)
        for k in ('applied', 'inlined', 'externals'):
            d[k] = sorted(d[k])
        return d


def leaves(ip, v, w, s, s2, name):
    """Equality of two results as one goal per component."""
    if isinstance(v, tuple) and isinstance(w, tuple) and len(v) == len(w):
        out = []
        for i, (a, b) in enumerate(zip(v, w)):
            out += leaves(ip, a, b, s, s2, '%s[%d]' % (name, i))
        return out
    if isinstance(v, Ref) and isinstance(w, Ref):
        a, b = s.obj(v), s2.obj(w)
        if isinstance(a, DictObj) and isinstance(b, DictObj) and list(
                a.items) == list(b.items):
            out = []
            for k in a.items:
                out += leaves(ip, a.items[k], b.items[k], s, s2,
                              '%s[%s]' % (name, k))
            return out or [(name, True)]
        if (isinstance(a, InstObj) and isinstance(b, InstObj)
                and a.cls is b.cls and set(a.fields) == set(b.fields)):
            out = []
            for k in a.fields:
                out += leaves(ip, a.fields[k], b.fields[k], s, s2,
                              '%s.%s' % (name, k))
            return out or [(name, True)]
        if (isinstance(a, ListObj) and isinstance(b, ListObj)
                and a.pre is None and b.pre is None
                and len(a.items) == len(b.items)):
            out = []
            for i, (x, y) in enumerate(zip(a.items, b.items)):
                out += leaves(ip, x, y, s, s2, '%s[%d]' % (name, i))
            return out or [(name, True)]
    return [(name, ip.eq(v, w, s, s2))]


def states(ip, r, s, s2, name, seen=None):
    """Equality of an object in two states as one goal per field, and of
    the objects it refers to."""
    seen = set() if seen is None else seen
    if r.addr in seen:
        return []
    seen.add(r.addr)
    a, b = s.obj(r), s2.obj(r)
    if not (isinstance(a, InstObj) and isinstance(b, InstObj)):
        return [(name, ip.obj_eq(a, r, s, s2))]
    out = []
    if set(a.fields) != set(b.fields):
        out.append((name + ': fields', False))
    for k in a.fields:
        x, y = a.fields[k], b.fields.get(k)
        if isinstance(x, Ref) and isinstance(y, Ref) and x.addr == y.addr:
            out += states(ip, x, s, s2, '%s.%s' % (name, k), seen)
        elif x is not y:
            out.append(('%s.%s' % (name, k), ip.eq(x, y, s, s2)))
    return out


def verify_case(c, case, budget=300, ob_ms=40000, config=None, comps=None):
    """Verify the function of contract c for one enumerated case.

    comps selects the components (of the result, of the final state) whose
    obligations are wanted; None is all of them."""
    t0 = time.time()
    res = Result(c.target, dict(case))
    cfg = dict(c.config)
    cfg.update(config or {})
    S = Solver(timeout_ms=cfg.get('solver_ms', 3000),
               feas_ms=cfg.get('feas_ms', 150))
    ip = Interp(S, REGISTRY, cfg)
    ip.preconditions = []
    ip.pre_failed = []
    ip.deadline = t0 + budget
    ip.current = c
    try:
        mod, qual, obj = resolve(c.target)
        node = find_func(mod, qual) if mod is not None else None
        if node is None:
            raise Unsupported('function not found')
        st = St()
        env = {}
        for p, k in c.params.items():
            v = case.get(p)
            if isinstance(v, (OneOf, NotIn)):
                env[p] = SBase(z3.Const(p, Str))
                ip.assume(st, v.holds(ip, env[p], st))
                (ip.domain if isinstance(v, OneOf)
                 else ip.apart)[env[p].t.get_id()] = v.vals
            elif p in case:
                env[p] = ip.wrap(v)
            else:
                env[p] = symbolic(ip, k, p, st)
        names = [a.arg for a in node.args.args]
        missing = [p for p in c.params if p not in names]
        if missing:
            raise Unsupported('parameters %s are gone' % missing)
        ip.mod_stack.append(mod)
        ip.entry_env = dict(env)
        ip.stdin = st.alloc(FileObj(fDoc(W0, lit_term('-')), 0, stream=True))
        ip.world = st.alloc(WorldObj(W0))
        if c.setup is not None:
            c.setup(ip, env, st)
        if c.requires is not None:
            g = ip.formula(c.requires, list(env.values()), st)
            ip.assume(st, g)
        if c.cases is not None:
            # the cases cover everything
            res.obligations.append(('cases', covers(c), ''))
        for q, alts in c.splits.items():
            # the cases cover everything
            g = Or_(*[ip.formula(p, list(env.values()), st)
                      for p in alts.values()])
            res.obligations.append(('cases of %s' % q, ip.proves(st, g), ''))
            if q in case:
                ip.assume(st, ip.formula(alts[case[q]], list(env.values()),
                                         st))
        # vacuity: the precondition must be satisfiable as far as the
        # solver can tell.
        if not ip.feasible(st):
            res.obligations.append(('vacuous precondition', False, 'vacuity'))
        args = [env[p] for p in c.params]
        ip.entry_heap = dict(st.heap)
        sink, ip.sink = ip.sink, []
        outs = ip.run_function(node, mod, c.target, [], dict(env), st)
        outs = [('return', s, v) for s, v in outs] + [
            ('raise', s, e) for s, e in ip.sink
        ]
        ip.sink = sink
        res.paths = len(outs)
        if not outs:
            res.obligations.append(('no path', False, 'vacuity'))
        elif all(ip.S.proves(ip.hyps(s), False, 1500) for _, s, _ in outs):
            # canary: some outcome is possible as far as the solver can tell
            res.obligations.append(('no outcome is possible', False,
                                    'vacuity'))
        for n, (kind, s, v) in enumerate(outs):
            s0 = st.copy()
            s0.env = {}
            s0.pc = list(s.pc)
            s0.facts = list(s.facts)
            s0.ghost = dict(s.ghost)
            # addresses of the initial heap only; the objects the body
            # allocated are kept so that values can refer to them
            heap0 = dict(s.heap)
            for a in st.heap:
                heap0[a] = st.heap[a]
            s0.heap = heap0
            ip.sink = []
            for h in c.hints:
                for a, o in s.heap.items():
                    if isinstance(o, FileObj):
                        q = s0.copy()
                        q.heap = s.heap
                        ip.formula(h, [Ref(a)] + args, q)
                        s0.facts, s0.ghost = q.facts, q.ghost
            souts = ip.call_obj(c.spec, args, {}, s0)
            souts = [('return', x, y) for x, y in souts] + [
                ('raise', x, y) for x, y in ip.sink
            ]
            ip.sink = []
            if not souts:
                ok = not ip.feasible(s)
                res.obligations.append(
                    ('path %d: contract has no outcome' % n, ok, ''))
            for m, (k2, s2, v2) in enumerate(souts):
                goals = []
                if kind != k2:
                    what = 'body %s %s, contract %s %s' % (
                        kind, v if kind == 'raise' else '',
                        k2, v2 if k2 == 'raise' else '')
                    goals.append(('outcome: ' + what, False))
                elif kind == 'raise':
                    goals.append(('exception: %r, contract %r' % (v, v2),
                                  v.cls is v2.cls))
                    if v.code is not None or v2.code is not None:
                        goals.append(('exit code', v.code is not None
                                      and v2.code is not None
                                      and ip.eq(v.code, v2.code, s, s2)))
                else:
                    goals += leaves(ip, v, v2, s, s2, 'result')
                    if c.ensures is not None and m == 0:
                        goals.append(('ensures', ip.formula(
                            c.ensures, args + [v], s)))
                    for p in c.mutates:
                        goals += states(ip, env[p], s, s2, 'final %s' % p)
                    for p in c.params:
                        r = env[p]
                        if isinstance(r, Ref) and p not in c.mutates:
                            if s.obj(r) is not st.obj(r):
                                goals.append(
                                    ('%s is not modified' % p,
                                     ip.obj_eq(s.obj(r), r, s, st)))
                w, w2 = s.obj(ip.world).term, s2.obj(ip.world).term
                if not z3.eq(w, w2):
                    goals.append(('effects', w == w2))
                for what, g in goals:
                    if comps is not None and not comps(what):
                        continue
                    name = 'path %d.%d: %s' % (n, m, what)
                    hy = s2.pc + s2.facts + [
                        f for f in s.facts if not any(f is z for z in s2.facts)
                    ]
                    ok = S.proves_hard(hy, sm(g), ob_ms)
                    res.obligations.append((name, ok, kind))
                    if not ok and cfg.get('debug_goals'):
                        print('UNPROVED', name, '\n GOAL', sm(g), '\n PC',
                              s2.pc, '\n FACTS', hy[len(s2.pc):])
                    if not ok:
                        res.models += model_inputs(S, hy, sm(g), env, case)
        for fname, (o, e, h) in ip.sticky_used.items():
            res.obligations.append(('lemma: %s stays' % o.__name__,
                                    stays(ip, o, e, h), 'lemma'))
        for t, ok in ip.preconditions:
            res.obligations.append(('precondition of %s' % t, ok, 'call'))
        for hy_t, hy, g in ip.pre_failed:
            res.models += model_inputs(S, hy, g, env, case)
    except Unsupported as e:
        res.unsupported = str(e)
    except RecursionError:
        res.unsupported = 'recursion limit'
    except z3.Z3Exception as e:
        res.unsupported = 'z3: %s' % e
        if cfg.get('debug'):
            raise
    except Exception as e:
        if cfg.get('debug'):
            raise
        res.unsupported = 'internal: %s' % ''.join(
            traceback.format_exception_only(type(e), e)).strip()
    res.applied = ip.applied - {c.target}
    res.inlined = ip.inlined
    res.externals = ip.externals
    res.loops = ip.loops
    res.seconds = time.time() - t0
    res.solver_s = S.time
    res.queries = S.queries
    res.variants = S.variants
    return res


def model_inputs(S, hyps, goal, env, case):
    """Candidate concrete parameter values from the solver's model."""
    try:
        S._sync()
        S.s.push()
        S.s.set('timeout', 3000)
        for h in hyps:
            S.s.add(h)
        if not isinstance(goal, bool):
            S.s.add(z3.Not(goal))
        r = S.s.check()
        if r == z3.unsat:
            return []
        m = S.s.model()
        out = {}
        for p, v in env.items():
            out[p] = model_value(m, v)
        return [out]
    except Exception:
        return []
    finally:
        S.s.pop()


def model_value(m, v):
    if isinstance(v, (int, str, bool)) or v is None:
        return v
    if isinstance(v, z3.ArithRef):
        return m.eval(v, model_completion=True).as_long()
    if isinstance(v, z3.BoolRef):
        return z3.is_true(m.eval(v, model_completion=True))
    if isinstance(v, SStr):
        n = m.eval(iv(slen(v)), model_completion=True).as_long()
        if not 0 <= n <= 2000:
            return None
        out = []
        for k in range(n):
            c = m.eval(iv(sat(v, k)), model_completion=True)
            try:
                out.append(chr(c.as_long()))
            except (ValueError, OverflowError):
                out.append('a')
        return ''.join(out)
    if isinstance(v, Opt):
        if z3.is_true(m.eval(bv(v.isnone), model_completion=True)):
            return None
        return model_value(m, v.val)
    return None
