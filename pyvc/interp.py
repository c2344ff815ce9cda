"""Symbolic executor / verification condition generator for a Python subset.

exec_block explores every path of the real function body (parsed from /repo on
every run).  Calls to functions under contract use the contract; other
functions of the package are inlined; loops are cut by inductive invariants
(Houdini over candidates) or, when every path leaves the loop within a few
iterations, completely unrolled.
"""
import ast
import dataclasses
import builtins
import copy as _copy
import hashlib
import importlib
import inspect
import os
import re
import string
import sys
import types as pytypes

import z3

from . import spec as specmod
from .terms import *  # noqa
from .values import *  # noqa


class PathLimit(Unsupported):
    pass


MUTATORS = {'append', 'extend', 'pop', 'insert', 'clear', 'update'}


def exc_cls(name):
    return getattr(builtins, name)


class FuncInfo:

    def __init__(self, node, mod, qual):
        self.node, self.mod, self.qual = node, mod, qual


_mod_ast = {}


def module_ast(mod):
    f = mod.__file__
    if f not in _mod_ast:
        with open(f, encoding='utf-8') as fh:
            _mod_ast[f] = ast.parse(fh.read())
    return _mod_ast[f]


def find_func(mod, qual):
    """FunctionDef of qual ('f' or 'Class.f') in a module."""
    body = module_ast(mod).body
    parts = qual.split('.')
    for i, p in enumerate(parts):
        hit = None
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == p:
                hit = n        # the last definition wins
        if hit is None:
            return None
        body = hit.body
    return hit if isinstance(hit, ast.FunctionDef) else None


def assigned_names(stmts):
    out = set()

    class V(ast.NodeVisitor):

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

    for s in stmts:
        V().visit(s)
    return out


class Interp:

    def __init__(self, solver, contracts=None, config=None):
        self.S = solver
        self.contracts = contracts or {}
        self.cfg = config or {}
        self.sink = []
        self.mod_stack = []
        self.fn_stack = []
        self.node_stack = []
        self.binders = 0
        self.reveal_depth = 0
        self.ufs = {}
        self.current = None          # contract being verified
        self.applied = set()         # contracts used at call sites
        self.inlined = set()
        self.externals = set()
        self.loops = []              # loop reports
        self.preconditions = []
        self.pre_failed = []
        self.paths = 0
        self.max_paths = self.cfg.get('max_paths', 4000)
        self.pure = 0
        self.kept = []
        self.deadline = None
        self.stdin = None
        self.world = None
        self.valid = {}
        self.entry_env = {}
        self.rec_terms = {}
        self.sticky_used = {}
        self.domain = {}             # term id: the values it ranges over
        self.apart = {}              # term id: values it is not

    # ------------------------------------------------------------- solving
    def hyps(self, st):
        return st.pc + st.facts

    def feasible(self, st):
        return self.S.feasible(self.hyps(st))

    def proves(self, st, goal, timeout=None):
        goal = sm(goal)
        if isinstance(goal, bool):
            if goal:
                return True
            return not self.feasible(st)
        return self.S.proves(self.hyps(st), goal, timeout)

    def tick(self):
        import time
        if self.deadline and time.time() > self.deadline:
            raise PathLimit('time budget of the symbolic execution')

    def split(self, st, cond, ask=False):
        """(st with cond, st with not cond); None when infeasible. Within a
        specification nothing is asked to the solver: the outcomes are merged
        again under their conditions."""
        self.tick()
        cond = sm(cond)
        if cond is True:
            return st, None
        if cond is False:
            return None, st
        a = st.copy()
        a.pc.append(cond)
        if self.pure and not ask and not self.cfg.get('spec_ask'):
            b = st.copy()
            b.pc.append(z3.Not(cond))
            return a, b
        if not self.feasible(a):
            b = st.copy()
            return None, b
        b = st.copy()
        b.pc.append(z3.Not(cond))
        if not self.feasible(b):
            return st.copy(), None
        return a, b

    def assume(self, st, cond):
        cond = sm(cond)
        if cond is True:
            return True
        if cond is False:
            return False
        st.pc.append(cond)
        return True

    def throw(self, st, cls, note=''):
        if isinstance(cls, str):
            cls = exc_cls(cls)
        self.sink.append((st, Exc(cls, note)))

    def need(self, st, cond, cls, note=''):
        """Continue with cond; the other side raises cls. State or None."""
        ok, bad = self.split(st, cond, True)
        if bad is not None:
            if ok is None or self.feasible(bad):
                self.throw(bad, cls, note)
        return ok

    # ------------------------------------------------------------ values
    def wrap(self, o):
        if o is None or isinstance(o, (bool, int, str)):
            if isinstance(o, int) and not isinstance(o, bool) and type(o) is not int:
                return int(o)
            return o
        if isinstance(o, tuple):
            return tuple(self.wrap(x) for x in o)
        if isinstance(o, (z3.ExprRef, SStr, Opt, Ref, Choice)):
            return o
        return PyObj(o)

    def truth(self, v, st):
        """Truth value formula of v."""
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        if isinstance(v, z3.BoolRef):
            return v
        if isinstance(v, z3.ArithRef):
            return sm(v != 0)
        if is_str(v):
            n = slen(v)
            return n != 0 if isinstance(n, int) else sm(n != 0)
        if isinstance(v, Opt):
            return And_(Not_(v.isnone), self.truth(v.val, st))
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, Ref):
            o = st.obj(v)
            if isinstance(o, ListObj):
                n = o.length()
                return n != 0 if isinstance(n, int) else sm(n != 0)
            if isinstance(o, DictObj):
                return len(o.items) > 0
            if isinstance(o, SeqDict):
                return sm(iv(o.n) != 0)
            if isinstance(o, (InstObj, FileObj)):
                return True
        if isinstance(v, PyObj):
            return bool(v.o)
        if isinstance(v, Choice):
            return Or_(*[And_(c, self.truth(x, st)) for c, x in v.alts])
        raise Unsupported('truth of %r' % (v, ))

    def unopt(self, st, v):
        """[(state, v)] with the optional layer resolved by a fork."""
        if isinstance(v, Opt):
            a, b = self.split(st, v.isnone)
            out = []
            if a is not None:
                out.append((a, None))
            if b is not None:
                out.append((b, v.val))
            return out
        return [(st, v)]

    def ite(self, c, a, b, st=None):
        if c is True:
            return a
        if c is False:
            return b
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(
                b, (bool, z3.BoolRef)):
            return If_(c, a, b)
        if is_int(a) and is_int(b):
            return If_(c, a, b)
        if is_str(a) and is_str(b):
            if isinstance(a, str) and isinstance(b, str) and a == b:
                return a
            ta, tb = sterm(a), sterm(b)
            if z3.eq(ta, tb):
                return a
            return SBase(named(z3.If(c, ta, tb)))
        if a is None and b is None:
            return None
        if a is None and (is_str(b) or is_int(b)):
            return Opt(c, b)
        if b is None and (is_str(a) or is_int(a)):
            return Opt(Not_(c), a)
        if isinstance(a, Opt) or isinstance(b, Opt):
            ia = a.isnone if isinstance(a, Opt) else (a is None)
            ib = b.isnone if isinstance(b, Opt) else (b is None)
            va = a.val if isinstance(a, Opt) else a
            vb = b.val if isinstance(b, Opt) else b
            if va is None:
                va = vb
            if vb is None:
                vb = va
            return Opt(If_(c, ia, ib), self.ite(c, va, vb, st))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.ite(c, x, y, st) for x, y in zip(a, b))
        if isinstance(a, Ref) and a == b:
            return a
        if isinstance(a, PyObj) and isinstance(b, PyObj) and a.o is b.o:
            return a
        raise Unsupported('ite of %r and %r' % (a, b))

    def eq(self, v, w, st, st2=None):
        """Formula for v == w."""
        st2 = st2 or st
        if isinstance(v, Choice):
            return Or_(*[And_(c, self.eq(x, w, st, st2)) for c, x in v.alts])
        if isinstance(w, Choice):
            return Or_(*[And_(c, self.eq(v, x, st, st2)) for c, x in w.alts])
        if isinstance(v, Opt) or isinstance(w, Opt):
            if v is None:
                return w.isnone
            if w is None:
                return v.isnone
            iv_ = v.isnone if isinstance(v, Opt) else False
            iw = w.isnone if isinstance(w, Opt) else False
            vv = v.val if isinstance(v, Opt) else v
            ww = w.val if isinstance(w, Opt) else w
            return Or_(And_(iv_, iw),
                       And_(Not_(iv_), Not_(iw), self.eq(vv, ww, st, st2)))
        if v is None or w is None:
            return v is None and w is None
        if is_str(v) and is_str(w):
            if self.domain or self.apart:
                for x, y in ((v, w), (w, v)):
                    if isinstance(x, SBase) and isinstance(y, str):
                        i = x.t.get_id()
                        if i in self.domain and y not in self.domain[i]:
                            return False
                        if y in self.apart.get(i, ()):
                            return False
            return str_eq(v, w)
        if is_bool(v) and is_bool(w):
            if isinstance(v, bool) and isinstance(w, bool):
                return v == w
            return sm(bv(v) == bv(w))
        if (is_int(v) or is_bool(v)) and (is_int(w) or is_bool(w)):
            return sm(self.toint(v) == self.toint(w))
        if isinstance(v, tuple) and isinstance(w, tuple):
            if len(v) != len(w):
                return False
            return And_(*[self.eq(a, b, st, st2) for a, b in zip(v, w)])
        if isinstance(v, PyObj) and isinstance(w, PyObj):
            return v.o == w.o
        if isinstance(v, Ref) and isinstance(w, Ref):
            if v == w and st is st2:
                return True
            return self.obj_eq(st.obj(v), w, st, st2)
        if isinstance(v, PyObj) and isinstance(w, Ref):
            v = self.lift(v.o, st)
            return self.eq(v, w, st, st2)
        if isinstance(w, PyObj) and isinstance(v, Ref):
            w = self.lift(w.o, st2)
            return self.eq(v, w, st, st2)
        plain = [is_str(x) or is_int(x) or is_bool(x) or isinstance(
            x, (tuple, PyObj, Ref)) for x in (v, w)]
        if all(plain):
            # values of different types
            return False
        if (isinstance(v, z3.ExprRef) and isinstance(w, z3.ExprRef)
                and v.sort().eq(w.sort())):
            return sm(v == w)
        raise Unsupported('comparison of %r and %r' % (v, w))

    def obj_eq(self, a, w, st, st2):
        b = st2.obj(w)
        if isinstance(a, DictObj) and isinstance(b, DictObj):
            if list(a.items) != list(b.items) and set(a.items) != set(
                    b.items):
                return False
            return And_(
                *[self.eq(a.items[k], b.items[k], st, st2) for k in a.items])
        if isinstance(a, MapObj) or isinstance(b, MapObj):
            a, b = self.as_map(a), self.as_map(b)
            if a is None or b is None:
                return False
            s = z3.Const('mk', Str)
            if z3.eq(a.val, b.val):
                return sm(a.has == b.has)
            # no pattern over a conditional array
            pat = {} if has_ite(a.val) else {'patterns': [a.val[s]]}
            return z3.And(
                a.has == b.has,
                z3.ForAll([s], z3.Implies(a.has[s], a.val[s] == b.val[s]),
                          **pat))
        if isinstance(a, ListObj) and isinstance(b, ListObj):
            if a.pre is None and b.pre is None:
                if len(a.items) != len(b.items):
                    return False
                return And_(*[
                    self.eq(x, y, st, st2) for x, y in zip(a.items, b.items)
                ])
            if a.pre is b.pre and len(a.items) == len(b.items):
                return And_(*[
                    self.eq(x, y, st, st2) for x, y in zip(a.items, b.items)
                ])
            return self.list_eq(a, b, st, st2)
        if isinstance(a, InstObj) and isinstance(b, InstObj):
            return a is b
        return False

    def list_eq(self, a, b, st, st2):
        if (not a.items and not b.items and a.pre and b.pre
                and a.pre.shape == 'str' and b.pre.shape == 'str'):
            k = z3.Int(fresh_name('q'))
            x, y = a.pre.get(k), b.pre.get(k)
            return And_(sm(iv(a.pre.n) == iv(b.pre.n)), z3.ForAll(
                [k], z3.Implies(z3.And(k >= 0, k < iv(a.pre.n)),
                                sterm(x) == sterm(y))))
        if b.pre is None:
            a, b, st, st2 = b, a, st2, st
        if (a.pre is None and b.pre is not None and not b.items
                and b.pre.shape == 'str'):
            return And_(sm(iv(b.pre.n) == len(a.items)),
                        *[self.eq(x, b.pre.get(k), st, st2)
                          for k, x in enumerate(a.items)])
        raise Unsupported('equality of abstract lists')

    def as_map(self, o):
        if isinstance(o, MapObj):
            return o
        if isinstance(o, DictObj):
            has = z3.K(Str, z3.BoolVal(False))
            val = z3.K(Str, z3.IntVal(0))
            for k, v in o.items.items():
                if not isinstance(k, str) or not is_int(v):
                    return None
                has = z3.Store(has, lit_term(k), z3.BoolVal(True))
                val = z3.Store(val, lit_term(k), iv(v))
            return MapObj(has, val)
        return None

    def toint(self, v):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def lift(self, o, st):
        """Concrete Python container -> heap object."""
        if isinstance(o, list):
            return st.alloc(ListObj([self.lift(x, st) for x in o]))
        if isinstance(o, dict):
            return st.alloc(
                DictObj({k: self.lift(x, st) for k, x in o.items()}))
        if isinstance(o, tuple):
            return tuple(self.lift(x, st) for x in o)
        return self.wrap(o)

    # ------------------------------------------------------- name lookup
    def lookup(self, name, st):
        if name in st.env:
            v = st.env[name]
            if v is MAYBE:
                raise Unsupported('value of %s after a loop' % name)
            if v is UNBOUND:
                return UNBOUND
            return v
        mod = self.mod_stack[-1]
        if name in mod.__dict__:
            return self.wrap(mod.__dict__[name])
        if hasattr(builtins, name):
            return PyObj(getattr(builtins, name))
        return UNBOUND

    # -------------------------------------------------------- expressions
    def ev(self, e, st):
        """[(state, value)]; exceptional paths go to self.sink."""
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, st)

    def ev_many(self, es, st):
        out = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in out:
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s):
                        o = s2.obj(v) if isinstance(v, Ref) else None
                        if isinstance(v, tuple):
                            nxt.append((s2, vs + list(v)))
                        elif isinstance(o, ListObj) and o.pre is None:
                            nxt.append((s2, vs + list(o.items)))
                        else:
                            raise Unsupported('starred')
                else:
                    for s2, v in self.ev(e, s):
                        nxt.append((s2, vs + [v]))
            out = nxt
        return out

    def ev_Constant(self, e, st):
        if isinstance(e.value, (int, str, bool)) or e.value is None:
            return [(st, e.value)]
        return [(st, PyObj(e.value))]

    def ev_Name(self, e, st):
        v = self.lookup(e.id, st)
        if v is UNBOUND:
            self.throw(st, 'UnboundLocalError', e.id)
            return []
        return [(st, v)]

    def ev_Tuple(self, e, st):
        return [(s, tuple(vs)) for s, vs in self.ev_many(e.elts, st)]

    def ev_List(self, e, st):
        out = []
        for s, vs in self.ev_many(e.elts, st):
            s = s.copy()
            out.append((s, s.alloc(ListObj(vs))))
        return out

    def ev_Set(self, e, st):
        return self.ev_Tuple(e, st)

    def ev_Dict(self, e, st):
        out = []
        if any(k is None for k in e.keys):
            raise Unsupported('dict unpacking')
        for s, ks in self.ev_many(e.keys, st):
            for s2, vs in self.ev_many(e.values, s):
                s2 = s2.copy()
                d = {}
                for k, v in zip(ks, vs):
                    if not isinstance(k, (str, int)):
                        raise Unsupported('symbolic dict key')
                    d[k] = v
                out.append((s2, s2.alloc(DictObj(d))))
        return out

    def ev_JoinedStr(self, e, st):
        parts, specs = [], {}
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                if isinstance(spec, ast.JoinedStr) and all(
                        isinstance(x, ast.Constant) for x in spec.values):
                    spec = ''.join(x.value for x in spec.values)
                if v.conversion != -1 or spec not in (None, '', 'x', 'd',
                                                      's'):
                    raise Unsupported('format spec')
                parts.append(v.value)
                specs[len(parts) - 1] = spec
        out = []
        for s, vs in self.ev_many(parts, st):
            out += self.formatted(
                [(v, specs.get(i)) for i, v in enumerate(vs)], s)
        return out

    def formatted(self, parts, st):
        """Concatenation of values in formats."""
        acc = [(st, [])]
        for v, spec in parts:
            if spec == 'x':
                if not is_int(v):
                    raise Unsupported('format spec')
                w = '%x' % v if isinstance(v, int) else SBase(fHex(iv(v)))
                acc = [(s, a + [w]) for s, a in acc]
                continue
            if spec == 'd' and not is_int(v) or spec == 's' and not is_str(v):
                raise Unsupported('format spec')
            acc = [(s3, a + [w]) for s2, a in acc
                   for s3, w in self.to_str(v, s2)]
        return [(s, scat(a)) for s, a in acc]

    def template(self, fmt, args, percent):
        """Parts of a template with the values put in."""
        if percent:
            pieces = re.split(r'(%[sdx%])', fmt)
            if any('%' in x for x in pieces[::2]):
                raise Unsupported('format')
            seq = []
            for x in pieces:
                if x == '%%':
                    seq.append(('%', None, None))
                elif len(x) == 2 and x[0] == '%':
                    spec = x[1] if x[1] != 's' else ''
                    seq.append(('', '', spec))
                else:
                    seq.append((x, None, None))
        else:
            seq = []
            for text, field, spec, conv in string.Formatter().parse(fmt):
                if conv is not None or (field is not None
                                        and not re.fullmatch(r'\d*', field)):
                    raise Unsupported('format')
                seq.append((text, field, spec))
        parts, k = [], 0
        for text, field, spec in seq:
            if text:
                parts.append((text, None))
            if field is None:
                continue
            i = int(field) if field else k
            k += 1
            if i >= len(args) or spec not in ('', 'x', 'd', 's'):
                raise Unsupported('format')
            parts.append((args[i], spec))
        if percent and k != len(args):
            raise Unsupported('format')
        return parts

    def to_str(self, v, st):
        if is_str(v):
            return [(st, v)]
        if isinstance(v, bool):
            return [(st, str(v))]
        if isinstance(v, int):
            return [(st, str(v))]
        if isinstance(v, z3.ArithRef):
            return [(st, SBase(fItoa(v)))]
        if v is None:
            return [(st, 'None')]
        if isinstance(v, Opt):
            return [x for s, w in self.unopt(st, v) for x in self.to_str(w, s)]
        raise Unsupported('str of %r' % (v, ))

    def ev_Lambda(self, e, st):
        return [(st, Lambda(e, dict(st.env), self.mod_stack[-1]))]

    def ev_IfExp(self, e, st):
        out = []
        for s, c in self.ev(e.test, st):
            t = self.truth(c, s)
            a, b = self.split(s, t)
            ra = self.ev(e.body, a) if a is not None else []
            rb = self.ev(e.orelse, b) if b is not None else []
            if (a is not None and b is not None and len(ra) == 1
                    and len(rb) == 1):
                m = self.merge2(s, t, ra[0], rb[0])
                if m is not None:
                    out.append(m)
                    continue
            out += ra + rb
        return out

    def merge2(self, s, cond, ra, rb):
        """Merge two expression outcomes over s under cond / not cond."""
        (sa, va), (sb, vb) = ra, rb
        n = len(s.pc)
        if sa.heap != s.heap or sb.heap != s.heap:
            return None
        if len(sa.pc) > n + 1 or len(sb.pc) > n + 1:
            return None
        if sa.env != s.env or sb.env != s.env:
            return None
        try:
            v = self.ite(sm(cond), va, vb, s)
        except Unsupported:
            return None
        r = s.copy()
        self.carry(r, sa, n, len(s.facts))
        self.carry(r, sb, n, len(s.facts))
        return r, v

    def ev_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        out = []
        work = [(st, None, 0)]
        for i, sub_e in enumerate(e.values):
            nxt = []
            for s, acc, _ in work:
                if i == 0:
                    for s2, v in self.ev(sub_e, s):
                        nxt.append((s2, v, 0))
                    continue
                t = self.truth(acc, s)
                go, stop = self.split(s, t if isand else Not_(t))
                if go is None:
                    out.append((stop, acc))
                    continue
                rs = self.ev(sub_e, go)
                if stop is None:
                    nxt += [(s2, v, 0) for s2, v in rs]
                    continue
                done = False
                if len(rs) == 1 and is_bool(self._b(acc)) and self.boolish(
                        rs[0][1]) and self.boolish(acc):
                    s2, v = rs[0]
                    if (s2.heap == s.heap and len(s2.pc) <= len(s.pc) + 1
                            and s2.env == s.env
                            ):
                        r = s.copy()
                        self.carry(r, s2, len(s.pc), len(s.facts))
                        tv = self.truth(v, s2)
                        w = And_(t, tv) if isand else Or_(t, tv)
                        nxt.append((r, w, 0))
                        done = True
                if not done:
                    out.append((stop, acc))
                    nxt += [(s2, v, 0) for s2, v in rs]
            work = nxt
        return out + [(s, v) for s, v, _ in work]

    def _b(self, v):
        return True

    def boolish(self, v):
        return is_bool(v)

    def ev_UnaryOp(self, e, st):
        out = []
        for s, v in self.ev(e.operand, st):
            if isinstance(e.op, ast.Not):
                out.append((s, Not_(self.truth(v, s))))
            elif isinstance(e.op, ast.USub):
                out.append((s, -v if isinstance(v, int) else sm(-v)))
            elif isinstance(e.op, ast.UAdd):
                out.append((s, v))
            else:
                raise Unsupported('unary')
        return out

    def ev_BinOp(self, e, st):
        out = []
        for s, (a, b) in [(s, tuple(v))
                          for s, v in self.ev_many([e.left, e.right], st)]:
            for s1, x in self.unopt(s, a):
                for s2, y in self.unopt(s1, b):
                    out += self.binop(type(e.op).__name__, x, y, s2)
        return out

    def binop(self, op, a, b, st):
        if a is None or b is None:
            self.throw(st, 'TypeError', op)
            return []
        if isinstance(a, Choice) or isinstance(b, Choice):
            ca = a.alts if isinstance(a, Choice) else [(True, a)]
            cb = b.alts if isinstance(b, Choice) else [(True, b)]
            res = None
            for c1, x in reversed(ca):
                for c2, y in reversed(cb):
                    r = self.binop(op, x, y, st)
                    if len(r) != 1:
                        raise Unsupported('choice op')
                    res = r[0][1] if res is None else self.ite(
                        And_(c1, c2), r[0][1], res, st)
            return [(st, res)]
        numeric = (is_int(a) or is_bool(a)) and (is_int(b) or is_bool(b))
        if numeric:
            if is_bool(a) and is_bool(b) and op in ('BitAnd', 'BitOr',
                                                    'BitXor'):
                f = {'BitAnd': And_, 'BitOr': Or_}.get(op)
                if f is None:
                    return [(st, sm(z3.Xor(bv(a), bv(b))))]
                return [(st, f(a, b))]
            x = int(a) if isinstance(a, bool) else a
            y = int(b) if isinstance(b, bool) else b
            x = self.toint(x) if isinstance(x, z3.BoolRef) else x
            y = self.toint(y) if isinstance(y, z3.BoolRef) else y
            if isinstance(x, int) and isinstance(y, int):
                import operator as o
                f = {
                    'Add': o.add, 'Sub': o.sub, 'Mult': o.mul,
                    'FloorDiv': o.floordiv, 'Mod': o.mod,
                    'LShift': o.lshift, 'RShift': o.rshift,
                    'BitAnd': o.and_, 'BitOr': o.or_, 'Pow': o.pow,
                    'Div': o.truediv, 'BitXor': o.xor
                }[op]
                if op in ('FloorDiv', 'Mod', 'Div') and y == 0:
                    self.throw(st, 'ZeroDivisionError')
                    return []
                return [(st, self.wrap(f(x, y)))]
            if op == 'Add':
                return [(st, add(x, y))]
            if op == 'Sub':
                return [(st, sub(x, y))]
            if op == 'Mult':
                return [(st, sm(iv(x) * iv(y)))]
            if op in ('Mod', 'FloorDiv') and isinstance(y, int) and y > 0:
                return [(st, sm(iv(x) % y if op == 'Mod' else iv(x) / y))]
            if op == 'LShift' and isinstance(y, int) and y >= 0:
                return [(st, sm(iv(x) * (2**y)))]
            if op == 'RShift' and isinstance(y, int) and y >= 0:
                return [(st, sm(iv(x) / (2**y)))]
            raise Unsupported('int op %s' % op)
        if op == 'Add' and is_str(a) and is_str(b):
            return [(st, scat([a, b]))]
        if op == 'Mult' and (is_str(a) and is_int(b)
                             or is_int(a) and is_str(b)):
            if is_int(a):
                a, b = b, a
            if isinstance(a, str) and isinstance(b, int):
                return [(st, a * b)]
            n = slen(a)
            if isinstance(n, int) and n == 1:
                return [(st, SRep(sat(a, 0), b))]
            raise Unsupported('string repetition')
        if op == 'Add' and isinstance(a, (Ref, PyObj)) and isinstance(
                b, (Ref, PyObj)):
            st = st.copy()
            x = self.aslist(a, st)
            y = self.aslist(b, st)
            if x.pre is None and y.pre is None:
                return [(st, st.alloc(ListObj(x.items + y.items)))]
            if y.pre is None:
                return [(st, st.alloc(ListObj(x.items + y.items, x.pre)))]
            raise Unsupported('list concat')
        if op == 'Add' and isinstance(a, tuple) and isinstance(b, tuple):
            return [(st, a + b)]
        if op == 'Mult' and isinstance(a, Ref) and isinstance(b, int):
            o = st.obj(a)
            if isinstance(o, ListObj) and o.pre is None:
                st = st.copy()
                return [(st, st.alloc(ListObj(o.items * b)))]
        if op == 'Mod' and isinstance(a, str):
            return self.formatted(
                self.template(a, b if isinstance(b, tuple) else (b, ), True),
                st)
        if op == 'BitOr' or op == 'Mod':
            raise Unsupported('op %s' % op)
        self.throw(st, 'TypeError', op)
        return []

    def aslist(self, v, st):
        if isinstance(v, PyObj) and isinstance(v.o, (list, tuple)):
            return ListObj([self.lift(x, st) for x in v.o])
        if isinstance(v, Ref) and isinstance(st.obj(v), ListObj):
            return st.obj(v)
        if isinstance(v, tuple):
            return ListObj(list(v))
        raise Unsupported('aslist %r' % (v, ))

    def ev_Compare(self, e, st):
        out = []
        for s, vs in self.ev_many([e.left] + e.comparators, st):
            work = [(s, True)]
            for i, op in enumerate(e.ops):
                nxt = []
                for s1, acc in work:
                    for s2, r in self.compare(
                            type(op).__name__, vs[i], vs[i + 1], s1):
                        nxt.append((s2, And_(acc, r)))
                work = nxt
            out += work
        return out

    def compare(self, op, a, b, st):
        if op in ('Eq', 'NotEq'):
            r = self.eq(a, b, st)
            return [(st, r if op == 'Eq' else Not_(r))]
        if op in ('Is', 'IsNot'):
            r = self.is_(a, b, st)
            return [(st, r if op == 'Is' else Not_(r))]
        if op in ('In', 'NotIn'):
            out = []
            for s, bb in self.unopt(st, b):
                for s2, r in self.contains(bb, a, s):
                    out.append((s2, r if op == 'In' else Not_(r)))
            return out
        out = []
        for s, x in self.unopt(st, a):
            for s2, y in self.unopt(s, b):
                if x is None or y is None:
                    self.throw(s2, 'TypeError', 'comparison with None')
                    continue
                if isinstance(x, Choice) or isinstance(y, Choice):
                    ca = x.alts if isinstance(x, Choice) else [(True, x)]
                    cb = y.alts if isinstance(y, Choice) else [(True, y)]
                    ors = []
                    for c1, u in ca:
                        for c2, w in cb:
                            r = self.compare(op, u, w, s2)
                            ors.append(And_(c1, c2, r[0][1]))
                    out.append((s2, Or_(*ors)))
                    continue
                if is_str(x) and is_str(y):
                    lx, ly = slen(x), slen(y)
                    if isinstance(x, str) and isinstance(y, str):
                        import operator as o
                        out.append((s2, {'Lt': o.lt, 'LtE': o.le,
                                         'Gt': o.gt, 'GtE': o.ge}[op](x, y)))
                        continue
                    if lx == 1 and ly == 1 and isinstance(
                            lx, int) and isinstance(ly, int):
                        x, y = sat(x, 0), sat(y, 0)
                    else:
                        raise Unsupported('string order')
                if not ((is_int(x) or is_bool(x)) and
                        (is_int(y) or is_bool(y))):
                    raise Unsupported('order of %r %r' % (x, y))
                x, y = self.toint(x), self.toint(y)
                r = {'Lt': lambda: x < y, 'LtE': lambda: x <= y,
                     'Gt': lambda: x > y, 'GtE': lambda: x >= y}[op]()
                out.append((s2, sm(r)))
        return out

    def is_(self, a, b, st):
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return True
            if isinstance(o, Opt):
                return o.isnone
            if isinstance(o, Choice):
                return Or_(*[And_(c, self.is_(x, None, st)) for c, x in o.alts])
            return False
        if is_bool(a) and is_bool(b):
            return self.eq(a, b, st)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        if isinstance(a, PyObj) and isinstance(b, PyObj):
            return a.o is b.o
        if isinstance(a, bool) != isinstance(b, bool):
            return False
        raise Unsupported('is %r %r' % (a, b))

    def contains(self, c, x, st):
        """[(state, x in c)]"""
        if isinstance(c, PyObj):
            if isinstance(c.o, (list, tuple, set, frozenset, dict)):
                items = list(c.o)
                return [(st, Or_(*[self.eq(x, self.lift(i, st), st) for i in items]))]
            if isinstance(c.o, range):
                return [(st, And_(sm(self.toint(x) >= c.o.start), sm(self.toint(x) < c.o.stop)))]
        if isinstance(c, tuple):
            return [(st, Or_(*[self.eq(x, i, st) for i in c]))]
        if isinstance(c, Range):
            return [(st, And_(sm(iv(x) >= iv(c.a)), sm(iv(x) < iv(c.b))))]
        if isinstance(c, Ref):
            o = st.obj(c)
            if isinstance(o, ListObj) and o.pre is None:
                return [(st, Or_(*[self.eq(x, i, st) for i in o.items]))]
            if isinstance(o, DictObj):
                if isinstance(x, (str, int)):
                    return [(st, x in o.items)]
                if is_int(x):
                    return [(st,
                             Or_(*[sm(x == k) for k in o.items
                                   if isinstance(k, int)]))]
                if is_str(x):
                    return [(st,
                             Or_(*[self.eq(x, k, st) for k in o.items
                                   if isinstance(k, str)]))]
            if isinstance(o, MapObj) and is_str(x):
                self.kept.append(x)
                return [(st, sm(o.has[sterm(x)]))]
        if is_str(c):
            if not is_str(x):
                self.throw(st, 'TypeError', 'in')
                return []
            if isinstance(c, str) and isinstance(x, str):
                return [(st, x in c)]
            n = slen(x)
            if isinstance(n, int) and n == 1:
                if isinstance(c, str):
                    code = iv(sat(x, 0))
                    return [(st, sm(CS(map(ord, c)).has(code)))]
                if isinstance(x, str):
                    # some character of c equals x
                    j = sspan(c, 0, CS([ord(x)], neg=True))
                    return [(st, sm(iv(j) < iv(slen(c))))]
                code = iv(sat(x, 0))
                t, a, b = window(c)
                k = z3.Int('k')
                return [(st,
                         z3.Not(z3.ForAll(
                             [k],
                             z3.Implies(
                                 z3.And(iv(a) <= k, k < iv(b)),
                                 A(t, k) != code), patterns=[A(named(t), k)])))]
            if isinstance(n, int) and n == 0:
                return [(st, True)]
            if isinstance(x, str):
                f = self.uf('contains!' + repr(x), [Str], B)
                return [(st, f(sterm(c)))]
        raise Unsupported('in %r' % (c, ))

    def uf(self, name, args, res):
        if name not in self.ufs:
            self.ufs[name] = z3.Function(name, *args, res)
        return self.ufs[name]

    # ---------------------------------------------------------- subscripts
    def ev_Subscript(self, e, st):
        out = []
        if isinstance(e.slice, ast.Slice):
            for s, base in self.ev(e.value, st):
                for s, base in self.unopt(s, base):
                    sl = e.slice
                    parts = [x if x is not None else ast.Constant(value=None)
                             for x in (sl.lower, sl.upper, sl.step)]
                    for s2, (a, b, c) in [(x, tuple(y)) for x, y in
                                          self.ev_many(parts, s)]:
                        out += self.do_slice(base, a, b, c, s2)
            return out
        for s, (base, idx) in [(x, tuple(y)) for x, y in self.ev_many(
                [e.value, e.slice], st)]:
            for s, base in self.unopt(s, base):
                for s, idx in self.unopt(s, idx):
                    out += self.getitem(base, idx, s)
        return out

    def norm_index(self, i, n, st, cls='IndexError', note=''):
        """[(state, index in 0..n-1)]"""
        if isinstance(i, int) and isinstance(n, int):
            if -n <= i < n:
                return [(st, i if i >= 0 else n + i)]
            self.throw(st, cls, note)
            return []
        if isinstance(i, int):
            if i < 0:
                s = self.need(st, sm(iv(n) >= -i), cls, note)
                return [(s, add(n, i))] if s is not None else []
            s = self.need(st, sm(iv(n) > i), cls, note)
            return [(s, i)] if s is not None else []
        # symbolic index: common case first
        inb = And_(sm(i >= 0), sm(i < iv(n)))
        ok, rest = self.split(st, inb, True)
        out = []
        if ok is not None:
            out.append((ok, i))
        if rest is not None:
            neg, bad = self.split(rest, And_(sm(i < 0), sm(i >= -iv(n))), True)
            if neg is not None:
                out.append((neg, add(i, n)))
            if bad is not None:
                self.throw(bad, cls, note)
        return out

    def getitem(self, base, idx, st):
        if base is None:
            self.throw(st, 'TypeError', 'None is not subscriptable')
            return []
        if isinstance(base, Choice):
            res = None
            alts = base.alts
            vals = []
            for c, b in alts:
                s = st.copy()
                r = self.getitem(b, idx, s)
                if len(r) != 1:
                    raise Unsupported('choice subscript')
                vals.append((c, r[0][1]))
            return [(st, self.choose(vals, st))]
        if is_str(base):
            if not is_int(idx):
                self.throw(st, 'TypeError', 'string index')
                return []
            out = []
            for s, i in self.norm_index(idx, slen(base), st, 'IndexError',
                                        'string index'):
                out.append((s, self.char(base, i)))
            return out
        if isinstance(base, tuple):
            if isinstance(idx, int):
                if -len(base) <= idx < len(base):
                    return [(st, base[idx])]
                self.throw(st, 'IndexError')
                return []
        if isinstance(base, PyObj):
            o = base.o
            if isinstance(o, dict) and isinstance(idx, (str, int)):
                if idx in o:
                    return [(st, self.wrap(o[idx]))]
                self.throw(st, 'KeyError', repr(idx))
                return []
            if isinstance(o, (list, tuple)) and isinstance(idx, int):
                if -len(o) <= idx < len(o):
                    return [(st, self.wrap(o[idx]))]
                self.throw(st, 'IndexError')
                return []
            if (isinstance(o, dict) and isinstance(idx, SBase)
                    and idx.t.get_id() in self.domain):
                alts = [(self.eq(idx, k, st), self.wrap(o[k]))
                        for k in self.domain[idx.t.get_id()] if k in o]
                s = st
                if len(alts) < len(self.domain[idx.t.get_id()]):
                    s = self.need(st, Or_(*[c for c, _ in alts]), 'KeyError',
                                  'symbolic key')
                return [(s, self.choose(alts, s))] if s is not None else []
            st = st.copy()
            return self.getitem(self.lift(o, st), idx, st)
        if isinstance(base, Ref):
            o = st.obj(base)
            if isinstance(o, ListObj):
                out = []
                for s, i in self.norm_index(idx, o.length(), st, 'IndexError',
                                            'list index'):
                    out += self.list_get(o, i, s)
                return out
            if isinstance(o, DictObj):
                if isinstance(idx, (str, int, tuple)):
                    if idx in o.items:
                        return [(st, o.items[idx])]
                    self.throw(st, 'KeyError', repr(idx))
                    return []
                keys = [k for k in o.items if is_int(k) == is_int(idx)]
                conds = [self.eq(idx, k, st) for k in keys]
                s = self.need(st, Or_(*conds), 'KeyError', 'symbolic key')
                if s is None:
                    return []
                alts = [(c, o.items[k]) for c, k in zip(conds, keys)
                        if c is not False]
                return [(s, self.choose(alts, s))]
            if isinstance(o, SeqDict) and is_int(idx):
                s = self.need(st, And_(sm(iv(idx) >= 1),
                                       sm(iv(idx) <= iv(o.n))), 'KeyError')
                return [] if s is None else [o.get(self, idx, s)]
            if isinstance(o, MapObj):
                t = sterm(idx)
                s = self.need(st, sm(o.has[t]), 'KeyError', 'map key')
                if s is None:
                    return []
                return [(s, sm(o.val[t]))]
        raise Unsupported('subscript of %r' % (base, ))

    def choose(self, alts, st):
        """Merge guarded alternatives into one value (last is default)."""
        if all(isinstance(v, Ref) for _, v in alts):
            if len(alts) == 1:
                return alts[0][1]
            return Choice(alts)
        if all(isinstance(v, PyObj) for _, v in alts):
            # module constants: equal values are the same value
            if all(v.o == alts[0][1].o for _, v in alts):
                return alts[0][1]
            return Choice(alts)
        if all(type(v) is type(alts[0][1]) and isinstance(v, (int, str, bool))
               and v == alts[0][1] for _, v in alts):
            return alts[0][1]
        res = alts[-1][1]
        for c, v in reversed(alts[:-1]):
            res = self.ite(c, v, res, st)
        return res

    def list_get(self, o, i, st):
        if o.pre is None:
            if isinstance(i, int):
                return [(st, o.items[i])]
            out = []
            alts = [(sm(i == k), v) for k, v in enumerate(o.items)]
            try:
                return [(st, self.choose(alts, st))]
            except Unsupported:
                pass
            for k, v in enumerate(o.items):
                a, st2 = self.split(st, sm(i == k))
                if a is not None:
                    out.append((a, v))
                if st2 is None:
                    break
                st = st2
            return out
        # abstract prefix
        for k in range(len(o.items)):
            d = sub(i, add(o.pre.n, k))
            if isinstance(d, int) and d == 0:
                return [(st, o.items[k])]
        out = []
        a, b = self.split(st, sm(iv(i) < iv(o.pre.n)))
        if a is not None:
            a = a.copy()
            out.append((a, self.materialize(o.pre.get(i), a)))
        if b is not None:
            for k in range(len(o.items)):
                x, b2 = self.split(b, sm(iv(i) == iv(add(o.pre.n, k))))
                if x is not None:
                    out.append((x, o.items[k]))
                if b2 is None:
                    break
                b = b2
        return out

    def materialize(self, v, st):
        """Element of an abstract sequence -> value in st."""
        if isinstance(v, dict):
            return st.alloc(
                DictObj({k: self.materialize(x, st) for k, x in v.items()}))
        return v

    def char(self, s, i):
        if isinstance(s, str) and isinstance(i, int):
            return s[i]
        c = sat(s, i)
        if isinstance(c, int):
            return chr(c)
        return SRep(c, 1)

    def do_slice(self, base, a, b, c, st):
        if base is None:
            self.throw(st, 'TypeError', 'None slice')
            return []
        if isinstance(base, PyObj) and isinstance(base.o, (list, tuple)):
            if all(x is None or isinstance(x, int) for x in (a, b, c)):
                st = st.copy()
                return [(st, self.lift(base.o[a:b:c], st))]
        if isinstance(base, Ref) and isinstance(st.obj(base), ListObj):
            o = st.obj(base)
            if o.pre is None and all(x is None or isinstance(x, int)
                                     for x in (a, b, c)):
                st = st.copy()
                return [(st, st.alloc(ListObj(o.items[a:b:c])))]
            raise Unsupported('list slice')
        if isinstance(base, tuple) and all(
                x is None or isinstance(x, int) for x in (a, b, c)):
            return [(st, base[a:b:c])]
        if not is_str(base):
            raise Unsupported('slice of %r' % (base, ))
        if c == -1 and a is None and b is None:
            return [(st, base[::-1] if isinstance(base, str) else SRev(base))]
        if c is not None and c != 1:
            raise Unsupported('slice step')
        n = slen(base)
        if isinstance(base, str) and all(x is None or isinstance(x, int)
                                         for x in (a, b)):
            return [(st, base[a:b])]

        def clamp(x, dflt):
            if x is None:
                return dflt
            if isinstance(x, int) and x == 0:
                return 0
            if isinstance(x, int) and x < 0:
                y = add(n, x)
                if self.proves(st, sm(iv(y) >= 0), 300):
                    return y
                return sm(z3.If(iv(y) < 0, 0, iv(y)))
            if not isinstance(x, int):
                d = sub(n, x)
                if isinstance(d, int) and d == 0:
                    return n
            if self.proves(st, sm(z3.And(iv(x) >= 0, iv(x) <= iv(n))), 300):
                return x
            if self.proves(st, sm(iv(x) >= 0), 300):
                return sm(z3.If(iv(x) > iv(n), iv(n), iv(x)))
            y = z3.If(iv(x) < 0, iv(x) + iv(n), iv(x))
            return sm(z3.If(y < 0, 0, z3.If(y > iv(n), iv(n), y)))

        lo, hi = clamp(a, 0), clamp(b, n)
        if isinstance(lo, int) and lo == 0:
            pass
        elif not self.proves(st, sm(iv(lo) <= iv(hi)), 300):
            hi = sm(z3.If(iv(hi) < iv(lo), iv(lo), iv(hi)))
        return [(st, mkslice(base, lo, hi))]

    # --------------------------------------------------------- attributes
    def ev_Attribute(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            for s, v in self.unopt(s, v):
                out += self.getattr(v, e.attr, s)
        return out

    def getattr(self, v, name, st):
        if v is None:
            self.throw(st, 'AttributeError', name)
            return []
        if isinstance(v, PyObj) and v.o is v:
            return [(st, Bound(v, name))]
        if isinstance(v, PyObj) and v.o is sys and name == 'stdin':
            # allocated before the function runs
            if self.stdin is None:
                raise Unsupported('sys.stdin')
            return [(st, self.stdin)]
        if isinstance(v, PyObj):
            if isinstance(v.o, (pytypes.ModuleType, type)) or not isinstance(
                    v.o, (list, dict, set, tuple, range)):
                if hasattr(v.o, name):
                    return [(st, self.wrap(getattr(v.o, name)))]
                self.throw(st, 'AttributeError', name)
                return []
            return [(st, Bound(v, name))]
        if isinstance(v, Ref):
            o = st.obj(v)
            if isinstance(o, InstObj):
                if name in o.fields:
                    return [(st, o.fields[name])]
                if isinstance(o.cls, type) and hasattr(o.cls, name):
                    return [(st, Bound(v, name))]
                h = self.cfg.get('inst_attr')
                if h is not None:
                    r = h(self, v, o, name, st)
                    if r is not None:
                        return r
                self.throw(st, 'AttributeError', name)
                return []
            return [(st, Bound(v, name))]
        return [(st, Bound(v, name))]

    # -------------------------------------------------------------- calls
    def ev_Call(self, e, st):
        out = []
        # quantifier forms: all(<genexp>), any(<genexp>)
        if (isinstance(e.func, ast.Name) and e.func.id in ('all', 'any')
                and len(e.args) == 1
                and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp))
                and e.func.id not in st.env):
            return self.quantified(e.func.id, e.args[0], st)
        if (isinstance(e.func, ast.Name) and e.func.id == 'sum'
                and len(e.args) == 1
                and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp))):
            raise Unsupported('sum')
        for s, f in self.ev(e.func, st):
            if any(k.arg is None for k in e.keywords):
                raise Unsupported('**kwargs')
            args = []
            for a in e.args:
                if isinstance(a, ast.GeneratorExp):
                    a = ast.copy_location(
                        ast.ListComp(elt=a.elt, generators=a.generators), a)
                args.append(a)
            for s2, vs in self.ev_many(args, s):
                for s3, ks in self.ev_many([k.value for k in e.keywords], s2):
                    kw = {k.arg: v for k, v in zip(e.keywords, ks)}
                    out += self.call(f, vs, kw, s3)
        return out

    def quantified(self, which, g, st):
        if len(g.generators) != 1:
            raise Unsupported('nested generator')
        gen = g.generators[0]
        out = []
        for s, it in self.ev(gen.iter, st):
            for s, it in self.unopt(s, it):
                seq = self.iter_view(it, s)
                n, get = seq
                if isinstance(n, int) and n <= 24:
                    # finite: unroll
                    acc = [(s, True if which == 'all' else False)]
                    for k in range(n):
                        nxt = []
                        for s1, v in acc:
                            s2 = s1.copy()
                            saved = dict(s2.env)
                            self.bind(gen.target, self.materialize(get(k), s2),
                                      s2)
                            conds = gen.ifs + [g.elt]
                            for s3, vs in self.ev_many(conds, s2):
                                ts = [self.truth(x, s3) for x in vs]
                                if which == 'all':
                                    t = Or_(Not_(And_(*ts[:-1])), ts[-1])
                                    r = And_(v, t)
                                else:
                                    r = Or_(v, And_(*ts))
                                s3.env = dict(saved)
                                nxt.append((s3, r))
                        acc = nxt
                    out += acc
                    continue
                k = z3.Int(fresh_name('q'))
                body = self.under_binder(gen, g.elt, get, k, n, s, which)
                body = sm(body)
                rng = z3.And(k >= 0, k < iv(n))
                if which == 'all':
                    f = self.mkforall(k, rng, body)
                else:
                    f = z3.Not(self.mkforall(k, rng, Not_(body)))
                out.append((s, f))
        return out

    def under_binder(self, gen, elt, get, k, n, s, which):
        self.binders += 1
        sink, self.sink = self.sink, []
        try:
            s2 = s.copy()
            s2.pc += [k >= 0, k < iv(n)]
            self.bind(gen.target, self.materialize(get(k), s2), s2)
            base = len(s2.pc)
            parts = []
            for s3, vs in self.ev_many(list(gen.ifs) + [elt], s2):
                ts = [self.truth(x, s3) for x in vs]
                t = Or_(Not_(And_(*ts[:-1])),
                        ts[-1]) if which == 'all' else And_(*ts)
                extra = s3.pc[base:]
                parts.append((And_(*extra) if extra else True, t))
            if self.sink:
                raise Unsupported('exception under a quantifier')
            return And_(*[Or_(Not_(c), t) for c, t in parts])
        finally:
            self.sink = sink
            self.binders -= 1

    def mkforall(self, k, rng, body):
        """forall k. rng -> body, re-indexed so that A(base, k') is a
        trigger."""
        body = bv(body)
        if z3.is_true(body):
            return True
        cand = []

        def visit(t):
            if z3.is_app(t):
                if t.decl().eq(A) and occurs(t.arg(1), k) and not occurs(
                        t.arg(0), k):
                    cand.append(t)
                elif t.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(
                        z3.eq(c, k) for c in t.children()) and t.num_args():
                    cand.append(t)
                for c in t.children():
                    visit(c)
        visit(body)
        fs = []
        seen = set()
        for t in cand:
            if t.decl().eq(A):
                e = t.arg(1)
                d = sub(e, k)
                if not (isinstance(d, z3.ExprRef) and occurs(d, k)):
                    # e = k + d
                    key = ('+', t.arg(0).get_id(), str(d))
                    inv_ = lambda x: sub(x, d)
                else:
                    d = add(e, k)
                    if isinstance(d, z3.ExprRef) and occurs(d, k):
                        continue
                    key = ('-', t.arg(0).get_id(), str(d))
                    inv_ = lambda x: sub(d, x)
                if key in seen:
                    continue
                seen.add(key)
                x = z3.Int('x.bound')
                f = z3.simplify(
                    z3.substitute(z3.Implies(rng, body), (k, iv(inv_(x)))))
                if z3.is_true(f):
                    return True
                fs.append(z3.ForAll([x], f, patterns=[A(named(t.arg(0)), x)]))
            else:
                key = ('f', t.decl().name(), t.get_id())
                if key in seen:
                    continue
                seen.add(key)
                if has_ite(t):
                    continue
                fs.append(
                    z3.ForAll([k], z3.Implies(rng, body), patterns=[t]))
        if not fs:
            return z3.ForAll([k], z3.Implies(rng, body))
        return fs[0] if len(fs) == 1 else z3.And(fs)

    def iter_view(self, it, st):
        """(n, get) of an iterable value."""
        if isinstance(it, Range):
            n = sub(it.b, it.a)
            if isinstance(n, int):
                n = max(n, 0)
            else:
                n = sm(z3.If(n > 0, n, 0)) if not self.proves(
                    st, n >= 0, 300) else n
            return n, (lambda k: add(it.a, k))
        if is_str(it):
            return slen(it), (lambda k: self.char(it, k))
        if isinstance(it, tuple):
            return len(it), (lambda k: it[k])
        if isinstance(it, PyObj):
            o = it.o
            if isinstance(o, (list, tuple, range, dict, set, frozenset)):
                items = list(o)
                return len(items), (lambda k: self.wrap(items[k]))
        if isinstance(it, Ref):
            o = st.obj(it)
            if isinstance(o, ListObj):
                if o.pre is None:
                    return len(o.items), (lambda k: o.items[k])
                if not o.items:
                    return o.pre.n, o.pre.get
                if self.proves(st, iv(o.pre.n) == 0, 300):
                    items = list(o.items)
                    return len(items), (lambda k: items[k])
            if isinstance(o, DictObj):
                ks = list(o.items)
                return len(ks), (lambda k: ks[k])
        if isinstance(it, Bound) and it.name == '__enum__':
            n, get = self.iter_view(it.recv, st)
            return n, (lambda k: (k, get(k)))
        if isinstance(it, Bound) and it.name == '__zip__':
            vs = [self.iter_view(x, st) for x in it.recv]
            n = vs[0][0]
            for m, _ in vs[1:]:
                if isinstance(n, int) and isinstance(m, int):
                    n = min(n, m)
                else:
                    n = sm(z3.If(iv(n) <= iv(m), iv(n), iv(m)))
            return n, (lambda k: tuple(g(k) for _, g in vs))
        raise Unsupported('iteration over %r' % (it, ))

    def call(self, f, args, kw, st):
        if isinstance(f, Lambda):
            return self.call_lambda(f, args, kw, st)
        if isinstance(f, Bound):
            return self.method(f.recv, f.name, args, kw, st)
        if isinstance(f, PyObj):
            return self.call_obj(f.o, args, kw, st)
        if isinstance(f, Choice):
            raise Unsupported('call of choice')
        if isinstance(f, Ref):
            o = st.obj(f)
            if isinstance(o, InstObj) and '__call__' in o.fields:
                return self.call(o.fields['__call__'], args, kw, st)
        raise Unsupported('call of %r' % (f, ))

    def call_lambda(self, f, args, kw, st):
        if isinstance(f.node, ast.FunctionDef):
            return self.run_function(f.node, f.mod, f.node.name, args, kw, st,
                                     closure=f)
        names = [a.arg for a in f.node.args.args]
        saved = st.env
        s = st.copy()
        s.env = dict(f.env)
        s.env.update(saved if f.env is None else {})
        for n, v in zip(names, args):
            s.env[n] = v
        self.mod_stack.append(f.mod)
        try:
            out = []
            for s2, v in self.ev(f.node.body, s):
                s2.env = dict(saved)
                out.append((s2, v))
            return out
        finally:
            self.mod_stack.pop()

    def call_obj(self, o, args, kw, st):
        from . import builtins_sym as bs
        h = bs.HANDLERS.get(o) if _hashable(o) else None
        if h is not None:
            return h(self, args, kw, st)
        if isinstance(o, type):
            if issubclass(o, BaseException):
                return [(st, PyObj(o))]
            return self.instantiate(o, args, kw, st)
        if isinstance(o, pytypes.MethodType):
            # bound method of a concrete object
            if o.__func__ in bs.HANDLERS:
                return bs.HANDLERS[o.__func__](self, [PyObj(o.__self__)] + args, kw, st)
            raise Unsupported('method %r' % o)
        if isinstance(o, pytypes.FunctionType):
            name = o.__module__ + '.' + o.__qualname__
            tag = getattr(o, '_pyvc', None)
            if tag is not None:
                return self.call_spec(o, tag, args, kw, st)
            c = self.contracts.get(name)
            if c is not None and not (self.current is c
                                      and not self.fn_stack):
                return self.apply_contract(c, o, args, kw, st)
            mod = sys.modules[o.__module__]
            node = find_func(mod, o.__qualname__)
            if node is None:
                raise Unsupported('no source for %s' % name)
            if not (name.startswith('md_toc.') or
                    name.startswith('contracts.')):
                raise Unsupported('external function %s' % name)
            if name.startswith('md_toc.'):
                self.inlined.add(name)
            return self.run_function(node, mod, name, args, kw, st)
        raise Unsupported('call of %r' % (o, ))

    def instantiate(self, cls, args, kw, st):
        init = cls.__dict__.get('__init__')
        st = st.copy()
        r = st.alloc(InstObj(cls, {}))
        if init is None:
            if args or kw:
                raise Unsupported('constructor of %s' % cls)
            return [(st, r)]
        mod = sys.modules[cls.__module__]
        node = find_func(mod, cls.__qualname__ + '.__init__')
        fields = getattr(cls, '__dataclass_fields__', None)
        if node is None and fields and not hasattr(cls, '__post_init__'):
            if len(args) > len(fields) or any(
                    f.default is dataclasses.MISSING or not f.init
                    for f in fields.values()) or set(kw) - set(fields):
                raise Unsupported('constructor of %s' % cls)
            o = st.mut(r)
            for k, f in fields.items():
                o.fields[k] = self.wrap(f.default)
            o.fields.update(zip(fields, args))
            o.fields.update(kw)
            return [(st, r)]
        if node is None:
            raise Unsupported('constructor of %s' % cls)
        out = []
        for s, _ in self.run_function(node, mod,
                                      cls.__module__ + '.' + cls.__qualname__ + '.__init__',
                                      [r] + args, kw, st):
            out.append((s, r))
        return out

    def bind_args(self, node, mod, args, kw, st, closure=None):
        """Environment of a call; defaults are evaluated from the real
        function object when available."""
        a = node.args
        if a.vararg or a.kwarg or a.kwonlyargs and False:
            raise Unsupported('varargs')
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(names):
            raise Unsupported('too many arguments')
        for n, v in zip(names, args):
            env[n] = v
        for k, v in kw.items():
            env[k] = v
        dflts = a.defaults
        for n, d in zip(names[len(names) - len(dflts):], dflts):
            if n not in env:
                env[n] = self.const_default(d, mod, st)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env:
                env[x.arg] = self.const_default(d, mod, st)
        for n in names:
            if n not in env:
                raise Unsupported('missing argument %s' % n)
        return env

    def const_default(self, d, mod, st):
        if isinstance(d, ast.Constant):
            return d.value
        s = st.copy()
        s.env = {}
        self.mod_stack.append(mod)
        try:
            r = self.ev(d, s)
        finally:
            self.mod_stack.pop()
        if len(r) != 1:
            raise Unsupported('default value')
        s2, v = r[0]
        st.heap = s2.heap
        return v

    def run_function(self, node, mod, name, args, kw, st, closure=None):
        """Inline execution of a function body."""
        if len(self.fn_stack) > 25 or self.fn_stack.count(name) > 0:
            raise Unsupported('recursion in %s' % name)
        self.tick()
        st = st.copy()
        env = self.bind_args(node, mod, args, kw, st)
        saved = st.env
        st.env = env
        if closure is not None:
            st.env = dict(closure.env)
            st.env.update(env)
        self.mod_stack.append(mod)
        self.fn_stack.append(name)
        self.node_stack.append(node)
        try:
            outs = self.exec_block(node.body, st)
        finally:
            self.mod_stack.pop()
            self.fn_stack.pop()
            self.node_stack.pop()
        res = []
        for kind, s, v in outs:
            if kind == 'raise':
                s.env = dict(saved)
                self.sink.append((s, v))
            elif kind in ('next', 'return'):
                s.env = dict(saved)
                res.append((s, v if kind == 'return' else None))
            else:
                raise Unsupported('stray %s' % kind)
        if self.pure or name.startswith('contracts.'):
            res = self.merge_results(st, saved, res)
        return res

    def merge_results(self, st, saved, res):
        """Merge the outcomes of a pure call into one guarded value."""
        if len(res) < 2:
            return res
        n = len(st.pc)
        for s, v in res:
            if s.heap != st.heap:
                return res
            if isinstance(v, Ref):
                return res
        val = None
        conds = []
        try:
            for s, v in reversed(res):
                c = And_(*s.pc[n:]) if len(s.pc) > n else True
                conds.append(c)
                val = v if val is None and s is res[-1][0] else self.ite(
                    c, v, val, st)
        except Unsupported:
            return res
        r = st.copy()
        r.env = dict(saved)
        for s, v in reversed(res):
            self.carry(r, s, n, len(st.facts))
        if self.sink_grew(st):
            r.pc.append(bv(Or_(*conds)))
        return [(r, val)]

    def sink_grew(self, st):
        return True

    # -------------------------------------------------------- spec functions
    def call_spec(self, o, tag, args, kw, st):
        kind, ret, static = tag
        mod = sys.modules[o.__module__]
        node = find_func(mod, o.__qualname__)
        st = st.copy()
        env = self.bind_args(node, mod, args, kw, st)
        if all(isinstance(v, (int, str, bool)) or v is None
               for v in env.values()) and kind != 'ghost':
            return [(st, self.wrap(o(**env)))]
        name = o.__module__ + '.' + o.__name__
        zargs, sorts, sfx = [], [], []
        for k in env:
            v = env[k]
            if k in static or v is None:
                if isinstance(v, (bool, int, str)) or v is None:
                    sfx.append('%s=%r' % (k, v))
                    continue
                if isinstance(v, PyObj):
                    sfx.append('%s=%r' % (k, v.o))
                    continue
            if isinstance(v, Opt):
                zargs += [bv(v.isnone), sterm(v.val) if is_str(v.val) else iv(v.val)]
                sorts += [B, Str if is_str(v.val) else I]
                continue
            if is_str(v):
                zargs.append(sterm(v))
                sorts.append(Str)
            elif is_bool(v):
                zargs.append(bv(v))
                sorts.append(B)
            elif is_int(v):
                zargs.append(iv(v))
                sorts.append(I)
            elif isinstance(v, Ref) and isinstance(st.obj(v), (MapObj, DictObj)) and self.as_map(st.obj(v)):
                m = self.as_map(st.obj(v))
                zargs += [m.has, m.val]
                sorts += [m.has.sort(), m.val.sort()]
            elif isinstance(v, z3.ExprRef):
                zargs.append(v)
                sorts.append(v.sort())
            elif isinstance(v, Ref) and self.seq_term(
                    st.obj(v), st) is not None:
                zargs.append(self.seq_term(st.obj(v), st))
                sorts.append(zargs[-1].sort())
            else:
                raise Unsupported('argument %s of %s: %r' % (k, name, v))
        fname = name + ('[' + ','.join(sfx) + ']' if sfx else '')
        val = self.uf_value(fname, sorts, zargs, ret, st)
        if self.binders == 0:
            if getattr(o, '_sticky', None):
                self.sticky(o, env, fname, zargs, val, st)
            self.maybe_reveal(o, kind, name, fname, zargs, node, mod, env, val,
                              st)
        return [(st, val)]

    def sticky(self, o, env, fname, zargs, val, st):
        """Instances of the lemma f(k) != 0 and k <= m -> f(m) == f(k)."""
        if self.cfg.get('no_sticky'):
            return
        self.sticky_used.setdefault(fname, (o, dict(env), dict(st.heap)))
        k = iv(env[o._sticky])
        if not any(z3.eq(k, z) for z in zargs):
            return
        key = (fname, tuple(z.get_id() for z in zargs if not z3.eq(z, k)))
        terms = dict(st.ghost.get(('sticky', key)) or {})
        if val.get_id() in terms:
            return
        for k2, v2 in terms.values():
            st.facts += self.universal([
                z3.Implies(z3.And(v2 != 0, k2 <= k), val == v2),
                z3.Implies(z3.And(val != 0, k <= k2), val == v2)])
        terms[val.get_id()] = (k, val)
        st.ghost[('sticky', key)] = terms
        self.kept.append((zargs, val))

    def seq_term(self, o, st):
        """The term of a list of texts that is a parameter, a result, or
        given by its elements."""
        if not isinstance(o, ListObj):
            return None
        if o.pre is not None and not o.items:
            return getattr(o.pre, 'term', None)
        if o.pre is not None and getattr(
                o.pre, 'term', None) is not None and all(
                    is_str(x) for x in o.items):
            zs = [sterm(x) for x in o.items]
            q, n = o.pre.term, o.pre.n
            t = self.uf('append%d' % len(zs), [StrSeq] + [Str] * len(zs),
                        StrSeq)(q, *zs)
            k = z3.Int('k')
            st.facts += self.universal([
                fSeqLen(t) == n + len(zs), z3.ForAll(
                    [k], z3.Implies(z3.And(k >= 0, k < n),
                                    fSeqAt(t, k) == fSeqAt(q, k)),
                    patterns=[fSeqAt(t, k)])])
            st.facts += self.universal(
                [fSeqAt(t, n + i) == z for i, z in enumerate(zs)])
            return t
        if o.pre is None and all(is_str(x) for x in o.items):
            zs = [sterm(x) for x in o.items]
            t = self.uf('seq%d' % len(zs), [Str] * len(zs), StrSeq)(*zs)
            st.facts += self.universal(
                [fSeqLen(t) == len(zs)] + [
                    fSeqAt(t, i) == z for i, z in enumerate(zs)])
            return t
        return None

    def text_seq(self, q, st):
        """The list of a term."""
        seq = AbsSeq(fSeqLen(q), lambda k: SBase(fSeqAt(q, iv(k))),
                     shape='str')
        seq.term = q
        st.facts += self.universal([fSeqLen(q) >= 0])
        return st.alloc(ListObj([], seq))

    def uf_value(self, fname, sorts, zargs, ret, st=None):
        if ret == 'int':
            return self.uf(fname, sorts, I)(*zargs)
        if ret == 'bool':
            return self.uf(fname, sorts, B)(*zargs)
        if ret == 'str':
            return SBase(self.uf(fname, sorts, Str)(*zargs))
        if ret == 'optstr':
            return Opt(
                self.uf(fname + '.isnone', sorts, B)(*zargs),
                SBase(self.uf(fname + '.val', sorts, Str)(*zargs)))
        if ret == 'optint':
            return Opt(
                self.uf(fname + '.isnone', sorts, B)(*zargs),
                self.uf(fname + '.val', sorts, I)(*zargs))
        if ret == 'strs':
            return self.text_seq(self.uf(fname, sorts, StrSeq)(*zargs), st)
        if ret == 'world':
            return self.uf(fname, sorts, World)(*zargs)
        if ret == 'map':
            return st.alloc(MapObj(
                self.uf(fname + '.has', sorts, z3.ArraySort(Str, B))(*zargs),
                self.uf(fname + '.val', sorts, z3.ArraySort(Str, I))(*zargs)))
        raise Unsupported(ret)

    def maybe_reveal(self, o, kind, name, fname, zargs, node, mod, env, val,
                     st):
        reveal = getattr(self.current, 'reveal', ()) if self.current else ()
        if kind == 'opaque' and o.__name__ not in reveal:
            return
        if kind == 'rec' and self.reveal_depth >= getattr(
                self.current, 'unfold', 1):
            return
        if kind == 'opaque' and self.reveal_depth >= 6:
            return
        key = ('reveal', fname, tuple(a.get_id() for a in zargs))
        if any(st.ghost.get(key + (d, ))
               for d in range(self.reveal_depth + 1)):
            return
        st.ghost[key + (self.reveal_depth, )] = True
        self.kept.append(zargs)
        self.reveal_depth += 1 if kind == 'rec' else 0
        sink, self.sink = self.sink, []
        self.pure += 1
        try:
            s0 = st.copy()
            n = len(s0.pc)
            nf = len(s0.facts)
            outs = self.run_function(node, mod, name + '@reveal%d' % len(self.fn_stack), list(env.values()), {}, s0)
            for s, v in outs:
                c = And_(*s.pc[n:]) if len(s.pc) > n else True
                self.carry(st, s, n, nf)
                if isinstance(val, Ref) and isinstance(st.obj(val), MapObj):
                    m1, m2 = st.obj(val), self.as_map(s.obj(v))
                    f = z3.And(m1.has == m2.has, m1.val == m2.val)
                else:
                    f = self.eq(val, v, st, s)
                f = Or_(Not_(c), f)
                if f is not True:
                    st.facts.append(bv(f))
            for s, x in self.sink:
                self.carry(st, s, n, nf)
        finally:
            self.sink = sink
            self.pure -= 1
            self.reveal_depth -= 1 if kind == 'rec' else 0

    def formula(self, f, args, st, kw=None):
        """Boolean formula of a specification predicate in st (facts are
        added to st)."""
        sink, self.sink = self.sink, []
        self.pure += 1
        try:
            s0 = st.copy()
            n, nf = len(s0.pc), len(s0.facts)
            outs = self.call(f if isinstance(f, (Lambda, PyObj)) else PyObj(f),
                             args, kw or {}, s0)
            parts = []
            for s, v in outs:
                c = And_(*s.pc[n:]) if len(s.pc) > n else True
                self.carry(st, s, n, nf)
                parts.append(Or_(Not_(c), self.truth(v, s)))
            for s, x in self.sink:
                c = And_(*s.pc[n:]) if len(s.pc) > n else True
                self.carry(st, s, n, nf)
                parts.append(Not_(c))
            return And_(*parts)
        finally:
            self.sink = sink
            self.pure -= 1

    def carry(self, st, s, npc, nfacts):
        """Add to st the later facts of s, under the later conditions of s."""
        c = And_(*s.pc[npc:])
        have = {f.get_id() for f in st.facts[nfacts:]}
        for f in s.facts[nfacts:]:
            if f.get_id() in have:
                continue
            have.add(f.get_id())
            if c is not True and f.get_id() not in self.valid:
                f = z3.Implies(bv(c), f)
            st.facts.append(f)
        for k, v in s.ghost.items():
            if k[0] == 'sticky':
                st.ghost[k] = {**st.ghost.get(k, {}), **v}
            elif k[0] == 'line' or c is True:
                st.ghost[k] = v

    def universal(self, facts):
        """Facts that hold under any condition."""
        for f in facts:
            self.valid[f.get_id()] = f
        return facts

    # --------------------------------------------------------- contracts
    def apply_contract(self, c, o, args, kw, st):
        mod = sys.modules[o.__module__]
        node = find_func(mod, o.__qualname__)
        if node is None:
            raise Unsupported('no source for %s' % c.target)
        st = st.copy()
        if node is not None and c.in_repo:
            env = self.bind_args(node, mod, args, kw, st)
        else:
            env = self.bind_real(o, args, kw)
        self.applied.add(c.target)
        return c.apply(self, env, st)

    def bind_real(self, o, args, kw):
        sig = inspect.signature(o)
        ba = sig.bind(*args, **kw)
        ba.apply_defaults()
        return {k: (v if isinstance(v, (Ref, SStr, z3.ExprRef, Opt, PyObj, tuple)) or v is None or isinstance(v, (int, str, bool)) else PyObj(v))
                for k, v in ba.arguments.items()}

    # ---------------------------------------------------------- methods
    def method(self, recv, name, args, kw, st):
        from . import builtins_sym as bs
        out = []
        if isinstance(recv, Choice):
            raise Unsupported('method on choice')
        if is_str(recv):
            return bs.str_method(self, recv, name, args, kw, st)
        if isinstance(recv, Ref):
            o = st.obj(recv)
            if isinstance(o, InstObj):
                cls = o.cls
                fn = getattr(cls, name)
                return self.call_obj(fn, [recv] + args, kw, st)
            return bs.obj_method(self, recv, o, name, args, kw, st)
        if isinstance(recv, PyObj):
            return bs.pyobj_method(self, recv, name, args, kw, st)
        raise Unsupported('method %s of %r' % (name, recv))

    # -------------------------------------------------- comprehensions
    def ev_ListComp(self, e, st):
        tmp = fresh_name('__comp')
        body = [
            ast.Expr(value=ast.Call(func=ast.Attribute(
                value=ast.Name(id=tmp, ctx=ast.Load()),
                attr='append', ctx=ast.Load()), args=[e.elt], keywords=[]))
        ]
        return self.comp(e, tmp, ast.List(elts=[], ctx=ast.Load()), body, st)

    def ev_GeneratorExp(self, e, st):
        return self.ev_ListComp(e, st)

    def ev_DictComp(self, e, st):
        tmp = fresh_name('__comp')
        body = [
            ast.Assign(targets=[ast.Subscript(
                value=ast.Name(id=tmp, ctx=ast.Load()), slice=e.key,
                ctx=ast.Store())], value=e.value)
        ]
        return self.comp(e, tmp, ast.Dict(keys=[], values=[]), body, st)

    def comp(self, e, tmp, empty, body, st):
        names = set()
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body,
                            orelse=[])]
            names |= {n.id for n in ast.walk(g.target)
                      if isinstance(n, ast.Name)}
        stmts = [ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())],
                            value=empty)] + body
        for x in stmts:
            ast.copy_location(x, e)
            ast.fix_missing_locations(x)
        outer = {n: st.env.get(n, None) for n in names}
        had = {n: n in st.env for n in names}
        out = []
        for kind, s, v in self.exec_block(stmts, st):
            if kind == 'raise':
                self.sink.append((s, v))
                continue
            r = s.env.pop(tmp)
            for n in names:
                if had[n]:
                    s.env[n] = outer[n]
                else:
                    s.env.pop(n, None)
            out.append((s, r))
        return out

    def ev_NamedExpr(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            s = s.copy()
            self.bind(e.target, v, s)
            out.append((s, v))
        return out

    # ---------------------------------------------------------- statements
    def exec_block(self, stmts, st):
        """[(kind, state, value)]"""
        live = [st]
        out = []
        for x in stmts:
            nxt = []
            for s in live:
                for kind, s2, v in self.exec_stmt(x, s):
                    if kind == 'next':
                        nxt.append(s2)
                    else:
                        out.append((kind, s2, v))
            if len(nxt) > 1 and self.cfg.get('join'):
                nxt = [s for _, s, _ in
                       self.dedupe([('next', s, None) for s in nxt])]
            live = nxt
            self.paths = max(self.paths, len(live) + len(out))
            if self.paths > self.max_paths:
                raise PathLimit('too many paths')
            if not live:
                break
        return out + [('next', s, None) for s in live]

    def exec_stmt(self, x, st):
        m = getattr(self, 'st_' + type(x).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(x).__name__)
        saved, self.sink = self.sink, []
        try:
            out = m(x, st)
            out = out + [('raise', s, e) for s, e in self.sink]
        finally:
            self.sink = saved
        return out

    def st_Pass(self, x, st):
        return [('next', st, None)]

    def st_Import(self, x, st):
        return [('next', st, None)]

    st_ImportFrom = st_Global = st_Nonlocal = st_Import

    def st_Expr(self, x, st):
        if isinstance(x.value, ast.Constant):
            return [('next', st, None)]
        return [('next', s, None) for s, _ in self.ev(x.value, st)]

    def st_Delete(self, x, st):
        st = st.copy()
        for t in x.targets:
            if isinstance(t, ast.Name):
                st.env[t.id] = UNBOUND
            else:
                raise Unsupported('del')
        return [('next', st, None)]

    def st_Assert(self, x, st):
        out = []
        for s, v in self.ev(x.test, st):
            ok = self.need(s, self.truth(v, s), 'AssertionError')
            if ok is not None:
                out.append(('next', ok, None))
        return out

    def st_FunctionDef(self, x, st):
        st = st.copy()
        st.env[x.name] = Lambda(x, dict(st.env), self.mod_stack[-1])
        return [('next', st, None)]

    def st_Return(self, x, st):
        if x.value is None:
            return [('return', st, None)]
        return [('return', s, v) for s, v in self.ev(x.value, st)]

    def st_Break(self, x, st):
        return [('break', st, None)]

    def st_Continue(self, x, st):
        return [('continue', st, None)]

    def st_Raise(self, x, st):
        if x.exc is None:
            raise Unsupported('re-raise')
        out = []
        for s, v in self.ev(x.exc, st):
            if isinstance(v, PyObj) and isinstance(v.o, type):
                out.append(('raise', s, Exc(v.o)))
            else:
                raise Unsupported('raise')
        return out

    def st_Assign(self, x, st):
        out = []
        for s, v in self.ev(x.value, st):
            work = [s.copy()]
            for t in x.targets:
                work = [s3 for s2 in work for s3 in self.store(t, v, s2)]
            out += [('next', s2, None) for s2 in work]
        return out

    def st_AnnAssign(self, x, st):
        if x.value is None:
            return [('next', st, None)]
        out = []
        for s, v in self.ev(x.value, st):
            out += [('next', s2, None)
                    for s2 in self.store(x.target, v, s.copy())]
        return out

    def st_AugAssign(self, x, st):
        load = _copy.copy(x.target)
        load.ctx = ast.Load()
        out = []
        for s, (a, b) in [(p, tuple(q))
                          for p, q in self.ev_many([load, x.value], st)]:
            # list += list
            if isinstance(a, Ref) and isinstance(
                    s.obj(a), ListObj) and isinstance(x.op, ast.Add):
                s = s.copy()
                other = self.aslist(b, s)
                if other.pre is not None:
                    raise Unsupported('+= of an abstract list')
                s.mut(a).items.extend(other.items)
                out.append(('next', s, None))
                continue
            for s1, p in self.unopt(s, a):
                for s2, q in self.unopt(s1, b):
                    for s3, v in self.binop(type(x.op).__name__, p, q, s2):
                        out += [('next', s4, None)
                                for s4 in self.store(x.target, v, s3.copy())]
        return out

    def bind(self, t, v, st):
        r = self.store(t, v, st)
        if len(r) != 1 or r[0] is not st:
            raise Unsupported('forking binding')

    def store(self, t, v, st):
        """Store v in target t; st is owned by the callee. States."""
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Ref) and isinstance(st.obj(v), ListObj):
                o = st.obj(v)
                if o.pre is not None:
                    raise Unsupported('unpack abstract list')
                v = tuple(o.items)
            if not isinstance(v, tuple) or len(v) != len(t.elts):
                raise Unsupported('unpacking %r' % (v, ))
            work = [st]
            for a, b in zip(t.elts, v):
                work = [s2 for s in work for s2 in self.store(a, b, s)]
            return work
        if isinstance(t, ast.Attribute):
            out = []
            for s, b in self.ev(t.value, st):
                for s, b in self.unopt(s, b):
                    if b is None:
                        self.throw(s, 'AttributeError', t.attr)
                        continue
                    s = s.copy()
                    if isinstance(b, Ref) and isinstance(s.obj(b), InstObj):
                        s.mut(b).fields[t.attr] = v
                        out.append(s)
                    else:
                        raise Unsupported('attribute store')
            return out
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                raise Unsupported('slice store')
            out = []
            for s, (b, i) in [(p, tuple(q)) for p, q in self.ev_many(
                    [t.value, t.slice], st)]:
                for s, b in self.unopt(s, b):
                    out += self.setitem(b, i, v, s.copy())
            return out
        raise Unsupported('store')

    def setitem(self, b, i, v, st):
        if isinstance(b, Choice):
            for c, r in b.alts:
                o = st.mut(r)
                if not isinstance(o, DictObj) or not isinstance(
                        i, (int, str)):
                    raise Unsupported('choice store')
                if i in o.items:
                    o.items[i] = self.ite(c, v, o.items[i], st)
                else:
                    raise Unsupported('choice store of a new key')
            return [st]
        if isinstance(b, Ref):
            o = st.mut(b)
            if isinstance(o, ListObj):
                out = []
                for s, k in self.norm_index(i, o.length(), st, 'IndexError',
                                            'list store'):
                    s = s.copy()
                    oo = s.mut(b)
                    if oo.pre is None and isinstance(k, int):
                        oo.items[k] = v
                        out.append(s)
                        continue
                    done = False
                    base = oo.pre.n if oo.pre is not None else 0
                    for q in range(len(oo.items)):
                        d = sub(k, add(base, q))
                        if isinstance(d, int) and d == 0:
                            oo.items[q] = v
                            done = True
                    if not done:
                        raise Unsupported('store in an abstract list')
                    out.append(s)
                return out
            if isinstance(o, DictObj):
                if isinstance(i, (int, str)):
                    o.items[i] = v
                    return [st]
                if is_int(i):
                    keys = [k for k in o.items if isinstance(k, int)]
                    conds = [sm(i == k) for k in keys]
                    if self.proves(st, Or_(*conds), 500):
                        for c, k in zip(conds, keys):
                            o.items[k] = self.ite(c, v, o.items[k], st)
                        return [st]
                if is_str(i) and is_int(v):
                    m = self.as_map(o)
                    if m is not None:
                        t = sterm(i)
                        st.heap[b.addr] = MapObj(
                            z3.Store(m.has, t, z3.BoolVal(True)),
                            z3.Store(m.val, t, iv(v)))
                        return [st]
                raise Unsupported('symbolic dict store')
            if isinstance(o, MapObj):
                t = sterm(i)
                if not is_int(v):
                    raise Unsupported('map value')
                o.has = z3.Store(o.has, t, z3.BoolVal(True))
                o.val = z3.Store(o.val, t, iv(v))
                return [st]
        raise Unsupported('item store')

    def st_If(self, x, st):
        out = []
        for s, v in self.ev(x.test, st):
            t = self.truth(v, s)
            a, b = self.split(s, t)
            if a is not None:
                out += self.exec_block(x.body, a)
            if b is not None:
                if x.orelse:
                    out += self.exec_block(x.orelse, b)
                else:
                    out.append(('next', b, None))
        if self.cfg.get('merge', True):
            out = self.merge_next(st, out)
        return out

    def merge_next(self, st, outs):
        """Merge the fall-through states of an if when they differ in scalar
        variables only."""
        nx = [s for k, s, _ in outs if k == 'next']
        if len(nx) != 2:
            return outs
        a, b = nx
        n = len(st.pc)
        heap = self.merge_heap(a, b)
        if heap is None or (a.env.keys() != b.env.keys()
                            and not self.cfg.get('join')):
            return outs
        if len(a.pc) <= n or len(b.pc) <= n:
            return outs
        ca, cb = And_(*a.pc[n:]), And_(*b.pc[n:])
        env = {}
        ndiff = 0
        for k in {**a.env, **b.env}:
            if k not in a.env or k not in b.env:
                env[k] = MAYBE
                continue
            va, vb = a.env[k], b.env[k]
            if va is vb or (type(va) is type(vb) and isinstance(
                    va, (int, str, bool)) and va == vb) or (
                        isinstance(va, z3.ExprRef) and isinstance(
                            vb, z3.ExprRef) and z3.eq(va, vb)):
                env[k] = va
                continue
            ndiff += 1
            if ndiff > 4:
                return outs
            if not ((is_int(va) and is_int(vb)) or
                    (is_bool(va) and is_bool(vb))):
                return outs
            env[k] = If_(ca, va, vb)
        r = a.copy()
        r.env = env
        r.heap = heap(ca)
        r.pc = a.pc[:n] + [bv(Or_(ca, cb))]
        if r.pc[-1] is True or z3.is_true(r.pc[-1]):
            r.pc.pop()
        r.facts, r.ghost = list(st.facts), dict(st.ghost)
        self.carry(r, a, n, len(st.facts))
        self.carry(r, b, n, len(st.facts))
        return [o for o in outs if o[0] != 'next'] + [('next', r, None)]

    def merge_heap(self, a, b):
        """The heap of either, as a function of the condition of a."""
        if a.heap == b.heap:
            return lambda c: a.heap
        if not self.cfg.get('join') or a.heap.keys() != b.heap.keys():
            return None
        files = []
        for k in a.heap:
            x, y = a.heap[k], b.heap[k]
            if x is y:
                continue
            if not (isinstance(x, FileObj) and isinstance(y, FileObj)
                    and z3.eq(x.content, y.content) and x.closed == y.closed
                    and x.stream == y.stream):
                return None
            files.append((k, x, y))

        def heap(c):
            h = dict(a.heap)
            for k, x, y in files:
                f = x.copy()
                f.pos = If_(c, x.pos, y.pos)
                h[k] = f
            return h

        return heap

    def same_state(self, a, b):
        if a.heap != b.heap or a.env.keys() != b.env.keys():
            return False
        for k in a.env:
            va, vb = a.env[k], b.env[k]
            if not (va is vb or (type(va) is type(vb) and (
                    (isinstance(va, (int, str, bool, Ref)) and va == vb)
                    or (isinstance(va, z3.ExprRef) and z3.eq(va, vb))
                    or (isinstance(va, SBase) and z3.eq(va.t, vb.t))
                    or (isinstance(va, PyObj) and va.o is vb.o)))):
                return False
        return True

    def dedupe(self, outs):
        """Merge fall-through states that differ in their conditions only."""
        out = []
        for o in outs:
            if o[0] == 'next':
                for i, p in enumerate(out):
                    if p[0] == 'next' and self.same_state(p[1], o[1]):
                        a, b = p[1], o[1]
                        n = 0
                        while (n < len(a.pc) and n < len(b.pc)
                               and z3.eq(bv(a.pc[n]), bv(b.pc[n]))):
                            n += 1
                        r = a.copy()
                        c = Or_(And_(*a.pc[n:]), And_(*b.pc[n:]))
                        r.pc = a.pc[:n] + ([] if c is True else [bv(c)])
                        m = 0
                        while (m < len(a.facts) and m < len(b.facts)
                               and a.facts[m] is b.facts[m]):
                            m += 1
                        r.facts = a.facts[:m]
                        r.ghost = {k: v for k, v in a.ghost.items()
                                   if k in b.ghost}
                        self.carry(r, a, n, m)
                        self.carry(r, b, n, m)
                        out[i] = ('next', r, None)
                        break
                else:
                    out.append(o)
            else:
                out.append(o)
        return out

    def st_Try(self, x, st):
        outs = self.exec_block(x.body, st)
        res = []
        for kind, s, v in outs:
            if kind == 'raise':
                handled = False
                for h in x.handlers:
                    if self.handler_matches(h, v, s):
                        s2 = s.copy()
                        if h.name:
                            s2.env[h.name] = PyObj(v)
                        res += self.exec_block(h.body, s2)
                        handled = True
                        break
                if not handled:
                    res.append((kind, s, v))
            elif kind == 'next' and x.orelse:
                res += self.exec_block(x.orelse, s)
            else:
                res.append((kind, s, v))
        if x.finalbody:
            fin = []
            for kind, s, v in res:
                for k2, s2, v2 in self.exec_block(x.finalbody, s):
                    fin.append((kind, s2, v) if k2 == 'next' else
                               (k2, s2, v2))
            res = fin
        return res

    def handler_matches(self, h, exc, st):
        if h.type is None:
            return True
        r = self.ev(h.type, st)
        cls = r[0][1]
        cl = [c.o for c in cls] if isinstance(cls, tuple) else [cls.o]
        return issubclass(exc.cls, tuple(cl))

    def st_With(self, x, st):
        work = [st]
        for item in x.items:
            nxt = []
            for s in work:
                for s2, v in self.ev(item.context_expr, s):
                    if not (isinstance(v, Ref) and isinstance(
                            s2.obj(v), FileObj)):
                        raise Unsupported('with')
                    s2 = s2.copy()
                    if item.optional_vars is not None:
                        self.bind(item.optional_vars, v, s2)
                    nxt.append(s2)
            work = nxt
        out = []
        for s in work:
            out += self.exec_block(x.body, s)
        return out

    # ----------------------------------------------------------------- loops
    def st_While(self, x, st):
        from .loops import run_loop

        def cond(s):
            return [(s2, self.truth(v, s2)) for s2, v in self.ev(x.test, s)]

        def body(s):
            return self.exec_block(x.body, s)

        return run_loop(self, x, st, cond, body,
                        assigned_names(x.body) | assigned_names([ast.Expr(value=x.test)]), x.orelse)

    def st_For(self, x, st):
        from .loops import run_loop
        out = []
        for s0, it in self.ev(x.iter, st):
            for s0, it in self.unopt(s0, it):
                if it is None:
                    self.throw(s0, 'TypeError', 'iteration over None')
                    continue
                n, get = self.iter_view(it, s0)
                if not isinstance(n, int):
                    for q in (1, 0, 2):
                        if self.proves(s0, sm(iv(n) == q), 300):
                            n = q
                            break
                if isinstance(n, int):
                    out += self.unroll_for(x, s0, n, get)
                    continue
                cnt = fresh_name('__for')
                s = s0.copy()
                s.env[cnt] = 0

                def cond(q, cnt=cnt, n=n):
                    return [(q, sm(iv(q.env[cnt]) < iv(n)))]

                def body(q, cnt=cnt, get=get):
                    q = q.copy()
                    v = self.materialize(get(q.env[cnt]), q)
                    res = []
                    for q2 in self.store(x.target, v, q):
                        for kind, q3, r in self.exec_block(x.body, q2):
                            if kind in ('next', 'continue'):
                                q3 = q3.copy()
                                q3.env[cnt] = add(q3.env[cnt], 1)
                                res.append(('next', q3, None))
                            else:
                                res.append((kind, q3, r))
                    return res

                s.pc.append(sm(iv(n) >= 0)) if not isinstance(
                    sm(iv(n) >= 0), bool) else None
                for kind, q, r in run_loop(
                        self, x, s, cond, body,
                        assigned_names(x.body) | assigned_names([ast.Assign(targets=[x.target], value=ast.Constant(value=0))]) | {cnt},
                        x.orelse, counter=cnt, bound=n):
                    if kind != 'raise':
                        q.env.pop(cnt, None)
                    out.append((kind, q, r))
        return out

    def unroll_for(self, x, st, n, get):
        live = [st]
        out = []
        brk = []
        for k in range(n):
            nxt = []
            for s in live:
                s = s.copy()
                v = self.materialize(get(k), s)
                for s2 in self.store(x.target, v, s):
                    for kind, s3, r in self.exec_block(x.body, s2):
                        if kind in ('next', 'continue'):
                            nxt.append(s3)
                        elif kind == 'break':
                            brk.append(s3)
                        else:
                            out.append((kind, s3, r))
            live = nxt
            if len(live) > self.max_paths:
                raise PathLimit('too many paths')
        for s in live:
            if x.orelse:
                out += self.exec_block(x.orelse, s)
            else:
                out.append(('next', s, None))
        return out + [('next', s, None) for s in brk]


def _hashable(o):
    try:
        hash(o)
        return True
    except TypeError:
        return False


_occ = {}


def occurs(t, k):
    if isinstance(t, (int, bool)):
        return False
    stack = [t]
    seen = set()
    kid = k.get_id()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i == kid:
            return True
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False
