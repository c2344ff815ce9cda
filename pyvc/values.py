"""Symbolic values, heap objects and path states."""
import itertools

import z3

from .terms import *  # noqa


class Unsupported(Exception):
    """The construct is outside the supported subset."""


class Opt:
    """None or val."""

    def __init__(self, isnone, val):
        self.isnone, self.val = isnone, val

    def __repr__(self):
        return 'Opt(%s,%r)' % (self.isnone, self.val)


class Ref:

    def __init__(self, addr):
        self.addr = addr

    def __repr__(self):
        return 'Ref(%s)' % self.addr

    def __eq__(self, o):
        return isinstance(o, Ref) and o.addr == self.addr

    def __hash__(self):
        return hash(('Ref', self.addr))


class Choice:
    """Exhaustive guarded choice of values [(cond, value)]."""

    def __init__(self, alts):
        self.alts = alts


class PyObj:
    """A concrete Python object (module constant, module, function, class)."""

    def __init__(self, o):
        self.o = o

    def __repr__(self):
        return 'PyObj(%r)' % (type(self.o),)


class Unbound:
    pass


UNBOUND = Unbound()
MAYBE = Unbound()      # bound or not, or of an unknown shape


class Bound:
    """A bound method of a symbolic value."""

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Lambda:

    def __init__(self, node, env, mod):
        self.node, self.env, self.mod = node, env, mod


class Range:

    def __init__(self, a, b):
        self.a, self.b = a, b


class Exc:

    def __init__(self, cls, note=''):
        self.cls, self.note = cls, note
        self.code = None        # of SystemExit

    def __repr__(self):
        return 'Exc(%s%s)' % (getattr(self.cls, '__name__', self.cls),
                              ' ' + self.note if self.note else '')


class AbsSeq:
    """Abstract sequence of n elements; get(k) gives the element."""

    def __init__(self, n, get, joined=None, shape=None):
        self.n, self.get, self.joined, self.shape = n, get, joined, shape


class ListObj:
    """pre ++ items."""

    def __init__(self, items=None, pre=None):
        self.items = list(items or [])
        self.pre = pre

    def copy(self):
        return ListObj(self.items, self.pre)

    def length(self):
        if self.pre is None:
            return len(self.items)
        return add(self.pre.n, len(self.items))


class DictObj:
    """Dictionary with concrete keys."""

    def __init__(self, items=None):
        self.items = dict(items or {})

    def copy(self):
        return DictObj(self.items)


class MapObj:
    """Dictionary from strings to integers with symbolic keys."""

    def __init__(self, has, val):
        self.has, self.val = has, val

    def copy(self):
        return MapObj(self.has, self.val)


class InstObj:

    def __init__(self, cls, fields=None):
        self.cls = cls
        self.fields = dict(fields or {})

    def copy(self):
        return InstObj(self.cls, self.fields)


class FileObj:
    """A text file opened for reading, at line pos of content."""

    def __init__(self, content, pos, closed=False, stream=False):
        self.content, self.pos, self.closed = content, pos, closed
        self.stream = stream

    def copy(self):
        return FileObj(self.content, self.pos, self.closed, self.stream)


class WorldObj:
    """The files and the output, as the effects that made them."""

    def __init__(self, term):
        self.term = term

    def copy(self):
        return WorldObj(self.term)


class SeqDict:
    """Dictionary with the keys 1..n."""

    def __init__(self, n, get):
        self.n, self.get = n, get

    def copy(self):
        return SeqDict(self.n, self.get)


_addr = itertools.count(1)


class St:
    """A path state."""

    __slots__ = ['env', 'heap', 'pc', 'facts', 'ghost']

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.pc = []
        self.facts = []
        self.ghost = {}

    def copy(self):
        s = St()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.facts = list(self.facts)
        s.ghost = dict(self.ghost)
        return s

    def alloc(self, obj):
        a = next(_addr)
        self.heap[a] = obj
        return Ref(a)

    def obj(self, ref):
        return self.heap[ref.addr]

    def mut(self, ref):
        """Copy-on-write access."""
        o = self.heap[ref.addr].copy()
        self.heap[ref.addr] = o
        return o


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (
        isinstance(v, z3.ArithRef))


def is_bool(v):
    return isinstance(v, bool) or isinstance(v, z3.BoolRef)


def is_str(v):
    return isinstance(v, (str, SStr))


def is_sym(v):
    return isinstance(v, (z3.ExprRef, SStr, Opt, Ref, Choice, Bound, Range,
                          Lambda, PyObj))
