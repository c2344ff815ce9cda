"""Specification vocabulary: plain Python meaning (used by the run-time
checks) and, by identity, symbolic meaning in pyvc.interp."""


def span(s, i, chars):
    """First index j >= i with s[j] not in chars, or len(s)."""
    j = i
    while j < len(s) and s[j] in chars:
        j += 1
    return j


def nspan(s, i, chars):
    """First index j >= i with s[j] in chars, or len(s)."""
    j = i
    while j < len(s) and s[j] not in chars:
        j += 1
    return j


def rspan(s, lo, j, chars):
    """Smallest e >= lo such that s[e:j] has only characters of chars."""
    while j > lo and s[j - 1] in chars:
        j -= 1
    return j


def forall(lo, hi, pred):
    return all(pred(k) for k in range(lo, hi))


def exists(lo, hi, pred):
    return any(pred(k) for k in range(lo, hi))


def implies(a, b):
    return (not a) or b


def opaque(ret, static=()):
    """Specification function kept uninterpreted unless revealed."""

    def deco(f):
        f._pyvc = ('opaque', ret, tuple(static))
        return f

    return deco


def rec(ret, static=(), sticky=None):
    """Recursive specification function: one unfolding per ground term.

    sticky names the integer argument along which a value other than zero
    stays the same (the lemma is an obligation of its own)."""

    def deco(f):
        f._pyvc = ('rec', ret, tuple(static))
        f._sticky = sticky
        return f

    return deco


def keep(s, which):
    """The characters of s of a class: 'word- ' has letters, digits,
    underscores, hyphens and spaces; '!c' has everything but c."""
    if which == 'word- ':
        return ''.join(c for c in s if c.isalnum() or c in '_- ')
    return ''.join(c for c in s if c != which[1])


# documents; the symbolic meaning is in pyvc.builtins_sym
def document(filename):
    """The lines of a file ('-' is the standard input)."""
    raise NotImplementedError


def nlines(d):
    return len(d)


def line_at(d, k):
    """Line k with its newline, '' after the last one."""
    return d[k] if k < len(d) else ''


def reads(f):
    """Number of lines read from an open file so far."""
    raise NotImplementedError


def doc_of(f):
    """The document an open file shows."""
    raise NotImplementedError


def world():
    """The state of the files and of the output."""
    raise NotImplementedError


def initial():
    """The world when the function was called."""
    raise NotImplementedError


def before(o, name):
    """The attribute of an object when the function was called."""
    raise NotImplementedError


def given():
    """The options of the command line."""
    raise NotImplementedError


def become(w):
    """Change the world."""
    raise NotImplementedError


def act(what, *args):
    """Perform an effect."""
    raise NotImplementedError


def numbered(n, f):
    return {k: f(k) for k in range(1, n + 1)}


def listing(n, f):
    return [f(k) for k in range(n)]


def marks(d, marker):
    """Number of lines of d that are the marker between blanks."""
    return sum(x.strip() == marker.strip() for x in d)


def mark(d, marker, k):
    """Number of the k-th such line."""
    return [i + 1 for i, x in enumerate(d)
            if x.strip() == marker.strip()][k - 1]


def text_of(d):
    return ''.join(d)


def same_map(a, b):
    return a == b


def positive(m):
    """The values of a map are positive."""
    return all(v >= 1 for v in m.values())


@opaque('bool')
def one_line(line):
    """A line as text files deliver it: a newline only at the end."""
    return (nspan(line, 0, '\r') == len(line)
            and nspan(line, 0, '\n') >= len(line) - 1)
