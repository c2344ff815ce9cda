"""Shared generators and helpers of the searches."""
import ast
import contextlib
import functools
import glob
import io
import itertools
import os
import random
import shutil
import signal
import sys
import tempfile

PARSERS = ('github', 'cmark', 'gitlab', 'commonmarker', 'goldmark',
           'redcarpet')
FAMILY = PARSERS[:-1]
#: parsers with really different heading rules
KEY_PARSERS = ('github', 'cmark', 'gitlab', 'redcarpet')

REPO = os.environ.get('MD_TOC_REPO', '/repo')


class Timeout(BaseException):
    pass


@contextlib.contextmanager
def limit(seconds=10):
    """Bound one call of the code under test."""

    def boom(*_):
        raise Timeout()

    old = signal.signal(signal.SIGALRM, boom)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def outcome(f, *args, **kw):
    """('return', value) or ('raise', exception class name) of a call."""
    try:
        return ('return', f(*args, **kw))
    except Timeout:
        raise
    except RecursionError:
        raise
    except SystemExit as e:
        return ('exit', e.code)
    except Exception as e:
        return ('raise', type(e).__name__)


_scratch = None


def scratch():
    """Scratch directory of this process."""
    global _scratch
    if _scratch is None or not os.path.isdir(_scratch):
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        _scratch = tempfile.mkdtemp(prefix='mdtoc-search-', dir=base)
        tempfile.tempdir = _scratch
    return _scratch


def cleanup():
    global _scratch
    if _scratch is not None:
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None
        tempfile.tempdir = None


def put(name, text, newline=''):
    """Write text to a scratch file and return its path."""
    p = os.path.join(scratch(), name)
    if isinstance(text, bytes):
        with open(p, 'wb') as f:
            f.write(text)
    else:
        with open(p, 'w', newline=newline, encoding='utf-8') as f:
            f.write(text)
    return p


def get(path):
    with open(path, 'rb') as f:
        return f.read()


@contextlib.contextmanager
def stdin(text):
    old = sys.stdin
    sys.stdin = io.TextIOWrapper(io.BytesIO(text.encode('utf-8')),
                                 encoding='utf-8', newline=None)
    try:
        yield
    finally:
        sys.stdin = old


@functools.lru_cache(maxsize=None)
def mined():
    """(strings, integers) written in the current source of md_toc: an edit
    that singles out an input usually has to name it."""
    strs, ints = set(), set()
    for p in ('api', 'generic', 'cli'):
        path = os.path.join(REPO, 'md_toc', p + '.py')
        try:
            tree = ast.parse(open(path, encoding='utf-8').read())
        except (OSError, SyntaxError):
            continue
        doc = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                doc.add(id(n.value))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in doc:
                if isinstance(n.value, str) and 0 < len(n.value) <= 24:
                    strs.add(n.value)
                elif (type(n.value) is int and 2 <= n.value <= 5000):
                    ints.add(n.value)
    return tuple(sorted(strs)), tuple(sorted(ints))


def strings(alphabet, maxlen, minlen=0):
    for n in range(minlen, maxlen + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield ''.join(t)


WORDS = ('a', 'b', 'foo', 'Foo', 'foo bar', 'x1', 'É', 'ñandú', '漢字', 'ß',
         'İ', 'a_b', '_', '*', '**a**', '*a*', '__b__', '_b_', '`c`', '<b>',
         '</b>', '<i class="x">', '<!-- c -->', '&amp;', '&', ';', '<', '>',
         '[', ']', '(', ')', '[l](u)', '![i](u)', '\\', '\\\\', '\\[', '\\]',
         '\\*', '#', '##', '-', '--', '- ', ' -', '+', '.', '1.', '!', '?',
         ':', '"', "'", '~', '^', '%', '=', '{', '}', '|', '/', ',', '$',
         '@', '\t', '\x0b', '\x0c', '\x1c', '\x85', '\u2028', '\xa0', ' ',
         '  ', '   ', '\x00', '\u0130', '\U0001f600', 'CDATA', '<?p?>',
         '<!A b>', '<title>', 'e\u0301', '²', '_a', 'a_', '***')


def text(rng, lo=0, hi=5, words=WORDS):
    ms, mi = mined()
    out = []
    for _ in range(rng.randint(lo, hi)):
        r = rng.random()
        if r < 0.93:
            out.append(rng.choice(words))
        else:
            out.append(rng.choice(ms).replace('\n', ' ').replace('\r', ' '))
        if rng.random() < 0.4:
            out.append(' ')
    t = ''.join(out)
    if rng.random() < 0.01 and t:
        n = rng.choice(mi + (999, 1000, 998, 64, 128, 255, 256))
        n += rng.choice((-1, 0, 0, 1))
        t = (t * (n // len(t) + 1))[:max(n, 0)]
    return t


def heading_line(rng, words=WORDS, level=None):
    ind = rng.choice(('', '', '', '', ' ', '  ', '   ', '    ', '\t', '     '))
    lev = level or rng.choice((0, 1, 1, 1, 2, 2, 3, 3, 4, 5, 6, 6, 7, 8))
    if level:
        ind = ind if ind in ('', ' ', '  ', '   ') else ''
    sep = rng.choice((' ', ' ', ' ', ' ', '  ', '\t', '', ' \t', '   '))
    if level:
        sep = ' '
    clo = rng.choice(('', '', '', '', ' #', ' ##', '#', ' # ', '  ###  ',
                      ' #\t', '\t#', ' # #', '\\#', ' \\#', ' #\\', ' ######',
                      ' ', '\t', '\\', '\\\\'))
    return ind + '#' * lev + sep + text(rng, words=words) + clo


def run_shards(n):
    return range(n)
