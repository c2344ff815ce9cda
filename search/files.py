"""Searches over files and command lines (C13-C16)."""
import io
import os
import re
import shutil
import sys
import contextlib

from contracts import lists as L
from md_toc import api
from md_toc import cli as _cli

from . import docs as D
from .common import (FAMILY, PARSERS, get, limit, mined, outcome, put,
                     scratch, stdin, text)

MARK = '<!--TOC-->'
BLANKS = ' \t\n\x0b\r'


# ----------------------------------------------------- what should happen
def is_list(s):
    """A list as this program writes it (its lines joined)."""
    i = len(s) - len(s.lstrip(' '))
    if i > 3:
        return False
    r = s[i:]
    if r[:1] in ('-', '+', '*') and r:
        r = r[1:]
    else:
        j = 0
        while j < len(r) and re.match(r'\d', r[j]):
            j += 1
        if j == 0 or r[j:j + 1] not in ('.', ')') or j >= len(r):
            return False
        r = r[j + 1:]
    if r[:1] != ' ':
        return False
    return not (len(r) > 1 and r[1] in ' \t\x0b')


def survey(t, marker):
    """(marker line numbers from 0, index of the pair around the old TOC or
    None, old TOC) of a text with universal newlines."""
    ls = D.lines_of(t)
    pos = [i for i, x in enumerate(ls) if x.strip() == marker.strip()]
    for k in range(len(pos) - 1):
        a, b = pos[k], pos[k + 1]
        inner = [x.rstrip('\n') for x in ls[a + 1:b]]
        core = ''.join(inner[1:-1]) if len(inner) >= 2 else ''
        if is_list(core) or not ''.join(inner).strip(BLANKS):
            return pos, k, ''.join(ls[a + 1:b]).strip()
    if len(pos) == 1:
        return pos, None, marker
    return pos, None, ''


def written(t, toc, marker, nl):
    """Content after writing toc in place, None when nothing is written."""
    ls = D.lines_of(t)
    pos, k, old = survey(t, marker)
    if not pos:
        return None
    block = (marker + '\n\n' + D.universal(toc).rstrip() + '\n\n' + marker
             + '\n')
    if k is not None:
        a, b = pos[k], pos[k + 1] + 1
    elif len(pos) == 1:
        a, b = pos[0], pos[0] + 1
    else:
        a = b = pos[0]
    return (''.join(ls[:a]) + block + ''.join(ls[b:])).replace('\n', nl)


# ------------------------------------------------------------- generators
LIST = ('- a', '- [a](#a)', '  - b', '1. x', '   3) y', '+ z', '* ', '- ',
        '-', '-\tq', '- \tq', '-  w', '    - deep', '10. a', '1 . a', '² a',
        '- é', '12)b', '1. ', '١. x', 'x', '', ' ', '\t', '\x0b', '# h',
        '```', '\x0c', '\x1c', '\x85', '\xa0', '- a\x0b', '- \x0bb',
        '<!--toc-->', '<!--TOC', '-- a')


def content(rng, marker):
    out = []
    for _ in range(rng.randint(0, 10)):
        r = rng.random()
        if r < 0.33:
            out.append(rng.choice((marker, marker, marker, ' ' + marker,
                                   marker + '  ', '\t' + marker + '\x0b')))
        elif r < 0.55:
            out.append('')
        elif r < 0.95:
            out.append(rng.choice(LIST))
        else:
            out.append(text(rng).replace('\n', ''))
    if rng.random() < 0.4:
        # a typical block
        k = rng.randint(0, len(out))
        toc = [rng.choice(LIST) for _ in range(rng.randint(0, 3))]
        out[k:k] = [marker, ''] + toc + ['', marker]
    end = rng.choice(('\n', '\n', '\n', '\r\n', '\r'))
    t = end.join(out)
    if out and rng.random() < 0.7:
        t += end
    return t


TOCS = ('- [a](#a)\n', '- [a](#a)\n  - [b](#b)\n', '1. a\n2. b\n', '',
        '- x', '\n', '- [a](#a)\n- [c](#c)\n', '* é\n', '+ 1\n    + 2\n',
        '    - x\n', '- a\r\n- b\r\n', '- a\r- b\r', '- a \n\n', 'text')


def toc_string(rng):
    if rng.random() < 0.6:
        return rng.choice(TOCS)
    t = D.document(rng, maxn=5, big=False)
    k, v = D.build(t, D.options(rng, no_coherence=True), 'src.md')
    return v if k == 'return' else '- x\n'


MARKERS = (MARK, MARK, MARK, MARK, '<!--Table-->', '[](TOC)', 'TOC', ' T ',
           '*', '.', '(', '\\', '[TOC]', '^T$')


def file_cases(rng, tier):
    import itertools
    kinds = (MARK + '\n', '\n', '- a\n', 'x\n', ' ' + MARK + '\n', MARK)
    n = 0
    for k in range(0, 6 if tier == 'quick' else 7):
        for t in itertools.product(kinds, repeat=k):
            n += 1
            t = ''.join(t)
            if t.count('TOC') > 4:
                continue
            yield {'t': t, 'toc': TOCS[n % len(TOCS)], 'marker': MARK,
                   'nl': ('\n', '\n', '\r\n', '\r')[n % 4]}
    for ln in LIST:
        for pat in ('%M\n\n%L\n\n%M\n', '%M\n%L\n%M\n', '%M\nx\n%L\ny\n%M\n',
                    'a\n%M\n\n%L\n- b\n\n%M\nb', '%M\n%L\n\n%M\n\n%M\n',
                    '%M\n\n- [x](#x)\n%L\n\n%M\n%L\n', '%L\n%M\n%L'):
            n += 1
            yield {'t': pat.replace('%M', MARK).replace('%L', ln),
                   'toc': TOCS[n % len(TOCS)], 'marker': MARK, 'nl': '\n'}
    for w in mined()[0]:
        w = w.replace('\n', '').replace('\r', '')
        for pat in ('%M\n\n%L\n\n%M\n', '%M\n%L\n', '%L\n%M', '%M%L\n%M\n'):
            n += 1
            yield {'t': pat.replace('%M', MARK).replace('%L', w),
                   'toc': TOCS[n % len(TOCS)], 'marker': MARK, 'nl': '\n'}
    while True:
        m = rng.choice(MARKERS)
        yield {'t': content(rng, m), 'toc': toc_string(rng), 'marker': m,
               'nl': rng.choice(('\n', '\n', '\r\n', '\r')), '_r': 1}


def write(path, x):
    with limit(20):
        return outcome(api.write_string_on_file_between_markers, path,
                       x['toc'], x['marker'], x['nl'])


class C13:
    rule = ('contents made of marker lines, blank lines, list-like lines and '
            'text (enumerated, then random), several markers and newline '
            'strings; the file after writing is compared byte by byte; '
            'non-trivial: the file has a marker')
    cases = staticmethod(file_cases)

    @staticmethod
    def nontrivial(x):
        return x['marker'].strip() in x['t']

    @staticmethod
    def judge(x):
        t = D.universal(x['t'])
        path = put('f.md', x['t'])
        kind, r = write(path, x)
        if kind != 'return':
            return 'raises %s' % r
        now = get(path)
        want = written(t, x['toc'], x['marker'], x['nl'])
        want = x['t'] if want is None else want
        if now != want.encode('utf-8'):
            return 'file becomes %r, expected %r' % (
                now.decode('utf-8', 'replace'), want)
        return None


def program_toc(toc):
    """A TOC as the program makes it, with a first entry that starts with
    text."""
    ls = D.lines_of(toc)
    if not ls:
        return True
    m = re.match(r'([-+*]|[0-9]+[.)])[ ]', ls[0])
    return bool(m) and is_list(ls[0].rstrip('\n')) and \
        ls[0][m.end():].strip() != ''


class C14:
    rule = ('as for C13, each content written twice with the same TOC and '
            'compared before and after; non-trivial: the file has a marker')
    cases = staticmethod(file_cases)
    nontrivial = C13.nontrivial

    @staticmethod
    def judge(x):
        t = D.universal(x['t'])
        m = x['marker']
        path = put('f.md', x['t'])
        pos, k, old = survey(t, m)
        same = D.universal(x['toc']).strip() == old
        with limit(20):
            kind, r = outcome(api.tocs_equal, x['toc'], path, m)
        if kind != 'return' or bool(r) != same:
            return 'comparison says %r, expected %r' % (r, same)
        if get(path) != x['t'].encode('utf-8'):
            return 'the comparison changed the file'
        kind, r = write(path, x)
        if kind != 'return' or bool(r) != same:
            return 'writing says equal=%r, expected %r' % (r, same)
        if not pos:
            return None
        one = get(path)
        toc = D.universal(x['toc'])
        if any(ln.strip() == m.strip() for ln in D.lines_of(toc)):
            return None
        if not program_toc(toc):
            return None
        kind, r = write(path, x)
        if kind != 'return':
            return 'second writing raises %s' % r
        if get(path) != one:
            return 'second writing changes %r into %r' % (one, get(path))
        # the block that was written is the one found again unless an
        # earlier pair of markers is
        if r is not True and k is None:
            return 'written TOC is not found equal'
        with limit(20):
            kind, r2 = outcome(api.tocs_equal, x['toc'], path, m)
        if kind != 'return' or bool(r2) != bool(r):
            return 'comparison says %r and writing %r' % (r2, r)
        return None


# ------------------------------------------------------------ command line
def snapshot(d):
    out = {}
    for base, ds, fs in os.walk(d):
        for f in sorted(fs):
            p = os.path.join(base, f)
            out[os.path.relpath(p, d)] = (
                None if os.path.islink(p) else get(p))
        for f in ds:
            out[os.path.relpath(os.path.join(base, f), d)] = 'dir'
    return out


def run_cli(argv, stdin_text=''):
    """(exit code, standard output) of the program run in this process."""
    from md_toc import __main__ as M
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ['md_toc'] + argv
    try:
        with limit(20), stdin(stdin_text), contextlib.redirect_stdout(out), \
                contextlib.redirect_stderr(err):
            try:
                M.main()
                code = None
            except SystemExit as e:
                code = e.code
    finally:
        sys.argv = old
    return code, out.getvalue()


def command(o):
    """Command line of a set of options."""
    a = []
    long = o['long']

    def opt(s, ln):
        return ln if long else s

    if o['no_coherence']:
        a.append(opt('-c', '--no-list-coherence'))
    if o['no_indentation']:
        a.append(opt('-i', '--no-indentation'))
    if o['diff']:
        a.append(opt('-d', '--diff'))
    if o['no_links']:
        a.append(opt('-l', '--no-links'))
    if o['marker_given']:
        a += [opt('-m', '--toc-marker'), o['toc_marker']]
    if o['nl_given'] is not None:
        a += [opt('-n', '--newline-string'), o['nl_given']]
    if o['in_place']:
        a.append(opt('-p', '--in-place'))
    if o['skip'] is not None:
        a += [opt('-s', '--skip-lines'), str(o['skip'])]
    a.append(o['parser'])
    if o['list'] is not None:
        kind, m = o['list']
        a.append(opt('-u', '--unordered-list-marker') if kind == 'u'
                 else opt('-o', '--ordered-list-marker'))
        if m is not None:
            a.append(m)
        elif not o['constant'] and o['levels'] is None:
            a.append('--')
    if o['constant']:
        a.append(opt('-c', '--constant-ordered-list'))
    if o['levels'] is not None:
        a.append(opt('-l', '--header-levels'))
        if o['levels'] != '':
            a.append(str(o['levels']))
        else:
            a.append('--')
    return a


def cli_options(rng):
    p = rng.choice(PARSERS)
    o = {
        'parser': p,
        'no_coherence': False,
        'no_indentation': False,
        'no_links': rng.random() < 0.3,
        'diff': rng.random() < 0.45,
        'in_place': rng.random() < 0.45,
        'marker_given': rng.random() < 0.2,
        'toc_marker': rng.choice(('<!--M-->', 'TOC', '[[T]]')),
        'nl_given': rng.choice((None, None, None, '\\n', '\\r', '\\r\\n')),
        'skip': rng.choice((None, None, None, 0, 1, 2, 9)),
        'list': None,
        'constant': rng.random() < 0.15,
        'levels': rng.choice((None, None, 1, 2, 3, 4, 5, 6, '')),
        'long': rng.random() < 0.5,
    }
    r = rng.random()
    if r < 0.3:
        o['no_coherence'] = True
    elif r < 0.5:
        o['no_indentation'] = True
    if not o['marker_given']:
        o['toc_marker'] = MARK
    r = rng.random()
    if r < 0.25:
        o['list'] = ('u', rng.choice(('-', '+', '*', None)))
    elif r < 0.6:
        o['list'] = ('o', rng.choice(('.', ')', None)
                                     if p != 'redcarpet' else ('.', None)))
    return o


def api_options(o):
    ordered, m = False, '-'
    if o['list'] is not None:
        ordered = o['list'][0] == 'o'
        m = o['list'][1] or ('.' if ordered else '-')
    lev = o['levels']
    return {
        'parser': o['parser'], 'ordered': ordered, 'no_links': o['no_links'],
        'no_indentation': o['no_indentation'],
        'no_coherence': o['no_coherence'],
        'keep': 6 if lev is None or lev == '' else lev, 'marker': m,
        'skip': o['skip'] or 0, 'constant': o['constant'],
        'nl': {None: os.linesep, '\\n': '\n', '\\r': '\r',
               '\\r\\n': '\r\n'}[o['nl_given']],
    }


def cli_files(rng, o):
    fs = []
    for k in range(rng.choice((1, 1, 1, 2, 2, 3))):
        t = D.document(rng, maxn=4, big=False, wild=0.02)
        m = o['toc_marker']
        r = rng.random()
        if r < 0.3:
            t = m + '\n' + t
        elif r < 0.65:
            q = dict(api_options(o))
            kind, toc = D.build(t, q, 'pre.md')
            if kind == 'return' and rng.random() < 0.7:
                t = t + '\n' + m + '\n\n' + D.universal(toc) + '\n' + m + '\n'
            else:
                t = m + '\n\n- [old](#old)\n\n' + m + '\n' + t
        fs.append(['f%d.md' % k, t])
    r = rng.random()
    if r < 0.08:
        fs.insert(rng.randint(0, len(fs)), ['missing.md', None])
    elif r < 0.2:
        fs.insert(rng.randint(0, len(fs)),
                  ['bad.md', o['toc_marker'] + '\n# a\n### b\n'])
    elif r < 0.26:
        fs.insert(rng.randint(0, len(fs)), ['-', '# from standard input\n'])
    elif r < 0.3:
        fs = []
    elif r < 0.34:
        fs.insert(rng.randint(0, len(fs)), ['dir', 'dir'])
    return fs


def cli_cases(rng, tier):
    base = {'parser': 'github', 'no_coherence': False,
            'no_indentation': False, 'no_links': False, 'diff': False,
            'in_place': False, 'marker_given': False, 'toc_marker': MARK,
            'nl_given': None, 'skip': None, 'list': None, 'constant': False,
            'levels': None, 'long': False}
    doc = '# a\n## b\n###### f\n# a\n'
    good = '%s\n\n- [a](#a)\n  - [b](#b)\n\n%s\n# a\n## b\n' % (MARK, MARK)
    alone = '# a\n### c\n'
    for p in PARSERS:
        for ch in ({}, {'no_coherence': True}, {'no_indentation': True},
                   {'no_links': True}, {'diff': True}, {'in_place': True},
                   {'diff': True, 'in_place': True}, {'constant': True},
                   {'nl_given': '\\r'}, {'nl_given': '\\r\\n'},
                   {'nl_given': '\\n'}, {'skip': 1}, {'skip': 3},
                   {'skip': -1},
                   {'levels': 1}, {'levels': 2}, {'levels': ''},
                   {'list': ('u', '+')}, {'list': ('u', None)},
                   {'list': ('o', '.')}, {'list': ('o', None)},
                   {'list': ('o', ')')}, {'list': ('u', '*')},
                   {'marker_given': True, 'toc_marker': 'TOC',
                    'diff': True}):
            for long in (False, True):
                o = dict(base, parser=p, long=long, **ch)
                if p == 'redcarpet' and o['list'] == ('o', ')'):
                    continue
                for fs in ([['x.md', doc]], [['x.md', good]], [['y.md', alone]],
                           [['x.md', good], ['y.md', doc]],
                           [['y.md', doc], ['x.md', good]],
                           [['x.md', MARK + '\n' + doc]], [],
                           [['-', 'x\n']], [['x.md', good], ['-', 'x\n']],
                           [['x.md', good], ['y.md', alone]],
                           [['x.md', MARK + '\n' + doc], ['z.md', None]]):
                    yield {'o': o, 'fs': fs, 'in': '# stdin\n## b\n'}
    while True:
        o = cli_options(rng)
        yield {'o': o, 'fs': cli_files(rng, o),
               'in': D.document(rng, maxn=3, big=False), '_r': 1}


def prepare(x):
    d = os.path.join(scratch(), 'cli')
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    for n, t in x['fs'] + [['other.md', MARK + '\n# other\n']]:
        if t == 'dir':
            os.mkdir(os.path.join(d, n))
        elif t is not None:
            with open(os.path.join(d, n), 'w', newline='',
                      encoding='utf-8') as f:
                f.write(t)
    return d


def expected_tocs(x):
    """What the builder gives for every file: [toc] or the first error."""
    o = api_options(x['o'])
    names = [n for n, t in x['fs']] or ['-']
    out = []
    used = False
    for n in names:
        if n == '-':
            with stdin('' if used else x['in']):
                r = D.call('-', o)
            used = True
        else:
            r = D.call(n, o)
        if r[0] != 'return':
            return None
        out.append(r[1])
    return out


class C15:
    rule = ('command lines with one to three files, failing ones included, '
            'run in a scratch directory whose complete content is compared '
            'before and after; non-trivial: in-place writing or a failing '
            'file')
    cases = staticmethod(cli_cases)

    @staticmethod
    def nontrivial(x):
        return x['o']['in_place'] or any(t is None for n, t in x['fs'])

    @staticmethod
    def judge(x):
        d = prepare(x)
        here = os.getcwd()
        os.chdir(d)
        try:
            with limit(30):
                tocs = expected_tocs(x)
            before = snapshot(d)
            code, out = run_cli(command(x['o']) + [n for n, t in x['fs']],
                                x['in'])
            after = snapshot(d)
        finally:
            os.chdir(here)
        changed = sorted(k for k in set(before) | set(after)
                         if before.get(k) != after.get(k))
        if not x['o']['in_place']:
            if changed:
                return 'without in-place writing %r changed' % changed
            return None
        if set(before) != set(after):
            return 'files appear or disappear: %r' % sorted(
                set(before) ^ set(after))
        if tocs is None and changed:
            return '%r changed although a TOC cannot be built' % changed
        names = [n for n, t in x['fs']]
        if '-' in changed:
            return 'a file called - was written'
        if any(c not in names for c in changed):
            return '%r changed, only %r was named' % (changed, names)
        if ('-' in names or not names) and code == 0:
            return 'in-place writing to the standard input is accepted'
        return None


class C16:
    rule = ('command lines over all options and one to three files; output, '
            'files and exit code are compared with calls of the builder with '
            'those options; non-trivial: at least one option is given')
    cases = staticmethod(cli_cases)

    @staticmethod
    def nontrivial(x):
        return len(command(x['o'])) > 1

    @staticmethod
    def judge(x):
        o = x['o']
        d = prepare(x)
        here = os.getcwd()
        os.chdir(d)
        names = [n for n, t in x['fs']] or ['-']
        nl = api_options(o)['nl']
        try:
            with limit(30):
                tocs = expected_tocs(x)
            texts = {n: t for n, t in x['fs']}
            want = 0
            diff = False
            files = dict(texts)
            if tocs is None:
                want = 1
            else:
                for n, s in zip(names, tocs):
                    if n == '-':
                        if o['in_place'] or o['diff']:
                            want = 1
                            break
                        continue
                    t = D.universal(files[n])
                    pos, k, old = survey(t, o['toc_marker'])
                    if D.universal(s).strip() != old:
                        diff = True
                    if o['in_place']:
                        w = written(t, s, o['toc_marker'], nl)
                        if w is not None:
                            files[n] = w
            if want == 0 and diff and o['diff']:
                want = 128
            if '-' in names and o['diff'] and not o['in_place'] and \
                    '-' in texts:
                # comparison with a real file called -
                return None
            code, out = run_cli(command(o) + [n for n, t in x['fs']],
                                x['in'])
            if code != want:
                return 'exit code %r, expected %r' % (code, want)
            if tocs is not None and not o['in_place'] and want != 1:
                if out != ''.join(tocs):
                    return 'prints %r, expected %r' % (out, ''.join(tocs))
            if tocs is not None and o['in_place']:
                if out != '' and want != 1:
                    return 'prints %r when writing in place' % out
                for n in names:
                    if n == '-':
                        break
                    now = get(n).decode('utf-8')
                    if now != files[n]:
                        return '%s becomes %r, expected %r' % (n, now,
                                                               files[n])
        finally:
            os.chdir(here)
        return None
