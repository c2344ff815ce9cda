"""Searches over whole documents (C05, C06, C09, C10, C11, C12, C18, C20)."""
import re

from contracts import anchors as AN
from contracts import headings as H
from contracts import lists as L
from md_toc import api
from md_toc import exceptions as E

from . import docs as D
from .common import (FAMILY, PARSERS, WORDS, limit, mined, outcome, put, stdin,
                     strings, text)

DOCUMENTED = ('GithubEmptyLinkLabel', 'GithubOverflowCharsLinkLabel',
              'GithubOverflowOrderedListMarker',
              'TocDoesNotRenderAsCoherentList')

#: documents made of few kinds of lines, enumerated
KINDS = ('# a\n', '## a\n', '### b\n', '```\n', '~~~\n', 'x\n', '\n',
         '#### c', '   # d #\n', '    # e\n')


def small_docs(rng, tier):
    n = 3 if tier == 'quick' else 4
    import itertools
    for k in range(0, n + 1):
        for t in itertools.product(KINDS, repeat=k):
            yield ''.join(t)


def walks(tier):
    """All sequences of levels of a bounded length."""
    import itertools
    for k in range(1, 5 if tier == 'quick' else 7):
        for t in itertools.product((1, 2, 3, 4), repeat=k):
            yield t
    for t in itertools.product((1, 2, 3, 4, 5, 6), repeat=3):
        yield t


def doc_of(levels, same=False):
    return ''.join('#' * lv + ' ' + ('h' if same else 'h%d' % i) + '\n'
                   for i, lv in enumerate(levels))


class C05:
    rule = ('documents of headings, fences and text with all line ends and '
            'all options, listed without links and indentation and compared '
            'with the headings outside fenced code; from a file and from the '
            'standard input; non-trivial: something is listed')

    @staticmethod
    def cases(rng, tier):
        n = 0
        for t in small_docs(rng, tier):
            n += 1
            o = {'keep': (3, 6, 1, 2)[n % 4], 'skip': (0, 0, 1, 2)[n % 4],
                 'parser': PARSERS[n % 6]}
            yield {'t': t, 'o': o}
        for k in mined()[1]:
            if k < 3000:
                for d in (-1, 0, 1):
                    yield {'t': ''.join('# h%d\n' % i for i in range(k + 2)),
                           'o': {'keep': 6, 'skip': k + d,
                                 'parser': 'github'}}
        while True:
            if rng.random() < 0.3:
                t = D.document(rng, words=WORDS, wild=0.5, fences=0.2)
            else:
                t = D.document(rng)
            o = D.options(rng)
            yield {'t': t, 'o': {k: o[k] for k in ('keep', 'skip', 'parser')},
                   '_r': 1}

    @staticmethod
    def nontrivial(x):
        return bool(D.read(x['t'], x['o']['parser'], x['o']['skip']))

    @staticmethod
    def judge(x):
        t = x['t']
        o = dict(x['o'], ordered=False, no_links=True, no_indentation=True,
                 no_coherence=False, marker='-', constant=False, nl='\n')
        want = ''.join(
            '- %s\n' % e[1] for e in D.entries(t, o))
        got = D.build(t, o)
        if got != ('return', want):
            return 'lists %r, expected %r' % (got[1], want)
        with limit(20), stdin(t):
            got2 = D.call('-', o)
        if got2 != got:
            return 'standard input gives %r, the file gives %r' % (
                got2[1], got[1])
        # the other options do not change what is listed
        heads = D.read(t, o['parser'], o['skip'])
        o2 = dict(o, no_indentation=False, no_coherence=True, ordered=True)
        got3 = D.build(t, o2)
        n = sum(1 for h in heads if h[0] <= o['keep'])
        if got3[0] != 'return' or got3[1].count('\n') != n:
            return 'ordered TOC %r for %d listed headings' % (got3[1], n)
        return None


def links(toc):
    return re.findall(r'\(#(.*)\)\n', toc)


class C06:
    rule = ('documents with repeated headings, some too deep to be listed '
            'and some in fenced code, and sequences of calls; every anchor '
            'is compared with the slug of its text and the number of earlier '
            'headings with that slug; non-trivial: a slug is repeated')
    SEEDS = ('foo', 'Foo', 'foo!', '*foo*', 'foo-1', 'foo 1', 'bar', '!', '.',
             '- ', 'foo bar', 'foo-bar', 'foo  bar')

    @staticmethod
    def cases(rng, tier):
        import itertools
        n = 0
        for k in range(1, 5 if tier == 'quick' else 6):
            for t in itertools.product(('foo', 'Foo!', 'foo-1', 'b', '!'),
                                       repeat=k):
                n += 1
                yield {'h': [[('#', '##')[i % 2], s]
                             for i, s in enumerate(t)],
                       'parser': FAMILY[n % 5], 'keep': (6, 1)[n % 2]}
        for k in mined()[1]:
            if k < 1500:
                yield {'h': [['#', 'foo']] * (k + 3), 'parser': 'github',
                       'keep': 6}
        while True:
            ws = C06.SEEDS if rng.random() < 0.7 else D.PLAIN
            hs = []
            for _ in range(rng.randint(1, 14)):
                r = rng.random()
                if r < 0.07:
                    hs.append([rng.choice(D.FENCES), ''])
                elif r < 0.9:
                    hs.append(['#' * rng.randint(1, 4), rng.choice(ws)])
                else:
                    hs.append(['#' * rng.randint(1, 3),
                               text(rng, 1, 3).replace('\n', '')
                               .replace('\r', '')])
            yield {'h': hs, 'parser': rng.choice(FAMILY),
                   'keep': rng.choice((1, 2, 3, 6)), '_r': 1}

    @staticmethod
    def nontrivial(x):
        s = [h[1].lower() for h in x['h'] if h[0][:1] == '#']
        return len(set(s)) < len(s)

    @staticmethod
    def judge(x):
        p, keep = x['parser'], x['keep']
        t = ''.join('%s %s\n' % tuple(h) for h in x['h'])
        o = {'parser': p, 'keep': keep, 'ordered': False, 'no_links': False,
             'no_indentation': True, 'no_coherence': True, 'marker': '-',
             'constant': False, 'nl': '\n', 'skip': 0}
        want = []
        seen = {}
        for lev, s in D.read(t, p):
            kind, hs = outcome(api.get_atx_heading, s, keep, p, False)
            if kind != 'return':
                return None
            label = hs[0]['header_text_trimmed']
            # the slug that the program itself gives to the label alone
            kind, slug = outcome(api.build_anchor_link, label, {}, p)
            if kind != 'return':
                return None
            n = seen.get(slug, 0)
            seen[slug] = n + 1
            if lev <= keep:
                want.append((label, slug if n == 0 else
                             '%s-%d' % (slug, n)))
        want = ''.join('- [%s](#%s)\n' % w for w in want)
        for again in range(2):
            got = D.build(t, o)
            if got[0] == 'raise':
                return 'raises %s' % got[1]
            if got[1] != want:
                return 'TOC %r, expected %r' % (got[1], want)
        return None


class C09:
    rule = ('sequences of heading levels (all of a bounded length, then '
            'random ones), ordered and unordered, all markers, long lists '
            'with numbers of several digits; non-trivial: an entry is '
            'deeper than the preceding one')

    @staticmethod
    def cases(rng, tier):
        n = 0
        for w in walks(tier):
            n += 1
            ordered = n % 2 == 0
            yield {'l': list(w), 'o': {
                'ordered': ordered, 'marker': '.)'[n % 3 % 2] if ordered
                else '-+*'[n % 3], 'constant': n % 7 == 0 and ordered,
                'parser': PARSERS[n % 6], 'no_indentation': n % 11 == 0}}
        while True:
            o = D.options(rng)
            k = rng.randint(1, 12)
            r = rng.random()
            if r < 0.15:
                # wide markers
                ls = [1] * rng.choice((9, 10, 11, 99, 100, 101)) + [2, 3]
                ls += D.walk(rng, 6)
                if rng.random() < 0.3:
                    ls = [1, 2] + [3] * 12 + [4, 2] + [3] * 11 + [4, 3, 4]
            elif r < 0.2:
                ls = [1] + [2] * rng.choice([q + 1 for q in mined()[1]
                                             if q < 500] or [9]) + [3, 1]
            else:
                ls = D.walk(rng, k)
            yield {'l': ls, 'o': {k: o[k] for k in (
                'ordered', 'marker', 'constant', 'parser',
                'no_indentation')}, '_r': 1}

    @staticmethod
    def nontrivial(x):
        return any(b > a for a, b in zip(x['l'], x['l'][1:]))

    @staticmethod
    def full(x):
        return dict({'keep': 6, 'no_links': True, 'no_coherence': True,
                     'nl': '\n', 'skip': 0, 'no_indentation': False,
                     'constant': False}, **x['o'])

    @staticmethod
    def judge(x):
        o = C09.full(x)
        ls = x['l']
        t = doc_of(ls)
        try:
            nums = D.numbers(ls, o)
        except E.GithubOverflowOrderedListMarker:
            return None
        ind = D.indentation(ls, nums, o)
        oks = [o]
        if D.coherent(ls):
            oks.append(dict(o, no_coherence=False))
        for q in oks:
            got = D.build(t, q)
            if got[0] != 'return':
                return 'raises %s' % got[1]
            rows = got[1].split('\n')[:-1]
            have = [len(r) - len(r.lstrip(' ')) for r in rows]
            if have != ind:
                return 'indentation %r, expected %r: %r' % (have, ind,
                                                            got[1])
        # the step function on its own
        return None


class C10:
    rule = ('sequences of heading levels (all of a bounded length, then '
            'random ones), with headings that are not listed and fenced '
            'code in between; non-trivial: the levels are not coherent')

    @staticmethod
    def cases(rng, tier):
        n = 0
        for w in walks(tier):
            n += 1
            yield {'l': list(w), 'keep': (6, 3, 2)[n % 3],
                   'parser': PARSERS[n % 6], 'ordered': n % 2 == 0}
        while True:
            yield {'l': D.walk(rng, rng.randint(1, 25)),
                   'keep': rng.randint(1, 6), 'parser': rng.choice(PARSERS),
                   'ordered': rng.random() < 0.4, '_r': 1}

    @staticmethod
    def nontrivial(x):
        return not D.coherent([lv for lv in x['l'] if lv <= x['keep']])

    @staticmethod
    def judge(x):
        ls = [lv for lv in x['l'] if lv <= x['keep']]
        ok = D.coherent(ls)
        for same in (False, True):
            t = doc_of(x['l'], same)
            for no_ind, no_coh in ((False, False), (True, False),
                                   (False, True)):
                for nol in (True, False):
                    o = {'keep': x['keep'], 'parser': x['parser'],
                         'ordered': x['ordered'], 'no_links': nol,
                         'no_indentation': no_ind, 'no_coherence': no_coh,
                         'marker': '-', 'constant': False, 'nl': '\n',
                         'skip': 0}
                    kind, got = D.build(t, o)
                    bad = (kind, got) == ('raise',
                                          'TocDoesNotRenderAsCoherentList')
                    due = not ok and not no_ind and not no_coh
                    if bad != due:
                        return ('levels %r: %s, no_indentation=%r '
                                'no_list_coherence=%r' % (
                                    ls, 'refused' if bad else 'accepted',
                                    no_ind, no_coh))
        return None


class C11:
    rule = ('sequences of heading levels (all of a bounded length, then '
            'random ones) in ordered lists, and single steps of the counter '
            'around its limit; non-trivial: a number above one')

    @staticmethod
    def cases(rng, tier):
        n = 0
        top = L.MAX_NUMBER
        for p in PARSERS:
            for v in (0, 1, 8, 9, top - 2, top - 1, top, top + 1):
                for prev in range(0, 7):
                    for cur in range(1, 7):
                        yield {'step': [v, prev, cur], 'parser': p}
        for w in walks(tier):
            n += 1
            yield {'l': list(w), 'parser': PARSERS[n % 6],
                   'constant': n % 5 == 0, 'marker': '.)-'[n % 3],
                   'no_indentation': n % 4 == 0}
        while True:
            k = rng.choice((3, 8, 12, 30))
            if rng.random() < 0.05:
                k = rng.choice([q + 2 for q in mined()[1] if q < 800]
                               or [100])
            yield {'l': D.walk(rng, k) if rng.random() < 0.7
                   else [rng.choice((2, 2, 2, 2, 3)) for _ in range(k)],
                   'parser': rng.choice(PARSERS),
                   'constant': rng.random() < 0.1,
                   'marker': rng.choice('.)-+'),
                   'no_indentation': rng.random() < 0.3, '_r': 1}

    @staticmethod
    def nontrivial(x):
        return 'step' in x or len(x['l']) > 1

    @staticmethod
    def judge(x):
        p = x['parser']
        if 'step' in x:
            v, prev, cur = x['step']
            if not hasattr(api, 'increase_index_ordered_list'):
                return None
            a = {'h%d' % cur: v} if v else {}
            a['h%d' % (cur % 6 + 1)] = 5
            b = dict(a)
            got = outcome(api.increase_index_ordered_list, a, prev, cur, p)
            want = outcome(L.increase, b, prev, cur, p)
            if got[0] != want[0] or (got[0] == 'raise' and got != want):
                return 'counter step: %r, expected %r' % (got, want)
            if got[0] == 'return' and a != b:
                return 'counters %r, expected %r' % (a, b)
            return None
        ls = x['l']
        o = {'keep': 6, 'parser': p, 'ordered': True, 'no_links': True,
             'no_indentation': x['no_indentation'], 'no_coherence': True,
             'marker': x['marker'], 'constant': x['constant'], 'nl': '\n',
             'skip': 0}
        nums = D.numbers(ls, o)
        for ordered in (True, False):
            if not ordered and not x['constant']:
                continue
            for coh in (True, False):
                if not coh and not D.coherent(ls):
                    continue
                q = dict(o, ordered=ordered, no_coherence=coh)
                kind, got = D.build(doc_of(ls), q)
                if kind != 'return':
                    return 'raises %s' % got
                have = []
                for r in got.split('\n')[:-1]:
                    m = re.match(r' *(\d+)[.)] ', r)
                    have.append(int(m.group(1)) if m else r)
                if have != nums:
                    return 'numbers %r, expected %r' % (have, nums)
        return None


class C12:
    rule = ('documents with random options; every line of the TOC is '
            'compared with its parts put together; non-trivial: the TOC is '
            'not empty')

    @staticmethod
    def cases(rng, tier):
        n = 0
        for p in PARSERS:
            for m in ('-', '+', '*', '.', ')', 'x', '', '--', '1'):
                for ordered in (False, True):
                    for c in (False, True):
                        for nol in (False, True):
                            yield {'t': '# A b\n## c\n', 'o': {
                                'parser': p, 'ordered': ordered,
                                'no_links': nol, 'no_indentation': False,
                                'no_coherence': False, 'keep': 3,
                                'marker': m, 'skip': 0, 'constant': c,
                                'nl': ('\n', '\r\n', '\r', '')[n % 4]}}
                            n += 1
        for w in mined()[0]:
            for f in ('# %s', '# a%s', '# a %s b'):
                for nol in (False, True):
                    yield {'t': f % w.replace('\n', '').replace('\r', ''),
                           'o': D.options(rng, parser=FAMILY[n % 5], keep=6,
                                          no_links=nol)}
                    n += 1
        while True:
            r = rng.random()
            t = D.document(rng, words=WORDS if r < 0.4 else D.PLAIN)
            yield {'t': t, 'o': D.options(rng), '_r': 1}

    @staticmethod
    def nontrivial(x):
        return bool(D.read(x['t'], x['o']['parser'], x['o']['skip']))

    @staticmethod
    def judge(x):
        t, o = x['t'], x['o']
        p = o['parser']
        # texts, anchors, numbers and indentation come from the program; the
        # layout is what is checked
        parts = []
        counter = {}
        for lev, s in D.read(t, p, o['skip']):
            kind, hs = outcome(api.get_md_header, s, counter, o['keep'], p,
                               o['no_links'])
            if kind != 'return':
                return None
            if hs[0] is not None and hs[0]['visible']:
                parts.append(hs[0])
        levels = [h['header_type'] for h in parts]
        due = None
        if not o['no_indentation'] and not o['no_coherence'] and \
                not D.coherent(levels):
            due = 'TocDoesNotRenderAsCoherentList'
        ordered, m = D.list_marker(o)
        if levels and not ordered and m not in L.bullets(p):
            due = 'ValueError'
        got = D.build(t, o)
        if due:
            if got[0] != 'raise':
                return 'TOC %r, expected an error' % (got[1], )
            return None
        nums = D.numbers(levels, o)
        ind = D.indentation(levels, nums, o)
        want = ''
        for h, n, k in zip(parts, nums, ind):
            want += ' ' * k + ('%d%s' % (n, m) if ordered else m) + ' '
            if o['no_links']:
                want += h['text_original']
            else:
                want += '[%s](#%s)' % (h['text_original'],
                                       h['text_anchor_link'])
            want += o['nl']
        if got != ('return', want):
            return 'TOC %r, expected %r' % (got[1], want)
        return None


class C18:
    rule = ('documents of arbitrary headings with random options; an error '
            'must be one of the documented ones and no run may hang; '
            'non-trivial: the document has a heading')

    @staticmethod
    def cases(rng, tier):
        n = 0
        for alpha, k in (('*_a', 7), ('`\\*[', 5), ('<a>*', 5), ('[](!', 6),
                         ('&;#x', 5), ('*a ', 7), ('"\'(.-', 5),
                         ('[*]_\\', 5)):
            if tier != 'quick':
                k += 2
            for s in strings(alpha, k):
                n += 1
                yield {'t': '# ' + s, 'o': {
                    'parser': FAMILY[n % 5] if n % 9 else 'redcarpet',
                    'ordered': n % 5 == 0, 'no_links': n % 3 == 0,
                    'no_indentation': False, 'no_coherence': False,
                    'keep': 6, 'marker': '-', 'skip': 0, 'constant': False,
                    'nl': '\n'}}
        while True:
            t = D.document(rng, words=WORDS, wild=0.6, big=False, maxn=4)
            yield {'t': t, 'o': D.options(rng), '_r': 1}

    @staticmethod
    def nontrivial(x):
        return '#' in x['t']

    @staticmethod
    def judge(x):
        kind, got = D.build(x['t'], x['o'])
        if kind == 'raise' and got not in DOCUMENTED:
            return 'raises %s' % got
        if kind == 'return' and not isinstance(got, str):
            return 'returns %r' % (got, )
        if kind == 'exit':
            return 'ends the program'
        return None


class C20:
    rule = ('lists of up to five documents with common headings, some given '
            'twice, built together and one by one, and written together and '
            'one by one; non-trivial: at least two files')

    @staticmethod
    def cases(rng, tier):
        n = 0
        few = ('# a\n', '# a\n## b\n', '## a\n', '# a\n# a\n', '```\n# a\n',
               '', '# b\n### c\n', '<!--TOC-->\n# a\n',
               '<!--TOC-->\n\n- [a](#a)\n\n<!--TOC-->\n# a\n')
        for a in few:
            for b in few:
                for c in (None, ) + few:
                    n += 1
                    ts = [a, b] + ([c] if c is not None else [])
                    yield {'ts': ts, 'o': {
                        'parser': PARSERS[n % 6], 'ordered': n % 2 == 0,
                        'no_links': n % 3 == 0, 'no_indentation': n % 7 == 0,
                        'no_coherence': n % 3 != 0, 'keep': 6, 'marker': '-',
                        'skip': 0, 'constant': n % 5 == 0, 'nl': '\n'},
                        'order': list(range(len(ts)))}
        while True:
            k = rng.randint(1, 4)
            ts = []
            for _ in range(k):
                t = D.document(rng, big=False)
                if rng.random() < 0.6:
                    t = rng.choice(('<!--TOC-->\n', 'x\n<!--TOC-->\n',
                                    '<!--TOC-->\n\n<!--TOC-->\n',
                                    '<!--TOC-->\n\n- old\n\n<!--TOC-->\n')
                                   ) + t
                ts.append(t)
            order = list(range(k))
            if rng.random() < 0.4:
                order = [rng.randrange(k) for _ in range(rng.randint(1, 5))]
            yield {'ts': ts, 'o': D.options(rng, skip=0), 'order': order,
                   '_r': 1}

    @staticmethod
    def nontrivial(x):
        return len(x['order']) > 1

    @staticmethod
    def judge(x):
        from .common import get
        o = x['o']
        paths = [put('d%d.md' % i, t) for i, t in enumerate(x['ts'])]
        names = [paths[i] for i in x['order']]
        before = [get(p) for p in paths]
        single = []
        with limit(30):
            for n in names:
                single.append(D.call(n, o))
            given = list(names)
            many = outcome(
                api.build_multiple_tocs, given, ordered=o['ordered'],
                no_links=o['no_links'], no_indentation=o['no_indentation'],
                no_list_coherence=o['no_coherence'],
                keep_header_levels=o['keep'], parser=o['parser'],
                list_marker=o['marker'], skip_lines=o['skip'],
                constant_ordered_list=o['constant'], newline_string=o['nl'])
        bad = [s for s in single if s[0] == 'raise']
        if bad:
            if many != bad[0]:
                return 'together %r, alone %r' % (many, bad[0])
            return None
        want = ('return', [s[1] for s in single])
        if many != want:
            return 'together %r, alone %r' % (many[1], want[1])
        if given != names:
            return 'the list of names was changed to %r' % (given, )
        tocs = many[1]
        eq = True
        after = []
        with limit(30):
            # one by one
            for n, s in zip(names, tocs):
                k, e = outcome(api.write_string_on_file_between_markers, n, s,
                               '<!--TOC-->', o['nl'])
                if k != 'return':
                    return None
                eq = eq and e
            after = [get(p) for p in paths]
            for p, b in zip(paths, before):
                with open(p, 'wb') as f:
                    f.write(b)
            k, e = outcome(api.write_strings_on_files_between_markers, names,
                           tocs, '<!--TOC-->', o['nl'])
        if k != 'return' or bool(e) != bool(eq):
            return 'writing together: %r, one by one: %r' % (e, eq)
        if [get(p) for p in paths] != after:
            return 'writing together gives %r, one by one %r' % (
                [get(p) for p in paths], after)
        k, e = outcome(api.write_strings_on_files_between_markers, names,
                       tocs + ['x'], '<!--TOC-->', o['nl'])
        if (k, e) != ('raise', 'ValueError'):
            return 'more TOCs than files: %r' % (e, )
        if [get(p) for p in paths] != after:
            return 'more TOCs than files: a file was written'
        return None
