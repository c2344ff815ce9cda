"""Searches for C07 and C08 (anchors) and C17 (emphasis)."""
from contracts import anchors as AN
from md_toc import api

from .common import (FAMILY, PARSERS, WORDS, limit, mined, outcome, strings,
                     text)

CHARS = ''.join(chr(c) for c in range(1, 256) if chr(c) not in '\n\r') + \
    'ĀİıſßẞΣςﬁ漢字é²٣\u2028\u2029\u200d\u0301\U0001f600\u2160ª·_'


def one(rng, hi=6):
    t = text(rng, 0, hi).replace('\n', ' ').replace('\r', ' ')
    if rng.random() < 0.3:
        k = rng.randint(0, len(t))
        t = t[:k] + rng.choice(CHARS) + t[k:]
    return t


class C07:
    rule = ('heading texts: every character of a list alone and between '
            'letters, enumerated texts over small alphabets of tags and '
            'hyphens, random texts; the anchor is compared with the slug '
            'rule; non-trivial: the slug differs from the text')

    @staticmethod
    def cases(rng, tier):
        n = 0
        for c in CHARS:
            for f in ('%s', 'a%sb', '%s%s', 'A %s', '%s-'):
                n += 1
                yield {'t': f.replace('%s', c), 'parser': FAMILY[n % 5]}
                yield {'t': f.replace('%s', c), 'parser': 'gitlab'}
        tags = ('<a>', '</a>', '<A b="c">', '<a b=c>', "<a b='c'/>", '<!-- -->',
                '<!--a-->', '<!---->', '<?a?>', '<??>', '<1>', '< a>', '<a',
                'a>', '<title>', '<TEXTAREA>', '<script x>', '</title>',
                '<xmp/>', '<a  b >', '<a b = c>', '<a/ >', '<a:b>', '<a-1>',
                '<!-- a -- b -->', '<!-->', '<!--->', '<!--->-->', '<a\tb>',
                '</a >', '</ a>', '<a b="<c>">', '<!a b>', '<!A B>',
                '<![CDATA[x]]>', '<a><b>', '<a b=`>', '<a @>', '<iframe>',
                '<noembed>', '<style>', '<plaintext>', '<titled>', '<noframes>')
        for t in tags:
            for f in ('%s', 'x%sy', '%s z', '%s%s'):
                for p in FAMILY:
                    yield {'t': f.replace('%s', t), 'parser': p}
        for s in strings('<>a/ ', 6 if tier == 'quick' else 7):
            n += 1
            yield {'t': s, 'parser': FAMILY[n % 5]}
        for s in strings('- A.', 5):
            n += 1
            yield {'t': s, 'parser': FAMILY[n % 5]}
            yield {'t': s, 'parser': 'gitlab'}
        for w in mined()[0]:
            for f in ('%s', 'a %s b', '%s%s'):
                for p in FAMILY:
                    yield {'t': f.replace('%s', w).replace(
                        '\n', '').replace('\r', ''), 'parser': p}
        while True:
            if rng.random() < 0.3:
                t = ''.join(rng.choice(tags + ('a', ' ', '-', 'B'))
                            for _ in range(rng.randint(1, 4)))
            else:
                t = one(rng)
            yield {'t': t, 'parser': rng.choice(FAMILY), '_r': 1}

    @staticmethod
    def nontrivial(x):
        return x['t'].isalnum() is False

    @staticmethod
    def judge(x):
        t, p = x['t'], x['parser']
        with limit():
            kind, got = outcome(api.build_anchor_link, t, {}, p)
        if '\n' in t or '\r' in t:
            return None
        try:
            with limit():
                want = AN.slug(t, p)
        except RecursionError:
            return None
        except Exception:
            return None
        if (kind, got) != ('return', want):
            return 'anchor %r, expected %r' % (got, want)
        # nothing but the text counts
        with limit():
            again = outcome(api.build_anchor_link, t, {'x': 7}, p)
        if again != (kind, got):
            return 'anchor %r and then %r' % (got, again[1])
        return None


class C08:
    rule = ('heading texts over small alphabets (enumerated) and random '
            'ones; the anchor is compared with the redcarpet rule; '
            'non-trivial: a character is dropped')

    @staticmethod
    def cases(rng, tier):
        for c in CHARS + AN.STRIPPED:
            for f in ('%s', 'a%sb', '%s%s', '%sa', 'a%s', 'A %s'):
                yield {'t': f.replace('%s', c)}
        for a, k in (('a-<>', 7), ('a &;', 6), ('B.é', 6), ('<a&>;', 5),
                     ('.!', 10), ('_-1', 6)):
            for s in strings(a, k if tier == 'quick' else k + 2):
                yield {'t': s}
        for w in mined()[0]:
            for f in ('%s', 'a%sb', '%s%s', '.%s'):
                yield {'t': f.replace('%s', w).replace('\n', '').replace(
                    '\r', '')}
        for k in mined()[1]:
            if k < 1200:
                for s in ('a', '.', 'a.', '<', '&a;'):
                    yield {'t': (s * k)[:k]}
        while True:
            yield {'t': one(rng, 9), '_r': 1}

    @staticmethod
    def nontrivial(x):
        return any(AN.dropped(c) for c in x['t'])

    @staticmethod
    def judge(x):
        t = x['t']
        counter = {}
        with limit():
            kind, got = outcome(api.build_anchor_link, t, counter,
                                'redcarpet')
        want = AN.redcarpet_anchor(t)
        if (kind, got) != ('return', want):
            return 'anchor %r, expected %r' % (got, want)
        with limit():
            again = outcome(api.build_anchor_link, t, counter, 'redcarpet')
        if again != (kind, got):
            return 'anchor %r and then %r' % (got, again[1])
        return None


def subsequence(a, b):
    """b is a without some * and _."""
    i = 0
    for c in a:
        if i < len(b) and b[i] == c:
            i += 1
        elif c not in '*_':
            return False
    return i == len(b)
