"""Searches for C01, C02 and C03 (headings on single and multiple lines)."""
import itertools

from contracts import headings as H
from md_toc import api

from .common import (FAMILY, KEY_PARSERS, PARSERS, heading_line, limit, mined,
                     outcome, strings, text)


def sublines(line):
    """The lines of a text: CR, LF and CRLF end a line, line endings at the
    beginning and at the end of the text are dropped."""
    t = line.replace('\r\n', '\n').replace('\r', '\n').strip('\n')
    return t.split('\n')


def expected(line, keep, parser):
    """[(level or None, visible, text or None)] without links."""
    if line == '':
        return [(None, False, None)]
    out = []
    for s in sublines(line):
        h = H.heading(s, keep, parser, True)
        out.append((h['header_type'], h['visible'],
                    h['header_text_trimmed']))
    return out


def line_cases(rng, tier, parsers=KEY_PARSERS):
    keeps = (1, 2, 3, 6)
    n = 0
    for alpha, k in ((' #\ta', 6 if tier == 'quick' else 8),
                     ('# a\\', 5), ('#a \n', 6), ('# \r\na', 5),
                     ('#', 10), (' #', 9 if tier == 'quick' else 12)):
        for s in strings(alpha, k):
            n += 1
            yield {'line': s, 'keep': keeps[n % 4],
                   'parser': parsers[n % len(parsers)]}
            if len(s) <= 5:
                for p in PARSERS:
                    yield {'line': s, 'keep': 6, 'parser': p}
    for w in mined()[0]:
        for f in ('# %s', '## a%s', '%s# a', '# a %s #', '#%s'):
            for p in PARSERS:
                yield {'line': f % w, 'keep': 6, 'parser': p}
    for k in mined()[1] + (100, 998, 999, 1000, 1001):
        for d in (-1, 0, 1):
            for f in ('a', ' a', 'a#', '[', '\\', '#'):
                t = (f * (k + d))[:max(0, k + d)]
                yield {'line': '# ' + t, 'keep': 6,
                       'parser': parsers[(k + d) % len(parsers)]}
                if k < 64:
                    yield {'line': '# a' + ' ' * (k + d) + 'b #' + '\n',
                           'keep': 6, 'parser': parsers[k % len(parsers)]}
    while True:
        k = 1 if rng.random() < 0.8 else rng.randint(1, 5)
        ls = []
        for _ in range(k):
            ls.append(heading_line(rng) if rng.random() < 0.8 else text(rng))
            ls.append(rng.choice(('\n', '\n', '\r', '\r\n', '\n\n', '\n\r')))
        if rng.random() < 0.5:
            ls.pop()
        yield {'line': ''.join(ls), 'keep': rng.randint(1, 7),
               'parser': rng.choice(PARSERS)}


def call(line, keep, parser, no_links):
    with limit():
        return outcome(api.get_atx_heading, line, keep, parser, no_links)


def ref(f, *a):
    try:
        return f(*a)
    except RecursionError:
        return None


class C01:
    rule = ('lines over small alphabets enumerated, then random lines of '
            'headings and text (several per call included); non-trivial: '
            'the line starts an ATX heading')

    @staticmethod
    def cases(rng, tier):
        return line_cases(rng, tier)

    @staticmethod
    def nontrivial(x):
        return x['line'].lstrip(' ').startswith('#')

    @staticmethod
    def judge(x):
        line, keep, parser = x['line'], x['keep'], x['parser']
        want = [w[:2] for w in expected(line, keep, parser)]
        for nl in (True, False):
            kind, got = call(line, keep, parser, nl)
            if kind == 'raise':
                if nl:
                    return 'raises %s' % got
                continue
            got = [(g['header_type'], g['visible']) for g in got]
            if got != want:
                return 'levels and visibility %r, expected %r (no_links=%r)' \
                    % (got, want, nl)
        kind, got = outcome(api.get_md_header, line, {}, keep, parser, True)
        if kind == 'return':
            got = [None if g is None else (g['header_type'], g['visible'])
                   for g in got]
            w2 = [None if w[0] is None else w for w in want]
            if got != w2:
                return 'headings %r, expected %r' % (got, w2)
        return None


class C02:
    rule = C01.rule
    cases = C01.cases
    nontrivial = C01.nontrivial

    @staticmethod
    def judge(x):
        line, keep, parser = x['line'], x['keep'], x['parser']
        want = expected(line, keep, parser)
        kind, got = call(line, keep, parser, True)
        if kind == 'raise':
            return None
        if len(got) != len(want):
            return None
        for g, w in zip(got, want):
            if g['header_type'] is None or g['header_type'] != w[0]:
                continue
            if g['header_text_trimmed'] != w[2]:
                return 'text %r, expected %r' % (g['header_text_trimmed'],
                                                 w[2])
        kind, md = outcome(api.get_md_header, line, {}, keep, parser, True)
        if kind == 'return':
            for g, h in zip(got, md):
                if h is not None and (h['text_original']
                                      != g['header_text_trimmed']):
                    return 'text %r becomes %r' % (g['header_text_trimmed'],
                                                   h['text_original'])
        return None


class C03:
    rule = ('headings of the CommonMark family with backslashes, brackets, '
            'blank and long texts; non-trivial: the text has a bracket or a '
            'backslash, or is blank or long')

    @staticmethod
    def cases(rng, tier):
        n = 0
        for s in strings('[\\]a', 6 if tier == 'quick' else 8):
            n += 1
            yield {'line': '# ' + s, 'parser': FAMILY[n % 5]}
        for s in strings(' \t\x0b\x0c#', 4):
            n += 1
            yield {'line': '#' + s, 'parser': FAMILY[n % 5]}
            yield {'line': '# ' + s, 'parser': FAMILY[n % 5]}
        for k in range(990, 1010):
            for c in ('a', '[', '\\', ']', '\\[', 'a\\', '\\\\'):
                t = (c * k)[:k]
                yield {'line': '# ' + t, 'parser': 'github'}
                yield {'line': '# ' + t + '\n', 'parser': 'cmark'}
        for w in mined()[0]:
            for f in ('# %s', '# [%s', '# %s]', '# \\%s', '# [%s]', '# %s\\'):
                yield {'line': f % w, 'parser': 'github'}
                yield {'line': f % w, 'parser': 'cmark'}
        words = ('[', ']', '\\', '\\\\', 'a', ' ', '\x0b', '\t', '#', '(',
                 ')', '`', '*', '\xa0', '\x1c')
        while True:
            r = rng.random()
            p = rng.choice(FAMILY)
            if r < 0.6:
                yield {'line': '# ' + text(rng, 0, 9, words), 'parser': p}
            else:
                yield {'line': heading_line(rng), 'parser': p}

    @staticmethod
    def nontrivial(x):
        t = x['line'].lstrip(' #')
        return (not t.strip() or len(t) > 990
                or any(c in t for c in '[]\\'))

    @staticmethod
    def judge(x):
        line, parser = x['line'], x['parser']
        if parser == 'redcarpet':
            return None
        kind, plain = call(line, 6, parser, True)
        if kind != 'return' or len(plain) != 1:
            return None
        kind, got = call(line, 6, parser, False)
        lev, t = plain[0]['header_type'], plain[0]['header_text_trimmed']
        if lev is None:
            if kind == 'raise':
                return 'raises %s on a line that is not a heading' % got
            return None
        t = H.guarded(t)
        if H.span(t, 0, H.WS) == len(t):
            if (kind, got) != ('raise', 'GithubEmptyLinkLabel'):
                return 'blank link label accepted: %r' % (got, )
            return None
        if len(t) > 999:
            if (kind, got) != ('raise', 'GithubOverflowCharsLinkLabel'):
                return 'link label of %d characters: %r' % (len(t), got)
            return None
        want = H.escaped(t, len(t))
        if kind != 'return':
            return 'raises %s, expected the label %r' % (got, want)
        if got[0]['header_text_trimmed'] != want:
            return 'link label %r, expected %r' % (
                got[0]['header_text_trimmed'], want)
        return None
