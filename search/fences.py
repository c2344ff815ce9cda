"""Search for C04 (fenced code)."""
from contracts import fences as F
from md_toc import api

from .common import (FAMILY, PARSERS, limit, mined, outcome, put, strings)


def code_lines(lines, parser):
    """For every line, whether it belongs to a fenced code block."""
    out = []
    fence = None
    for ln in lines:
        if fence is not None:
            out.append(True)
            if F.closing_fence(ln, fence, False, parser):
                fence = None
        else:
            fence = F.opening_fence(ln, parser)
            out.append(fence is not None)
    return out


PIECES = ('```', '~~~', '````', '~~~~', '``', '~~', '   ```', '    ```',
          '``` ', '```\t', '~~~ ', '``` x', '~~~ x', '``` a`b', '~~~ a~b',
          '~~~ `', '```~', '~~~`', ' ~~~~~', '`````', '\t```', '``` \x0b',
          '```\xa0', '~~~\t ', '', 'text', '    ', '> ```', '- ```',
          '```py\tx')


class C04:
    rule = ('single lines over small alphabets against the rules for opening '
            'and closing fences, and documents of fence-like lines and '
            'headings through the TOC; non-trivial: a fence is opened')

    @staticmethod
    def cases(rng, tier):
        n = 0
        for s in strings('`~ a', 6 if tier == 'quick' else 8):
            n += 1
            yield {'line': s, 'fence': ('```', '~~~', '````')[n % 3],
                   'parser': PARSERS[n % 6]}
            if '```' in s or '~~~' in s:
                for p in ('github', 'cmark', 'redcarpet'):
                    yield {'line': s + '\n', 'fence': '```', 'parser': p}
                    yield {'line': s + '\n', 'fence': '~~~', 'parser': p}
        for s in strings(' \t\n\x0ba', 4):
            for f in ('```', '~~~'):
                for p in FAMILY:
                    yield {'line': f + s, 'fence': f, 'parser': p}
        for k in mined()[1]:
            if k < 200:
                for d in (-1, 0, 1):
                    for c in '`~':
                        yield {'line': c * (k + d), 'fence': c * max(3, k),
                               'parser': 'cmark'}
                        yield {'line': c * (k + d) + ' \n', 'fence': c * 3,
                               'parser': 'github'}
        for w in mined()[0]:
            for f in ('```%s', '~~~%s', '%s```', '``` %s'):
                for p in FAMILY:
                    yield {'line': f % w.replace('\n', ''), 'fence': '```',
                           'parser': p}
        while True:
            doc = []
            for k in range(rng.randint(1, 9)):
                r = rng.random()
                if r < 0.45:
                    doc.append('# h%d' % k)
                elif r < 0.9:
                    doc.append(rng.choice(PIECES))
                else:
                    doc.append(rng.choice((' ', '', '  ', '   ')) +
                               rng.choice('`~') * rng.randint(2, 7) +
                               rng.choice(('', ' ', '\t', 'x', ' `', '~')))
            yield {'doc': doc, 'parser': rng.choice(PARSERS),
                   'nl': rng.random() < 0.8}

    @staticmethod
    def nontrivial(x):
        if 'line' in x:
            return '```' in x['line'] or '~~~' in x['line']
        return any(code_lines([d + '\n' for d in x['doc']], x['parser']))

    @staticmethod
    def judge(x):
        p = x['parser']
        if 'line' in x:
            ln = x['line']
            if hasattr(api, 'is_opening_code_fence'):
                with limit():
                    got = outcome(api.is_opening_code_fence, ln, p)
                want = ('return', F.opening_fence(ln, p))
                if got != want:
                    return 'opening fence of %r is %r, expected %r' % (
                        ln, got[1], want[1])
            if hasattr(api, 'is_closing_code_fence'):
                for end in (False, True):
                    with limit():
                        got = outcome(api.is_closing_code_fence, ln,
                                      x['fence'], end, p)
                    want = ('return', F.closing_fence(ln, x['fence'], end, p))
                    if got != want:
                        return 'closing fence %r for %r: %r, expected %r' % (
                            ln, x['fence'], got[1], want[1])
            doc = ['# a', ln.replace('\n', ''), '# b', x['fence'], '# c']
            nl = True
        else:
            doc, nl = x['doc'], x['nl']
        lines = [d + '\n' for d in doc]
        if not nl:
            lines[-1] = lines[-1][:-1]
        code = code_lines(lines, p)
        want = ''.join('- %s\n' % d[2:] for d, c in zip(doc, code)
                       if not c and d.startswith('# '))
        if any(ord(c) in (0x0b, 0x0c, 0x0d, 0x85, 0x2028) for d in doc
               for c in d) or any(d.lstrip().startswith('#') and
                                  not d.startswith('# ') for d in doc):
            return None
        with limit():
            got = outcome(api.build_toc, put('c04.md', ''.join(lines)),
                          no_links=True, no_indentation=True, parser=p,
                          newline_string='\n')
        if got != ('return', want):
            return 'document %r lists %r, expected %r' % (doc, got[1], want)
        return None
