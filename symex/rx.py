"""Backtracking matcher for `re` patterns on SymStr subjects (ASCII semantics are exact; classes such as
\\d on non-ASCII characters use the real Unicode tables through a range list)."""
import re
import sys
import functools
try:
    from re import _parser as sre_parse, _constants as C
except ImportError:
    import sre_parse
    import sre_constants as C
from symex import engine as E
from symex import sym as S
from symex.strs import SymStr, ch_eq, ch_code, code_eq, digit_of


@functools.lru_cache(None)
def _ranges(kind):
    f = {'digit': re.compile(r'\d').match, 'space': re.compile(r'\s').match, 'word': re.compile(r'\w').match}[kind]
    out, start = [], None
    for c in range(0x110000):
        ok = f(chr(c)) is not None
        if ok and start is None:
            start = c
        elif not ok and start is not None:
            out.append((start, c - 1))
            start = None
    if start is not None:
        out.append((start, 0x10FFFF))
    return out


def _cat(cat, c):
    neg = False
    name = str(cat).lower()
    if 'not_' in name:
        neg = True
    kind = 'digit' if 'digit' in name else 'space' if 'space' in name else 'word'
    r = S.Or([S.And(c >= a, c <= b) if a != b else c == a for a, b in _ranges(kind)])
    return S.Not(r) if neg else r


def _in(items, c):
    d = digit_of(c)
    if d is not None:
        known = {bool(_in(items, ord(x))) for x in d[4]}
        if len(known) == 1:
            return known.pop()
    neg = False
    conds = []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            conds.append(c == av)
        elif op is C.RANGE:
            conds.append(S.And(c >= av[0], c <= av[1]))
        elif op is C.CATEGORY:
            conds.append(_cat(av, c))
        else:
            raise E.Inconclusive('re set op')
    r = S.Or(conds)
    return S.Not(r) if neg else r


class Matcher:
    def __init__(self, real, chars):
        self.tree = sre_parse.parse(real.pattern, real.flags & ~re.UNICODE)
        if real.flags & re.IGNORECASE:
            raise E.Inconclusive('IGNORECASE')
        self.flags = real.flags
        self.codes = [ch_code(c) for c in chars]
        self.n = len(self.codes)

    def seq(self, items, i, pos, groups, k):
        """match items[i:] at pos, then call continuation k(pos, groups); first success wins"""
        if i == len(items):
            return k(pos, groups)
        op, av = items[i]
        nxt = lambda p, g: self.seq(items, i + 1, p, g, k)
        if op is C.LITERAL or op is C.NOT_LITERAL or op is C.ANY or op is C.IN:
            if pos >= self.n:
                return None
            c = self.codes[pos]
            if op is C.LITERAL:
                ok = code_eq(c, av)
            elif op is C.NOT_LITERAL:
                ok = S.Not(code_eq(c, av))
            elif op is C.ANY:
                ok = True if self.flags & re.DOTALL else c != 10
            else:
                ok = _in(av, c)
            return nxt(pos + 1, groups) if ok else None
        if op is C.SUBPATTERN:
            group, add, rem, sub = av
            if group is None:
                return self.seq(list(sub), 0, pos, groups, nxt)

            def close(p, g):
                g = dict(g)
                g[group] = (pos, p)
                return nxt(p, g)
            return self.seq(list(sub), 0, pos, groups, close)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, pos, groups, nxt)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)

            def rep(count, p, g):
                def more():
                    if count < hi and count <= self.n + lo:
                        return self.seq(sub, 0, p, g, lambda p2, g2: None if (p2 == p and count >= lo) else rep(count + 1, p2, g2))
                    return None
                if count < lo:
                    return more()
                if op is C.MAX_REPEAT:
                    r = more()
                    return r if r is not None else nxt(p, g)
                r = nxt(p, g)
                return r if r is not None else more()
            return rep(0, pos, groups)
        if op is C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                ok = pos == 0
            elif av is C.AT_END_STRING:
                ok = pos == self.n
            elif av is C.AT_END:
                ok = pos == self.n or (pos == self.n - 1 and self.codes[pos] == 10)
            else:
                raise E.Inconclusive('re anchor')
            return nxt(pos, groups) if ok else None
        if op is C.ASSERT:
            d, sub = av
            if d < 0:
                raise E.Inconclusive('lookbehind')
            r = self.seq(list(sub), 0, pos, groups, lambda p, g: (p, g))
            return nxt(pos, r[1]) if r is not None else None
        if op is C.ASSERT_NOT:
            d, sub = av
            if d < 0:
                raise E.Inconclusive('lookbehind')
            r = self.seq(list(sub), 0, pos, groups, lambda p, g: (p, g))
            return nxt(pos, groups) if r is None else None
        raise E.Inconclusive('re op %s' % op)

    def run(self, pos, full=False):
        def done(p, g):
            if full and p != self.n:
                return None
            return (p, g)
        return self.seq(list(self.tree), 0, pos, {}, done)


class Match:
    def __init__(self, real, s, start, end, groups):
        self.re, self.string, self._s, self._e, self._g = real, s, start, end, groups

    def _span(self, g):
        if g == 0:
            return (self._s, self._e)
        if isinstance(g, str):
            g = self.re.groupindex[g]
        return self._g.get(g, (-1, -1))

    def group(self, *gs):
        if not gs:
            gs = (0,)
        out = []
        for g in gs:
            a, b = self._span(g)
            out.append(None if a < 0 else self.string[a:b])
        return out[0] if len(out) == 1 else tuple(out)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(default if self._span(i)[0] < 0 else self.group(i) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: (self.group(n) if self._span(n)[0] >= 0 else default) for n in self.re.groupindex}

    def start(self, g=0):
        return self._span(g)[0]

    def end(self, g=0):
        return self._span(g)[1]

    def span(self, g=0):
        return self._span(g)


def match(real, s, pos=0, full=False):
    m = Matcher(real, s.chars())
    r = m.run(pos, full)
    return None if r is None else Match(real, s, pos, r[0], r[1])


def search(real, s, pos=0):
    m = Matcher(real, s.chars())
    for p in range(pos, m.n + 1):
        r = m.run(p)
        if r is not None:
            return Match(real, s, p, r[0], r[1])
    return None


def finditer(real, s):
    pos = 0
    n = len(s)
    while pos <= n:
        r = search(real, s, pos)
        if r is None:
            return
        yield r
        pos = r.end() if r.end() > r.start() else r.end() + 1


def findall(real, s):
    out = []
    for m in finditer(real, s):
        g = m.groups('')
        out.append(m.group() if not g else (g[0] if len(g) == 1 else g))
    return out


def split(real, s, maxsplit=0):
    out, pos = [], 0
    for m in finditer(real, s):
        if maxsplit and len(out) >= maxsplit:
            break
        out.append(s[pos:m.start()])
        out.extend(m.groups())
        pos = m.end()
    out.append(s[pos:])
    return out


def sub(real, repl, s, count=0):
    from symex.strs import concat
    out, pos = [], 0
    for m in finditer(real, s):
        out.append(s[pos:m.start()])
        if callable(repl):
            out.append(repl(m))
        elif '\\' in repl:
            raise E.Inconclusive('re.sub template')
        else:
            out.append(repl)
        pos = m.end()
    out.append(s[pos:])
    return concat(out)
