"""Model of the Unicode database interface the implementation relies on: code point sets and ICU regular expressions.

Sets are membership predicates, regular expressions are parsed from the pattern text the real code produced and matched
by computing, for every pair of positions, the condition under which the stretch between them matches.  Concrete
replays of P07 use the real ICU library instead, which cross-checks this model on every sampled path."""
import os
import re as _re

from symex.sym import And, Or, Not, Ite, Sum, is_sym
from symex.strs import SymStr, ChrAtom, HexAtom, ch_code
from symex import engine as E

INF = 10 ** 6


class PatternError(_re.error):
    pass


class ModelSet:
    """A set of code points: expression tree over explicit lists and property predicates."""

    def __init__(self, db, node):
        self.db, self.node = db, node
        self.frozen = False

    # expression nodes: ('list', [cps]) ('prop', name) ('not', n) ('and', a, b) ('or', a, b)
    def _m(self, n, cp):
        k = n[0]
        if k == 'list':
            return Or([cp == c for c in n[1]])
        if k == 'prop':
            return self.db.prop(n[1], cp)
        if k == 'not':
            return Not(self._m(n[1], cp))
        if k == 'and':
            return And(self._m(n[1], cp), self._m(n[2], cp))
        return Or(self._m(n[1], cp), self._m(n[2], cp))

    def has(self, cp):
        return self._m(self.node, cp)

    __contains__ = has

    def _leaves(self, n):
        if n[0] == 'list':
            return list(n[1])
        if n[0] == 'prop':
            return []
        return [x for c in n[1:] for x in self._leaves(c)]

    def _generic(self, n):
        """membership of a code point in none of the lists (and with all properties as for the generic one)"""
        k = n[0]
        if k == 'list':
            return False
        if k == 'prop':
            return self.db.prop_generic(n[1])
        if k == 'not':
            return Not(self._generic(n[1]))
        f = And if k == 'and' else Or
        return f(self._generic(n[1]), self._generic(n[2]))

    def nonempty(self):
        return Or([self._generic(self.node)] + [self.has(c) for c in self._leaves(self.node)])

    def __len__(self):
        return 5 if self.nonempty() else 0

    def __bool__(self):
        return bool(self.nonempty())

    def __iter__(self):
        if self._simple(self.node):
            out = []
            for c in self._leaves(self.node):
                if not any(c == o for o in out) and self.has(c):
                    out.append(c)
            return iter(sorted(out))
        raise E.Inconclusive('iteration over a large set')

    def _simple(self, n):
        if n[0] == 'list':
            return True
        if n[0] == 'and':
            return self._simple(n[1]) or self._simple(n[2])
        if n[0] == 'or':
            return self._simple(n[1]) and self._simple(n[2])
        return False

    def add(self, cp):
        assert not self.frozen
        self.node = ('or', self.node, ('list', [cp]))

    def update(self, other):
        assert not self.frozen
        self.node = ('or', self.node, self.db.node_of(other))

    def remove(self, cp):
        assert not self.frozen
        self.node = ('and', self.node, ('not', ('list', [cp])))

    def complement(self):
        assert not self.frozen
        self.node = ('not', self.node)

    def freeze(self):
        self.frozen = True

    def is_frozen(self):
        return self.frozen

    def copy(self):
        return ModelSet(self.db, self.node)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __and__(self, o):
        return ModelSet(self.db, ('and', self.node, o.node))

    def __or__(self, o):
        return ModelSet(self.db, ('or', self.node, o.node))

    def __sub__(self, o):
        return ModelSet(self.db, ('and', self.node, ('not', o.node)))

    def __str__(self):
        t = self.db.table
        t.append(self.copy())
        pc = ''
        if self.db.percent:
            h = self.has
            if And(h(0x25), Or(Not(h(0x24)), Not(h(0x26)))):
                pc = '%'
        return '[%s@%d]' % (pc, len(t) - 1)


class Match:
    def __init__(self, rx, starts):
        self.rx, self.starts = rx, starts

    def start(self):
        for k, cond, off in self.starts:
            if cond:
                return off
        raise E.Infeasible('no match')


class Regex:
    def __init__(self, db, pattern):
        self.db, self.pattern = db, pattern
        self.alt = Parser(db, pattern).parse()

    def search(self, text, flags=0, index=0):
        if isinstance(text, SymStr):
            chars = [ch_code(c) for c in text.chars()]
        else:
            chars = [ord(c) for c in text]
        n = len(chars)
        offs = [0]
        for c in chars:
            offs.append(offs[-1] + Ite(c > 0xFFFF, 2, 1) if self.db.utf16 else offs[-1] + 1)
        first = 0
        if type(index) is not int or index != 0:
            while first < n and offs[first] < index:
                first += 1
        m = MatchEval(chars)
        starts = []
        for k in range(first, n + 1):
            starts.append((k, Or(list(m.alt(self.alt, k).values())), offs[k]))
        if Or([c for _, c, _ in starts]):
            return Match(self, starts)
        return None

    def match_conds(self, chars):
        m = MatchEval(chars)
        return m


class MatchEval:
    """spans: for a node and a start position, {end: condition}"""

    def __init__(self, chars):
        self.t = chars
        self.n = len(chars)

    def alt(self, seqs, i):
        out = {}
        for s in seqs:
            for j, c in self.seq(s, i).items():
                out[j] = Or(out.get(j, False), c)
        return out

    def seq(self, items, i):
        cur = {i: True}
        for it in items:
            nxt = {}
            for p, c in cur.items():
                for j, d in self.node(it, p).items():
                    nxt[j] = Or(nxt.get(j, False), And(c, d))
            cur = {j: c for j, c in nxt.items() if c is not False}
        return cur

    def node(self, nd, i):
        k = nd[0]
        if k == 'chr':
            return {i + 1: self.t[i] == nd[1]} if i < self.n else {}
        if k == 'any':
            return {i + 1: True} if i < self.n else {}
        if k == 'set':
            return {i + 1: nd[1].has(self.t[i])} if i < self.n else {}
        if k == 'start':
            return {i: True} if i == 0 else {}
        if k == 'end':
            return {i: True} if i == self.n else {}
        if k == 'group':
            return self.alt(nd[1], i)
        if k == 'rep':
            lo, hi = nd[2], nd[3]
            cur, out = {i: True}, {}
            if lo == 0:
                out[i] = True
            for r in range(1, min(hi, lo + self.n + 1) + 1):
                nxt = {}
                for p, c in cur.items():
                    for j, d in self.node(nd[1], p).items():
                        nxt[j] = Or(nxt.get(j, False), And(c, d))
                cur = {j: c for j, c in nxt.items() if c is not False}
                if r >= lo:
                    for j, c in cur.items():
                        out[j] = Or(out.get(j, False), c)
            return out
        if k == 'look':
            ahead, neg, alt = nd[1:]
            if ahead:
                c = Or(list(self.alt(alt, i).values()))
            else:
                c = Or([self.alt(alt, p).get(i, False) for p in range(i + 1)])
            c = Not(c) if neg else c
            return {} if c is False else {i: c}
        raise AssertionError(nd)


class Parser:
    """The subset of ICU's syntax that rules can produce (and a little more)."""

    def __init__(self, db, pattern):
        self.db = db
        if isinstance(pattern, SymStr):
            self.tok = []
            for p in pattern.parts:
                self.tok.extend(p if isinstance(p, str) else [p])
        else:
            self.tok = list(str(pattern))
        if not self.tok:
            raise PatternError('empty pattern')
        self.i = 0
        self.behind = 0

    def peek(self, k=0):
        return self.tok[self.i + k] if self.i + k < len(self.tok) else None

    def eat(self, s):
        if all(self.peek(k) == c for k, c in enumerate(s)):
            self.i += len(s)
            return True
        return False

    def parse(self):
        a = self.alts()
        if self.i != len(self.tok):
            raise PatternError('unbalanced pattern')
        return a

    def alts(self):
        out = [self.items()]
        while self.eat('|'):
            out.append(self.items())
        return out

    def items(self):
        out = []
        while self.peek() is not None and self.peek() not in ('|', ')'):
            out.append(self.quant(self.item()))
        return out

    def number(self):
        s = ''
        while isinstance(self.peek(), str) and self.peek().isdigit():
            s += self.peek()
            self.i += 1
        if not s:
            raise PatternError('number expected')
        return int(s)

    def quant(self, nd):
        while True:
            c = self.peek()
            if c == '{':
                self.i += 1
                lo = hi = self.number()
                if self.eat(','):
                    hi = INF if self.peek() == '}' else self.number()
                if not self.eat('}'):
                    raise PatternError('bad interval')
            elif c == '*':
                self.i += 1
                lo, hi = 0, INF
            elif c == '+':
                self.i += 1
                lo, hi = 1, INF
            elif c == '?':
                self.i += 1
                lo, hi = 0, 1
            else:
                return nd
            if hi < lo:
                raise PatternError('max < min')
            if self.behind and hi == INF:
                raise PatternError('unbounded look-behind')
            nd = ('rep', nd, lo, hi)

    def hexnum(self):
        c = self.peek()
        if isinstance(c, HexAtom):
            self.i += 1
            v = c.v
        else:
            s = ''
            while isinstance(self.peek(), str) and self.peek() != '}':
                s += self.peek()
                self.i += 1
            try:
                v = int(s, 16)
            except ValueError:
                raise PatternError('bad escape')
        if not self.eat('}'):
            raise PatternError('bad escape')
        return v

    def item(self):
        c = self.peek()
        if not isinstance(c, str):
            if isinstance(c, ChrAtom):
                self.i += 1
                return ('chr', c.v)
            raise E.Inconclusive('unexpected text in a pattern')
        self.i += 1
        if c == '^':
            return ('start',)
        if c == '$':
            return ('end',)
        if c == '.':
            return ('any',)
        if c == '(':
            look = None
            if self.eat('?='):
                look = (True, False)
            elif self.eat('?!'):
                look = (True, True)
            elif self.eat('?<='):
                look = (False, False)
            elif self.eat('?<!'):
                look = (False, True)
            elif self.eat('?:'):
                pass
            elif self.peek() == '?':
                raise E.Inconclusive('group syntax not modelled')
            if look and not look[0]:
                self.behind += 1
            a = self.alts()
            if look and not look[0]:
                self.behind -= 1
            if not self.eat(')'):
                raise PatternError('unclosed group')
            return ('look',) + look + (a,) if look else ('group', a)
        if c == '\\':
            return ('chr', self.escape())
        if c == '[':
            return self.set()
        if c in '*+?{':
            raise PatternError('nothing to repeat')
        return ('chr', ord(c))

    def escape(self):
        c = self.peek()
        self.i += 1
        if c == 'x' and self.eat('{'):
            return self.hexnum()
        if c == 'u' or c == 'U':
            w = 4 if c == 'u' else 8
            s = ''.join(self.tok[self.i:self.i + w])
            self.i += w
            return int(s, 16)
        if isinstance(c, str) and not c.isalnum():
            return ord(c)
        raise E.Inconclusive('escape not modelled')

    def set(self):
        neg = self.eat('^')
        self.eat('%')
        if self.eat('@'):
            n = self.number()
            if not self.eat(']'):
                raise PatternError('bad set')
            s = self.db.table[n]
            return ('set', s if not neg else ModelSet(self.db, ('not', s.node)))
        ranges = []
        while not self.eat(']'):
            if self.peek() is None:
                raise PatternError('unclosed set')
            lo = hi = self.setchar()
            if self.eat('-'):
                hi = self.setchar()
            ranges.append((lo, hi))
        if not ranges:
            raise PatternError('empty set')
        return ('set', RangeSet(ranges, neg))

    def setchar(self):
        c = self.peek()
        self.i += 1
        if isinstance(c, ChrAtom):
            return c.v
        if c == '\\':
            return self.escape()
        if not isinstance(c, str):
            raise E.Inconclusive('unexpected text in a set pattern')
        return ord(c)


class RangeSet:
    def __init__(self, ranges, neg):
        self.ranges, self.neg = ranges, neg

    def has(self, cp):
        c = Or([And(cp >= lo, cp <= hi) for lo, hi in self.ranges])
        return Not(c) if self.neg else c


class ModelDB:
    """Unicode database over the models above; idna, script and property values are arbitrary functions."""

    def __init__(self, ctx, props=(), percent=False, utf16=False):
        self.ctx = ctx
        self.table = []
        self.props = props
        self.percent = percent
        self.utf16 = utf16
        self.generic = {}

    def prop(self, name, cp):
        return self.ctx.uf('prop_' + name, [cp])

    def prop_generic(self, name):
        if name not in self.generic:
            self.generic[name] = self.ctx.bool('generic_' + name)
        return self.generic[name]

    def node_of(self, it):
        if isinstance(it, ModelSet):
            return it.node
        return ('list', list(it))

    def get_set(self, iterable=None, pattern=None, freeze=False):
        if iterable is not None and pattern:
            raise ValueError('specify iterable or pattern, but not both')
        if pattern:
            m = _re.fullmatch(r'\\p\{([^=}]+)=([^}]+)\}', str(pattern))
            if not m:
                raise PatternError('bad set pattern')
            s = ModelSet(self, ('prop', m.group(1) + '_' + m.group(2)))
        elif iterable is not None:
            s = ModelSet(self, self.node_of(iterable))
        else:
            s = ModelSet(self, ('list', []))
        if freeze:
            s.freeze()
        return s

    def compile_regex(self, regex):
        return Regex(self, regex)

    def get_unicode_version(self):
        return '6.3.0'

    def get_idna_prop(self, cp):
        return 'PVALID'

    def get_script(self, cp, alpha4=False):
        raise NotImplementedError

    def get_char_name(self, cp):
        return 'NAME'


_icu = []


def real_icu():
    """the ICU library of the system, None when there is none"""
    if not _icu:
        import glob
        libs = sorted(glob.glob('/usr/lib/*/libicuuc.so.[0-9][0-9]'))
        db = None
        if libs:
            v = libs[-1].rsplit('.', 1)[1]
            from munidata import UnicodeDataVersionManager
            db = UnicodeDataVersionManager().register(None, libs[-1], libs[-1].replace('icuuc', 'icui18n'), v)
        _icu.append(db)
    return _icu[0]


def database(ctx, **kw):
    """the model when executing symbolically, the real library when replaying (picu hands code points over to ICU as 16
    bit units, so it cannot see supplementary code points: these are replayed on the model)"""
    if not ctx.symbolic and all(v <= 0xFFFF for v in ctx.inputs_['ints'].values()):
        db = real_icu()
        if db is not None:
            return db
    return ModelDB(ctx, **kw)
