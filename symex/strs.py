"""Strings with symbolic content, as ropes of literals and lazily expanded atoms."""
import z3
from symex import engine as E
from symex import sym as S
from symex.sym import SymInt, SymBool, SymChoice


class Atom:
    __slots__ = ()


class ChrAtom(Atom):
    """one character with a symbolic code"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def same(self, o):
        return self.v == o.v

    def kind(self):
        return ('chr',)

    def expand(self):
        return [self.v]

    def ev(self, model):
        return chr(S.evaluate(self.v, model))


_DIG = {}


def _digits(v, base, n, upper):
    """the n lowest digits of v, most significant first, as code SymInts"""
    out = []
    e = v.e
    for k in range(n - 1, -1, -1):
        d = (e / (base ** k)) % base if k else e % base
        d = z3.simplify(d)
        if base == 10:
            c = SymInt(z3.simplify(d + 48))
        else:
            c = SymInt(z3.If(d < 10, d + 48, d + (55 if upper else 87)))
        c.digit = (v, base, n - 1 - k, n, '0123456789' + ('' if base == 10 else 'ABCDEF' if upper else 'abcdef'))
        out.append(c)
    return out


def digit_of(c):
    """(number, base, position, length, alphabet) when the character is a digit of a formatted number"""
    return getattr(c, 'digit', None) if type(c) is SymInt else None


def code_eq(c, k):
    """condition: the code point c (SymInt or int) is k"""
    d = digit_of(c)
    return False if d is not None and chr(k) not in d[4] else c == k


class HexAtom(Atom):
    """'%0<width>X' % v for v >= 0"""
    __slots__ = ('v', 'width', 'upper')

    def __init__(self, v, width, upper):
        self.v, self.width, self.upper = v, width, upper

    def kind(self):
        return ('hex', self.width, self.upper)

    def same(self, o):
        return self.v == o.v

    def expand(self):
        v = self.v
        if v < 0:
            raise E.Inconclusive('negative number formatted')
        n = self.width
        while n < 12 and v >= 16 ** n:
            n += 1
        return _digits(v, 16, n, self.upper)

    def ev(self, model):
        x = S.evaluate(self.v, model)
        return ('%0*X' if self.upper else '%0*x') % (self.width, x)


class DecAtom(Atom):
    __slots__ = ('v', 'width')

    def __init__(self, v, width=1):
        self.v, self.width = v, width

    def kind(self):
        return ('dec', self.width)

    def same(self, o):
        return self.v == o.v

    def expand(self):
        v = self.v
        if v < 0:
            return ['-'] + DecAtom(-v, max(1, self.width - 1)).expand()
        n = self.width
        while n < 12 and v >= 10 ** n:
            n += 1
        return _digits(v, 10, n, False)

    def ev(self, model):
        return '%0*d' % (self.width, S.evaluate(self.v, model))


class OpaqueAtom(Atom):
    """text whose content the checks never look at (log messages, descriptions)"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def kind(self):
        return ('opaque', id(self))

    def same(self, o):
        return True

    def expand(self):
        raise E.Inconclusive('text of a container inspected')

    def ev(self, model):
        return '<...>'


def concat(items):
    out = []
    for x in items:
        t = type(x)
        if t is str:
            if x:
                if out and type(out[-1]) is str:
                    out[-1] += x
                else:
                    out.append(x)
        elif t is SymStr:
            for p in x.parts:
                if type(p) is str and out and type(out[-1]) is str:
                    out[-1] += p
                else:
                    out.append(p)
        elif t is SymChoice:
            out.append(x)
        elif isinstance(x, Atom):
            out.append(x)
        elif isinstance(x, str):
            out.append(str(x))
        else:
            raise TypeError('sequence item: expected str instance, %s found' % type(x).__name__)
    if not out:
        return ''
    if all(type(p) is str for p in out):
        return ''.join(out)
    return SymStr(out)


def force_str(s):
    """a real str for a SymStr/SymChoice/str (forks / concretises)"""
    if isinstance(s, str):
        return s
    if isinstance(s, SymChoice):
        return s.force()
    return s.concretise()


def plain(s):
    return s.force() if isinstance(s, SymChoice) else s


_BREAKS = '\n\r\v\f\x1c\x1d\x1e\x85\u2028\u2029'


def _is_ws(c):
    if digit_of(c) is not None:
        return False
    if isinstance(c, str):
        return c.isspace()
    return bool(S.Or([c == w for w in (32, 9, 10, 11, 12, 13, 0x1c, 0x1d, 0x1e, 0x1f, 0x85, 0xa0, 0x1680, 0x2028, 0x2029,
                                       0x202f, 0x205f, 0x3000)] + [S.And(c >= 0x2000, c <= 0x200a)]))


def ch_eq(a, b):
    """condition: characters equal (each a 1-char str or SymInt code)"""
    if isinstance(a, str):
        if isinstance(b, str):
            return a == b
        return code_eq(b, ord(a))
    if isinstance(b, str):
        return code_eq(a, ord(b))
    return a == b


def ch_code(a):
    return ord(a) if isinstance(a, str) else a


_NDS = []


def nd_zeros():
    """first characters of the blocks of ten non-ASCII decimal digits"""
    if not _NDS:
        import unicodedata
        c = 128
        while c < 0x110000:
            if unicodedata.category(chr(c)) == 'Nd' and unicodedata.decimal(chr(c)) == 0:
                assert [unicodedata.decimal(chr(c + k), -1) for k in range(10)] == list(range(10))
                _NDS.append(c)
                c += 9
            c += 1
    return _NDS


def int_space(c):
    """white space int() ignores"""
    if digit_of(c) is not None:
        return False
    return S.And(S.Or([c == w for w in (32, 9, 10, 11, 12, 13, 0x85, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000)] +
                      [S.And(c >= 0x2000, c <= 0x200a)]))


def parse_int(cs, base):
    """int(text, base) for the characters of a text without surrounding white space; base 2-10 or 16"""
    bad = ValueError('invalid literal for int()')
    cs = [ch_code(c) for c in cs]
    ds = [digit_of(c) for c in cs]
    if ds and all(d is not None and d[0] is ds[0][0] and d[1] == base and d[2:4] == (k, len(cs)) for k, d in enumerate(ds)):
        return ds[0][0]
    neg = False
    if not cs:
        raise bad
    if len(cs) > 1 or type(cs[0]) is int:
        if S.Or(cs[0] == 43, cs[0] == 45):
            neg = bool(cs[0] == 45)
            cs = cs[1:]
    if base == 16 and len(cs) > 1 and S.And(S.Or(cs[1] == 120, cs[1] == 88), S.Or([cs[0] == z for z in [48] + nd_zeros()])):
        cs = cs[2:]
        if cs and cs[0] == 95:
            cs = cs[1:]
    if not cs:
        raise bad
    val, after_digit = 0, False
    for k, c in enumerate(cs):
        if after_digit and k + 1 < len(cs) and c == 95:
            after_digit = False
            continue
        if type(c) is int:
            d = int(chr(c), base)          # ValueError
        elif S.And(c >= 48, c <= min(57, 47 + base)):
            d = c - 48
        elif base > 10 and S.Or(S.And(c >= 65, c <= 54 + base), S.And(c >= 97, c <= 86 + base)):
            d = S.Ite(c <= 90, c - 55, c - 87)
        elif c < 128:
            raise bad
        else:
            v = z3.Int('nd%d' % E.ENG.fresh)
            E.ENG.fresh += 1
            blocks = z3.Or([c.e == z + v for z in nd_zeros()])
            lo = z3.And(v >= 0, v < min(10, base))
            if not S.Or([S.And(c >= z, c <= z + min(9, base - 1)) for z in nd_zeros()]):
                raise bad
            E.ENG.assume(z3.And(lo, blocks))
            d = SymInt(v)
        val = val * base + d
        after_digit = True
    return -val if neg else val


# blocks without cased characters
CASELESS = [(0x590, 0x109f), (0x2e80, 0xa63f), (0xac00, 0xfaff), (0x20000, 0x10ffff)]
_HEX = frozenset('0123456789abcdefABCDEF')


class SymStr:
    __slots__ = ('parts', '_chars')

    def __init__(self, parts):
        self.parts = list(parts)
        self._chars = None

    # -- expansion
    def chars(self):
        if self._chars is None:
            out = []
            for p in self.parts:
                if type(p) is str:
                    out.extend(p)
                elif type(p) is SymChoice:
                    out.extend(p.force())
                else:
                    out.extend(p.expand())
            self._chars = out
        return self._chars

    @staticmethod
    def of(cs):
        """from a list of characters"""
        out = []
        for c in cs:
            if isinstance(c, str):
                if out and type(out[-1]) is str:
                    out[-1] += c
                else:
                    out.append(c)
            else:
                out.append(ChrAtom(c))
        if all(type(p) is str for p in out):
            return ''.join(out)
        return SymStr(out)

    def concretise(self):
        return ''.join(c if isinstance(c, str) else chr(S.concretise(c)) for c in self.chars())

    def _sx_eval(self, model):
        out = []
        for p in self.parts:
            if type(p) is str:
                out.append(p)
            elif type(p) is SymChoice:
                out.append(S.evaluate(p, model))
            else:
                out.append(p.ev(model))
        return ''.join(out)

    # -- comparison
    def _aligned(self, o):
        """equality condition when both ropes have the same skeleton and atoms cannot run together"""
        if len(self.parts) != len(o.parts):
            return None
        conds = []
        prev_atom = False
        for a, b in zip(self.parts, o.parts):
            if type(a) is str:
                if type(b) is not str or a != b:
                    return None
                if prev_atom and a[0].isalnum():
                    return None
                prev_atom = False
                continue
            if type(b) is str or type(a) is not type(b):
                return None
            if type(a) is SymChoice:
                if any(not o2 or not o2.isalnum() for o2 in a.options + b.options):
                    return None
                if prev_atom:
                    return None
                conds.append(a == b)
                prev_atom = True
                continue
            if a.kind() != b.kind():
                return None
            if type(a) is ChrAtom:
                conds.append(a.same(b))
                continue
            if prev_atom:
                return None
            conds.append(a.same(b))
            prev_atom = True
        return S.And(conds)

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, SymChoice):
            return S.Or([S.And(o.is_(v), self == v) for v in o.options])
        if isinstance(o, str):
            o = SymStr([o] if o else [])
        if not isinstance(o, SymStr):
            return False
        r = self._aligned(o)
        if r is not None:
            return r
        if self._simple() and o._simple() and self._skeleton() != o._skeleton():
            return False
        a, b = self.chars(), o.chars()
        if len(a) != len(b):
            return False
        return S.And([ch_eq(x, y) for x, y in zip(a, b)])

    def __ne__(self, o):
        return S.Not(self == o)

    def __hash__(self):
        if all(isinstance(c, str) for c in self.chars()):
            return hash(''.join(self._chars))
        return 11

    def _cmp(self, o):
        if isinstance(o, SymChoice):
            o = o.force()
        if isinstance(o, str):
            return [ch_code(c) for c in self.chars()], [ord(c) for c in o]
        if isinstance(o, SymStr):
            return [ch_code(c) for c in self.chars()], [ch_code(c) for c in o.chars()]
        return None

    def __lt__(self, o):
        p = self._cmp(o)
        return NotImplemented if p is None else S.lex_lt(*p)

    def __gt__(self, o):
        p = self._cmp(o)
        return NotImplemented if p is None else S.lex_lt(p[1], p[0])

    def __le__(self, o):
        return S.Not(self > o)

    def __ge__(self, o):
        return S.Not(self < o)

    def __bool__(self):
        if any(type(p) is str and p for p in self.parts) or any(isinstance(p, Atom) for p in self.parts):
            return True
        return len(self.chars()) > 0

    def __len__(self):
        if all(type(p) in (str, ChrAtom) for p in self.parts):
            return sum(len(p) if type(p) is str else 1 for p in self.parts)
        return len(self.chars())

    # -- structure
    def __add__(self, o):
        if not isinstance(o, (str, SymStr, SymChoice)):
            return NotImplemented
        return concat([self, o])

    def __radd__(self, o):
        if not isinstance(o, (str, SymStr, SymChoice)):
            return NotImplemented
        return concat([o, self])

    def __mul__(self, n):
        return concat([self] * n)

    def __mod__(self, o):
        from symex import ops
        return ops.sx_mod(self, o)

    def __iter__(self):
        for c in self.chars():
            yield c if isinstance(c, str) else SymStr([ChrAtom(c)])

    def __getitem__(self, i):
        if isinstance(i, slice) and type(self.parts[0]) is str and i.step is None and len(self.parts) > 1:
            first = self.parts[0]
            if isinstance(i.start, int) and 0 <= i.start <= len(first) and i.stop is None:
                return concat([first[i.start:]] + self.parts[1:])
            if isinstance(i.stop, int) and 0 <= i.stop <= len(first) and (i.start is None or 0 <= i.start):
                return first[i]
        cs = self.chars()
        if isinstance(i, slice):
            return SymStr.of(cs[i])
        if isinstance(i, SymInt):
            i = int(i)
        return SymStr.of([cs[i]])

    def contains(self, o):
        if isinstance(o, SymChoice):
            o = o.force()
        if o == '':
            return True
        # single literal separators: look at literals only when atoms cannot contain them
        if isinstance(o, str) and not any(c.isalnum() or c == '-' for c in o) and \
                all(type(p) in (str, HexAtom, DecAtom) for p in self.parts):
            return any(type(p) is str and o in p for p in self.parts)
        if isinstance(o, str) and not any(c in _HEX or c == '-' for c in o) and self._simple():
            return any(type(p) is str and o in p for p in self.parts)
        return self.find(o) >= 0

    def __contains__(self, o):
        return self.contains(o)

    def find(self, o, start=0, end=None):
        cs = self.chars()
        if isinstance(o, SymChoice):
            o = o.force()
        oc = list(o) if isinstance(o, str) else o.chars()
        start, end, _ = slice(start, end).indices(len(cs))
        for i in range(start, end - len(oc) + 1):
            if S.And([ch_eq(a, b) for a, b in zip(cs[i:], oc)]):
                return i
        return -1

    def index(self, o, *a):
        r = self.find(o, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rfind(self, o, start=0, end=None):
        cs = self.chars()
        o = force_str(o) if isinstance(o, SymChoice) else o
        oc = list(o) if isinstance(o, str) else o.chars()
        start, end, _ = slice(start, end).indices(len(cs))
        for i in range(end - len(oc), start - 1, -1):
            if S.And([ch_eq(a, b) for a, b in zip(cs[i:], oc)]):
                return i
        return -1

    def rindex(self, o, *a):
        r = self.rfind(o, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, o):
        n, i = 0, 0
        while True:
            i = self.find(o, i)
            if i < 0:
                return n
            n += 1
            i += max(1, len(o))

    def startswith(self, o, start=0):
        if isinstance(o, tuple):
            return any(self.startswith(x) for x in o)
        if isinstance(o, SymChoice):
            o = o.force()
        if isinstance(o, str) and start == 0 and self.parts and type(self.parts[0]) is str and len(self.parts[0]) >= len(o):
            return self.parts[0].startswith(o)
        cs = self.chars()[start:]
        oc = list(o) if isinstance(o, str) else o.chars()
        if len(oc) > len(cs):
            return False
        return bool(S.And([ch_eq(a, b) for a, b in zip(cs, oc)]))

    def endswith(self, o):
        if isinstance(o, tuple):
            return any(self.endswith(x) for x in o)
        if isinstance(o, str) and self.parts and type(self.parts[-1]) is str and len(self.parts[-1]) >= len(o):
            return self.parts[-1].endswith(o)
        cs = self.chars()
        oc = list(o) if isinstance(o, str) else o.chars()
        if len(oc) > len(cs):
            return False
        return bool(S.And([ch_eq(a, b) for a, b in zip(cs[len(cs) - len(oc):], oc)]))

    def _skeleton(self):
        """the characters no number contains"""
        return [c for p in self.parts if type(p) is str for c in p if c not in _HEX and c != '-']

    def _simple(self):
        """literals plus atoms that contain no white space or punctuation"""
        return all(type(p) in (str, HexAtom, DecAtom) for p in self.parts)

    def split(self, sep=None, maxsplit=-1):
        if isinstance(sep, (SymStr, SymChoice)):
            sep = force_str(sep)
        if self._simple() and maxsplit < 0 and (sep is None or not any(c.isalnum() or c == '-' and any(type(p) is DecAtom for p in self.parts) for c in sep)):
            out, cur = [], []
            for p in self.parts:
                if type(p) is not str:
                    cur.append(p)
                    continue
                if sep is None:
                    toks = p.split()
                    lead = p[:1].isspace()
                    trail = p[-1:].isspace()
                    if not toks:
                        if cur:
                            out.append(cur)
                            cur = []
                        continue
                    if lead and cur:
                        out.append(cur)
                        cur = []
                    for k, t in enumerate(toks):
                        if k:
                            out.append(cur)
                            cur = []
                        cur.append(t)
                    if trail:
                        out.append(cur)
                        cur = []
                else:
                    toks = p.split(sep)
                    for k, t in enumerate(toks):
                        if k:
                            out.append(cur)
                            cur = []
                        if t:
                            cur.append(t)
            if sep is not None or cur:
                out.append(cur)
            return [concat(c) for c in out]
        cs = self.chars()
        out, cur = [], []
        if sep is None:
            n = 0
            for k, c in enumerate(cs):
                if _is_ws(c):
                    if cur:
                        out.append(cur)
                        cur = []
                        n += 1
                else:
                    if n == maxsplit and not cur:
                        cur = list(cs[k:])
                        while cur and _is_ws(cur[-1]):
                            cur.pop()
                        break
                    cur.append(c)
            if cur:
                out.append(cur)
            return [SymStr.of(c) for c in out]
        i, n = 0, len(sep)
        done = 0
        while i < len(cs):
            if (maxsplit < 0 or done < maxsplit) and i + n <= len(cs) and S.And([ch_eq(a, b) for a, b in zip(cs[i:i + n], sep)]):
                out.append(cur)
                cur = []
                i += n
                done += 1
            else:
                cur.append(cs[i])
                i += 1
        out.append(cur)
        return [SymStr.of(c) for c in out]

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            out, s = [], self.rstrip()
            while s and maxsplit > 0:
                cs = s.chars() if isinstance(s, SymStr) else list(s)
                k = len(cs)
                while k and not _is_ws(cs[k - 1]):
                    k -= 1
                if not k:
                    break
                out.append(SymStr.of(cs[k:]))
                s = SymStr.of(cs[:k]).rstrip()
                maxsplit -= 1
            return ([s] if s else []) + out[::-1]
        sep = force_str(sep)
        out, cs = [], list(self.chars())
        while maxsplit > 0:
            i = SymStr.of(cs).rfind(sep) if cs else -1
            if i < 0:
                break
            out.append(SymStr.of(cs[i + len(sep):]))
            cs = cs[:i]
            maxsplit -= 1
        return [SymStr.of(cs)] + out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, '', '')
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', self)
        return (self[:i], sep, self[i + len(sep):])

    def removeprefix(self, o):
        return self[len(o):] if o and self.startswith(o) else self

    def removesuffix(self, o):
        return self[:len(self) - len(o)] if o and self.endswith(o) else self

    def _pad(self, n, c, left):
        n = S.concretise(n) - len(self)
        return self if n <= 0 else concat([c * n, self] if left else [self, c * n])

    def ljust(self, n, c=' '):
        return self._pad(n, c, False)

    def rjust(self, n, c=' '):
        return self._pad(n, c, True)

    def zfill(self, n):
        cs = self.chars()
        if cs and S.Or(ch_eq(cs[0], '+'), ch_eq(cs[0], '-')):
            return concat([SymStr.of(cs[:1]), SymStr.of(cs[1:])._pad(n - 1, '0', True)])
        return self._pad(n, '0', True)

    def splitlines(self, keepends=False):
        cs = self.chars()
        out, start, k = [], 0, 0
        while k < len(cs):
            c = cs[k]
            k += 1
            if isinstance(c, str):
                end = c in _BREAKS
            else:
                end = digit_of(c) is None and bool(S.Or([c == ord(x) for x in _BREAKS]))
            if end:
                stop = k - 1
                if k < len(cs) and ch_eq(c, '\r') and ch_eq(cs[k], '\n'):
                    k += 1
                out.append(SymStr.of(cs[start:k if keepends else stop]))
                start = k
        if start < len(cs):
            out.append(SymStr.of(cs[start:]))
        return out

    def _stripset(self, chars):
        if chars is None:
            return _is_ws
        chars = force_str(chars)
        return lambda c: (c in chars) if isinstance(c, str) else bool(S.Or([c == ord(x) for x in chars]))

    def _strip(self, chars, left, right):
        p = list(self.parts)
        f = self._stripset(chars)
        if self._simple() and (chars is None or not any(c.isalnum() or c == '-' for c in force_str(chars))):
            if left:
                while p and type(p[0]) is str:
                    p[0] = p[0].lstrip(chars) if chars is None else p[0].lstrip(force_str(chars))
                    if p[0]:
                        break
                    p.pop(0)
            if right:
                while p and type(p[-1]) is str:
                    p[-1] = p[-1].rstrip(chars) if chars is None else p[-1].rstrip(force_str(chars))
                    if p[-1]:
                        break
                    p.pop()
            return concat(p)
        cs = list(self.chars())
        if left:
            while cs and f(cs[0]):
                cs.pop(0)
        if right:
            while cs and f(cs[-1]):
                cs.pop()
        return SymStr.of(cs)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def replace(self, a, b, count=-1):
        a = force_str(a)
        if self._simple() and not any(c.isalnum() or c == '-' for c in a):
            return concat([p.replace(a, b) if type(p) is str and isinstance(b, str) else p for p in self.parts])
        if a and count < 0 and not (a[0].isalnum() or a[0] in '-+'):
            r = self._replace_units(a, b)
            if r is not None:
                return r
        cs, i, out = self.chars(), 0, []
        while i < len(cs):
            if a and i + len(a) <= len(cs) and S.And([ch_eq(x, y) for x, y in zip(cs[i:], a)]):
                out.append(b)
                i += len(a)
            else:
                out.append(SymStr.of([cs[i]]))
                i += 1
        return concat(out)

    def _replace_units(self, a, b):
        """replace without expanding number atoms (no occurrence can start inside one); None when one may contain part"""
        us = []
        for p in self.parts:
            us.extend(p if type(p) is str else [p])
        i, out = 0, []
        while i < len(us):
            cond, hit = [], True
            for k, x in enumerate(a):
                if i + k >= len(us):
                    hit = False
                    break
                u = us[i + k]
                if type(u) is str:
                    if u != x:
                        hit = False
                        break
                elif type(u) is ChrAtom:
                    cond.append(u.v == ord(x))
                elif k and cond and not S.And(cond):
                    hit = False
                    break
                elif k == 0:
                    hit = False
                    break
                else:
                    return None
            if hit and S.And(cond):
                out.append(b)
                i += len(a)
            else:
                out.append(us[i] if type(us[i]) is str else SymStr([us[i]]))
                i += 1
        return concat(out)

    def join(self, items):
        out = []
        for k, x in enumerate(items):
            if k:
                out.append(self)
            out.append(x)
        return concat(out)

    def format(self, *a, **k):
        from symex import ops
        if any(type(p) is not str for p in self.parts):
            raise E.Inconclusive('symbolic format string')
        return ops.sx_strformat(''.join(self.parts), *a, **k)

    def _map(self, f):
        return SymStr.of([f(c) for c in self.chars()])

    def lower(self):
        if all(type(p) in (str, HexAtom, DecAtom) for p in self.parts):
            return concat([p.lower() if type(p) is str else (HexAtom(p.v, p.width, False) if type(p) is HexAtom else p) for p in self.parts])
        return self._map(lambda c: c.lower() if isinstance(c, str) else self._case(c, 65, 90, 32))

    def upper(self):
        if all(type(p) in (str, HexAtom, DecAtom) for p in self.parts):
            return concat([p.upper() if type(p) is str else (HexAtom(p.v, p.width, True) if type(p) is HexAtom else p) for p in self.parts])
        return self._map(lambda c: c.upper() if isinstance(c, str) else self._case(c, 97, 122, -32))

    @staticmethod
    def _case(c, lo, hi, d):
        if c >= 128:
            if S.Or([S.And(c >= a, c <= b) for a, b in CASELESS]):
                return c
            raise E.Inconclusive('case mapping of non-ASCII')
        return S.Ite(S.And(c >= lo, c <= hi), c + d, c)

    def isdigit(self):
        cs = self.chars()
        return bool(cs) and bool(S.And([c.isdigit() if isinstance(c, str) else S.And(c >= 48, c <= 57) for c in cs]))

    isdecimal = isnumeric = isdigit
    casefold = lower

    def _ascii(self, f, lo_hi):
        r = []
        for c in self.chars():
            if isinstance(c, str):
                r.append(f(c))
            else:
                if c >= 128:
                    raise E.Inconclusive('class of a non-ASCII character')
                r.append(S.Or([S.And(c >= a, c <= b) for a, b in lo_hi]))
        return bool(r) and bool(S.And(r))

    def isalpha(self):
        return self._ascii(str.isalpha, [(65, 90), (97, 122)])

    def isalnum(self):
        return self._ascii(str.isalnum, [(48, 57), (65, 90), (97, 122)])

    def isascii(self):
        return bool(S.And([ord(c) < 128 if isinstance(c, str) else c < 128 for c in self.chars()]))

    def islower(self):
        return self == self.lower() and not self == self.upper()

    def isupper(self):
        return self == self.upper() and not self == self.lower()

    def capitalize(self):
        cs = self.chars()
        return concat([SymStr.of(cs[:1]).upper(), SymStr.of(cs[1:]).lower()])

    def isspace(self):
        return bool(len(self.chars())) and all(_is_ws(c) for c in self.chars())

    def encode(self, *a):
        return self

    def to_int(self, base=10):
        """int(str, base)"""
        ps = [p for p in self.parts]
        # strip surrounding literal white space
        s = self._strip(None, True, True) if any(type(p) is str for p in ps) else self
        if type(s) is str:
            return int(s, base)
        ps = s.parts
        if len(ps) == 1 and type(ps[0]) is HexAtom and base == 16:
            return ps[0].v
        if len(ps) == 1 and type(ps[0]) is DecAtom and base == 10:
            return ps[0].v
        if len(ps) == 2 and type(ps[1]) is HexAtom and base == 16 and ps[0] in ('0x', '0X', '+'):
            return ps[1].v
        cs = [ch_code(c) for c in self.chars()]
        while cs and int_space(cs[0]):
            cs.pop(0)
        while cs and int_space(cs[-1]):
            cs.pop()
        return parse_int(cs, base)

    def __str__(self):
        return self.concretise()

    def __repr__(self):
        return '<symstr>'

    def __format__(self, spec):
        return format(self.concretise(), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self
