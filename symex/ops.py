"""Replacements for operations that C code performs on concrete values only."""
import builtins
import datetime as _datetime
import functools as _functools
import io as _io
import re as _re
import string as _string

from symex import sym as S
from symex import strs as T
from symex.sym import SymInt, SymBool, SymChoice
from symex.strs import SymStr

_isinstance = builtins.isinstance
_SYM = (SymInt, SymBool, SymChoice, SymStr)


def has_sym(v, depth=3):
    t = type(v)
    if t in _SYM:
        return True
    if depth and t in (tuple, list, set, frozenset):
        return any(has_sym(x, depth - 1) for x in v)
    if depth and t is dict:
        return any(has_sym(x, depth - 1) for x in v) or any(has_sym(x, depth - 1) for x in v.values())
    return False


# ------------------------------------------------------------------------------- isinstance ...
def _flat_types(t):
    if _isinstance(t, tuple):
        for x in t:
            yield from _flat_types(x)
    else:
        yield t


def sx_isinstance(o, t):
    k = type(o)
    if k is SymInt:
        return any(x in (int, sx_int, object) for x in _flat_types(t))
    if k is SymBool:
        return any(x in (int, sx_int, bool, sx_bool, object) for x in _flat_types(t))
    if k is SymStr or k is SymChoice:
        return any(x in (str, sx_str, object) for x in _flat_types(t))
    t = tuple(_REAL.get(x, x) for x in _flat_types(t)) if True else t
    return _isinstance(o, t)


class _MetaInt(type):
    def __instancecheck__(cls, o):
        return sx_isinstance(o, int)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


class sx_int(metaclass=_MetaInt):
    def __new__(cls, *a, **k):
        if a:
            v = a[0]
            if type(v) is SymInt:
                return v
            if type(v) is SymBool:
                return v.as_int()
            if type(v) is SymStr:
                base = a[1] if len(a) > 1 else k.get('base', 10)
                return v.to_int(base)
            if type(v) is SymChoice:
                return int(v.force(), *a[1:], **k)
        return int(*a, **k)

    from_bytes = int.from_bytes


class _MetaStr(type):
    def __instancecheck__(cls, o):
        return sx_isinstance(o, str)

    def __eq__(cls, o):
        return o is str or o is cls

    def __hash__(cls):
        return hash(str)

    def __getattr__(cls, name):
        return getattr(str, name)


class sx_str(metaclass=_MetaStr):
    def __new__(cls, *a, **k):
        if a:
            v = a[0]
            if type(v) in (SymStr, SymChoice):
                return v
            if type(v) is SymInt:
                return SymStr([T.DecAtom(v)])
            m = getattr(type(v), '__str__', None)
            if not a[1:] and m is not None and m is not object.__str__ and getattr(m, '__module__', None) is not None \
                    and type(v) not in _PLAIN and not _isinstance(v, BaseException):
                r = m(v)          # may be symbolic, which builtin str() would refuse
                return r
        return str(*a, **k)


_PLAIN = (str, int, float, bool, type(None), list, tuple, dict, set, frozenset, bytes)


class _MetaBool(type):
    def __instancecheck__(cls, o):
        return _isinstance(o, (bool, SymBool))

    def __eq__(cls, o):
        return o is bool or o is cls

    def __hash__(cls):
        return hash(bool)


class sx_bool(metaclass=_MetaBool):
    def __new__(cls, v=False):
        return bool(v)


_REAL = {sx_int: int, sx_str: str, sx_bool: bool}


def sx_chr(c):
    if type(c) is SymInt:
        return SymStr([T.ChrAtom(c)])
    return chr(c)


def sx_ord(s):
    if type(s) is SymStr:
        cs = s.chars()
        if len(cs) != 1:
            raise TypeError('ord() expected a character')
        c = cs[0]
        return ord(c) if _isinstance(c, str) else c
    if type(s) is SymChoice:
        return ord(s.force())
    return ord(s)


class _SymRange:
    def __init__(self, a, b, step):
        self.a, self.b, self.step = a, b, step

    def __iter__(self):
        v = self.a
        n = 0
        while (v < self.b) if self.step > 0 else (v > self.b):
            yield v
            v = v + self.step
            n += 1
            if n > 64:
                from symex.engine import Inconclusive
                raise Inconclusive('range too long')

    def __len__(self):
        return sum(1 for _ in self)

    def __contains__(self, x):
        if self.step == 1:
            return bool(S.And(self.a <= x, x < self.b))
        return any(x == y for y in self)

    def __getitem__(self, i):
        return list(self)[i]

    def __reversed__(self):
        return reversed(list(self))


def sx_range(*a):
    if any(type(x) is SymInt for x in a):
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        return _SymRange(start, stop, step)
    return range(*a)


def sx_hex(v):
    if type(v) is SymInt:
        return SymStr(['0x', T.HexAtom(v, 1, False)])
    return hex(v)


def sx_format(v, spec=''):
    if type(v) in _SYM:
        return fmt_value(v, spec)
    return format(v, spec)


def sx_repr(v):
    if type(v) is SymInt:
        return SymStr([T.DecAtom(v)])
    return repr(v)


def sx_sum(xs, start=0):
    t = start
    for x in xs:
        t = t + x
    return t


# ---------------------------------------------------------------------------------- formatting
def fmt_value(v, spec='', conv=None):
    """format(v, spec) as a list of rope parts."""
    if conv == 'r' and type(v) not in _SYM:
        v = repr(v)
    if type(v) is SymBool:
        v = bool(v)
    if type(v) is SymInt:
        spec = T.force_str(spec) if not _isinstance(spec, str) else spec
        if spec in ('', 'd', 's'):
            return SymStr([T.DecAtom(v)])
        m = _re.fullmatch(r'(#?)(0?)(\d*)([xXdn]?)', spec)
        if m:
            width = int(m.group(3) or 0)
            kind = m.group(4) or 'd'
            if kind in 'xX':
                if m.group(1):
                    return SymStr(['0' + kind, T.HexAtom(v, max(1, width - 2) if m.group(2) else 1, kind == 'X')])
                if m.group(2) or width <= 1:
                    return SymStr([T.HexAtom(v, max(1, width), kind == 'X')])
            elif kind == 'd' and (m.group(2) or width <= 1):
                return SymStr([T.DecAtom(v, max(1, width))])
        return format(int(v), spec)
    if type(v) is SymChoice:
        if spec in ('', 's'):
            return SymStr([v])
        return format(v.force(), spec)
    if type(v) is SymStr:
        if spec in ('', 's'):
            return v
        return format(v.concretise(), spec)
    if spec in ('', 's'):
        if type(v) in (list, tuple, set, frozenset, dict) and has_sym(v):
            return SymStr([T.OpaqueAtom(v)])
        return sx_str(v)
    return format(v, spec)


_PCT = _re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\d*)(?:\.(\d+))?([sdrxXiufgc%])')


def sx_mod(l, r):
    if type(l) is SymStr:
        l2 = l
        parts = l2.parts
        if not has_sym(r) and all(_isinstance(p, str) for p in parts):
            return ''.join(parts) % r
        out = []
        for p in parts:
            if _isinstance(p, str):
                out.append(p)
            else:
                out.append(p)
        # format the literal pieces only (atoms never contain '%')
        res = []
        for p in out:
            if _isinstance(p, str) and '%' in p:
                q = sx_mod_lit(p, r)
                res.extend(q.parts if type(q) is SymStr else [q])
            else:
                res.append(p)
        return SymStr(res)
    if _isinstance(l, str):
        if not has_sym(r):
            return l % r
        return sx_mod_lit(l, r)
    return l % r


def sx_mod_lit(l, r):
    out = []
    pos = 0
    args = r if _isinstance(r, tuple) else (r,)
    ai = 0
    for m in _PCT.finditer(l):
        out.append(l[pos:m.start()])
        pos = m.end()
        name, flags, width, prec, kind = m.groups()
        if kind == '%':
            out.append('%')
            continue
        if name is not None:
            v = r[name]
        else:
            if ai >= len(args):
                raise TypeError('not enough arguments for format string')
            v = args[ai]
            ai += 1
        if type(v) not in _SYM and not has_sym(v):
            out.append(('%' + flags + width + ('.' + prec if prec else '') + kind) % (v,))
            continue
        if type(v) is SymInt and kind in 'xXdi':
            x = fmt_value(v, ('0' if '0' in flags else '') + width + ('d' if kind == 'i' else kind))
        elif type(v) is SymInt and kind in 'xX':
            raise TypeError
        elif kind in 'xXd':
            raise TypeError('%%%s format: a number is required' % kind)
        else:
            x = fmt_value(v, '', 'r' if kind == 'r' else None)
        out.append(x)
    out.append(l[pos:])
    return T.concat(out)


def sx_fstr(*parts):
    out = []
    for p in parts:
        if _isinstance(p, str):
            out.append(p)
        else:
            v, conv, spec = p
            if type(v) not in _SYM and not has_sym(v) and not type(spec) is SymStr:
                if conv == 115:
                    v = sx_str(v)
                elif conv == 114:
                    v = repr(v)
                elif conv == 97:
                    v = ascii(v)
                if spec == '' and type(v) not in _PLAIN:
                    v = sx_str(v)
                    out.append(v)
                    continue
                out.append(format(v, spec))
            else:
                out.append(fmt_value(v, spec, 'r' if conv == 114 else None))
    return T.concat(out)


_FORMATTER = _string.Formatter()


@_functools.lru_cache(None)
def _parse_fmt(fmt):
    return list(_FORMATTER.parse(fmt))


def sx_strformat(fmt, *args, **kw):
    """str.format with possibly symbolic arguments"""
    out = []
    auto = 0
    f = _FORMATTER
    for lit, field, spec, conv in _parse_fmt(fmt):
        out.append(lit)
        if field is None:
            continue
        if field == '':
            field = str(auto)
            auto += 1
        elif field.isdigit():
            pass
        obj, _ = f.get_field(field, args, kw)
        if '{' in spec:
            spec = f.vformat(spec, args, kw)
        if type(obj) not in _SYM and not has_sym(obj):
            if conv == 's':
                obj = sx_str(obj)
            elif conv == 'r':
                obj = repr(obj)
            if spec == '' and type(obj) not in _PLAIN and type(obj) not in _SYM:
                obj = sx_str(obj)
            if type(obj) is SymStr:
                out.append(obj)
            else:
                out.append(format(obj, spec))
        else:
            out.append(fmt_value(obj, spec, conv))
    return T.concat(out)


def sx_strcall(obj, name, *args, **kw):
    t = type(obj)
    if t is str:
        if name == 'format':
            if not kw and len(args) == 1 and type(args[0]) is SymStr:
                a, b, c = obj.partition('{0}')
                if b and '{' not in a + c and '}' not in a + c:
                    return T.concat([a, args[0], c])
            return sx_strformat(obj, *args, **kw)
        if name == 'join':
            items = list(args[0])
            if any(type(x) in (SymStr, SymChoice) for x in items):
                out = []
                for k, x in enumerate(items):
                    if k:
                        out.append(obj)
                    out.append(x)
                return T.concat(out)
            return obj.join(items)
        if any(type(a) in (SymStr, SymChoice) for a in args):
            return getattr(SymStr([obj]), name)(*args, **kw)
        return getattr(obj, name)(*args, **kw)
    if t is SymChoice:
        return getattr(obj.force(), name)(*args, **kw)
    if t is list and name == 'index' and len(args) == 1:       # list.index() formats the missing item
        for k, x in enumerate(obj):
            if x is args[0] or x == args[0]:
                return k
        raise ValueError('item is not in list')
    return getattr(obj, name)(*args, **kw)


# ------------------------------------------------------------------------------------------ in
def sx_in(a, b):
    tb = type(b)
    ta = type(a)
    if tb is SymStr:
        return b.contains(a)
    if tb is SymChoice:
        return a in b.force()
    if ta in _SYM:
        if tb is str:
            if ta is SymChoice:
                return S.Or([a.is_(o) for o in a.options if o in b])
            return SymStr([b]).contains(a)
        if tb in (set, frozenset, dict, list, tuple) or tb.__name__ in ('dict_values', 'dict_keys', 'OrderedDict'):
            if ta is SymInt or len(b) > 24 or not all(type(x) is str for x in b):
                for x in b:
                    if a == x:
                        return True
                return False
            r = S.Or([a == x for x in b])
            return bool(r)
        return a in b
    if tb in (set, frozenset, dict) and ta in (int, str) and any(type(x) in _SYM for x in b):
        for x in b:
            if x == a:
                return True
        return False
    return a in b


def sx_item(o, k):
    if type(o) is dict and type(k) is int and k not in o:
        # a concrete key does not have the hash of the symbolic key it may be equal to
        for x in o:
            if type(x) is SymInt and x == k:
                return o[x]
    return o[k]


def sx_not(a):
    if type(a) is SymBool:
        return a.negate()
    return not a


def sx_bool_in(a, b):
    r = sx_in(a, b)
    return r


# ------------------------------------------------------------------------------------------ re
class SxRe:
    """Stand-in for the re module: real re on concrete text, symbolic matcher otherwise."""

    def __getattr__(self, name):
        return getattr(_re, name)

    def compile(self, pattern, flags=0):
        return SxPattern(pattern, flags)

    def match(self, pattern, s, flags=0):
        return self.compile(pattern, flags).match(s)

    def search(self, pattern, s, flags=0):
        return self.compile(pattern, flags).search(s)

    def fullmatch(self, pattern, s, flags=0):
        return self.compile(pattern, flags).fullmatch(s)

    def split(self, pattern, s, maxsplit=0, flags=0):
        return self.compile(pattern, flags).split(s, maxsplit)

    def findall(self, pattern, s, flags=0):
        return self.compile(pattern, flags).findall(s)

    def finditer(self, pattern, s, flags=0):
        return self.compile(pattern, flags).finditer(s)

    def sub(self, pattern, repl, s, count=0, flags=0):
        return self.compile(pattern, flags).sub(repl, s, count)


class SxPattern:
    def __init__(self, pattern, flags=0):
        if _isinstance(pattern, SxPattern):
            pattern, flags = pattern.pattern, pattern.flags
        if type(pattern) in (SymStr, SymChoice):
            pattern = T.force_str(pattern)
        if _isinstance(pattern, _re.Pattern):
            self.real = pattern
        else:
            self.real = _re.compile(pattern, flags)
        self.pattern = self.real.pattern
        self.flags = flags
        self.groupindex = self.real.groupindex

    def _c(self, s):
        return type(s) is not SymStr

    def match(self, s, pos=0):
        if type(s) is SymChoice:
            s = s.force()
        if self._c(s):
            return self.real.match(s, pos)
        from symex import rx
        return rx.match(self.real, s, pos)

    def search(self, s, pos=0):
        if type(s) is SymChoice:
            s = s.force()
        if self._c(s):
            return self.real.search(s, pos)
        from symex import rx
        return rx.search(self.real, s, pos)

    def fullmatch(self, s):
        if type(s) is SymChoice:
            s = s.force()
        if self._c(s):
            return self.real.fullmatch(s)
        from symex import rx
        return rx.match(self.real, s, 0, full=True)

    def split(self, s, maxsplit=0):
        if self._c(s):
            return self.real.split(T.plain(s), maxsplit)
        from symex import rx
        return rx.split(self.real, s, maxsplit)

    def findall(self, s):
        if self._c(s):
            return self.real.findall(T.plain(s))
        from symex import rx
        return rx.findall(self.real, s)

    def finditer(self, s):
        if self._c(s):
            return self.real.finditer(T.plain(s))
        from symex import rx
        return rx.finditer(self.real, s)

    def sub(self, repl, s, count=0):
        if self._c(s):
            return self.real.sub(repl, T.plain(s), count)
        from symex import rx
        return rx.sub(self.real, repl, s, count)


RE = SxRe()

BUILTINS = {
    'isinstance': sx_isinstance, 'chr': sx_chr, 'ord': sx_ord, 'range': sx_range, 'int': sx_int, 'str': sx_str,
    'hex': sx_hex, 'format': sx_format, 'repr': sx_repr, 'sum': sx_sum,
    '__sx_mod__': sx_mod, '__sx_fstr__': sx_fstr, '__sx_in__': sx_in, '__sx_item__': sx_item, '__sx_not__': sx_not,
    '__sx_strcall__': sx_strcall,
}


class SxStringIO:
    def __init__(self, initial=''):
        self._parts = [initial] if not (type(initial) is str and not initial) else []

    def write(self, s):
        if not _isinstance(s, str) and type(s) not in (SymStr, SymChoice):
            raise TypeError("string argument expected, got '%s'" % type(s).__name__)
        self._parts.append(s)
        return 0

    def getvalue(self):
        return T.concat(self._parts)

    def flush(self):
        pass

    def close(self):
        pass


def sx_date(y, m, d):
    """datetime.date() for possibly symbolic numbers"""
    if not has_sym((y, m, d)):
        return _datetime.date(y, m, d)
    for v in (y, m, d):
        if S.Or(v > 2147483647, v < -2147483648):
            raise OverflowError('Python int too large to convert to C int')
    if not S.And(y >= 1, y <= 9999):
        raise ValueError('year is out of range')
    if not S.And(m >= 1, m <= 12):
        raise ValueError('month must be in 1..12')
    y, m, d = (S.SymInt(S.zi(v)) for v in (y, m, d))
    leap = S.And(y % 4 == 0, S.Or(y % 100 != 0, y % 400 == 0))
    dim = S.Ite(m == 2, S.Ite(leap, 29, 28), S.Ite(S.Or([m == k for k in (4, 6, 9, 11)]), 30, 31))
    if not S.And(d >= 1, d <= dim):
        raise ValueError('day is out of range for month')
    return SxDateValue(y, m, d)


class SxDateValue:
    def __init__(self, y, m, d):
        self.year, self.month, self.day = y, m, d

    def isoformat(self):
        return SymStr([T.DecAtom(self.year, 4), '-', T.DecAtom(self.month, 2), '-', T.DecAtom(self.day, 2)])

    __str__ = isoformat

    def strftime(self, fmt):
        if fmt != '%Y-%m-%d':
            from symex.engine import Inconclusive
            raise Inconclusive('strftime')
        return self.isoformat()


class _MetaDate(type):
    def __instancecheck__(cls, o):
        return _isinstance(o, (_datetime.date, SxDateValue))

    def __getattr__(cls, name):
        return getattr(_datetime.date, name)


class SxDate(metaclass=_MetaDate):
    def __new__(cls, y, m, d):
        return sx_date(y, m, d)

    @staticmethod
    def fromisoformat(s):
        if type(s) is not SymStr:
            return _datetime.date.fromisoformat(s)
        from symex.engine import Inconclusive
        raise Inconclusive('fromisoformat')


class SxDatetime:
    """stands for the datetime module"""
    date = SxDate

    def __getattr__(self, name):
        return getattr(_datetime, name)


class SxIO:
    """stands for the io module"""
    StringIO = SxStringIO

    def __getattr__(self, name):
        import io
        return getattr(io, name)


def patch_module(module):
    d = module.__dict__
    if d.get('re') is _re:
        d['re'] = RE
    if d.get('text_type') is str:
        d['text_type'] = sx_str
    if d.get('datetime') is _datetime:
        d['datetime'] = DATETIME
    if d.get('io') is _io:
        d['io'] = IO
    if d.get('StringIO') is _io.StringIO:
        d['StringIO'] = SxStringIO
    for name, value in list(d.items()):
        if _isinstance(value, _re.Pattern):
            d[name] = SxPattern(value)


IO = SxIO()
DATETIME = SxDatetime()
