"""Symbolic values: integers, booleans, enumerated strings.  Strings with symbolic content: strs.py."""
import z3
from symex import engine as E


def _eng():
    return E.ENG


# ------------------------------------------------------------------------------------ booleans
class SymBool:
    __slots__ = ('_e', 'key', 'pol')

    def __init__(self, e=None, key=None, pol=True):
        self._e = e
        self.key = key      # ('eq'|'lt', id1, id2, e1, e2)
        self.pol = pol

    @property
    def e(self):
        if self._e is None:
            op, _, _, a, b = self.key
            base = (a == b) if op == 'eq' else (a < b)
            self._e = base if self.pol else z3.Not(base)
        return self._e

    def __bool__(self):
        eng = E.ENG
        k = self.key
        if k is None:
            e = self._e
            known = eng.known
            i = e.get_id()
            v = known.get(i)
            if v is None:
                v = known[i] = eng.branch(e)
                eng.keep.append(e)
            return v
        op, i, j, a, b = k
        known = eng.known
        v = known.get((op, i, j))
        if v is None:
            v = eng.branch((a == b) if op == 'eq' else (a < b))
            eng.keep.append(a)
            eng.keep.append(b)
            if op == 'eq':
                known[('eq', i, j)] = known[('eq', j, i)] = v
                if v:
                    known[('lt', i, j)] = known[('lt', j, i)] = False
            else:
                known[('lt', i, j)] = v
                if v:
                    known[('lt', j, i)] = False
                    known[('eq', i, j)] = known[('eq', j, i)] = False
                elif known.get(('eq', i, j)) is False:
                    known[('lt', j, i)] = True
                elif known.get(('lt', j, i)) is False:
                    known[('eq', i, j)] = known[('eq', j, i)] = True
        return v if self.pol else not v

    def negate(self):
        if self.key is not None:
            return SymBool(None, self.key, not self.pol)
        return SymBool(z3.Not(self._e))

    def __and__(self, o):
        if o is True:
            return self
        if o is False:
            return False
        if isinstance(o, SymBool):
            return SymBool(z3.And(self.e, o.e))
        return bool(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if o is False:
            return self
        if o is True:
            return True
        if isinstance(o, SymBool):
            return SymBool(z3.Or(self.e, o.e))
        return bool(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return self.negate() if o else self
        if isinstance(o, SymBool):
            return SymBool(z3.Xor(self.e, o.e))
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return ~int(bool(self))

    def __eq__(self, o):
        if isinstance(o, bool):
            return self if o else self.negate()
        if isinstance(o, SymBool):
            return SymBool(self.e == o.e)
        if isinstance(o, (int, SymInt)):
            return self.as_int() == o
        return False

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def as_int(self):
        return SymInt(z3.If(self.e, 1, 0))

    def __add__(self, o):
        return self.as_int() + (o.as_int() if isinstance(o, SymBool) else o)

    __radd__ = __add__

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __repr__(self):
        return '<symbool>'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise TypeError('symbolic value cannot be pickled')


def zb(c):
    """-> z3 BoolRef (or Python bool lifted)"""
    if isinstance(c, SymBool):
        return c.e
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if isinstance(c, z3.BoolRef):
        return c
    return z3.BoolVal(bool(c))


def _simp(cs, absorbing):
    out = []
    for c in cs:
        if isinstance(c, SymBool):
            out.append(c.e)
        elif isinstance(c, z3.BoolRef):
            out.append(c)
        else:
            if bool(c) == absorbing:
                return None
    return out


def _flat(cs):
    out = []
    for c in cs:
        if isinstance(c, (list, tuple)) or not isinstance(c, (SymBool, bool, z3.BoolRef)) and hasattr(c, '__iter__') and not hasattr(c, 'chars'):
            out.extend(_flat(c))
        else:
            out.append(c)
    return out


def And(*cs):
    out = _simp(_flat(cs), False)
    if out is None:
        return False
    if not out:
        return True
    return SymBool(out[0] if len(out) == 1 else z3.And(out))


def Or(*cs):
    out = _simp(_flat(cs), True)
    if out is None:
        return True
    if not out:
        return False
    return SymBool(out[0] if len(out) == 1 else z3.Or(out))


def Not(c):
    if isinstance(c, SymBool):
        return c.negate()
    if isinstance(c, z3.BoolRef):
        return SymBool(z3.Not(c))
    return not c


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return SymBool(zb(a) == zb(b))


def Ite(c, a, b):
    """integers or booleans"""
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return Or(And(c, a), And(Not(c), b))
    return SymInt(z3.If(c.e, zi(a), zi(b)))


def Sum(xs):
    tot = 0
    for x in xs:
        if isinstance(x, SymBool):
            x = x.as_int()
        elif isinstance(x, bool):
            x = int(x)
        tot = tot + x
    return tot


# ------------------------------------------------------------------------------------ integers
def zi(v):
    if isinstance(v, SymInt):
        return v.e
    if isinstance(v, SymBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, z3.ExprRef):
        return v
    return z3.IntVal(int(v))


_CONST = {}


def _const(n):
    c = _CONST.get(n)
    if c is None:
        e = z3.IntVal(n)
        c = _CONST[n] = (e, e.get_id())
    return c


class SymInt:
    """An arbitrary (mathematical) integer.  Deliberately not an `int` subclass: C code that wants
    a machine integer must go through __index__, where the engine notices."""
    __slots__ = ('e', 'i', 'digit')         # digit: see strs.digit_of

    def __init__(self, e):
        self.e = e
        self.i = e.get_id()

    @staticmethod
    def _pair(o):
        if type(o) is SymInt:
            return o.e, o.i
        if isinstance(o, int):       # bool too
            return _const(int(o))
        if isinstance(o, SymBool):
            x = o.as_int()
            return x.e, x.i
        return None

    def __eq__(self, o):
        p = self._pair(o)
        if p is None:
            return False
        if p[1] == self.i:
            return True
        return SymBool(None, ('eq', self.i, p[1], self.e, p[0]))

    def __ne__(self, o):
        return Not(self == o)

    def __lt__(self, o):
        p = self._pair(o)
        if p is None:
            return NotImplemented
        if p[1] == self.i:
            return False
        return SymBool(None, ('lt', self.i, p[1], self.e, p[0]))

    def __gt__(self, o):
        p = self._pair(o)
        if p is None:
            return NotImplemented
        if p[1] == self.i:
            return False
        return SymBool(None, ('lt', p[1], self.i, p[0], self.e))

    def __le__(self, o):
        r = self.__gt__(o)
        return r if r is NotImplemented else Not(r)

    def __ge__(self, o):
        r = self.__lt__(o)
        return r if r is NotImplemented else Not(r)

    def __hash__(self):
        return 7

    def _bin(self, o, f, swap=False):
        p = self._pair(o)
        if p is None:
            return NotImplemented
        r = f(p[0], self.e) if swap else f(self.e, p[0])
        return SymInt(z3.simplify(r))

    def __add__(self, o):
        if type(o) is int and o == 0:
            return self
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, bytes)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return self._bin(o, lambda a, b: a / b)
        return self.__index__() // o

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return self._bin(o, lambda a, b: a % b)
        return self.__index__() % o

    def __rshift__(self, n):
        return self // (1 << n)

    def __lshift__(self, n):
        return self * (1 << n)

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return self.__index__() & o

    __rand__ = __and__

    def __or__(self, o):
        return self.__index__() | o

    __ror__ = __or__

    def __xor__(self, o):
        return self.__index__() ^ o

    def __truediv__(self, o):
        return self.__index__() / o

    def __rtruediv__(self, o):
        return o / self.__index__()

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __rmod__(self, o):
        return o % self.__index__()

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        return concretise(self)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def __str__(self):
        return str(self.__index__())

    def __repr__(self):
        return '<symint>'

    def bit_length(self):
        return self.__index__().bit_length()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise TypeError('symbolic value cannot be pickled')

    def __round__(self, n=None):
        return self


def concretise(x, limit=24):
    """Force an integer.  Complete when at most `limit` values are possible (the engine forks over
    them all); otherwise the path is given up as inconclusive."""
    eng = E.ENG
    for _ in range(limit):
        v = eng.choose_value(x.e)
        if eng.branch(x.e == v):
            return v
    eng.stats['concretised'] += 1
    raise E.Inconclusive('too many values to concretise')


# ------------------------------------------------------------------------- enumerated strings
class SymChoice:
    """A string (or other hashable) out of a finite alphabet, selected by a symbolic integer."""
    __slots__ = ('sel', 'options', '_val')

    def __init__(self, sel, options):
        self.sel = sel
        self.options = options
        self._val = None

    def force(self):
        if self._val is None:
            for k, o in enumerate(self.options[:-1]):
                if self.sel == k:
                    self._val = o
                    break
            else:
                self._val = self.options[-1]
        return self._val

    def is_(self, value):
        """condition: this equals value"""
        hits = [k for k, o in enumerate(self.options) if o == value]
        if not hits:
            return False
        return Or([self.sel == k for k in hits])

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, SymChoice):
            if o.options == self.options:
                return self.sel == o.sel
            return Or([And(self.sel == i, o.sel == j)
                       for i, a in enumerate(self.options) for j, b in enumerate(o.options) if a == b])
        if isinstance(o, str):
            return self.is_(o)
        return False

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        return hash(self.force())

    def __str__(self):
        return self.force()

    __repr__ = __str__

    def __format__(self, spec):
        return format(self.force(), spec)

    def __add__(self, o):
        return self.force() + o

    def __radd__(self, o):
        return o + self.force()

    def __bool__(self):
        hits = [self.sel == k for k, o in enumerate(self.options) if o]
        return bool(Or(hits))

    def __lt__(self, o):
        return self.force() < str(o)

    def __gt__(self, o):
        return self.force() > str(o)

    def __le__(self, o):
        return self.force() <= str(o)

    def __ge__(self, o):
        return self.force() >= str(o)

    def __len__(self):
        return len(self.force())

    def __iter__(self):
        return iter(self.force())

    def __getitem__(self, i):
        return self.force()[i]

    def __contains__(self, o):
        return str(o) in self.force()

    def __mod__(self, o):
        return self.force() % o

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.force(), name)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise TypeError('symbolic value cannot be pickled')


# --------------------------------------------------------------------------------- structures
def deep_eq(a, b):
    """Condition (no forking): structural equality of nested tuples/lists/scalars."""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        return And([deep_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        return False
    if a is b:
        return True
    return a == b


def lex_lt(a, b):
    """Condition: tuple a < tuple b (code point order)."""
    if not b:
        return False
    if not a:
        return True
    return Or(a[0] < b[0], And(a[0] == b[0], lex_lt(a[1:], b[1:])))


def is_sym(v):
    return isinstance(v, (SymInt, SymBool, SymChoice))


def evaluate(v, model):
    """Concrete value of a nested structure under a z3 model."""
    if isinstance(v, SymInt):
        return model.eval(v.e, model_completion=True).as_long()
    if isinstance(v, SymBool):
        return z3.is_true(model.eval(v.e, model_completion=True))
    if isinstance(v, SymChoice):
        return v.options[max(0, min(len(v.options) - 1, evaluate(v.sel, model)))]
    if hasattr(v, '_sx_eval'):
        return v._sx_eval(model)
    if isinstance(v, (tuple, list)):
        return [evaluate(x, model) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((evaluate(x, model) for x in v), key=repr)
    if isinstance(v, dict):
        return sorted(([evaluate(k, model), evaluate(x, model)] for k, x in v.items()), key=repr)
    return v
