"""Input contexts: the same harness runs symbolically (SymCtx) and on concrete values (ConcCtx)."""
import z3
from symex import engine as E
from symex import sym as S


class Violation(Exception):
    """Raised by ConcCtx.check."""

    def __init__(self, label):
        super().__init__(label)
        self.label = label


def _key(args):
    return [int(a) for a in args]


class SymCtx:
    symbolic = True

    def __init__(self, eng, tier, cfg=None):
        self.eng = eng
        self.tier = tier
        self.cfg = cfg or {}
        self.ints = {}
        self.bools = {}
        self.ufs = {}
        self.observed = []
        self.violations = []     # (label, inputs)
        self.reached = set()
        self.known_hits = []
        self.findings = ()

    # -- inputs
    def int(self, name, lo=None, hi=None):
        assert name not in self.ints, name
        v = z3.Int('i_' + name)
        self.ints[name] = v
        r = S.SymInt(v)
        if lo is not None:
            self.eng.assume(v >= lo)
        if hi is not None:
            self.eng.assume(v <= hi)
        return r

    def cp(self, name):
        return self.int(name, 0, 0x10FFFF)

    def const(self, n):
        """a constant that can share dictionaries with symbolic integers"""
        return S.SymInt(z3.IntVal(n))

    def bool(self, name):
        assert name not in self.bools, name
        v = z3.Bool('b_' + name)
        self.bools[name] = v
        return S.SymBool(v)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return S.SymChoice(self.int('c_' + name, 0, len(options) - 1), options)

    def pick(self, name, options):
        """A choice resolved immediately (forks over all options)."""
        if isinstance(options, int):
            options = range(options)
        options = list(options)
        if len(options) == 1:
            return options[0]
        v = self.int('p_' + name, 0, len(options) - 1)
        for k in range(len(options) - 1):
            if v == k:
                return options[k]
        return options[-1]

    def flag(self, name):
        return bool(self.bool(name))

    def uf(self, name, args, rng='bool', lo=None, hi=None):
        """Uninterpreted function application."""
        args = [S.zi(a) for a in args]
        key = '%s/%d' % (name, len(args))
        ent = self.ufs.get(key)
        if ent is None:
            sorts = [z3.IntSort()] * len(args) + [z3.BoolSort() if rng == 'bool' else z3.IntSort()]
            f = z3.Function('f_' + key, *sorts) if args else (
                z3.Bool('f_' + key) if rng == 'bool' else z3.Int('f_' + key))
            ent = self.ufs[key] = (f, rng, [])
        f = ent[0]
        app = f(*args) if args else f
        ent[2].append(args)
        if rng == 'bool':
            return S.SymBool(app)
        if lo is not None:
            self.eng.assume(z3.And(app >= lo, app <= hi))
        return S.SymInt(app)

    def uf_choice(self, name, args, options):
        if len(options) == 1:
            return options[0]
        return S.SymChoice(self.uf(name, args, 'int', 0, len(options) - 1), list(options))

    # -- logic
    def assume(self, *conds):
        for c in conds:
            self.eng.assume(S.zb(c) if not isinstance(c, bool) else c)

    def check(self, cond, label, known=None):
        """Obligation.  known=(finding id, condition): inputs on which a recorded finding fails."""
        self.reached.add(label)
        if known is not None:
            fid, when = known
            if fid in self.findings:
                m = self.eng.check(S.zb(S.Or(cond, S.Not(when))))
                if m is not None:
                    self.known_hits.append((fid, label, self.inputs(m)))
                cond = S.Or(cond, when)
        m = self.eng.check(S.zb(cond) if not isinstance(cond, bool) else cond)
        if m is not None:
            self.violations.append((label, self.inputs(m)))
            raise E.PathEnd(label)

    def fail(self, label):
        self.check(False, label)

    def observe(self, value):
        self.observed.append(value)

    def reach(self, label):
        self.reached.add(label)

    # -- models
    def inputs(self, model):
        out = {'ints': {}, 'bools': {}, 'ufs': {}}
        for n, v in self.ints.items():
            out['ints'][n] = model.eval(v, model_completion=True).as_long()
        for n, v in self.bools.items():
            out['bools'][n] = z3.is_true(model.eval(v, model_completion=True))
        for key, (f, rng, apps) in self.ufs.items():
            table = {}
            for args in apps:
                k = ','.join(str(model.eval(a, model_completion=True).as_long()) for a in args)
                app = f(*args) if args else f
                r = model.eval(app, model_completion=True)
                table[k] = z3.is_true(r) if rng == 'bool' else r.as_long()
            out['ufs'][key] = table
        return out


class ConcCtx:
    symbolic = False

    def __init__(self, inputs, tier, cfg=None):
        self.inputs_ = inputs
        self.tier = tier
        self.cfg = cfg or {}
        self.observed = []
        self.reached = set()
        self.known_hits = []
        self.findings = ()

    def int(self, name, lo=None, hi=None):
        return self.inputs_['ints'].get(name, lo if lo is not None else 0)

    def cp(self, name):
        return self.int(name, 0, 0x10FFFF)

    def const(self, n):
        return n

    def bool(self, name):
        return self.inputs_['bools'].get(name, False)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int('c_' + name)]

    def pick(self, name, options):
        if isinstance(options, int):
            options = range(options)
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int('p_' + name)]

    def flag(self, name):
        return self.bool(name)

    def uf(self, name, args, rng='bool', lo=None, hi=None):
        key = '%s/%d' % (name, len(args))
        k = ','.join(str(int(a)) for a in args)
        default = False if rng == 'bool' else (lo or 0)
        return self.inputs_['ufs'].get(key, {}).get(k, default)

    def uf_choice(self, name, args, options):
        if len(options) == 1:
            return options[0]
        return options[self.uf(name, args, 'int', 0, len(options) - 1)]

    def assume(self, *conds):
        for c in conds:
            if not c:
                raise E.Infeasible('assumption violated in replay')

    def check(self, cond, label, known=None):
        self.reached.add(label)
        if not cond:
            if known is not None and known[0] in self.findings and known[1]:
                self.known_hits.append((known[0], label))
                return
            raise Violation(label)

    def fail(self, label):
        raise Violation(label)

    def observe(self, value):
        self.observed.append(S.evaluate(value, None))

    def reach(self, label):
        self.reached.add(label)
