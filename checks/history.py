"""Histories of edits: a reference model of the repertoire (a plain list of entries) driven in step with the real LGR."""
from checks.common import *


class Entry:
    def __init__(self, cp=None, rng=None, tags=(), refs=(), when=None, not_when=None, comment=None):
        self.cp = tuple(cp) if cp is not None else None
        self.rng = rng                       # (first, last, number of code points)
        self.tags, self.refs = list(tags), list(refs)
        self.when, self.not_when, self.comment = when, not_when, comment
        self.variants = []                   # [cp, type, when, not_when, refs]

    def members(self):
        return [self.cp] if self.rng is None else [(self.rng[0] + k,) for k in range(self.rng[2])]

    def clone(self, cp=None, rng=None):
        e = Entry(cp, rng, self.tags, self.refs, self.when, self.not_when, self.comment)
        e.variants = [list(v) for v in self.variants]
        return e

    def props(self):
        return (tuple(self.tags), tuple(self.refs), self.when, self.not_when, self.comment)


class Model:
    def __init__(self):
        self.entries = []
        self.types = set()

    def find(self, cp):
        cp = tuple(cp)
        for e in self.entries:
            for m in e.members():
                if len(m) == len(cp) and deep_eq(m, cp):
                    return e
        return None

    def find_range(self, first, last):
        for e in self.entries:
            if e.rng and And(e.rng[0] == first, e.rng[1] == last):
                return e
        return None

    def add(self, cp, **kw):
        if self.find(cp) is not None:
            return False
        self.entries.append(Entry(cp, **kw))
        return True

    def add_range(self, first, n, **kw):
        if any(self.find((first + k,)) is not None for k in range(n)):
            return False
        self.insert_run(first, n, **kw)
        return True

    def insert_run(self, first, n, **kw):
        if n == 1:
            self.entries.append(Entry((first,), **kw))
        elif n > 1:
            self.entries.append(Entry(rng=(first, first + (n - 1), n), **kw))

    def add_range_forced(self, first, n, skip=None, **kw):
        """what is not there yet, as maximal ranges"""
        run = 0
        new = []
        for k in range(n):
            if self.find((first + k,)) is None and not (skip and skip(first + k)):
                run += 1
            else:
                new.append((first + (k - run), run))
                run = 0
        new.append((first + (n - run), run))
        for f, m in new:
            self.insert_run(f, m, **kw)
        return True

    def delete(self, cp):
        """a code point of a range is taken out of the range"""
        e = self.find(cp)
        if e is None:
            return None
        i = self.entries.index(e)
        if e.rng is None:
            del self.entries[i]
            return e
        first, last, n = e.rng
        k = 0
        while not cp[0] == first + k:
            k += 1
        rest = []
        for f, m in ((first, k), (first + (k + 1), n - k - 1)):
            if m == 1:
                rest.append(e.clone((f,)))
            elif m > 1:
                rest.append(e.clone(rng=(f, f + (m - 1), m)))
        self.entries[i:i + 1] = rest
        return e

    def delete_range(self, first, last):
        e = self.find_range(first, last)
        if e is None:
            return False
        self.entries.remove(e)
        return True

    def expand(self, first, last):
        e = self.find_range(first, last)
        if e is None:
            return False
        i = self.entries.index(e)
        self.entries[i:i + 1] = [e.clone(m) for m in e.members()]
        return True

    def flat(self):
        return [(m, e.rng[:2] if e.rng else (), e.props(), tuple(tuple(v) for v in e.variants)) for e in self.entries for m in e.members()]


def vkey(v):
    return (tuple(v.cp), v.type, v.when, v.not_when, tuple(v.references))


def flat(l):
    """everything stored in the repertoire"""
    out = []
    for c in l.repertoire.all_repertoire():
        rng = (c.first_cp, c.last_cp) if type(c).__name__ == 'RangeChar' else ()
        out.append((tuple(c.cp), rng, (tuple(c.tags), tuple(c.references), c.when, c.not_when, c.comment), tuple(vkey(v) for v in c.get_variants())))
    return out


def flat_eq(a, b):
    """conditions: same content; variants of an entry in any order"""
    def one(x, y):
        return And(deep_eq(x[:3], y[:3]), multiset_eq(list(x[3]), list(y[3])) if len(x[3]) == len(y[3]) else False)
    return multiset_eq(a, b, one)


def state(l):
    """everything an edit may touch"""
    return (flat(l), [tuple(r) for r in l.repertoire.ranges], {n: list(c.codepoints) for n, c in l.get_tag_classes().items()},
            set(l.types), [(k, tuple(sorted(dict(v).items()))) for k, v in l.reference_manager.items()])


def state_eq(a, b):
    return And(flat_eq(a[0], b[0]), multiset_eq(a[1], b[1]), a[2].keys() == b[2].keys(),
               And([set_eq(a[2][k], b[2][k]) for k in a[2] if k in b[2]]), a[3] == b[3], deep_eq(a[4], b[4]))


def attempt(f, *a, **k):
    """(succeeded, exception)"""
    try:
        return True, f(*a, **k)
    except Exception as e:      # noqa
        return False, e
