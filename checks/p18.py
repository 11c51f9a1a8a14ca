"""Metadata values."""
import datetime as real_datetime
from checks.common import *

SETTERS = ['date', 'validity_start', 'validity_end']


def is_digit(c):
    return And(c >= 48, c <= 57)


def ref_date(codes):
    """condition: YYYY-MM-DD naming a calendar date"""
    if len(codes) != 10:
        return False
    digits = [c for k, c in enumerate(codes) if k not in (4, 7)]
    v = [c - 48 for c in digits]
    y, m, d = v[0] * 1000 + v[1] * 100 + v[2] * 10 + v[3], v[4] * 10 + v[5], v[6] * 10 + v[7]
    return And([is_digit(c) for c in digits] + [codes[4] == 45, codes[7] == 45, y >= 1, m >= 1, m <= 12, d >= 1, valid_day(y, m, d)])


def valid_day(y, m, d):
    leap = Or(And(y % 4 == 0, y % 100 != 0), y % 400 == 0)
    return Or(d <= 28, And(m == 2, leap, d == 29), And(m != 2, d <= 30), And(Or([m == k for k in (1, 3, 5, 7, 8, 10, 12)]), d <= 31))


def store(ctx, text, ok, setter, get, kind):
    """one attempt to store a text"""
    from lgr.exceptions import LGRFormatException
    force = ctx.pick('force', ctx.cfg.get('force', [False, True]))
    before = get()
    try:
        setter(text, force=force)
        done = True
    except LGRFormatException:
        done = False
    if force:
        ctx.check(done, kind + ': a forced value is stored')
    else:
        ctx.check(Iff(ok, done), kind + ': stored exactly when well-formed')
    ctx.check(deep_eq(get(), text if done else before), kind + ': a stored value reads back, a rejected one is not stored')
    ctx.observe([done, get()])


def dates(ctx):
    cfg = ctx.cfg
    l = lgr()
    m = l.metadata
    which = ctx.pick('which', cfg.get('which', SETTERS))
    if cfg.get('parts'):
        ns = ctx.pick('parts', cfg['parts'])
        text, codes = '', []
        for k, n in enumerate(ns):
            t, c = symtext(ctx, 'p%d_' % k, abs(n), *(ANY if n < 0 else cfg['chars']))
            for x in c:
                ctx.assume(x != 45)
            if k:
                text, codes = text + '-', codes + [45]
            text, codes = text + t, codes + c
    else:
        text, codes = symtext(ctx, 't', ctx.pick('n', cfg['lens']), *cfg['chars'])
    others = [s for s in SETTERS if s != which]
    if ctx.pick('old', cfg.get('old', [False, True])):
        getattr(m, 'set_' + which)('2020-02-29')
    store(ctx, text, ref_date(codes), getattr(m, 'set_' + which), lambda: getattr(m, which), 'date')
    ctx.check(And([getattr(m, s) is None for s in others]), 'no other value changes')


def unicode_version(ctx):
    cfg = ctx.cfg
    m = lgr().metadata
    n = ctx.pick('n', cfg['lens'])
    text, codes = symtext(ctx, 't', n, *cfg['chars'])
    oks = []
    for i in range(1, n - 3):
        for j in range(i + 2, n - 1):
            oks.append(And([c == 46 if k in (i, j) else is_digit(c) for k, c in enumerate(codes)]))
    store(ctx, text, Or(oks), m.set_unicode_version, lambda: m.unicode_version, 'unicode version')
    ctx.check(Or(m.rfc7940_checks.test_result.get('valid_unicode_version', True), Not(Or(oks))), 'a good unicode version is no failure')
    if not Or(oks):
        ctx.check(m.rfc7940_checks.test_result.get('valid_unicode_version') is False, 'a bad unicode version is a failure')


class Tags:
    """stands for the language tag registry: any set of tags may be valid"""

    def __init__(self, ctx):
        self.ctx = ctx

    def valid(self, t):
        return self.ctx.uf('valid_' + t, [])

    def check(self, t):
        return bool(self.valid(t))

    def tag(self, t):
        tag = TagObject()
        tag.valid = bool(self.valid(t))
        return tag


class TagObject:
    language = None

    class script:
        format = 'Latn'


def languages(ctx):
    import lgr.metadata
    from lgr.exceptions import LGRFormatException
    cfg = ctx.cfg
    saved = lgr.metadata.rfc5646
    lgr.metadata.rfc5646 = tags = Tags(ctx)
    try:
        m = lgr.metadata.Metadata()
        want = []
        seen = []
        for k in range(cfg['steps']):
            op = ctx.pick('op%d' % k, ['add', 'set'])
            force = ctx.pick('f%d' % k, [False, True])
            if op == 'add':
                t = ctx.pick('t%d' % k, cfg['tags'])
                ok = True
                try:
                    m.add_language(t, force=force)
                except LGRFormatException:
                    ok = False
                good = tags.valid(t)
                seen.append(good)
                new = want + [t] if t not in want else want
            else:
                ts = ctx.pick('s%d' % k, cfg['sets'])
                ok = True
                try:
                    m.set_languages(iter(ts) if ctx.pick('it%d' % k, [False, True]) else list(ts), force=force)
                except LGRFormatException:
                    ok = False
                good = And([tags.valid(t) for t in ts])
                new = list(ts)
            ctx.check(Iff(ok, Or(force, good)), 'languages: accepted exactly when valid or forced')
            if ok:
                want = new
            noted = m.rfc7940_checks.test_result
            ctx.check(Iff(noted.get('metadata_language', True), And(seen)), 'languages: an invalid one is noted, even if forced')
            ctx.check(m.languages == want, 'languages: a rejected language is not stored')
            n = sum(1 for t in want if tags.valid(t))
            ctx.check(m.get_scripts() == ['Latn'] * n, 'scripts are those of the current valid languages')
            ctx.check(m.get_scripts(allow_invalid=True) == ['Latn'] * len(want), 'scripts are those of the current languages')
        ctx.observe(want)
    finally:
        lgr.metadata.rfc5646 = saved


class Today:
    """stands for the datetime module: today is symbolic"""

    def __init__(self, text):
        self.text = text
        self.date = self

    def today(self):
        return self

    def strftime(self, fmt):
        assert fmt == '%Y-%m-%d'
        return self.text

    def isoformat(self):
        return self.text


def symdate(ctx, name):
    """(text, number) of an arbitrary calendar date"""
    codes = [45 if k in (4, 7) else ctx.int('%s%d' % (name, k), 48, 57) for k in range(10)]
    ctx.assume(ref_date(codes))
    if ctx.symbolic:
        from symex.strs import SymStr
        text = SymStr.of([chr(45) if k in (4, 7) else c for k, c in enumerate(codes)])
    else:
        text = ''.join(map(chr, codes))
    return text, Sum([codes[k] * 10 ** (9 - k) for k in range(10)])


def compliance(ctx):
    """the metadata checks"""
    import lgr.validate.metadata as V
    import lgr.metadata as M
    cfg = ctx.cfg
    l = lgr()
    m = l.metadata
    today, t = symdate(ctx, 'today')
    start = end = None
    if ctx.flag('has_start'):
        text, start = symdate(ctx, 's')
        m.validity_start = text
    if ctx.flag('has_end'):
        text, end = symdate(ctx, 'e')
        m.validity_end = text
    bad_version = False
    n = ctx.pick('version', cfg['version'])
    if n is not None:
        text, codes = symtext(ctx, 'v', n)
        m.version = M.Version(text)
        bad_version = Not(And([And(codes[0] >= 49, codes[0] <= 57)] + [is_digit(c) for c in codes[1:]])) if n else True
    scopes = ctx.pick('scopes', cfg['scopes'])
    m.scopes = [M.Scope('x%d' % k, s) for k, s in enumerate(scopes)]
    desc = ctx.pick('description', cfg['descriptions'])
    if desc is not False:
        m.description = M.Description('text', desc)
    saved = V.datetime
    V.datetime = Today(today)
    try:
        ok, res = V.check_metadata(l, {})
    finally:
        V.datetime = saved
    want = {'validity_end_expiry': Not(end < t) if end is not None else True,
            'validity_start_end': Not(start > end) if start is not None and end is not None else True,
            'validity_started': Not(start > t) if start is not None else True,
            'metadata_description_type': desc in (False, None, 'text/plain', 'text/html'),
            'metadata_scope_type': not any(s not in (None, 'domain') for s in scopes),
            'metadata_version_integer': Not(bad_version)}
    got = m.rfc7940_checks.test_result
    ctx.check(set(got) == set(want), 'every metadata test case is executed')
    for k in sorted(want):
        ctx.check(Iff(got[k], want[k]), k + ' is noted exactly')
    ctx.check(Iff(ok, And(list(want.values()))), 'the check succeeds exactly without violation')
    ctx.observe([ok, sorted(got.items())])


ANY = (1, 0x10FFFF)
HARNESSES = [

    Harness('dates', dates, 'every text of 5 and 8 (thorough 10, 11) characters out of - . / and digits as date, with and without force',
            quick=dict(lens=[0, 5, 8], chars=(45, 58), which=['date'], old=[True], force=[False]),
            thorough=dict(lens=[1, 7, 8, 9, 10], chars=(45, 58), which=['date'], old=[True], force=[False]),
            must_reach=['date: stored exactly when well-formed', 'date: a stored value reads back, a rejected one is not stored']),
    Harness('setters', dates, 'every text of the form D-D-D, D up to 4 digits, as date, validity start or end, with and without force and an earlier value',
            quick=dict(parts=[(4, 2, 2), (4, 1, 2)], chars=(47, 57)), thorough=dict(parts=[(4, 2, 2), (4, 1, 2), (4, 2, 1), (2, 2, 4), (3, 2, 2)], chars=(47, 57)),
            must_reach=['date: stored exactly when well-formed', 'date: a forced value is stored']),
    Harness('date parts', dates, 'texts D-D-D, one part of up to 4 arbitrary Unicode characters, the others digits',
            quick=dict(parts=[(-4, 2, 2), (4, -2, 2), (4, 2, -2), (-1, -1, -1), (4, 2, -3)], chars=(48, 57), which=['validity_start'], old=[True], force=[False]),
            thorough=dict(parts=[(-4, 2, 2), (4, -2, -2), (4, 2, -4), (-2, -2, -2), (-5, 2, 2), (4, -3, 2), (-4, -2), (-4, 2, 2, -1)], chars=(48, 57), which=['validity_start'], old=[True], force=[False])),
    Harness('date numbers', dates, 'long digit strings between dashes',
            quick=dict(parts=[(11, 2, 2), (4, 10, 2)], chars=(48, 57), which=['date', 'validity_end'], old=[False]),
            thorough=dict(parts=[(10, 2, 2), (20, 2, 2), (4, 10, 2), (4, 2, 12)], chars=(48, 57), old=[False])),
    Harness('unicode version', unicode_version, 'every text of up to 6 (8) characters',
            quick=dict(lens=[0, 1, 4, 5, 6], chars=ANY), thorough=dict(lens=[0, 1, 2, 3, 4, 5, 6, 7, 8], chars=ANY),
            must_reach=['unicode version: stored exactly when well-formed']),
    Harness('languages', languages, 'histories of 2 (3) language edits, tags of arbitrary validity',
            quick=dict(steps=2, tags=['en-US', 'fr'], sets=[(), ('en-US', 'fr')]), thorough=dict(steps=3, tags=['en-US', 'fr'], sets=[('fr',), ('en-US', 'fr')]),
            must_reach=['languages: accepted exactly when valid or forced']),
    Harness('compliance', compliance, 'arbitrary validity dates and current date, versions of up to 3 (4) arbitrary characters, scope and description types',
            quick=dict(version=[None, 1, 2], scopes=[(), ('domain', 'other'), (None,)], descriptions=[False, 'text/plain', 'text/none', '']),
            thorough=dict(version=[None, 0, 1, 2, 3, 4], scopes=[(), ('domain',), ('other', None), (None, 'domain', 'x')], descriptions=[False, None, 'text/html', 'text/none', '']),
            must_reach=['validity_end_expiry is noted exactly', 'metadata_version_integer is noted exactly', 'every metadata test case is executed']),
]
META = dict(assumptions=['which language tags are valid is decided by the language_tags package (an arbitrary answer here)', 'the current date is arbitrary'],
            outside='texts over 11 characters (digit strings: 20 per part)')
