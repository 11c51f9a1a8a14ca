"""Text tables: RFC 3743, RFC 4290 and one code point (sequence) per line."""
import io
import logging
from checks.common import *
from checks.history import attempt
from checks.p15 import where
from checks.xmldoc import hexa


class Lines:
    """a text file"""

    def __init__(self, lines, end):
        self.lines, self.at = [x + end for x in lines], 0

    def __iter__(self):
        while self.at < len(self.lines):
            self.at += 1
            yield self.lines[self.at - 1]

    def readline(self):
        for x in self:
            return x
        return ''

    def readlines(self):
        return list(self)

    def read(self):
        out = ''
        for x in self:
            out = out + x
        return out

    def seek(self, pos, whence=0):
        self.at = 0


def document(ctx, lines, end='\n'):
    if ctx.symbolic:
        return Lines(lines, end)
    return io.StringIO(''.join(x + end for x in lines))


class Errors(logging.Handler):
    """counts the errors reported"""

    def __init__(self):
        super().__init__(logging.ERROR)
        self.count = 0

    def emit(self, record):
        self.count += 1

    def __enter__(self):
        logging.disable(logging.NOTSET)
        self.log = logging.getLogger('lgr')
        self.kept = self.log.propagate, self.log.level
        self.log.propagate = False
        self.log.setLevel(logging.ERROR)
        self.log.addHandler(self)
        return self

    def __exit__(self, *a):
        self.log.removeHandler(self)
        self.log.propagate, self.log.level = self.kept[0], self.kept[1]
        self.log.setLevel(self.kept[1])
        logging.disable(logging.CRITICAL)


def parse(ctx, kind, src, force=True):
    """(lgr, errors reported)"""
    import lgr.parser.rfc3743_parser as a
    import lgr.parser.rfc4290_parser as b
    import lgr.parser.line_parser as c
    import lgr.parser.heuristic_parser as d
    cls = {'3743': a.RFC3743Parser, '4290': b.RFC4290Parser, 'line': c.LineParser, 'guess': d.HeuristicParser}[kind]
    with Errors() as e:
        l = cls(src, filename='t', force=force).parse_document()
    return l, e.count


def join(ws, sep):
    out = ws[0]
    for w in ws[1:]:
        out = out + sep + w
    return out


def code(ctx, c, form):
    """text of a code point"""
    if form == 'u':
        return 'U+' + hexa(c)
    if form == 'l':
        return 'U+' + hexa(c, 6, False)
    return hexa(c)


class Table:
    """the entries the lines read so far state"""

    def __init__(self):
        self.ents = []          # [cp, refs, [(variant, type, refs)]]
        self.refs = []
        self.errors = 0

    def add(self, cp, refs, force=True):
        refs = self.known(refs, force)
        k = self.find(cp)
        if k is None and refs is not None:
            self.ents.append([cp, refs, []])
        else:
            self.errors += 1

    def known(self, refs, force):
        if force:
            return [r for r in refs if r in self.refs]
        return list(refs) if all(r in self.refs for r in refs) else None

    def variant(self, cp, var, kind, refs, force=True):
        k = self.find(cp)
        refs = self.known(refs, force)
        if k is None or refs is None or where([v[0] for v in self.ents[k][2]], var) is not None:
            self.errors += 1
        else:
            self.ents[k][2].append((var, kind, refs))

    def find(self, cp):
        return where([e[0] for e in self.ents], cp)

    def check(self, ctx, l, errors):
        got = [[tuple(c.cp), sorted(str(r) for r in c.references), [(tuple(v.cp), v.type, sorted(str(r) for r in v.references)) for v in c.get_variants()]] for c in l.repertoire]
        ctx.check(len(got) == len(self.ents), 'the entries are those the good lines state')
        for cp, refs, vs in self.ents:
            k = where([g[0] for g in got], cp)
            if k is None:
                ctx.check(False, 'the entries are those the good lines state')
                return
            ctx.check(got[k][1] == sorted(refs), 'entries have the references stated')
            ctx.check(multiset_eq([(v, t, tuple(r)) for v, t, r in got[k][2]], [(v, t, tuple(sorted(r))) for v, t, r in vs]), 'entries have the variants stated')
        ctx.check((errors > 0) == (self.errors > 0), 'malformed lines are reported')


def words_of(ctx, nm, lens, form):
    cp = cps(ctx, nm, ctx.pick(nm + 'n', lens))
    if ctx.cfg.get('short'):
        ctx.assume(And([c < 0x10000 for c in cp]))
    return cp, [code(ctx, c, form) for c in cp]


def rfc4290(ctx):
    cfg = ctx.cfg
    lines, want = [], Table()
    for k in range(ctx.pick('lines', cfg['lines'])):
        kind = ctx.pick('k%d' % k, cfg['kinds'])
        if kind != 'good':
            first, second = {'comment': ('# U+', '|U+0041'), 'blank': ('  ', None), 'other': ('x U+', '|U+0041'), 'base': ('U+', '-zz|U+0041'), 'short': ('U+', '-U+41'), 'dash': ('U+', '-')}[kind]
            c = ctx.int('c%d' % k, 0, 0xFFFF)
            lines.append(first + hexa(c) + second if second is not None else first)
            want.errors += kind in ('base', 'short', 'dash')
            continue
        form = ctx.pick('f%d' % k, cfg['forms'])
        cp, text = words_of(ctx, 'e%d' % k, cfg['lens'], form)
        want.add(cp, [])
        vs = []
        for j in range(ctx.pick('nv%d' % k, cfg['nvars'])):
            if ctx.pick('bad%d_%d' % (k, j), cfg['badvars']):
                vs.append('U+zz')
                want.errors += 1
                continue
            v, w = words_of(ctx, 'v%d_%d' % (k, j), cfg['vlens'], form)
            want.variant(cp, v, None, [])
            vs.append(join(w, '-'))
        line = join(text, '-')
        if vs:
            line = line + '|' + join(vs, ':')
        lines.append(ctx.pick('pre%d' % k, cfg['before']) + line + ctx.pick('post%d' % k, cfg['after']))
    l, errors = parse(ctx, ctx.pick('parser', ['4290']), document(ctx, lines, ctx.pick('end', cfg['ends'])), force=ctx.pick('force', cfg['force']))
    want.check(ctx, l, errors)
    ctx.observe([len(want.ents), want.errors])


def rfc3743(ctx):
    cfg = ctx.cfg
    lines, want = [], Table()
    force = ctx.pick('force', cfg['force'])
    title = ctx.pick('title', cfg.get('titles', ['Title of %s']))
    for r in ctx.pick('refs', cfg['refs']):
        lines.append('Reference %s %s  # c' % (r, title % r))
        want.refs.append(r)
    for k in range(ctx.pick('lines', cfg['lines'])):
        kind = ctx.pick('k%d' % k, cfg['kinds'])
        if kind != 'good':
            first, second = {'comment': ('#', ';0041'), 'blank': ('  ', None), 'other': ('x ', ';0041'), 'two': ('', ',0041;0042'), 'version': ('Version 2 20200101 # ', '')}[kind]
            if second is None:
                lines.append(first)
            else:
                lines.append(first + hexa(ctx.int('c%d' % k, 0, 0xFFFF)) + second)
            want.errors += kind == 'two'
            continue
        form = ctx.pick('f%d' % k, cfg['forms'])
        gap = ctx.pick('gap%d' % k, cfg['gaps'])
        cp, text = words_of(ctx, 'e%d' % k, cfg['lens'], form)
        refs = ctx.pick('r%d' % k, cfg['erefs'])
        line = join(text, ' ') + ('(%s)' % ','.join(refs) if refs else '')
        want.add(cp, refs, force)
        n = ctx.pick('nv%d' % k, cfg['nvars'])
        if n is not None:
            for j, part in enumerate(n):
                vs = []
                for i in range(part):
                    v, w = words_of(ctx, 'v%d_%d_%d' % (k, j, i), cfg['vlens'], form)
                    refs = ctx.pick('vr%d_%d_%d' % (k, j, i), cfg['vrefs'])
                    want.variant(cp, v, 'activated' if j == 0 else None, refs, force)
                    vs.append(join(w, ' ') + ('(%s)' % ','.join(refs) if refs else ''))
                line = line + gap[0] + ';' + gap[1]
                if vs:
                    line = line + join(vs, gap[0] + ',' + gap[1])
        lines.append(ctx.pick('pre%d' % k, cfg['before']) + line + ctx.pick('post%d' % k, cfg['after']))
    l, errors = parse(ctx, '3743', document(ctx, lines, ctx.pick('end', cfg['ends'])), force=force)
    want.check(ctx, l, errors)
    rm = l.reference_manager
    ctx.check([(i, rm[i]['value'].strip(), rm[i].get('comment')) for i in rm] == [(r, title % r, 'c') for r in want.refs], 'references are read')
    ctx.observe([len(want.ents), want.errors])


def one_per_line(ctx):
    cfg = ctx.cfg
    lines, want = [], Table()
    for k in range(ctx.pick('lines', cfg['lines'])):
        kind = ctx.pick('k%d' % k, cfg['kinds'])
        if kind != 'good':
            first, second = {'comment': (' # U+', ''), 'blank': ('  ', None), 'other': ('x ', ' y')}[kind]
            lines.append(first + hexa(ctx.int('c%d' % k, 0, 0xFFFF)) + second if second is not None else first)
            want.errors += kind == 'other'
            continue
        cp, text = words_of(ctx, 'e%d' % k, cfg['lens'], ctx.pick('f%d' % k, cfg['forms']))
        want.add(cp, [])
        lines.append(ctx.pick('pre%d' % k, cfg['before']) + join(text, ctx.pick('sep%d' % k, cfg['seps'])) + ctx.pick('post%d' % k, cfg['after']))
    l, errors = parse(ctx, 'line', document(ctx, lines, ctx.pick('end', cfg['ends'])), force=ctx.pick('force', cfg['force']))
    want.check(ctx, l, errors)
    ctx.observe([len(want.ents), want.errors])


GOOD = {'3743': ('0100;0101;0102', [((0x101,), 'activated'), ((0x102,), None)]), '4290': ('U+0100|U+0101:U+0102', [((0x101,), None), ((0x102,), None)]), 'line': ('U+0100', [])}
GOOD2 = {'3743': ('0200;;0202', [((0x202,), None)]), '4290': ('U+0200|U+0202', [((0x202,), None)]), 'line': ('U+0200', [])}


def any_line(ctx):
    """a line with any characters between two good ones"""
    cfg = ctx.cfg
    kind = ctx.pick('kind', cfg['kinds'])
    text, codes = symtext(ctx, 'x', ctx.pick('n', cfg['lengths']), 32, 126)
    lines = [ctx.pick('head', cfg['heads'][kind]) + text + ctx.pick('tail', cfg['tails'][kind])]
    at = ctx.pick('at', [0, 1])
    if at:
        lines.insert(0, GOOD[kind][0])
    lines.append(GOOD2[kind][0])
    ok, got = attempt(parse, ctx, kind, document(ctx, lines), force=ctx.pick('force', cfg['force']))
    ctx.check(ok, 'no line stops the reading')
    if not ok:
        return
    l, errors = got
    for cp, vs in ([((0x100,), GOOD[kind][1])] if at else []) + [((0x200,), GOOD2[kind][1])]:
        if cp == (0x100,) and '0100' in cfg['heads'][kind]:
            continue
        ctx.check(l.check_cp(list(cp)), 'the other lines are read')
        have = [(tuple(v.cp), v.type) for v in l.get_variants(list(cp))]
        ctx.check(multiset_eq(have, vs), 'the other lines are not affected')
    ctx.check(len(l.repertoire) <= 2 + at, 'a line adds one entry at most')
    ctx.observe([len(l.repertoire)])


def hexdigits(ctx):
    """a code point is read from its digits, whichever these are"""
    cfg = ctx.cfg
    kind = ctx.pick('kind', cfg['kinds'])
    n = ctx.pick('n', cfg['lengths'])
    text, codes = symtext(ctx, 'x', n, 33, 126)
    u = ctx.pick('u', ['U+', ''] if kind == '3743' else ['U+'])
    for c in codes:
        ctx.assume(And([c != ord(x) for x in '#;|-:(),+']))
    digit = [Or(And(c >= 48, c <= 57), And(c >= 65, c <= 70), And(c >= 97, c <= 102)) for c in codes]
    ok, (l, errors) = attempt(parse, ctx, kind, document(ctx, [u + text]))
    good = And([n >= 4] + digit)
    ctx.assume(Or(good, n < 4, Not(And(digit[:4]))))       # what follows a code point other than more digits is nobody's business
    value = 0
    for c in codes:
        value = value * 16 + Ite(c <= 57, c - 48, Ite(c <= 70, c - 55, c - 87))
    ents = [tuple(c.cp) for c in l.repertoire]
    ctx.check(Iff(len(ents) == 1, good), 'a code point is four to six hexadecimal digits')
    if ents:
        ctx.check(And(len(ents) == 1, len(ents[0]) == 1, ents[0][0] == value), 'a code point is the number its digits make')
    ctx.observe([len(ents)])


def guessing(ctx):
    """the format of a table is recognised"""
    cfg = ctx.cfg
    kind = ctx.pick('kind', ['3743', '4290'])
    lines, want = [], Table()
    if ctx.flag('comment'):
        lines.append('# U+0041;U+0042 | x')
    if kind == '3743' and ctx.flag('ref'):
        lines.append('Reference 1 Title of 1')
        want.refs.append('1')
    telling = False
    for k in range(ctx.pick('lines', cfg['lines'])):
        form = ctx.pick('f%d' % k, ['u', 'x'] if kind == '3743' else ['u'])
        cp, text = words_of(ctx, 'e%d' % k, [1], form)
        want.add(cp, [])
        n = ctx.pick('nv%d' % k, [0, 1])
        line = text[0]
        telling = telling or form == 'x' or n
        if n:
            v, w = words_of(ctx, 'v%d' % k, [1], form)
            want.variant(cp, v, 'activated' if kind == '3743' else None, [])
            line = line + (';' if kind == '3743' else '|') + w[0]
        lines.append(line + ctx.pick('post%d' % k, ['', ' # a;b|c']))
    import lgr.parser.rfc3743_parser as a
    import lgr.parser.rfc4290_parser as b
    from lgr.parser.heuristic_parser import HeuristicParser
    src = document(ctx, lines)
    if not ctx.symbolic and ctx.pick('bytes', [False, True]):
        src = io.BytesIO(src.read().encode('utf-8'))
    elif ctx.symbolic:
        ctx.pick('bytes', [False, True])
    p = HeuristicParser(src, filename='t')
    if ctx.flag('ask first'):
        p.validate_document()
    with Errors() as e:
        l = p.parse_document()
    if telling:
        ctx.check(isinstance(p.lgr_parser, a.RFC3743Parser if kind == '3743' else b.RFC4290Parser), 'the format is recognised')
    want.check(ctx, l, e.count)
    ctx.observe([len(want.ents)])


NOTES = ['', ' # U+0063;U+0064|U+0065 # ;66']
HARNESSES = [
    Harness('rfc4290', rfc4290, '2 lines of up to 2 code points with up to 2 variants; comments, blank and malformed lines',
            quick=dict(short=True, lines=[2], kinds=['good', 'comment', 'blank', 'other', 'base', 'short', 'dash'], forms=['u'], lens=[1, 2], nvars=[0, 1, 2], badvars=[False, True], vlens=[1], before=[''], after=[''], ends=['\n'], force=[True]),
            thorough=dict(lines=[1, 2], kinds=['good', 'comment', 'blank', 'other', 'base', 'short', 'dash'], forms=['u', 'l'], lens=[1, 2], nvars=[0, 1, 2], badvars=[False, True], vlens=[1, 2], before=[''], after=[''], ends=['\n'], force=[True]),
            must_reach=['entries have the variants stated', 'malformed lines are reported']),
    Harness('rfc4290-layout', rfc4290, 'white space, comments, line ends and letter case around entries',
            quick=dict(short=True, lines=[1], kinds=['good', 'blank'], forms=['u', 'l'], lens=[1], nvars=[0, 1, 2], badvars=[False], vlens=[1, 2], before=['', ' \t'], after=NOTES, ends=['\n', '\r\n'], force=[True, False]), thorough=dict(lines=[1], kinds=['good', 'blank'], forms=['u', 'l'], lens=[1], nvars=[0, 1, 2], badvars=[False], vlens=[1, 2], before=['', ' \t'], after=NOTES, ends=['\n', '\r\n'], force=[True, False]),
            must_reach=['entries have the variants stated', 'malformed lines are reported']),
    Harness('rfc4290-long', rfc4290, 'a line of up to 4 code points with up to 4 variants',
            quick=dict(short=True, lines=[1], kinds=['good'], forms=['u'], lens=[1, 3, 4], nvars=[0, 3, 4], badvars=[False], vlens=[1], before=[''], after=[''], ends=['\n'], force=[True]),
            thorough=dict(short=True, lines=[1], kinds=['good'], forms=['u'], lens=[1, 3, 4, 5], nvars=[0, 3, 4, 5], badvars=[False], vlens=[1, 3], before=[''], after=NOTES, ends=['\n'], force=[True])),
    Harness('rfc3743-long', rfc3743, 'a line of up to 4 code points with up to 3 preferred and 3 other variants',
            quick=dict(short=True, lines=[1], kinds=['good'], forms=['x'], gaps=[('', '')], lens=[1, 3, 4], nvars=[None, (3,), (2, 2), (1, 3)], vlens=[1], refs=[()], erefs=[()], vrefs=[()], before=[''], after=[''], ends=['\n'], force=[True]),
            thorough=dict(short=True, lines=[1], kinds=['good'], forms=['x', 'u'], gaps=[('', ''), (' ', ' ')], lens=[1, 3, 4], nvars=[None, (3,), (2, 2), (3, 3)], vlens=[1, 3], refs=[()], erefs=[()], vrefs=[()], before=[''], after=NOTES, ends=['\n'], force=[True])),
    Harness('rfc3743', rfc3743, '2 lines of up to 2 code points with preferred and other variants; comments, blank and malformed lines',
            quick=dict(short=True, lines=[2], kinds=['good', 'comment', 'blank', 'other', 'two', 'version'], forms=['x'], gaps=[('', '')], lens=[1, 2], nvars=[None, (0,), (1,), (1, 1), (0, 2)], vlens=[1], refs=[()], erefs=[()], vrefs=[()], before=[''], after=[''], ends=['\n'], force=[True]),
            thorough=dict(lines=[1, 2], kinds=['good', 'comment', 'blank', 'other', 'two', 'version'], forms=['x', 'u'], gaps=[('', '')], lens=[1, 2], nvars=[None, (0,), (1,), (1, 1), (0, 2), (2, 1)], vlens=[1, 2], refs=[()], erefs=[()], vrefs=[()], before=[''], after=[''], ends=['\n'], force=[True]),
            must_reach=['entries have the variants stated', 'malformed lines are reported']),
    Harness('rfc3743-layout', rfc3743, 'white space, comments, line ends, letter case and U+ around entries',
            quick=dict(short=True, lines=[1], kinds=['good'], forms=['x', 'l'], gaps=[('', ''), (' ', ' '), ('', ' ')], lens=[1, 2], nvars=[(0, 1), (1, 1)], vlens=[1], refs=[()], erefs=[()], vrefs=[()], before=['', ' \t'], after=NOTES, ends=['\n', '\r\n'], force=[True, False]), thorough=dict(lines=[1], kinds=['good'], forms=['x', 'l'], gaps=[('', ''), (' ', ' '), ('', ' ')], lens=[1, 2], nvars=[(0, 1), (1, 1)], vlens=[1], refs=[()], erefs=[()], vrefs=[()], before=['', ' \t'], after=NOTES, ends=['\n', '\r\n'], force=[True, False]),
            must_reach=['entries have the variants stated', 'malformed lines are reported']),
    Harness('rfc3743-references', rfc3743, 'references of entries and variants, known and unknown, of one or two digits',
            quick=dict(lines=[1], kinds=['good'], forms=['x'], gaps=[('', ''), (' ', ' ')], short=True, lens=[1], nvars=[(0, 1), (1, 1)], vlens=[1], refs=[(), ('1', '12')], titles=['Title of %s', 'A; (b), Version 2 | c: U+0041, %s'], erefs=[(), ('1',), ('12',), ('1', '12')], vrefs=[(), ('12',), ('0', '1')], before=[''], after=[''], ends=['\n'], force=[True, False]),
            must_reach=['entries have the references stated', 'references are read']),
    Harness('one-per-line', one_per_line, '2 lines of up to 2 code points',
            quick=dict(short=True, lines=[1, 2], kinds=['good', 'comment', 'blank', 'other'], forms=['u'], lens=[1, 2], seps=[' ', ''], before=['', ' \t'], after=['', ' # U+0063 x # U+0064'], ends=['\n', '\r\n'], force=[True]), thorough=dict(lines=[1, 2], kinds=['good', 'comment', 'blank', 'other'], forms=['u', 'l'], lens=[1, 2], seps=[' ', ' x ', ''], before=['', ' \t'], after=['', ' # U+0063 x # U+0064'], ends=['\n', '\r\n'], force=[True]),
            must_reach=['the entries are those the good lines state', 'malformed lines are reported']),
    Harness('any-line', any_line, 'a line with up to 3 arbitrary ASCII characters',
            quick=dict(kinds=['3743', '4290', 'line'], lengths=[0, 1, 2, 3], heads={'3743': ['', '0061;', '0061;0062', '0061(', 'Reference '], '4290': ['', 'U+0061', 'U+0061|', 'U+0061|U+0062'], 'line': ['', 'U+0061']},
                       tails={'3743': ['', ';0063'], '4290': ['', '|U+0063'], 'line': ['']}, force=[True]),
            must_reach=['no line stops the reading', 'the other lines are not affected']),
    Harness('digits', hexdigits, 'code points of up to 6 arbitrary ASCII characters',
            quick=dict(kinds=['3743', '4290', 'line'], lengths=[3, 4, 5, 6]),
            must_reach=['a code point is the number its digits make']),
    Harness('guessing', guessing, '1 to 2 lines with at most one variant',
            quick=dict(short=True, lines=[1, 2]), thorough=dict(lines=[1, 2]), must_reach=['the format is recognised']),
]
META = dict(
    assumptions=['Tables are files of text; opening and decoding them is not covered.',
                 'Code points are written with four digits where a harness says so (short); the harnesses digits and, in the thorough tier, the layout harnesses use all lengths.'],
    outside='Files of more than 2 entries, sequences of more than 2 code points, more than 2 variants per list; code points of more than six digits; what follows a code point within an entry other than separators.')

