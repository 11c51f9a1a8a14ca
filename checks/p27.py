"""Collapsing, formatting and reading code points and labels."""
from checks.common import *
from checks.history import attempt


def hexint(s):
    from symex.ops import sx_int
    return sx_int(s, 16)


def code_of(c):
    from symex.ops import sx_ord
    return sx_ord(c)


def join(words):
    out = words[0]
    for w in words[1:]:
        out = out + ' ' + w
    return out


def collapsing(ctx):
    from lgr.utils import collapse_codepoints
    n = ctx.pick('n', ctx.cfg['lengths'])
    given = cps(ctx, 'c', n)
    out = collapse_codepoints(list(given))
    for a, b in out:
        ctx.check(a <= b, 'ranges are not empty')
    for (a, b), (c, d) in zip(out, out[1:]):
        ctx.check(b + 1 < c, 'ranges are ordered, disjoint and maximal')
    x = ctx.cp('x')
    ctx.check(Or([And(a <= x, x <= b) for a, b in out]) == Or([x == c for c in given]), 'ranges cover exactly the code points')
    ctx.check(len(out) <= n, 'no more ranges than code points')
    ctx.observe([list(r) for r in out])


def formatting(ctx):
    from lgr.utils import format_cp, cp_to_str, cp_to_ulabel, format_cp_collapsed
    from lgr.tools.utils import parse_codepoint_input, parse_label_input
    n = ctx.pick('n', ctx.cfg['lengths'])
    a = cps(ctx, 'a', n)
    as_list = ctx.flag('list')
    text = format_cp(a if n > 1 or as_list else a[0])
    for s in [text, join([cp_to_str(c) for c in a])]:
        ctx.check(deep_eq(parse_codepoint_input(s), list(a)), 'formatted code points are read back')
    got, ok, exc = parse_label_input(text)
    ctx.check(And(ok, deep_eq(list(got), list(a)), exc is None), 'a formatted label is read back')
    if n > 1:
        got, ok, exc = parse_label_input(join([cp_to_str(c) for c in a]))
        ctx.check(And(ok, deep_eq(list(got), list(a)), exc is None), 'a formatted label is read back')
    ctx.check(len(text.split(' ')) == n, 'one word per code point')
    for w in text.split(' '):
        ctx.check(And(w[:2] == 'U+', len(w) >= 6, len(w) <= 8), 'words have the form U+XXXX')
    m = ctx.pick('m', ctx.cfg['lengths'])
    b = cps(ctx, 'b', m)
    ctx.check(bool(format_cp(b) == text) == bool(deep_eq(tuple(a), tuple(b))), 'different sequences do not format alike')
    ctx.check(bool(cp_to_ulabel(b) == cp_to_ulabel(a)) == bool(deep_eq(tuple(a), tuple(b))), 'different labels do not display alike')
    ctx.observe([list(a), list(b)])


def collapsed_format(ctx):
    from lgr.utils import format_cp_collapsed
    n = ctx.pick('n', ctx.cfg['lengths'])
    given = cps(ctx, 'c', n)
    got = []
    for w in format_cp_collapsed(list(given)).split(' '):
        ends = [hexint(e[2:]) for e in w.split('-')]
        ctx.check(And(len(ends) in (1, 2), w[:2] == 'U+'), 'words are code points or ranges')
        got.append((ends[0], ends[-1]))
    x = ctx.cp('x')
    ctx.check(Or([And(a <= x, x <= b) for a, b in got]) == Or([x == c for c in given]), 'the ranges written cover exactly the code points')
    for (a, b), (c, d) in zip(got, got[1:]):
        ctx.check(b < c, 'the ranges written are ordered')
    ctx.observe([list(r) for r in got])


def reading(ctx):
    """parse_label_input on any text"""
    from lgr.tools.utils import parse_label_input
    cfg = ctx.cfg
    n = ctx.pick('n', cfg['lengths'])
    text, codes = symtext(ctx, 't', n)
    for c in codes:         # characters without case, over ASCII
        ctx.assume(Or(c < 128, And(c >= 0x590, c <= 0x109f), And(c >= 0x2e80, c <= 0xa63f), And(c >= 0xac00, c <= 0xfaff), c >= 0x20000))
    head = ctx.pick('head', cfg['heads'])
    text, codes = head + text, [ord(c) for c in head] + list(codes)
    as_cp = ctx.flag('as_cp')
    decoded = []

    def decode(s):
        decoded.append(s)
        if ctx.flag('bad'):
            raise UnicodeError('no')
        return 'qq'
    keep = n < max(cfg['lengths']) and ctx.flag('keep')
    ok, got = attempt(parse_label_input, text, idna_decoder=decode, as_cp=as_cp, keep_spaces=keep)
    ctx.check(ok, 'reading a label does not raise')
    label, valid, exc = got
    lowered = lambda k, c: Or(codes[k] == ord(c), codes[k] == ord(c) - 32) if c.isalpha() else codes[k] == ord(c)
    alabel = len(codes) >= 4 and bool(And([lowered(k, c) for k, c in enumerate('xn--')]))
    spaces = bool(Or([c == 32 for c in codes]))
    uplus = bool(Or([And(Or(codes[k] == 85, codes[k] == 117), codes[k + 1] == 43) for k in range(len(codes) - 1)]))
    value = lambda l: list(l) if as_cp else [code_of(c) for c in l]
    if alabel:
        ctx.check(len(decoded) == 1, 'an A-label is decoded')
        if decoded:
            ctx.check(deep_eq([code_of(c) for c in decoded[0]], [Ite(And(c >= 65, c <= 90), c + 32, c) for c in codes]), 'an A-label is read whatever its case')
        if valid:
            ctx.check(value(label) == [ord('q')] * 2, 'an A-label is read as what it stands for')
    elif not spaces and not uplus:
        ctx.check(And(valid, exc is None, deep_eq(value(label), codes)), 'a U-label is read as itself')
    elif spaces and keep and valid and bool(And(len(value(label)) == len(codes), deep_eq(value(label), codes))):
        pass        # not code points: read with its spaces
    elif valid:
        # every word is a code point, written as one character or in hexadecimal
        words, cur = [], []
        for c in codes + [32]:
            if bool(Or(c == 32, And(c >= 9, c <= 13), And(c >= 28, c <= 31), c == 0x85, c == 0xA0, c == 0x1680, And(c >= 0x2000, c <= 0x200A), c == 0x2028, c == 0x2029, c == 0x202F, c == 0x205F, c == 0x3000)):
                if cur:
                    words.append(cur)
                cur = []
            else:
                cur.append(c)
        out = value(label)
        ctx.check(len(out) == len(words), 'one code point per word')
        for w, v in zip(words, out):
            ctx.check(And(v >= 0, v <= 0x10FFFF), 'code points are in range')
            if len(w) == 1:
                ctx.check(v == w[0], 'a single character stands for itself')
    if keep and spaces and not alabel:
        ctx.check(valid, 'a label with spaces is read on request')
    if not valid:
        ctx.check(exc is not None, 'an invalid label comes with its error')
        ctx.check(deep_eq(value(label), codes), 'an invalid label is returned as it is')
    ctx.observe([valid])


def label_lists(ctx):
    """read_labels: lines to labels"""
    from lgr.tools.utils import read_labels
    cfg = ctx.cfg
    lines, want = [], []
    keep = ctx.flag('keep')
    for k in range(ctx.pick('lines', cfg['lines'])):
        n = ctx.pick('n%d' % k, cfg['lengths'])
        text, codes = symtext(ctx, 'l%d_' % k, n, 33, 0x7E)
        for i in range(len(codes) - 1):       # neither in hexadecimal nor A-labels; see 'reading'
            ctx.assume(Not(And(Or(codes[i] == 85, codes[i] == 117), codes[i + 1] == 43)))
        form = ctx.pick('f%d' % k, cfg['forms'])
        lines.append(form[0] + text + form[1])
        hash_at = [i for i in range(len(codes)) if bool(codes[i] == 35)]
        if '#' in form[0]:
            if keep:
                want.append(None)
            continue
        if hash_at:
            codes = codes[:hash_at[0]]
            if hash_at[0] == 0:
                if keep and form[0].strip(' \t\ufeff') == '':
                    want.append(None)
                continue
        elif n == 0:
            if '#' in form[1] and keep:
                want.append(None)
            continue
        want.append(list(codes))
    out = list(read_labels(iter(lines), keep_commented=keep))
    ctx.check(len(out) == len(want), 'one label for each line that has one')
    for (orig, label, valid, error), w in zip(out, want):
        if w is None:
            ctx.check(And(label[:1] == '#', valid), 'commented labels are kept on request')
            continue
        ctx.check(And(valid, deep_eq([code_of(c) for c in label], w)), 'labels are read without spaces and comments')
        ctx.check(deep_eq([code_of(c) for c in orig], w), 'the label is given as written')
    ctx.observe([len(want)])


HARNESSES = [
    Harness('collapse', collapsing, 'lists of up to 5 code points in any order, with repetitions', quick=dict(lengths=[0, 1, 2, 3, 4, 5]), thorough=dict(lengths=[0, 1, 2, 3, 4, 5, 6]), must_reach=['ranges are ordered, disjoint and maximal', 'ranges cover exactly the code points']),
    Harness('format', formatting, 'two sequences of up to 3 code points each', quick=dict(lengths=[1, 2, 3]), thorough=dict(lengths=[1, 2, 3, 4]), must_reach=['formatted code points are read back', 'different sequences do not format alike']),
    Harness('collapsed format', collapsed_format, 'lists of up to 4 code points', quick=dict(lengths=[1, 2, 3, 4]), thorough=dict(lengths=[1, 2, 3, 4, 5]), must_reach=['the ranges written cover exactly the code points']),
    Harness('reading', reading, 'any text of up to 4 characters, alone or after U+, xn-- or two words', quick=dict(lengths=[1, 2, 3], heads=['', 'U+', 'xn--', 'a ', '61 ', 'xN-']), thorough=dict(lengths=[1, 2, 3, 4], heads=['', 'U+', 'xn--', 'a ', '61 ', 'xN-', 'U+0061 u+']),
            must_reach=['an A-label is decoded', 'a U-label is read as itself', 'one code point per word', 'an invalid label is returned as it is']),
    Harness('lists', label_lists, '2 lines of up to 2 printable ASCII characters with spaces, comments and a byte order mark around', quick=dict(lines=[2], lengths=[0, 1, 2], forms=[('', ''), (' ', '\n'), ('# ', ''), ('', ' # x\n'), ('\ufeff', '\r\n'), ('', '\t# x')]),
            thorough=dict(lines=[2, 3], lengths=[0, 1, 2, 3], forms=[('', ''), (' ', '\n'), ('# ', ''), ('', ' # x\n'), ('\ufeff', '\r\n'), ('\t', ' '), (' #', ''), ('', '\t# x')]), must_reach=['one label for each line that has one', 'labels are read without spaces and comments']),
]
META = dict(assumptions=['decoding of A-labels gives any label or fails'], outside='longer lists and texts; characters with case over ASCII in labels being read')
