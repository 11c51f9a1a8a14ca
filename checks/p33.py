"""Scripts of labels, of code points and of LGRs."""
from checks.common import *
from symex.ops import sx_ord

LABEL_SCRIPTS = ['Latn', 'Hani', 'Hira', 'Kana', 'Hang', 'Zyyy', 'Zinh']
NO_SCRIPT = ('Zyyy', 'Zinh')


class CharDB(StubDB):
    """a database asked for characters or code points; whatever it answers, only U+3006 and U+30FC are known: Common"""

    def get_script(self, c, alpha4=False):
        return StubDB.get_script(self, sx_ord(c) if not isinstance(c, int) and not hasattr(c, 'z') and hasattr(c, '__len__') else c)


def label(ctx):
    """the script tag of a label"""
    from lgr.tools.utils import get_rz_label_script
    cfg = ctx.cfg
    n = ctx.pick('n', cfg['lens'])
    s, codes = symtext(ctx, 'c', n)
    db = CharDB(ctx, LABEL_SCRIPTS)
    marks = [Or(c == 0x3006, c == 0x30FC) for c in codes]
    scripts = [StubDB.get_script(db, c) for c in codes]
    for c, x in zip(marks, scripts):
        ctx.assume(Implies(c, x == 'Zyyy'))
    got = get_rz_label_script(s, db)
    if not n:
        ctx.check(got is None, 'an empty label has no script')
        return
    real = [x for x in scripts if x not in NO_SCRIPT]
    if not real:
        if Or(marks):
            ctx.check(got == 'und-Jpan', 'the marks shared by Japanese scripts alone are Japanese')
        else:
            ctx.check(any(got == 'und-' + x for x in scripts), 'a label without script is told so')
    elif real[0] == 'Hani':
        ctx.check(got == ('und-Jpan' if 'Hira' in real or 'Kana' in real else 'und-Hani'), 'Han with Hiragana or Katakana is Japanese')
    else:
        ctx.check(got == 'und-' + {'Hira': 'Jpan', 'Kana': 'Jpan', 'Hang': 'Kore'}.get(real[0], real[0]), 'the script is the one of the first character that has one')
    ctx.observe(got)


# tag of a language: (language, script, script with suppressed ones, scripts of code points)
TAGS = {
    'und-Latn': ('', 'Latn', 'Latn', ['Latn']), 'en': ('en', '', 'Latn', ['Latn']), 'en-Latn': ('en', 'Latn', 'Latn', None), 'eng-Latn': ('en', 'Latn', 'Latn', None),
    'ja': ('ja', '', 'Jpan', ['Hani', 'Hira', 'Kana']), 'und-Jpan': ('', 'Jpan', 'Jpan', ['Hani', 'Hira', 'Kana']), 'und-Kore': ('', 'Kore', 'Kore', ['Hani', 'Hang']),
    'zh': ('zh', 'Hani', 'Hani', []), 'zh-Hans': ('zh', 'Hans', 'Hans', ['Hani']), 'und-Hant': ('', 'Hant', 'Hant', ['Hani']), 'zh-TW': ('zh', 'Hani', 'Hani', []),
    'und-Hrkt': ('', 'Hrkt', 'Hrkt', ['Hira', 'Kana']), 'und-Aran': ('', 'Aran', 'Aran', ['Arab']), 'und-Geok': ('', 'Geok', 'Geok', ['Geor']), 'und-Latf': ('', 'Latf', 'Latf', ['Latn']),
    'und-Latg': ('', 'Latg', 'Latg', ['Latn']), 'und-Syrj': ('', 'Syrj', 'Syrj', ['Syrc']), 'und-Syrn': ('', 'Syrn', 'Syrn', ['Syrc']), 'und-Syre': ('', 'Syre', 'Syre', ['Syrc']),
    'sr-Cyrl': ('sr', 'Cyrl', 'Cyrl', ['Cyrl']), 'en-US': ('en', '', 'Latn', ['Latn']), 'und': ('', '', '', []), 'cmn': ('cmn', '', '', []), 'el': ('el', '', 'Grek', ['Grek']),
    'und-Grek': ('', 'Grek', 'Grek', ['Grek']), 'ko': ('ko', '', 'Kore', ['Hani', 'Hang']), 'fr-Latn': ('fr', 'Latn', 'Latn', None),
    'zh-cmn-Hans': ('zh', 'Hans', 'Hans', None), 'zh-Latn-pinyin': ('zh', 'Latn', 'Latn', None), 'zho-Hans-CN': ('zh', 'Hans', 'Hans', None), 'fa-IR': ('fa', '', 'Arab', None),
    'sr-Cyrl-RS': ('sr', 'Cyrl', 'Cyrl', None),
}


def tags(ctx):
    """the language and the script a tag states"""
    from lgr.utils import tag_to_language_script
    tag = ctx.pick('tag', sorted(TAGS))
    language, script, shown, _ = TAGS[tag]
    ctx.check(tag_to_language_script(tag) == (language, script), 'a tag states its language and script')
    got = tag_to_language_script(tag, use_suppress_script=True)
    ctx.check((got[0], got[1] or '') == (language, shown), 'the script a language is always written in is the script of its tag')


def inside(ctx):
    """code points in the scripts of an LGR"""
    cfg = ctx.cfg
    languages = [ctx.pick('tag%d' % k, cfg['tags']) for k in range(ctx.pick('n', cfg['langs']))]
    scripts = [x for t in languages for x in TAGS[t][3]]
    no_db, no_scripts = ctx.flag('no_db'), ctx.flag('no_scripts')
    names = sorted({'Latn', 'Hani', 'Hira', 'Zyyy', 'Zinh'} | set(scripts))
    db = None if no_db else StubDB(ctx, None if no_scripts else names)
    l = lgr(db)
    l.metadata.languages = list(languages)
    ctx.check(sorted(set(l.metadata.get_scripts())) == sorted(set(scripts)), 'the scripts of an LGR are those its languages are written in')
    cp = cps(ctx, 'c', ctx.pick('len', cfg['lens']))
    ok, of = l.cp_in_script(list(cp))
    if no_db or no_scripts:
        ctx.check(ok is True and set(of) == set(), 'without scripts in the database every code point is accepted')
        return
    each = [db.get_script(c) for c in cp]
    ctx.check(set(of) == set(each), 'the scripts reported are those of the code points')
    ctx.check(bool(ok) == (not scripts or all(x in scripts or x in NO_SCRIPT for x in each)), 'code points are in the scripts of the LGR, Common or Inherited')
    ctx.observe([bool(ok), sorted(of)])


# one language for each set of scripts
ONE_EACH = sorted({str(v[3]): k for k, v in sorted(TAGS.items()) if v[3] is not None}.values())
HARNESSES = [
    Harness('label', label, 'labels of 0-4 (6) arbitrary characters, each of any of 7 scripts', quick=dict(lens=[0, 1, 2, 3, 4]), thorough=dict(lens=[0, 1, 2, 3, 4, 5, 6]),
            must_reach=['Han with Hiragana or Katakana is Japanese', 'the marks shared by Japanese scripts alone are Japanese', 'a label without script is told so', 'an empty label has no script']),
    Harness('tags', tags, '%d language tags' % len(TAGS), quick=dict()),
    Harness('two languages', inside, 'LGRs with 2 languages, 1-2 (3) arbitrary code points of arbitrary scripts', quick=dict(langs=[2], tags=ONE_EACH, lens=[1, 2]), thorough=dict(langs=[2, 3], tags=ONE_EACH[:6], lens=[1, 3])),
    Harness('inside', inside, 'LGRs with 0-2 of %d languages, 1-2 (3) arbitrary code points of arbitrary scripts' % len(TAGS),
            quick=dict(langs=[0, 1], tags=[t for t in sorted(TAGS) if TAGS[t][3] is not None], lens=[1, 2]), thorough=dict(langs=[0, 1, 2], tags=[t for t in sorted(TAGS) if TAGS[t][3] is not None], lens=[1, 2, 3]),
            must_reach=['without scripts in the database every code point is accepted', 'code points are in the scripts of the LGR, Common or Inherited']),
]
META = dict(assumptions=['the script of a character is an arbitrary function, except that U+3006 and U+30FC are Common', 'language tags are drawn from a list (the registry is a third-party library)'],
            outside='other tags; code points of other scripts than those listed')
