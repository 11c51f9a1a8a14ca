"""What the demonstrations share: a small Unicode database over the standard library."""
import logging
import re
import sys
from lgr.core import LGR
from lgr.rule import Rule
from lgr.action import Action
from lgr.matcher import *
from lgr.char import *
from lgr.classes import *
from lgr.exceptions import *

logging.disable(logging.CRITICAL)


class Pattern(object):
    def __init__(self, text):
        text = re.sub(r'\\x\{([0-9A-Fa-f]+)\}', lambda m: '\\U%08x' % int(m.group(1), 16), text)
        self.p = re.compile(text)

    def search(self, s, index=0):
        return self.p.search(s, index)

    def match(self, s):
        return self.p.match(s)


class DB(object):
    def __init__(self, scripts=None):
        self.scripts = scripts or {}

    def get_unicode_version(self):
        return '10.0.0'

    def get_idna_prop(self, cp):
        return 'PVALID'

    def get_script(self, cp, alpha4=False):
        return self.scripts.get(cp, 'Latn' if alpha4 else 'Latin')

    def compile_regex(self, text):
        return Pattern(text)

    def get_set(self, iterable=None, pattern=None, freeze=False):
        return (frozenset if freeze else set)(iterable or ())

    def is_digit(self, cp):
        return 0x30 <= cp <= 0x39

    def is_combining_mark(self, cp):
        return 0x300 <= cp < 0x370

    def is_rtl(self, cp):
        return 0x590 <= cp < 0x700

    def is_script_rtl(self, script):
        return script in ('Arab', 'Hebr')

    def get_char_name(self, cp):
        return 'NAME %X' % cp

    def get_prop_value(self, cp, name, *args):
        return 'Ll'


def make(*cps, **kw):
    lgr = LGR(unicode_database=DB(**kw))
    for cp in cps:
        lgr.add_cp(list(cp) if isinstance(cp, (list, tuple)) else [cp])
    return lgr


def behind(name, *cps):
    """rule: the code point is preceded by the given ones"""
    rule = Rule(name=name)
    look = LookBehindMatcher()
    look.add_child(CharMatcher(list(cps)))
    rule.add_child(look)
    rule.add_child(AnchorMatcher())
    return rule


def ahead(name, *cps):
    """rule: the code point is followed by the given ones"""
    rule = Rule(name=name)
    rule.add_child(AnchorMatcher())
    look = LookAheadMatcher()
    look.add_child(CharMatcher(list(cps)))
    rule.add_child(look)
    return rule


def variants(lgr, label, **kw):
    return {tuple(o[0]): o[1] for o in lgr.compute_label_disposition(tuple(label), include_invalid=True, **kw)}
