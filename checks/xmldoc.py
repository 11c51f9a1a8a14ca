"""XML documents for the harnesses: plain trees, which replays hand to the real lxml library as bytes and symbolic runs
hand to a stand-in for the parts of lxml the implementation uses (names, attributes and texts may be symbolic there)."""
import io

from symex.strs import SymStr, HexAtom
from symex.sym import is_sym, SymChoice

NS = 'urn:ietf:params:xml:ns:lgr-1.0'


def hexa(v, width=4, upper=True):
    if is_sym(v):
        return SymStr([HexAtom(v, width, upper)])
    return ('%0*X' if upper else '%0*x') % (width, v)


def words(ws):
    out = ''
    for k, w in enumerate(ws):
        out = out + (' ' if k else '') + w
    return out


def E(tag, attrib=None, *children, text=None, tail=None):
    """attributes that are None are left out"""
    return (tag, {k: v for k, v in (attrib or {}).items() if v is not None}, text, list(children), tail)


# ------------------------------------------------------------------ the stand-in
class CData:
    def __init__(self, text):
        if isinstance(text, str) and ']]>' in text:
            raise ValueError("']]>' not allowed inside CDATA")
        self.text = text


def _istext(v):
    return isinstance(v, (str, SymStr, SymChoice))


class Attrib(dict):
    def __setitem__(self, k, v):
        if not _istext(v) or not _istext(k):
            raise TypeError('Argument must be bytes or unicode, got %r' % type(v).__name__)
        if isinstance(v, str) and any(ord(c) < 32 and c not in '\t\n\r' for c in v):
            raise ValueError('All strings must be XML compatible')
        dict.__setitem__(self, k, v)

    def update(self, d=(), **kw):
        for k, v in dict(d, **kw).items():
            self[k] = v


class El:
    def __init__(self, tag, /, attrib=None, nsmap=None, **extra):
        self.tag, self._text, self.tail, self.parent = tag, None, None, None
        self.nsmap = dict(nsmap or {})
        self.attrib = Attrib()
        self.attrib.update(attrib or {})
        self.attrib.update(extra)
        self.kids = []

    @property
    def text(self):
        return self._text

    @text.setter
    def text(self, v):
        if isinstance(v, CData):
            v = v.text
        if v is not None and not _istext(v):
            raise TypeError('Argument must be bytes or unicode, got %r' % type(v).__name__)
        if isinstance(v, str) and any(ord(c) < 32 and c not in '\t\n\r' for c in v):
            raise ValueError('All strings must be XML compatible')
        self._text = v

    def get(self, k, default=None):
        return self.attrib.get(k, default)

    def set(self, k, v):
        self.attrib[k] = v

    def items(self):
        return list(self.attrib.items())

    def keys(self):
        return list(self.attrib)

    def values(self):
        return list(self.attrib.values())

    def __len__(self):
        return len(self.kids)

    def __iter__(self):
        return iter(list(self.kids))

    def __reversed__(self):
        return iter(self.kids[::-1])

    def __getitem__(self, i):
        return self.kids[i]

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            v = list(v)
            for e in v:
                e._adopt(None)
            self.kids[i] = v
        else:
            v._adopt(None)
            self.kids[i] = v
        for e in self.kids:
            e.parent = self

    def __delitem__(self, i):
        del self.kids[i]

    def _adopt(self, parent):
        if self.parent is not None and self in self.parent.kids:
            self.parent.kids.remove(self)
        self.parent = parent

    def append(self, e):
        e._adopt(self)
        self.kids.append(e)

    def insert(self, i, e):
        e._adopt(self)
        self.kids.insert(i, e)

    def extend(self, es):
        for e in list(es):
            self.append(e)

    def remove(self, e):
        self.kids.remove(e)
        e.parent = None

    def clear(self, keep_tail=False):
        self.attrib.clear()
        for k in self.kids:
            k.parent = None
        self.kids = []
        self._text = None
        if not keep_tail:
            self.tail = None

    def getparent(self):
        return self.parent

    def getchildren(self):
        return list(self.kids)

    def index(self, e):
        return self.kids.index(e)

    def iter(self, *tags):
        if not tags or self.tag in tags or '*' in tags:
            yield self
        for k in list(self.kids):
            yield from k.iter(*tags)

    def iterdescendants(self, *tags):
        for k in list(self.kids):
            yield from k.iter(*tags)

    def iterchildren(self, *tags, reversed=False):
        for k in (self.kids[::-1] if reversed else list(self.kids)):
            if not tags or k.tag in tags:
                yield k

    def find(self, path, namespaces=None):
        for k in self.findall(path):
            return k
        return None

    def findall(self, path, namespaces=None):
        deep = path.startswith('.//')
        want = path[3:] if deep else path[2:] if path.startswith('./') else path
        return [k for k in (self.iterdescendants() if deep else self.kids) if want == '*' or k.tag == want]

    iterfind = findall

    def findtext(self, path, default=None):
        k = self.find(path)
        return default if k is None else (k.text or '')

    def itertext(self):
        if self.text is not None:
            yield self.text
        for k in self.kids:
            yield from k.itertext()
            if k.tail is not None:
                yield k.tail

    def __deepcopy__(self, memo):
        return copied(self)

    def __copy__(self):
        return copied(self)


def copied(el, ns=None, pretty=False, depth=0):
    """what writing the element and reading the result gives"""
    tag = el.tag
    if ns is not None and not tag.startswith('{'):
        tag = '{%s}%s' % (ns, tag)
    out = El(tag, el.attrib, el.nsmap)
    out._text = None if isinstance(el.text, str) and el.text == '' else el.text
    out.tail = el.tail
    spread = pretty and len(el.kids) and out._text is None and all(k.tail is None for k in el.kids)
    if spread:
        out._text = '\n' + '  ' * (depth + 1)
    for k in el.kids:
        c = copied(k, ns, pretty, depth + 1)
        if spread:
            c.tail = '\n' + '  ' * (depth + (k is not el.kids[-1]))
        c.parent = out
        out.kids.append(c)
    return out


class Written:
    """a written document, to be read again"""

    def __init__(self, root, pretty=False):
        self.root, self.pretty = root, pretty

    name = 'document'

    def seek(self, *a):
        pass

    def read(self, *a):
        return self

    def strip(self):
        return self

    def decode(self, *a):
        return self

    def encode(self, *a):
        return self


def _build(t):
    e = El(t[0], t[1])
    e.text = t[2]
    for c in t[3]:
        e.append(_build(c))
    e.tail = t[4]
    return e


def _real(t):
    from lxml import etree
    e = etree.Element(t[0], t[1])
    e.text = t[2]
    for c in t[3]:
        e.append(_real(c))
    e.tail = t[4]
    return e


def _of_real(e):
    out = El(e.tag, dict(e.attrib))
    out._text, out.tail = e.text, e.tail
    for c in e:
        if isinstance(c.tag, str):
            out.append(_of_real(c))
    return out


class FakeEtree:
    CDATA = CData
    _Element = El

    @staticmethod
    def Element(tag, /, attrib=None, nsmap=None, **extra):
        return El(tag, attrib, nsmap, **extra)

    @staticmethod
    def SubElement(parent, tag, /, attrib=None, nsmap=None, **extra):
        e = El(tag, attrib, nsmap, **extra)
        parent.append(e)
        return e

    @staticmethod
    def tostring(el, pretty_print=False, encoding=None, xml_declaration=None, with_tail=True, **kw):
        return Written(copied(el, None, pretty_print))

    @staticmethod
    def fromstring(text, parser=None):
        if isinstance(text, Written):
            return copied(text.root)
        from lxml import etree
        return _of_real(etree.fromstring(text))

    XML = fromstring

    @staticmethod
    def iterparse(source, events=('end',), tag=None, **kw):
        root = source.root
        ns = root.nsmap.get(None)
        root = copied(root, ns)
        tags = None if tag is None else [tag] if isinstance(tag, str) else list(tag)

        def walk(e):
            if 'start' in events and (tags is None or e.tag in tags):
                yield 'start', e
            for k in list(e.kids):
                yield from walk(k)
            if 'end' in events and (tags is None or e.tag in tags):
                yield 'end', e
        return walk(root)


FAKE = FakeEtree()


def install(ctx):
    """put the stand-in in the place of lxml in the loaded modules"""
    import lgr.parser.xml_parser as p
    import lgr.parser.xml_serializer as s
    if ctx.symbolic:
        from lxml import etree
        for m in (p, s):
            for k, v in list(m.__dict__.items()):
                if v is etree:
                    m.__dict__[k] = FAKE
                elif getattr(v, '__module__', None) == 'lxml.etree' and hasattr(FAKE, getattr(v, '__name__', '')):
                    m.__dict__[k] = getattr(FAKE, v.__name__)


def source(ctx, t):
    """a document to be read"""
    if ctx.symbolic:
        root = _build(t)
        root.nsmap = {None: NS}
        return Written(root)
    from lxml import etree
    root = etree.Element(t[0], t[1], nsmap={None: NS})
    root.text = t[2]
    for c in t[3]:
        root.append(_real(c))
    return io.BytesIO(etree.tostring(root, encoding='utf-8', xml_declaration=True))


def again(ctx, written):
    """a written document, to be read again"""
    return written if ctx.symbolic else io.BytesIO(written)


def tree(ctx, text):
    """canonical form of an XML text: (tag, attributes, text, children), white space between elements left out"""
    if isinstance(text, Written):
        e = text.root
    elif ctx.symbolic:
        e = FakeEtree.fromstring(text)
    else:
        from lxml import etree
        e = etree.fromstring(text)

    def canon(e):
        t = e.text
        if t is None or isinstance(t, str) and t.strip() == '':
            t = None
        return [e.tag, sorted(e.attrib.items(), key=lambda kv: kv[0]), t, [canon(c) for c in e]]
    return canon(e)
