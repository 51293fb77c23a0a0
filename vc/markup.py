"""Goals for XML: the real code turns a value into an element, and the element, as a parser of the document gives it back,
into a value.  Members and items by induction: an element made of a processed value by the same codec reads as that
value."""
import xml.etree.cElementTree as etree
import z3
from .goals import *
from .goals import GOALS, OBSERVERS, EXPECT
from .edit import fields_only
from .interp import def_of
from contracts.markup import Element

Xml = scheme.formats.Xml
WRITE = Xml.__dict__['_serialize_content'].__func__
READ = Xml.__dict__['_unserialize_element'].__func__
TEXTS = ('text', 'date', 'time', 'datetime', 'decimal', 'uuid', 'token', 'enumeration')

def processed(v, f):
    return app('PROCESSED', [v, f], B)

# ---------------------------------------------------------------- xml.etree by its contract
@models.ctor(etree.Element)
def c_element(ip, args, kw):
    if len(args) != 1 or kw:
        raise Unsupported('an element with attributes')
    return ip.construct(Element, args, {})

@models.model(etree.SubElement)
def m_subelement(ip, args, kw):
    if len(args) != 2 or kw:
        raise Unsupported('an element with attributes')
    e = ip.construct(Element, args[1:], {})
    ip.list_append(ip.getattr_(args[0], 'children'), e)
    return e

class Document(Obj):
    """the bytes of an element"""
    def __init__(self, ctx, root):
        Obj.__init__(self, ctx)
        self.root = root

def m_tostring(ip, args, kw):
    if len(args) != 1 or kw or not isinstance(args[0], Inst) or args[0].cls is not Element:
        raise Unsupported('options of tostring')
    return Inst(ip.ctx, XmlBytes, {'root': args[0]})

class XmlBytes(object):
    """contract of the bytes tostring gives: ASCII"""
    def decode(self, encoding='utf-8'):
        pass

@models.model(XmlBytes.decode)
def m_decode(ip, args, kw):
    if len(args) > 2 or kw or len(args) == 2 and args[1] not in ('us-ascii', 'ascii', 'utf-8'):
        raise Unsupported('decoding as %r' % (args[1:],))
    t = app('XMLTEXT', [ip.world.ref_of(ip, args[0].attrs['root'])], I)
    ip.documents.append((t, args[0].attrs['root']))
    return SStr(t)

def m_fromstring(ip, args, kw):
    if len(args) != 1 or kw:
        raise Unsupported('options of fromstring')
    v = decided(ip, args[0])
    if not isinstance(v, SStr):
        raise Unsupported('parsing %r' % (v,))
    whole = ip.str_term(v)
    for t, root in ip.documents:
        plain = ip.str_term(SStr(t))
        if whole.eq(plain) or whole.decl().name() == 'CAT' and whole.arg(0).eq(strlit('<?xml version="1.0"?>')) and \
                (whole.arg(1).eq(plain) or whole.arg(1).eq(app('FMT_t', [plain], I))):
            return parsed(ip, root)
    raise Unsupported('parsing %r' % (v,))

for _f in (etree.tostring,):
    models.model(_f)(m_tostring)
for _f in {id(f): f for f in (etree.fromstring, etree.XML)}.values():
    models.model(_f)(m_fromstring)

def decided(ip, v):
    """a value that depends on a condition: which of the two"""
    v = ip.norm(ip.force(v))
    while isinstance(v, Sym) and z3.is_app_of(v.t, z3.Z3_OP_ITE):
        v = ip.norm(Sym(v.t.arg(1) if ip.branch(v.t.arg(0)) else v.t.arg(2)))
    return v

def parsed(ip, element):
    """the element as a parser of the document gives it back: an empty text is no text"""
    ip.world.note('xml.etree gives back the elements it wrote, an empty text as no text (texts of XML characters other than '
        'carriage returns, tags that are XML names)')
    text = decided(ip, element.attrs['text'])
    if text is not None:
        t = ip.val(text)
        if ip.branch(is_none(t)) or ip.branch(t == VStr(strlit(''))):
            text = None
        elif not ip.branch(is_str(t)):
            raise Unsupported('an element whose text is no text')
    e = Inst(ip.ctx, Element)
    e.attrs.update(element.attrs)
    e.attrs['text'] = text
    return e

# ---------------------------------------------------------------- the codec by its contract
def body(ip, fn, args, kw):
    ip.functions.add(('scheme/formats/xml.py', fn.__name__))
    node = def_of(fn)
    return ip.run(node, None, fn.__globals__, args, kw, node.args, fn)

def first_real(fn, contract):
    """the call under proof is run, the recursive ones are known by their contract"""
    state = []
    def m(ip, args, kw):
        if not state:
            state.append(1)
            return body(ip, fn, args, kw)
        return contract(ip, args, kw)
    return m

def c_write(ip, args, kw):
    cls, content, element, field = args
    if kw or not isinstance(element, Inst) or element.cls is not Element:
        raise Unsupported('content written to %r' % (element,))
    ip.inst_set(element, 'node', (content, field))
    return None

def c_read(ip, args, kw):
    cls, element, field = args
    node = element.attrs.get('node') if isinstance(element, Inst) else None
    if kw or node is None:
        raise Unsupported('reading %r' % (element,))
    content, wrote = [ip.val(ip.norm(ip.force(x))) for x in node]
    f = ip.val(ip.norm(ip.force(field)))
    r = app('XMLREAD', [content, wrote, f], Val)
    ip.ctx.fact(z3.Implies(z3.And(wrote == f, processed(content, f)), r == content))
    ip.world.note('structural induction: a processed value written by the codec with a field and read with it is the value')
    return (element.attrs['tag'], Sym(r))

class MarkupObs(PObs):
    def tag(self, k):
        if k not in self.report.covered and self.ip.ctx.check() == z3.sat:
            self.report.covered.add(k)

def suppose(ip, typ, p, field, v):
    """v is a processed value of the field (see the contracts of processing)"""
    ctx, w = ip.ctx, ip.world
    u = rv(v.t)
    some = lambda f: ctx.assume(z3.Or(is_none(v.t), f))
    if typ == 'boolean':
        some(is_bool(v.t))
    elif typ == 'integer':
        some(is_int(v.t))
    elif typ == 'float':
        some(is_flt(v.t))
    elif typ == 'binary':
        some(z3.And(is_ref(v.t), CLS(u) == w.exact[bytes]))
    elif typ in TEXTS:
        some(is_str(v.t))
    elif typ == 'sequence':
        some(z3.And(is_ref(v.t), CLS(u) == w.exact[list], LEN(u) >= 0))
        item = p.attrs['item'].t
        ctx.add_univ(z3.IntVal(0), LEN(u), lambda i: processed(AT(u, i), item))
    elif typ == 'tuple':
        xs = rv(ip.val(p.attrs['values']))
        some(z3.And(is_ref(v.t), CLS(u) == w.exact[tuple], LEN(u) == LEN(xs)))
        ctx.add_univ(z3.IntVal(0), LEN(u), lambda i: processed(AT(u, i), AT(xs, i)))
    elif typ == 'map':
        some(z3.And(is_ref(v.t), CLS(u) == w.exact[dict], LEN(u) >= 0))
        value = p.attrs['value'].t
        ctx.add_univ(z3.IntVal(0), LEN(u), lambda i: z3.And(is_str(KEYAT(u, i)), processed(GET(u, KEYAT(u, i)), value)))
    elif typ == 'structure':
        some(z3.And(is_ref(v.t), CLS(u) == w.exact[dict], LEN(u) >= 0))
        s = rv(p.attrs['structure'].t)
        ctx.add_univ(z3.IntVal(0), LEN(u), lambda i: z3.And(is_str(KEYAT(u, i)), HAS(s, KEYAT(u, i)),
            processed(GET(u, KEYAT(u, i)), GET(s, KEYAT(u, i)))))
    w.note('processed values: texts for %s fields, base64 bytes for binary fields' % ', '.join(TEXTS))

def goal_xml(typ):
    def run(ip, obs):
        ctx = ip.ctx
        ctx.hasuses = ctx.numtext = True
        p, field = make(ip, typ, hooks=())
        ip.world.ref_of(ip, field)
        fields_only(ip, typ, p)
        v = Sym(z3.Const('v', Val))
        suppose(ip, typ, p, field, v)
        tag = SStr(z3.Const('tag', I))
        if not ctx.feasible():
            raise Infeasible()
        ip.events, ip.violations = [], []
        ip.documents = []
        element = ip.construct(Element, [tag], {})
        ip.frame_mark = element.serial - 1
        ip.overrides = {WRITE: first_real(WRITE, c_write), READ: first_real(READ, c_read)}
        r = attempt(ip, lambda: ip.call(ip.getattr_(Xml, '_serialize_content'), [v, element, field], {}))
        obs.check('written', r.kind == 'return', '%r' % (r,))
        if r.kind != 'return':
            return
        x = attempt(ip, lambda: ip.call(ip.getattr_(Xml, '_unserialize_element'), [parsed(ip, element), field], {}))
        obs.frame('frame')
        ip.frame_mark = None
        obs.check('read', x.kind == 'return', '%r' % (x,))
        if x.kind != 'return':
            return
        obs.tag('none' if ip.branch(is_none(v.t)) else 'value')
        got = ip.norm(ip.force(x.value))
        obs.check('shape', isinstance(got, tuple) and len(got) == 2, '%r' % (got,))
        if isinstance(got, tuple) and len(got) == 2:
            obs.same('tag', got[0], tag)
            u = rv(v.t)
            want = v
            if not ip.branch(is_none(v.t)):
                if typ in ('sequence', 'tuple'):
                    want = LObj(ctx, list if typ == 'sequence' else tuple, [symseg(u)])
                elif typ in ('map', 'structure'):
                    want = DObj(ctx, dict, u)
            obs.same('equal', got[1], want)
    return run

def goal_document(ip, obs):
    """serialize and unserialize around the codec"""
    ctx = ip.ctx
    schema, v, preamble = Sym(z3.Const('schema', Val)), Sym(z3.Const('v', Val)), Sym(z3.Const('preamble', Val))
    ctx.assume(z3.Implies(ip.world.has_class(schema.t, Field), processed(v.t, schema.t)))
    given = ctx.choose(2)
    ip.documents = []
    ip.overrides = {WRITE: c_write, READ: c_read}
    ip.frame_mark = ctx.counter
    ip.events, ip.violations = [], []
    s = attempt(ip, lambda: ip.call(ip.getattr_(Xml, 'serialize'), [v, schema] + ([preamble] if given else []), {}))
    if not ip.branch(ip.world.has_class(schema.t, Field)):
        obs.tag('refused')
        obs.check('refused', s.kind == 'raise' and s.value.cls is TypeError, '%r' % (s,))
        text = SStr(z3.Const('document', I))
        s = attempt(ip, lambda: ip.call(ip.getattr_(Xml, 'unserialize'), [text, schema], {}))
        return obs.check('refused', s.kind == 'raise' and s.value.cls is TypeError, '%r' % (s,))
    obs.check('written', s.kind == 'return', '%r' % (s,))
    if s.kind != 'return':
        return
    x = attempt(ip, lambda: ip.call(ip.getattr_(Xml, 'unserialize'), [s.value, schema], {}))
    obs.frame('frame')
    ip.frame_mark = None
    obs.check('read', x.kind == 'return', '%r' % (x,))
    if x.kind == 'return':
        obs.tag('value')
        obs.same('equal', x.value, v)

for t in TEXTS + ('boolean', 'integer', 'float', 'binary', 'sequence', 'tuple', 'map', 'structure'):
    GOALS['xml.' + t] = goal_xml(t)
    EXPECT['xml.' + t] = {'none', 'value'}
    OBSERVERS['xml.' + t] = MarkupObs
GOALS['xml.document'] = goal_document
EXPECT['xml.document'] = {'refused', 'value'}
OBSERVERS['xml.document'] = MarkupObs
