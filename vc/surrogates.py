"""Goals for surrogates: constructed, serialized and unserialized by the real code, the schemas known by their contracts."""
import z3
from .goals import *
from .goals import GOALS, OBSERVERS, EXPECT
from .interp import def_of
from .markup import MarkupObs

surrogate = scheme.surrogate
real = lambda name: surrogate.__dict__[name].__func__
RESERVED = ('_', '__version__', '__schema__')

class Impl(surrogate):
    """any class of surrogates: its schemas and its name are unknown"""

Impl.schemas = Impl.__dict__.get('schemas') or object()
Impl.surrogate = object()

def entries(ip, s):
    return s.attrs['__entries__']

def has(ip, d, key):
    return models.dict_lookup(ip, d, key)

class SurrogateObs(MarkupObs):
    part = None
    def concerns(self, label):
        return self.part is None or label == self.part

    def same(self, label, a, b, depth=0):
        if depth or self.concerns(label):
            MarkupObs.same(self, label, a, b, depth)

    def same_entries(self, label, d, u):
        """the dict holds exactly the entries of the symbolic dict u, the reserved keys aside"""
        if not self.concerns(label):
            return
        ip, ctx = self.ip, self.ip.ctx
        k = ctx.fresh('key', Val)
        ctx.assume(z3.Implies(is_ref(k), HASHABLE(rv(k))))
        for r in RESERVED:
            ctx.assume(k != VStr(strlit(r)))
        got = has(ip, d, Sym(k))
        want = has(ip, DObj(ctx, dict, u), Sym(k))
        self.check(label, (got is None) == (want is None), 'entry %s: %r / %r' % (k, got, want))
        if got is not None and want is not None:
            self.same(label, got[0], want[0])

class Codec(object):
    """the schemas by their contracts: extracting gives a dict, processing there and back restores it"""
    def __init__(self, ip, obs, schema):
        self.ip, self.obs, self.schema = ip, obs, schema
        self.content = self.dict_('content')
        self.wire = self.dict_('wire')
        self.twin = Sym(z3.Const('twin', Val))
        ip.ctx.assume(ip.world.has_class(self.twin.t, Field))
        ip.ctx.methods = {'extract': self.extract, 'serialize': self.serialize, 'unserialize': self.unserialize,
            'describe': self.describe}
        ip.world.note('schemas by their contracts: extraction gives a dict without the reserved keys, processing outbound and '
            'inbound again restores it, a schema rebuilt from its description behaves like it (C05, C14, C17)')

    def dict_(self, name):
        u = z3.Const(name, I)
        self.ip.ctx.assume(z3.And([CLS(u) == self.ip.world.exact[dict], LEN(u) >= 0] +
            [z3.Not(HAS(u, VStr(strlit(k)))) for k in RESERVED]))
        return u

    def fresh(self, u):
        d = DObj(self.ip.ctx, dict, u)
        return d

    def of(self, v, what):
        self.obs.same('schema', v, self.schema)

    def extract(self, ip, v, args, kw):
        self.of(v, 'extract')
        self.obs.check('extract', len(args) == 1, '%r' % (args,))
        self.obs.same('extract', args[0], DObj(ip.ctx, dict, self.given) if self.mapping else self.subject)
        strict = ip.norm(ip.force(kw.get('strict', True)))
        self.obs.check('extract', set(kw) <= {'strict'} and strict is self.mapping, '%r' % (kw,))
        return self.fresh(self.content)

    def serialize(self, ip, v, args, kw):
        self.of(v, 'serialize')
        self.obs.check('serialize', len(args) == 1 and not kw, '%r' % (args,))
        self.obs.same('serialize', args[0], DObj(ip.ctx, dict, self.content))
        return self.fresh(self.wire)

    def unserialize(self, ip, v, args, kw):
        v = ip.norm(ip.force(v))
        if not (isinstance(v, Sym) and v.t.eq(self.twin.t)):
            self.of(v, 'unserialize')
        self.obs.check('unserialize', len(args) == 1 and set(kw) <= {'ancestry'}, '%r %r' % (args, kw))
        self.obs.same('unserialize', args[0], DObj(ip.ctx, dict, self.wire))
        return self.fresh(self.content)

    def describe(self, ip, v, args, kw):
        self.of(v, 'describe')
        self.obs.check('describe', not args and not kw, '%r' % (args,))
        r = app('DESCRIPTION', [ip.val(v)], Val)
        ip.ctx.fact(z3.And(is_ref(r), CLS(rv(r)) == ip.world.exact[dict], LEN(rv(r)) > 0))
        return Sym(r)

    def reconstruct(self, ip, args, kw):
        self.obs.same('reconstruct', args[-1], Sym(app('DESCRIPTION', [ip.val(self.schema)], Val)))
        return self.twin

def goal_surrogate(kind):
    def run(ip, obs):
        ctx, w = ip.ctx, ip.world
        token = SStr(z3.Const('token', I))
        ctx.assume(token.t != strlit(''))
        schemas = None
        version = None
        if kind == 'versioned':
            u = z3.Const('schemas', I)
            ctx.assume(z3.And(CLS(u) == w.exact[list], LEN(u) > 0))
            ctx.add_univ(z3.IntVal(0), LEN(u), lambda i: w.has_class(AT(u, i), Field))
            schemas = Sym(VRef(u))
            n = LEN(u)
            if ctx.choose(2) == 1:
                n = z3.Const('version', I)
                ctx.assume(z3.And(n >= 1, n <= LEN(u)))
                version = SInt(n)
            schema = Sym(AT(u, n - 1))
            ctx.add_index(n - 1)
        else:
            schema = Sym(z3.Const('schema', Val))
            ctx.assume(w.has_class(schema.t, Field))
        ip.statics = {id(Impl.schemas): schemas, id(Impl.surrogate): token}
        # the parts of the statement one by one
        parts = ['constructed', 'serialized', 'restored', 'class', 'version'] + (['schema', 'extract', 'serialize', 'unserialize',
            'describe', 'reconstruct'] if kind != 'plain' else [])
        obs.part = parts[ctx.choose(len(parts))]
        codec = Codec(ip, obs, schema)
        found = []
        def implementation(ip, args, kw):
            obs.same('class', args[-1], token)
            found.append(1)
            return Impl
        ip.overrides = {real('_get_implementation'): implementation,
            type(Field).reconstruct if hasattr(type(Field), 'reconstruct') else None: codec.reconstruct}
        ip.overrides.pop(None, None)
        codec.mapping = ctx.choose(2) == 0
        if codec.mapping:
            codec.given = codec.dict_('given')
            value = DObj(ctx, dict, codec.given)
            if kind == 'plain':
                codec.content = codec.wire = codec.given
        else:
            if kind == 'plain':
                raise Infeasible()
            value = codec.subject = Sym(z3.Const('subject', Val))
            ctx.assume(z3.And(z3.Not(is_none(value.t)), z3.Not(w.has_class(value.t, dict))))
        how = ctx.choose(3)
        impl = [None, Impl, token][how]
        kw = {}
        if kind == 'dynamic':
            kw['schema'] = schema
        if version is not None:
            kw['version'] = version
        ip.frame_mark = ctx.counter
        ip.events, ip.violations = [], []
        s = attempt(ip, lambda: ip.call(ip.getattr_(Impl if how == 0 else surrogate, 'construct'), [impl, value], kw))
        obs.check('constructed', s.kind == 'return', '%r' % (s,))
        if s.kind != 'return':
            return
        s = s.value
        obs.check('constructed', isinstance(s, Inst) and s.cls is Impl, '%r' % (s,))
        if not isinstance(s, Inst):
            return
        def whole(label, s, schema):
            obs.check(label, isinstance(s, Inst) and s.cls is Impl, '%r' % (s,))
            if isinstance(s, Inst):
                obs.same_entries(label, entries(ip, s), codec.content)
                obs.same(label, ip.getattr_(s, 'version'), SInt(n) if kind == 'versioned' else None)
                obs.same(label, ip.getattr_(s, 'schema'), schema)
        own = schema if kind == 'dynamic' else None
        whole('constructed', s, own)
        obs.frame('frame')
        ip.frame_mark = ctx.counter
        ip.violations = []
        t = attempt(ip, lambda: ip.call(ip.getattr_(s, 'serialize'), [], {}))
        obs.check('serialized', t.kind == 'return', '%r' % (t,))
        if t.kind != 'return':
            return
        d = ip.norm(ip.force(t.value))
        obs.check('serialized', isinstance(d, DObj), '%r' % (d,))
        if not isinstance(d, DObj):
            return
        obs.same_entries('serialized', d, codec.wire)
        got = dict((k, has(ip, d, k)) for k in RESERVED)
        obs.check('class', got['_'] is not None, '%r' % (d,))
        if got['_'] is not None:
            obs.same('class', got['_'][0], token)
        if kind == 'versioned' and ip.branch(n > 1):
            obs.tag('later')
            obs.check('version', got['__version__'] is not None, '%r' % (d,))
            if got['__version__'] is not None:
                obs.same('version', got['__version__'][0], SInt(n))
        else:
            obs.tag('first')
            obs.check('version', got['__version__'] is None, '%r' % (d,))
        obs.check('schema', (got['__schema__'] is not None) == (kind == 'dynamic'), '%r' % (d,))
        if kind == 'dynamic' and got['__schema__'] is not None:
            obs.same('schema', got['__schema__'][0], Sym(app('DESCRIPTION', [schema.t], Val)))
        obs.frame('frame')
        ip.frame_mark = ctx.counter
        ip.violations = []
        x = attempt(ip, lambda: ip.call(ip.getattr_(surrogate, 'unserialize'), [d], {}))
        obs.check('restored', x.kind == 'return', '%r' % (x,))
        obs.frame('frame')
        ip.frame_mark = None
        if x.kind == 'return':
            whole('restored', x.value, codec.twin if kind == 'dynamic' else None)
    return run

def goal_lookup(ip, obs):
    """a class is found under its name, or the base class is taken; what was found is remembered"""
    ctx = ip.ctx
    u = z3.Const('cache', I)
    ctx.assume(z3.And(CLS(u) == ip.world.exact[dict], LEN(u) >= 0))
    cache = DObj(ctx, dict, u)
    base = ip.val(surrogate)
    known = lambda t: app('RESOLVED', [t], Val)
    k = z3.Const('known', Val)
    t = z3.Const('token', Val)
    ctx.assume(z3.Or(is_none(t), is_str(t)))
    for x in (k, t):
        ctx.assume(z3.Implies(HAS(u, x), GET(u, x) == known(x)))
        ctx.assume(z3.Implies(z3.Not(app('IMPORTS', [x], B)), known(x) == base))
        ctx.assume(z3.Implies(is_ref(x), HASHABLE(rv(x))))
    def imported(ip, args, kw):
        x = ip.val(ip.norm(ip.force(args[0])))
        obs.check('imported', x == t, '%s' % x)
        if ip.branch(app('IMPORTS', [t], B)):
            return Sym(known(t))
        ip.raise_(ImportError, 'no such module')
    ip.statics = {id(surrogate.cache): cache}
    ip.overrides = {scheme.util.import_object: imported}
    ip.events, ip.violations = [], []
    r = attempt(ip, lambda: ip.call(ip.getattr_(surrogate, '_get_implementation'), [Sym(t)], {}))
    obs.check('found', r.kind == 'return', '%r' % (r,))
    if r.kind != 'return':
        return
    got = ip.val(ip.norm(ip.force(r.value)))
    if ip.branch(is_none(t)):
        obs.tag('none')
        obs.check('found', got == base, '%s' % got)
    else:
        obs.tag('value')
        obs.check('found', got == known(t), '%s' % got)
    e = has(ip, cache, Sym(k))
    if e is not None:
        obs.check('remembered', ip.val(ip.norm(ip.force(e[0]))) == known(k), '%r' % (e,))

def goal_field(ip, obs):
    """a surrogate field: what it validates, serializes and unserializes"""
    ctx, w = ip.ctx, ip.world
    token = SStr(z3.Const('token', I))
    ip.statics = {id(Impl.surrogate): token, id(Impl.schemas): None}
    listed = [None, 'list', 'none'][ctx.choose(3)]
    u = z3.Const('valid', I)
    given = None
    if listed == 'list':
        given = Sym(VRef(u))
        ctx.assume(z3.And(z3.Or(CLS(u) == w.exact[list], CLS(u) == w.exact[tuple]), LEN(u) >= 0))
        ctx.add_univ(z3.IntVal(0), LEN(u), lambda i: is_str(AT(u, i)))
    c = attempt(ip, lambda: ip.construct(F.Surrogate, [given] if listed else [], {}))
    obs.check('built', c.kind == 'return', '%r' % (c,))
    if c.kind != 'return':
        return
    field = c.value
    anything(ip, field)
    s = Inst(ctx, Impl)
    s.attrs.update({'schema': None, 'version': None, '__entries__': DObj(ctx, dict, z3.Const('content', I))})
    v = Sym(z3.Const('v', Val))
    ctx.assume(z3.And(z3.Not(is_none(v.t)), z3.Not(w.has_class(v.t, surrogate))))
    native = ctx.choose(2) == 0
    if native:
        v = s
    # membership: some element is the name
    member, at = models.lin(ip, u, token), z3.Const('member', I)
    ctx.fact(z3.Implies(member, z3.And(at >= 0, at < LEN(u), AT(u, at) == VStr(token.t))))
    ctx.add_index(at)
    ctx.add_univ(z3.IntVal(0), LEN(u), lambda i: z3.Implies(AT(u, i) == VStr(token.t), member))
    path = Sym(z3.Const('path', Val))
    op = ctx.choose(3)
    ip.events, ip.violations = [], []
    ip.frame_mark = ctx.counter
    if op == 0:
        r = attempt(ip, lambda: ip.call(ip.getattr_(field, '_validate_value'), [v, path], {}))
        if not native:
            obs.tag('invalid')
            obs.check('refused', r.kind == 'raise' and r.value.cls is E.InvalidTypeError, '%r' % (r,))
        else:
            allowed = True
            if listed == 'list' and ip.branch(LEN(u) > 0):
                allowed = ip.branch(member)
            obs.tag('allowed' if allowed else 'unlisted')
            if allowed:
                obs.check('accepted', r.kind == 'return', '%r' % (r,))
            else:
                obs.check('refused', r.kind == 'raise' and r.value.cls is E.ValidationError, '%r' % (r,))
                if r.kind == 'raise':
                    errors = ip.concrete_items(ip.getattr_(r.value, 'errors'))
                    tokens = [ip.norm(ip.getitem(e, 'token')) for e in errors]
                    obs.check('token', tokens == ['invalid-surrogate'], '%r' % (tokens,))
    elif op == 1:
        if not native:
            raise Infeasible()
        wrote = Sym(z3.Const('wrote', Val))
        def write(ip, args, kw):
            obs.check('serialize', args == [s] and not kw, '%r' % (args,))
            return wrote
        ip.overrides = {surrogate.serialize: write}
        r = attempt(ip, lambda: ip.call(ip.getattr_(field, '_serialize_value'), [v], {}))
        obs.check('serialize', r.kind == 'return', '%r' % (r,))
        if r.kind == 'return':
            obs.same('serialize', r.value, wrote)
    else:
        restored = Sym(z3.Const('restored', Val))
        def read(ip, args, kw):
            obs.same('unserialize', args[1], v)
            return restored
        ip.overrides = {real('unserialize'): read}
        r = attempt(ip, lambda: ip.call(ip.getattr_(field, '_unserialize_value'), [v, path], {}))
        if native:
            obs.check('unserialize', r.kind == 'return', '%r' % (r,))
            if r.kind == 'return':
                obs.same('unserialize', r.value, s)
        elif ip.branch(w.has_class(v.t, dict)):
            obs.check('unserialize', r.kind == 'return', '%r' % (r,))
            if r.kind == 'return':
                obs.same('unserialize', r.value, restored)
        else:
            obs.check('refused', r.kind == 'raise' and r.value.cls is E.InvalidTypeError, '%r' % (r,))
    obs.frame('frame')
    ip.frame_mark = None

for k in ('plain', 'dynamic', 'versioned'):
    GOALS['surrogate.' + k] = goal_surrogate(k)
    EXPECT['surrogate.' + k] = {'first', 'later'} if k == 'versioned' else {'first'}
    OBSERVERS['surrogate.' + k] = SurrogateObs
GOALS['surrogate.lookup'] = goal_lookup
EXPECT['surrogate.lookup'] = {'none', 'value'}
OBSERVERS['surrogate.lookup'] = MarkupObs
GOALS['surrogate.field'] = goal_field
EXPECT['surrogate.field'] = {'invalid', 'allowed', 'unlisted'}
OBSERVERS['surrogate.field'] = MarkupObs
