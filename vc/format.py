"""Goals for the formats."""
import z3
from .goals import *
from .goals import GOALS, OBSERVERS, EXPECT
from contracts import format as CF

Format, Json = scheme.format.Format, scheme.formats.Json

# ---------------------------------------------------------------- primitives
@models.model(prim.exists)
def m_exists(ip, args, kw):
    return models.m_exists(ip, args, kw)

@models.model(prim.extension)
def m_extension(ip, args, kw):
    return models.call_method(ip, models.m_splitext(ip, args, kw)[1], 'lower', [], {})

@models.model(prim.contents)
def m_contents(ip, args, kw):
    return models.m_file_read(ip, [FileObj(ip.norm(ip.force(args[0])), 'r')], {})

@models.model(prim.written)
def m_written(ip, args, kw):
    ip.events.append(('written', ip.norm(ip.force(args[0])), args[1]))

def coder(name):
    def m(ip, args, kw):
        f, value, schema, params = args
        return ip.world.format_call(ip, ip.norm(ip.force(f)), name, [value, schema], {'**': params})
    return m

models.model(prim.encode)(coder('serialize'))
models.model(prim.decode)(coder('unserialize'))

def c_format(name):
    """a format known by its contract"""
    return lambda ip, args, kw: ip.world.format_call(ip, args[0], name, list(args[1:]), kw)

def c_process(ip, args, kw):
    field = ip.norm(ip.force(args[0]))
    return ip.world.child_call(ip, Sym(VRef(ip.world.ref_of(ip, field))), 'process', list(args[1:]), kw)

# ---------------------------------------------------------------- goals
class FormatObs(PObs):
    def same_origin(self, label, a, b, depth):
        if a[0] in ('written', 'format') and a[0] == b[0] and len(a) == len(b):
            for x, y in zip(a[1:], b[1:]):
                if isinstance(x, str) and isinstance(y, str) or x is y:
                    self.check(label, x == y, '%r / %r' % (x, y))
                else:
                    self.same(label, x, y, depth + 1)
            return
        return PObs.same_origin(self, label, a, b, depth)

    def match_format(self, real, spec):
        if spec.kind == 'raise':
            raise Unsupported('the contract raised %r' % (spec.value,))
        s = spec.value
        if s[0] not in self.report.covered and self.ip.ctx.check() == z3.sat:
            self.report.covered.add(s[0])
        if s[0] == 'ok':
            self.check('outcome', real.kind == 'return', '%r' % (real,))
            if real.kind == 'return':
                self.same('result', real.value, s[1])
            return
        cls = ValueError if s[0] == 'unknown' else E.UndefinedFieldError if s[0] == 'undefined' else E.StructuralError
        self.check('outcome', real.kind == 'raise' and isinstance(real.value.cls, type) and issubclass(real.value.cls, cls),
            '%r, contract says %r' % (real, s))

def registry(ip):
    u = z3.Const('registry', I)
    ip.ctx.assume(z3.And(CLS(u) == ip.world.exact[dict], LEN(u) >= 0))
    return DObj(ip.ctx, dict, u)

def explicit(ip, reg, known=False):
    """None or a key"""
    f = z3.Const('format', Val)
    ip.ctx.assume(z3.Or(is_none(f), is_str(f), z3.And(is_ref(f), HASHABLE(rv(f)), CLS(rv(f)) == ip.world.other)))
    if known:
        ip.ctx.assume(z3.Or(is_none(f), HAS(reg.base, f)))
    return Sym(f)

def given(ip):
    u = z3.Const('parameters', I)
    ip.ctx.assume(z3.And(CLS(u) == ip.world.exact[dict], LEN(u) >= 0))
    ip.ctx.add_univ(z3.IntVal(0), LEN(u), lambda i: is_str(KEYAT(u, i)))
    return DObj(ip.ctx, dict, u)

def goal_format(op):
    def run(ip, obs):
        ctx = ip.ctx
        reg = registry(ip)
        ip.statics = {id(Format.formats): reg}
        ctx.formats = True
        ip.overrides = {Json.serialize.__func__: c_format('serialize'), Json.unserialize.__func__: c_format('unserialize'),
            Field.process: c_process}
        params = given(ip)
        arb = lambda n: Sym(z3.Const(n, Val))
        value, schema = arb('value'), arb('schema')
        p = z3.Const('path', Val)
        path = Sym(p)
        ctx.assume(z3.Or(is_none(p), is_str(p)) if op in ('read', 'field.read') else is_str(p))
        kw = {'**': params}
        field = None
        if op.startswith('field.'):
            field = ip.construct(Field, [], {})
            anything(ip, field)
            c = Sym(VRef(ip.world.ref_of(ip, field)))
            ctx.assume(ip.world.has_class(c.t, Field))
            fmt = explicit(ip, reg, op in ('field.serialize', 'field.unserialize'))
            anc = arb('ancestry')
            if op in ('field.serialize', 'field.unserialize'):
                args, told = [value, fmt, anc], [c, field, reg, value, fmt, anc, params]
            elif op == 'field.write':
                args, told = [path, value, fmt], [c, field, reg, path, value, fmt, params]
            else:
                # quiet is one of the further parameters
                quiet = sbool('quiet')
                args, told = [path, fmt], [c, field, reg, path, fmt, quiet, params]
                kw['quiet'] = quiet
            name = op.split('.')[1]
            call = lambda: ip.call(ip.getattr_(field, name), args, kw)
            spec_ = lambda: ip.call(getattr(CF, 'field_' + name), told, {})
        else:
            own = None
            cls = Format
            if op in ('read', 'write') and ctx.choose(2) == 1:
                own = cls = Json
            fmt = explicit(ip, reg, op in ('serialize', 'unserialize'))
            if op in ('serialize', 'unserialize'):
                ctx.assume(z3.Not(is_none(fmt.t)))
                args, told = [value, fmt, schema], [reg, value, fmt, schema, params]
            elif op == 'write':
                args, told = [path, value, fmt, schema], [own, reg, path, value, fmt, schema, params]
            else:
                quiet = sbool('quiet')
                args, told = [path, fmt, schema, quiet], [own, reg, path, fmt, schema, quiet, params]
            call = lambda: ip.call(ip.getattr_(cls, op), args, kw)
            spec_ = lambda: ip.call(getattr(CF, op), told, {})
        if not ctx.feasible():
            raise Infeasible()
        ip.frame_mark = ctx.counter
        ip.events, ip.violations = [], []
        real = attempt(ip, call)
        obs.frame('frame')
        ip.frame_mark = None
        events, ip.events = ip.events, []
        spec = attempt(ip, spec_)
        if (events or ip.events) and ctx.choose(2) == 1:
            return obs.same_events('calls', events, ip.events)
        obs.match_format(real, spec)
    return run

for op in ('read', 'write', 'serialize', 'unserialize', 'field.serialize', 'field.unserialize', 'field.write', 'field.read'):
    GOALS['format.' + op] = goal_format(op)
    EXPECT['format.' + op] = {'ok'} | ({'unknown'} if op.endswith(('read', 'write')) else set()) \
        | ({'fail', 'undefined'} if op.startswith('field') else set())
    OBSERVERS['format.' + op] = FormatObs

# ---------------------------------------------------------------- JSON
import json

@models.model(json.dumps)
def m_dumps(ip, args, kw):
    if len(args) != 1 or kw:
        raise Unsupported('options of json.dumps')
    r = app('DUMPS', [ip.val(args[0])], Val)
    ip.ctx.fact(is_str(r))
    ip.ctx.fact(app('LOADS', [r], Val) == ip.val(args[0]))
    ip.world.note('json.loads reads back what json.dumps wrote of a JSON-representable value')
    return Sym(r)

@models.model(json.loads)
def m_loads(ip, args, kw):
    if len(args) != 1 or kw:
        raise Unsupported('options of json.loads')
    return Sym(app('LOADS', [ip.val(args[0])], Val))

def goal_json(ip, obs):
    value, schema = [Sym(z3.Const(n, Val)) for n in ('value', 'schema')]
    ip.frame_mark = ip.ctx.counter
    ip.events, ip.violations = [], []
    r = attempt(ip, lambda: ip.call(ip.getattr_(Json, 'serialize'), [value, schema], {}))
    obs.check('written', r.kind == 'return' and isinstance(ip.norm(ip.force(r.value)), Sym), '%r' % (r,))
    if r.kind != 'return':
        return
    r = attempt(ip, lambda: ip.call(ip.getattr_(Json, 'unserialize'), [r.value, schema], {}))
    obs.check('read', r.kind == 'return', '%r' % (r,))
    obs.frame('frame')
    ip.frame_mark = None
    if r.kind == 'return':
        obs.report.covered.add('ok')
        obs.same('back', r.value, value)

GOALS['format.json'] = goal_json
EXPECT['format.json'] = {'ok'}
OBSERVERS['format.json'] = FormatObs

# ---------------------------------------------------------------- the registry
class FormatStub(object):
    """a class of format, made by the metaclass"""

def goal_register(ip, obs):
    ctx, w = ip.ctx, ip.world
    reg, told = registry(ip), registry(ip)
    name = isnone_or(ip, 'f.name', str)
    mimetype = isnone_or(ip, 'f.mimetype', str)
    extensions = None
    if ctx.choose(2) == 1:
        n = z3.Const('extensions', I)
        ctx.assume(n >= 0)
        def ext(i):
            t = app('EXTENSION_OF', [i], Val)
            ctx.fact(is_str(t))
            ctx.fact(SLEN(sv(t)) > 0)
            return Sym(t)
        extensions = LObj(ctx, list, [SymSeg(n, ext, None)])
    made = Inst(ctx, FormatStub, {'name': name, 'mimetype': mimetype, 'extensions': extensions, 'formats': reg})
    meta = type(Format)
    space = ip.new_dict([])
    def m_new(ip, args, kw):
        ok = len(args) == 4 and args[0] is meta and args[1] == 'Custom' and args[2] == (Format,) and args[3] is space
        obs.check('made', ok and not kw, '%r' % (args,))
        return made
    ip.typenew = m_new
    ctx.hasuses = True
    ip.events, ip.violations = [], []
    r = attempt(ip, lambda: ip.call(meta.__new__, [meta, 'Custom', (Format,), space], {}))
    obs.check('returned', r.kind == 'return' and ip.norm(ip.force(r.value)) is made, '%r' % (r,))
    if r.kind != 'return':
        return
    obs.report.covered.add('ok')
    ip.call(CF.registered, [told, name, mimetype, extensions, made], {})
    obs.same('registry', reg, told)

GOALS['format.register'] = goal_register
EXPECT['format.register'] = {'ok'}
OBSERVERS['format.register'] = FormatObs

@models.model(type.__new__)
def m_type_new(ip, args, kw):
    if not getattr(ip, 'typenew', None):
        raise Unsupported('a class is made')
    return ip.typenew(ip, args, kw)
