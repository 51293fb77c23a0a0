"""Goals for describing fields and for rebuilding fields from their descriptions."""
import z3
from .goals import *
from .goals import GOALS, OBSERVERS, EXPECT
from .interp import def_of
from .build import arbitrary
from .clone import CloneObs, COMMON, OWN
from .edit import fields_only
from .round import equal

HEAVY = ('date', 'time', 'datetime', 'decimal', 'text', 'enumeration', 'structure', 'map', 'sequence')
DOCS = ('title', 'description', 'notes')
DESCRIBE = Field._describe_parameter
CONSTRUCT = Field.__dict__['_construct_parameter'].__func__

def plain(ip, t):
    """formula: None, a bool, number or text"""
    return z3.Or(is_none(t), is_bool(t), is_int(t), is_flt(t), is_str(t))

def container(ip, t):
    return z3.Or([ip.world.has_class(t, c) for c in (dict, list, tuple)])

def native(ip, t):
    """formula: natively serializable, with everything it holds"""
    return z3.Or(plain(ip, t), z3.And(container(ip, t), app('NATIVE', [t], B)))

def is_description(t):
    return z3.is_app(t) and t.decl().name() == 'DR'

def run_body(ip, fn, args, kw):
    node = def_of(fn)
    ip.functions.add(('scheme/field.py', fn.__name__))
    return ip.run(node, None, fn.__globals__, args, kw, node.args, fn)

def described(ip, args, kw):
    """_describe_parameter by its contract: of a natively serializable value, an equal one"""
    v = ip.norm(ip.force(args[1]))
    if not isinstance(v, Sym):
        return run_body(ip, DESCRIBE, args, kw)
    if is_description(v.t) or ip.branch(native(ip, v.t)):
        return v
    if ip.branch(ip.world.has_class(v.t, Field)):
        return ip.world.child_call(ip, v, 'describe', [], {})
    raise PyExc(Inst(ip.ctx, E.CannotDescribeError))

def rebuilt(ip, args, kw):
    """_construct_parameter by its contract: of the description of a child, a child that behaves like it (the child
    itself); of another natively serializable value, an equal one"""
    v = ip.norm(ip.force(args[-1]))
    if not isinstance(v, Sym):
        return run_body(ip, CONSTRUCT, args, kw)
    if is_description(v.t):
        ip.world.note('structural induction: a child rebuilt from its description behaves like the child')
        return Sym(VRef(v.t.arg(0)))
    if ip.branch(native(ip, v.t)):
        return v
    raise Unsupported('rebuilding a parameter that is not native')

class DescribeObs(CloneObs):
    def bound(self, typ, k, a, b):
        self.check(k, equal(self.ip, typ, a, b), '%r / %r' % (a, b))

    def natively(self, d, depth=0):
        """d is made of natively serializable values only"""
        ip = self.ip
        d = ip.norm(ip.force(d))
        if isinstance(d, Sym):
            return self.check('native', True if is_description(d.t) else native(ip, d.t), '%r' % (d,))
        if isinstance(d, (SInt, SBool, SStr)) or is_const(d) and isinstance(d, (type(None), bool, int, float, str)):
            return self.check('native', True)
        if isinstance(d, (DObj, dict)):
            key = ip.ctx.fresh('key', Val)
            plain_ = isinstance(d, dict) or d.base is None and all(e[0] == 'set' and is_const(e[1]) for e in d.log)
            if plain_:
                for k, v in (models.pairs(ip, d) if isinstance(d, DObj) else d.items()):
                    self.check('native', isinstance(k, (str, int, float, type(None))))
                    self.natively(v, depth + 1)
                return
            ip.ctx.assume(z3.Implies(is_ref(key), HASHABLE(rv(key))))
            r = models.dict_lookup(ip, d, Sym(key))
            if r is not None:
                self.check('native', plain(ip, key))
                self.natively(r[0], depth + 1)
            return
        if isinstance(d, (LObj, tuple)):
            n = models.intterm(ip.length(d)) if isinstance(d, LObj) else z3.IntVal(len(d))
            t = ip.ctx.fresh('t', I)
            ip.ctx.require(z3.And(t >= 0, t < n))
            ip.ctx.add_index(t)
            return self.natively(models.seq_at(ip, d.segs if isinstance(d, LObj) else [ItemsSeg(list(d))], t), depth + 1)
        self.check('native', False, '%r' % (d,))

def suppose(ip, typ, p, field):
    """natively serializable parameters, bounds in whole seconds"""
    ctx, w = ip.ctx, ip.world
    for k in ('name', 'constant', 'default'):
        ctx.assume(native(ip, ip.val(field.attrs[k])))
    for k in DOCS:
        t = field.attrs[k].t
        ctx.assume(z3.Or(is_none(t), is_str(t)))
        if typ != 'field':
            ctx.assume(is_none(t) == is_none(field.attrs[DOCS[0]].t))
    if typ != 'field':
        w.note('title, description and notes are given together or not at all (independently in the goal for Field)')
    if typ in HEAVY:
        ctx.assume(is_none(ip.val(field.attrs['name'])) == is_none(field.attrs[DOCS[0]].t))
        ctx.assume(ip.val(field.attrs['nonnull']) == ip.val(field.attrs['ignore_null']))
        if typ == 'structure':
            ctx.assume(is_none(ip.val(field.attrs['constant'])) == is_none(field.attrs[DOCS[0]].t))
            ctx.assume(ip.val(field.attrs['nonnull']) == ip.val(field.attrs['required']))
        if typ in ('date', 'datetime'):
            ctx.assume(is_none(ip.val(field.attrs['default'])) == is_none(field.attrs[DOCS[0]].t))
        w.note('so is the name (dates and datetimes: the default; structures: the constant), and nonnull goes with '
            'ignore_null (structures: and with required), for %s fields' % typ)
    if typ in ('date', 'time', 'datetime'):
        for k in ('minimum', 'maximum'):
            t = ip.val(ip.norm(ip.force(field.attrs[k])))
            ctx.assume(z3.Or(is_none(t), models.WHOLE(rv(t))))
            if typ == 'time':
                ctx.assume(z3.Or(is_none(t), z3.Not(AWARE(rv(t)))))
            if typ == 'date':
                import datetime
                ctx.assume(z3.Or(is_none(t), z3.Not(w.has_class(t, datetime.datetime))))
    if typ == 'text':
        t = ip.val(p.attrs['pattern'])
        ctx.assume(z3.Or(is_none(t), is_str(t)))
    if typ == 'token':
        ctx.assume(native(ip, ip.val(field.attrs['segments'])))
    if typ == 'enumeration':
        for k in ('enumeration', 'ignored_values'):
            v = ip.norm(ip.force(field.attrs[k]))
            if isinstance(v, Sym):
                ctx.assume(native(ip, v.t))
    if typ == 'map':
        rk = ip.val(p.attrs['required_keys'])
        ctx.assume(z3.Or(is_none(rk), native(ip, rk)))
    if typ in STRUCTURAL:
        default(ip, typ, p, field)

def opened(ip, y, x):
    """y as an object, if x is one"""
    if isinstance(y, Sym) and isinstance(x, DObj):
        return DObj(ip.ctx, dict, rv(y.t)) if ip.ctx.entails(ip.world.has_class(y.t, dict)) else y
    if isinstance(y, Sym) and isinstance(x, (LObj, tuple)):
        for c in (list, tuple):
            if ip.ctx.entails(ip.world.has_class(y.t, c)):
                return LObj(ip.ctx, c, [symseg(rv(y.t))])
    return y

def default(ip, typ, p, field):
    """the default is a natively serializable value that serializing leaves as it is"""
    ctx, w = ip.ctx, ip.world
    t = field.attrs['default'].t
    u = rv(t)
    if typ == 'union':
        return ctx.assume(is_none(t))
    ctx.assume(z3.Or(is_none(t), z3.And(is_ref(t), CLS(u) == w.exact[{'sequence': list, 'tuple': tuple}.get(typ, dict)])))
    if typ in ('map', 'structure'):
        ctx.assume(z3.Not(HAS(u, VStr(strlit('fieldtype')))))
    if ctx.entails(is_none(t)) or not ip.branch(is_ref(t)):
        return
    def kept(c, v):
        terms = [rv(c), v, VStr(strlit('outbound')), z3.BoolVal(True)]
        return z3.And(native(ip, v), app('PK', terms, I) == 0, app('PR', terms, Val) == v)
    if typ == 'sequence':
        ctx.add_univ(z3.IntVal(0), LEN(u), lambda i: kept(p.attrs['item'].t, AT(u, i)))
    elif typ == 'tuple':
        c = rv(p.attrs['values'].t)
        ctx.assume(LEN(u) == LEN(c))
        ctx.add_univ(z3.IntVal(0), LEN(u), lambda i: kept(AT(c, i), AT(u, i)))
    elif typ == 'map':
        ctx.add_univ(z3.IntVal(0), LEN(u), lambda i: z3.And(plain(ip, KEYAT(u, i)),
            kept(p.attrs['value'].t, GET(u, KEYAT(u, i)))))
    else:
        m = rv(p.attrs['structure'].t)
        ctx.add_univ(z3.IntVal(0), LEN(u), lambda i: z3.And(HAS(m, KEYAT(u, i)), native(ip, GET(u, KEYAT(u, i))),
            app('SV', [rv(GET(m, KEYAT(u, i))), GET(u, KEYAT(u, i))], Val) == GET(u, KEYAT(u, i))))
    w.note('defaults of described fields are natively serializable and left as they are by serializing')

def goal_describe(typ):
    def run(ip, obs):
        ctx, w = ip.ctx, ip.world
        ctx.hasuses = ctx.naming = True
        p, field = make(ip, typ, hooks=())
        ref = w.ref_of(ip, field)
        if typ in STRUCTURAL:
            fields_only(ip, typ, p)
            w.note('the children of a described field are fields')
        if typ == 'structure':
            ko = field.attrs['key_order'] = isnone_or(ip, 'p.key_order', list)
            ctx.assume(native(ip, ko.t))
            ctx.assume(z3.Or(is_none(ko.t), LEN(rv(ko.t)) > 0))
        suppose(ip, typ, p, field)
        if typ == 'field' and ctx.choose(2) == 1:
            a = arbitrary('aspect')
            ctx.assume(z3.And(native(ip, a.t), z3.Not(is_none(a.t))))
            field.attrs['aspects'] = ip.new_dict([('aspect', a)])
        if not ctx.feasible():
            raise Infeasible()
        ip.overrides = {DESCRIBE: described, CONSTRUCT: rebuilt}
        ctx.roundtrip, ctx.rendered = False, []
        before = dict(field.attrs)
        ip.frame_mark = ctx.counter
        ip.events, ip.violations = [], []
        ctx.roundtrip = typ in ('date', 'time', 'datetime', 'decimal')
        d = attempt(ip, lambda: ip.call(ip.getattr_(field, 'describe'), [], {}))
        obs.frame('frame')
        obs.check('frame', set(before) == set(field.attrs) and all(before[k] is field.attrs[k] for k in before))
        if d.kind == 'raise' and typ == 'datetime' and d.value.cls is OverflowError:
            # a bound that UTC cannot represent
            return obs.tag('overflow')
        obs.check('described', d.kind == 'return', '%r' % (d,))
        if d.kind != 'return':
            return
        ip.frame_mark = ctx.counter
        c = attempt(ip, lambda: ip.call(ip.getattr_(Field, 'reconstruct'), [d.value], {}))
        obs.frame('unchanged')
        obs.check('rebuilt', c.kind == 'return', '%r' % (c,))
        if c.kind != 'return':
            return
        ip.frame_mark = None
        c = c.value
        obs.tag('ok')
        obs.check('class', isinstance(c, Inst) and c is not field and c.cls is field.cls)
        part = ctx.choose(3)
        if part == 0:
            return obs.natively(d.value)
        if part == 1:
            own = OWN[typ] + (('timezone',) if typ == 'datetime' else ())
            for k in COMMON + own + DOCS:
                x, y = obs.attribute(c, k), obs.attribute(field, k)
                y = opened(ip, ip.norm(ip.force(y)), ip.norm(ip.force(x)))
                if k in ('minimum', 'maximum') and typ in ('date', 'time', 'datetime', 'decimal'):
                    obs.bound(typ, k, x, y)
                else:
                    obs.same(k, x, y)
            for k in ('extractor', 'instantiator', 'preprocessor'):
                obs.check(k, obs.attribute(c, k) is None)
            aspects = ip.norm(ip.force(c.attrs['aspects']))
            if typ == 'field' and isinstance(before['aspects'], DObj):
                obs.check('aspects', isinstance(aspects, DObj))
                return obs.same('aspects', aspects, before['aspects'])
            names = set(e[1] for e in aspects.log) if isinstance(aspects, DObj) and aspects.base is None else None
            obs.check('aspects', names is not None and names <= {'structural', 'representation'}, '%r' % (aspects,))
            return
        again = attempt(ip, lambda: ip.call(ip.getattr_(c, 'describe'), [], {}))
        obs.check('again', again.kind == 'return', '%r' % (again,))
        if again.kind == 'return':
            obs.same('again', again.value, d.value)
    return run

for t in SCALARS + STRUCTURAL:
    GOALS['describe.' + t] = goal_describe(t)
    EXPECT['describe.' + t] = {'ok'} | ({'overflow'} if t == 'datetime' else set())
    OBSERVERS['describe.' + t] = DescribeObs

# ---------------------------------------------------------------- parameters
def part(name):
    """describing or rebuilding a part of a parameter, by contract: a value or a refusal"""
    def call(ip, args, kw):
        t = ip.val(args[-1])
        if name == 'rebuild' or ip.branch(app('DESCRIBABLE', [t], B)):
            return Sym(app('PART_' + name, [t], Val))
        raise PyExc(Inst(ip.ctx, E.CannotDescribeError))
    return call

@models.model(prim.deeper)
def m_deeper(ip, args, kw):
    return ip.deeper(ip, args, kw)

@models.model(prim.child_describe)
def m_child_describe(ip, args, kw):
    return ip.world.child_call(ip, ip.norm(ip.force(args[0])), 'describe', [], {})

def rebuild(ip, args, kw):
    return Sym(app('REBUILT', [ip.val(args[-1])], Val))
models.model(prim.child_rebuild)(rebuild)

class PartObs(DescribeObs):
    pass

def goal_parameter(name):
    fn = DESCRIBE if name == 'describe' else CONSTRUCT
    def run(ip, obs):
        from contracts import describe as DK
        ctx, w = ip.ctx, ip.world
        ctx.hasuses = True
        p, field = make(ip, 'field', hooks=())
        x = arbitrary('x')
        u = rv(x.t)
        whole = ip.ctx.choose(2) == 1
        ip.deeper = by_contract = part(name)
        entered = []
        def override(ip, args, kw):
            if entered:
                return by_contract(ip, args, kw)
            entered.append(1)
            return run_body(ip, fn, args, kw)
        ip.overrides = {fn: override, type(Field).__dict__['reconstruct']: rebuild}
        if whole:
            # natively serializable, at any depth: the hypothesis for its parts
            def keeps(v):
                return z3.And(native(ip, v), app('DESCRIBABLE', [v], B), app('PART_' + name, [v], Val) == v)
            ctx.assume(z3.Or([plain(ip, x.t)] + [z3.And(is_ref(x.t), CLS(u) == w.exact[c]) for c in (dict, list, tuple)]))
            ctx.add_univ(z3.IntVal(0), LEN(u), lambda i: z3.And(
                z3.Implies(CLS(u) == w.exact[dict], z3.And(plain(ip, KEYAT(u, i)), keeps(GET(u, KEYAT(u, i))))),
                z3.Implies(CLS(u) != w.exact[dict], keeps(AT(u, i)))))
            ctx.assume(z3.Not(z3.And(CLS(u) == w.exact[dict], HAS(u, VStr(strlit('fieldtype'))),
                is_str(GET(u, VStr(strlit('fieldtype')))))))
        if not ctx.feasible():
            raise Infeasible()
        ip.frame_mark = ctx.counter
        ip.events, ip.violations = [], []
        real = attempt(ip, lambda: ip.call(ip.getattr_(field, fn.__name__), [x], {}))
        obs.frame('frame')
        ip.frame_mark = None
        events, ip.events = ip.events, []
        if whole:
            obs.tag('whole')
            obs.check('kept', real.kind == 'return', '%r' % (real,))
            if real.kind == 'return':
                y = ip.norm(ip.force(real.value))
                obs.same('kept', y, opened(ip, x, y))
            return
        spec = attempt(ip, lambda: ip.call(getattr(DK, name + '_parameter'), [x], {}))
        told, ip.events = ip.events, []
        if spec.kind == 'raise' and spec.value.cls is E.CannotDescribeError or spec.kind == 'return' and spec.value[0] == 'cannot':
            obs.tag('cannot')
            return obs.check('refused', real.kind == 'raise' and real.value.cls is E.CannotDescribeError, '%r' % (real,))
        if spec.kind == 'raise':
            raise Unsupported('the contract raised %r' % (spec.value,))
        obs.tag('ok')
        obs.check('done', real.kind == 'return', '%r' % (real,))
        if real.kind == 'return':
            obs.same('done', real.value, spec.value[1])
            obs.same_events('calls', events, told)
    return run

for n in ('describe', 'rebuild'):
    GOALS[n + '.parameter'] = goal_parameter(n)
    EXPECT[n + '.parameter'] = {'ok', 'whole'} | ({'cannot'} if n == 'describe' else set())
    OBSERVERS[n + '.parameter'] = PartObs
