"""Goals for the constructors and for the definition of placeholders."""
import z3
from .goals import *
from .goals import GOALS, OBSERVERS, EXPECT
from contracts import build as CB

# ---------------------------------------------------------------- primitives
@models.model(prim.standing)
def m_standing(ip, args, kw):
    c = ip.norm(ip.force(args[0]))
    if not isinstance(c, Sym):
        return ('neither', c)
    if ip.branch(ip.world.has_class(c.t, Undefined)):
        f = ip.world.undefined_field(ip, rv(c.t))
        return ('waits', c) if ip.branch(is_none(f.t)) else ('field', f)
    return ('field' if ip.branch(ip.world.has_class(c.t, Field)) else 'neither', c)

@models.model(prim.awaited)
def m_awaited(ip, args, kw):
    ip.events.append(('register', ip.norm(ip.force(args[0])), (ip.norm(ip.force(args[1])),)))

@models.model(prim.named)
def m_named(ip, args, kw):
    f = ip.norm(ip.force(args[0]))
    name = ip.world.field_attr(ip, rv(f.t), 'name')
    if not ip.truth(name) and not ip.branch(ip.val(name) == ip.val(args[1])):
        ip.events.append(('named', f, args[1]))

# ---------------------------------------------------------------- arguments
def arbitrary(name):
    return Sym(z3.Const(name, Val))

def arguments(ip, typ):
    """-> (what the constructor is given, what the contract is given)"""
    a = common(ip, ())
    if typ in ('sequence', 'map', 'tuple', 'union', 'structure'):
        names = {'sequence': ('item', 'min_length', 'max_length'), 'map': ('value', 'key', 'required_keys'),
            'tuple': ('values',), 'union': ('fields',), 'structure': ('key_order',)}[typ]
        for n in names:
            a[n] = arbitrary('p.' + n)
        for n in {'sequence': ('unique',), 'structure': ('strict',)}.get(typ, ()):
            a[n] = sbool('p.' + n)
    else:
        a.update(own(ip, typ))
    given, told = dict(a), dict(a)
    if typ == 'structure':
        if ip.ctx.choose(2) == 1:
            s = arbitrary('p.structure')
            ip.ctx.assume(z3.Not(ip.world.has_class(s.t, dict)))
            given['structure'] = told['structure'] = s
        else:
            u = z3.Const('p.members', I)
            ip.ctx.assume(z3.And(CLS(u) == ip.world.exact[dict], LEN(u) >= 0))
            given['structure'], told['structure'] = DObj(ip.ctx, dict, u), Sym(VRef(u))
            given['structure'].writable = True
    return given, told

class BuildObs(PObs):
    field = typ = None

    def tag(self, k):
        if k not in self.report.covered and self.ip.ctx.check() == z3.sat:
            self.report.covered.add(k)

    def attribute(self, k):
        if k in self.field.attrs:
            return self.field.attrs[k]
        found = self.ip.class_lookup(self.field.cls, k)
        return found[0] if found else None

    def built(self, real, spec):
        ip = self.ip
        if spec.kind == 'raise':
            raise Unsupported('the contract raised %r' % (spec.value,))
        s = spec.value
        self.tag(s[0])
        if s[0] == 'refused':
            return self.check('refused', real.kind == 'raise' and isinstance(real.value.cls, type) and
                issubclass(real.value.cls, (TypeError, ValueError)), '%r, contract says refused' % (real,))
        self.check('built', real.kind == 'return', '%r, contract says built' % (real,))
        return real.kind == 'return'

    def same_origin(self, label, a, b, depth):
        if a[0] == 'named' and b[0] == 'named':
            self.same('named', a[1], b[1])
            return self.same('named', a[2], b[2])
        if a[0] == 'register' and b[0] == 'register':
            self.same('awaited', a[1], b[1])
            self.tag('placed')
            return self.placed(a[2], b[2][0])
        return PObs.same_origin(self, label, a, b, depth)

    def placed(self, registered, key):
        """what was registered with the placeholder puts the field it is defined as at its place, and changes nothing else"""
        ip, ctx, field, typ = self.ip, self.ip.ctx, self.field, self.typ
        new = Sym(z3.Const('defined', Val))
        ctx.assume(ip.world.has_class(new.t, Field))
        k = {'sequence': 'item', 'map': 'value', 'tuple': 'values', 'union': 'fields', 'structure': 'structure'}[typ]
        if typ in ('tuple', 'union'):
            # other places may have been filled in before
            n = models.intterm(ip.length(field.attrs[k]))
            u = ctx.fresh('now', I)
            ctx.assume(z3.And(CLS(u) == ip.world.exact[tuple], LEN(u) == n))
            field.attrs[k] = Sym(VRef(u))
            at = models.intterm(key)
            want = LObj(ctx, tuple, [SymSeg(n, lambda i: new if ip.branch(z3.simplify(i == at)) else ip.norm(Sym(AT(u, i))), None)])
        elif typ == 'structure':
            u = ctx.fresh('now', I)
            ctx.assume(z3.And(CLS(u) == ip.world.exact[dict], LEN(u) >= 0))
            field.attrs[k] = DObj(ctx, dict, u)
            want = DObj(ctx, dict, u)
            want.log.append(('set', key, new))
        else:
            want = new
        before = dict(field.attrs)
        ip.events = []
        r = attempt(ip, lambda: ip.call(registered[0], [new] + list(registered[1:]), {}))
        self.check('place', r.kind == 'return', '%r' % (r,))
        if r.kind != 'return':
            return
        self.check('place', set(before) == set(field.attrs) and all(field.attrs[x] is before[x] for x in before if x != k),
            'another attribute changes')
        events, ip.events = ip.events, []
        if typ == 'structure':
            m_named(ip, (new, key), {})
        if ctx.choose(2) == 1:
            self.check('place', len(events) == len(ip.events), '%r / %r' % (events, ip.events))
            if events and ip.events:
                self.same_events('place', events, ip.events)
            return
        self.same('place', field.attrs[k], want)

def goal_build(typ):
    def run(ip, obs):
        given, told = arguments(ip, typ)
        if not ip.ctx.feasible():
            raise Infeasible()
        ip.ctx.hasuses = True
        ip.ctx.naming = True
        ip.events, ip.violations = [], []
        real = attempt(ip, lambda: ip.construct(CLASSES[typ], [], given))
        events, ip.events = ip.events, []
        spec = attempt(ip, lambda: ip.call(CB.build, [typ, ip.new_dict(told.items())], {}))
        told_events, ip.events = ip.events, []
        if not obs.built(real, spec):
            return
        obs.field, obs.typ, want = real.value, typ, spec.value[1]
        if typ in STRUCTURAL and (events or told_events) and ip.ctx.choose(2) == 1:
            return obs.same_events('events', events, told_events)
        obs.check('class', obs.field.cls is CLASSES[typ])
        for k, x in dict((k, x) for op, k, x in want.log).items():
            obs.same(k, obs.attribute(k), x)
    return run

REFUSING = ('integer', 'float', 'decimal', 'date', 'datetime', 'time', 'text', 'binary', 'enumeration') + STRUCTURAL
for t in SCALARS + STRUCTURAL:
    GOALS['construct.' + t] = goal_build(t)
    EXPECT['construct.' + t] = {'ok'} | ({'refused'} if t in REFUSING else set()) | ({'placed'} if t in STRUCTURAL else set())
    OBSERVERS['construct.' + t] = BuildObs

# ---------------------------------------------------------------- placeholders
def registered(*args):
    """some function that a schema registers with a placeholder"""

@models.model(registered)
def m_registered(ip, args, kw):
    ip.events.append(('called', 'registered', ip.ctx.counter) + tuple(args) + (tuple(sorted(kw)),))

class DefineObs(PObs):
    def tag(self, k):
        if k not in self.report.covered and self.ip.ctx.check() == z3.sat:
            self.report.covered.add(k)
    def same_origin(self, label, a, b, depth):
        if a[0] == 'called' and b[0] == 'called':
            self.check(label, len(a) == len(b), '%r / %r' % (a, b))
            for x, y in zip(a[3:], b[3:]):
                self.same(label, x, y, depth + 1)
            return
        return PObs.same_origin(self, label, a, b, depth)

def entry(ip, n, one):
    """what is kept of a registration: the function and its arguments (the schemas give at most one)"""
    fn = Bound(registered, Sym(app('REGISTERED', [n], Val)))
    return fn, ((Sym(app('ARGUMENT', [n], Val)),) if one else ())

def shaped(ip, x, fn, args):
    x = ip.norm(ip.force(x))
    if not isinstance(x, tuple) or len(x) != 2:
        return False
    rest = ip.norm(ip.force(x[1]))
    return x[0] is fn and isinstance(rest, tuple) and len(rest) == len(args) and all(a is b for a, b in zip(rest, args))

def goal_define(ip, obs):
    new = Sym(z3.Const('defined', Val))
    ip.ctx.assume(ip.world.has_class(new.t, Field))
    # the representation: a list of pairs
    probe = ip.construct(Undefined, [], {})
    fn, args = entry(ip, z3.IntVal(-2), True)
    ip.call(ip.getattr_(probe, 'register'), [fn] + list(args), {})
    kept = ip.norm(ip.force(probe.attrs.get('callbacks')))
    if not isinstance(kept, LObj) or kept.kind is not list or len(ip.concrete_items(kept)) != 1 or \
            not shaped(ip, ip.concrete_items(kept)[0], fn, args):
        raise Unsupported('another representation of the registrations')
    who = ip.construct(Undefined, [], {})
    obs.check('undefined', ip.norm(ip.force(ip.getattr_(who, 'field'))) is None)
    obs.check('given', ip.norm(ip.force(ip.getattr_(ip.construct(Undefined, [new], {}), 'field'))) is new)
    n = z3.Const('registrations', I)
    ip.ctx.assume(n >= 0)
    at = lambda i: entry(ip, i, ip.branch(app('WITHARGUMENT', [i], B)))
    who.attrs['callbacks'] = LObj(ip.ctx, list, [SymSeg(n, at, None)])
    fn, args = entry(ip, z3.IntVal(-1), ip.ctx.choose(2) == 1)
    ip.events, ip.violations = [], []
    r = attempt(ip, lambda: ip.call(ip.getattr_(who, 'register'), [fn] + list(args), {}))
    obs.check('registered', r.kind == 'return' and not ip.events, '%r' % (r,))
    if r.kind != 'return':
        return
    r = attempt(ip, lambda: ip.call(ip.getattr_(who, 'define'), [new], {}))
    obs.check('defined', r.kind == 'return', '%r' % (r,))
    if r.kind != 'return':
        return
    obs.tag('defined')
    obs.check('field', ip.norm(ip.force(ip.getattr_(who, 'field'))) is new)
    events, ip.events = ip.events, []
    entries = LObj(ip.ctx, list, [SymSeg(n, at, None), ItemsSeg([(fn, args)])])
    ip.call(CB.define, [entries, new], {})
    obs.same_events('calls', events, ip.events)

GOALS['placeholder'] = goal_define
EXPECT['placeholder'] = {'defined'}
OBSERVERS['placeholder'] = DefineObs
