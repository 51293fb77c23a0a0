"""Goals for cloning fields and for editing structures."""
import ast
import copy
import z3
from .goals import *
from .goals import GOALS, OBSERVERS, EXPECT
from .build import arbitrary, BuildObs
from contracts import clone as CK

# ---------------------------------------------------------------- primitives
@models.model(prim.copied)
def m_copied(ip, args, kw):
    return models.deepcopy(ip, args[0])

@models.model(prim.name_of)
def m_name_of(ip, args, kw):
    return ip.getattr_(args[0], 'name')

@models.model(prim.set_name)
def m_set_name(ip, args, kw):
    f = ip.norm(ip.force(args[0]))
    if not ip.truth(ip.compare(ast.Eq(), ip.world.field_attr(ip, rv(f.t), 'name'), args[1])):
        ip.events.append(('named', f, args[1]))

@models.model(prim.renamed)
def m_renamed(ip, args, kw):
    return ip.world.child_call(ip, ip.norm(ip.force(args[0])), 'clone', [], {'name': args[1]})

# ---------------------------------------------------------------- clones
OWN = {'integer': ('minimum', 'maximum'), 'float': ('minimum', 'maximum'), 'decimal': ('minimum', 'maximum'),
    'date': ('minimum', 'maximum'), 'time': ('minimum', 'maximum'), 'datetime': ('minimum', 'maximum', 'utc'),
    'text': ('min_length', 'max_length', 'strip', 'pattern'), 'binary': ('min_length', 'max_length'),
    'token': ('segments',), 'enumeration': ('enumeration', 'ignored_values'), 'boolean': (), 'uuid': (), 'field': (),
    'sequence': ('item', 'min_length', 'max_length', 'unique'), 'tuple': ('values',), 'union': ('fields',),
    'map': ('value', 'key', 'required_keys'), 'structure': ('structure', 'strict', 'key_order')}
COMMON = ('name', 'default', 'constant', 'ignore_null', 'nonnull', 'required')

SHARED = ('name', 'default', 'constant', 'description', 'title', 'notes', 'segments')

class CloneObs(BuildObs):
    def attribute(self, field, k):
        if k in field.attrs:
            return field.attrs[k]
        found = self.ip.class_lookup(field.cls, k)
        return found[0] if found else None

def goal_clone(typ):
    def run(ip, obs):
        p, field = make(ip, typ, hooks=())
        if ip.ctx.choose(2) == 1:
            # given, or none of them (mixtures are monitored)
            for h in ('preprocessor', 'extractor', 'instantiator'):
                field.attrs[h] = UserFn(h)
        from .edit import fields_only
        fields_only(ip, typ, p)
        ip.world.note('the children of a cloned field are fields')
        w, ctx = ip.world, ip.ctx
        if typ == 'structure':
            ko = field.attrs['key_order'] = arbitrary('p.key_order')
            ctx.assume(z3.Or(is_none(ko.t), z3.And(w.has_class(ko.t, list), LEN(rv(ko.t)) > 0)))
        if not ctx.feasible():
            raise Infeasible()
        ctx.hasuses = ctx.naming = ctx.copying = True
        keys = COMMON + OWN[typ]
        over, told_over = {}, None
        i = ctx.choose(len(keys) + 2)
        if i == len(keys):
            over['title'] = arbitrary('o.title')
        elif i < len(keys):
            k = keys[i]
            over[k] = sbool('o') if k in ('ignore_null', 'nonnull', 'required', 'utc', 'strip', 'unique', 'strict') \
                else isnone_or(ip, 'o', str) if k == 'name' \
                else isnone_or(ip, 'o', str, re.Pattern) if k == 'pattern' \
                else arbitrary('o')
            if k == 'structure':
                if ctx.choose(2) == 1:
                    ctx.assume(z3.Not(w.has_class(over[k].t, dict)))
                else:
                    u = z3.Const('o.members', I)
                    ctx.assume(z3.And(CLS(u) == w.exact[dict], LEN(u) >= 0))
                    over[k] = DObj(ctx, dict, u)
                    over[k].writable = True
                    told_over = Sym(VRef(u))
            if k == 'enumeration':
                ctx.assume(z3.Or([w.has_class(over[k].t, c) for c in (str, list, tuple)]))
        before = dict(field.attrs)
        ip.frame_mark = ctx.counter
        ip.events, ip.violations = [], []
        if not over and ctx.choose(2) == 1:
            real = attempt(ip, lambda: ip.call(copy.deepcopy, [field], {}))
        else:
            real = attempt(ip, lambda: ip.call(ip.getattr_(field, 'clone'), [], dict(over)))
        # a dict of members that is given becomes part of the clone
        ip.violations = [x for x in ip.violations if x[0] is not over.get('structure')]
        obs.frame('frame')
        ip.frame_mark = None
        obs.check('frame', set(before) == set(field.attrs) and all(before[k] is field.attrs[k] for k in before))
        events, ip.events = ip.events, []
        if told_over is not None:
            over['structure'] = told_over
        own = dict((k, before[k]) for k in keys if k in before)
        spec = attempt(ip, lambda: ip.call(CK.clone, [typ, ip.new_dict(own.items()), ip.new_dict(over.items())], {}))
        told, ip.events = ip.events, []
        if spec.kind == 'raise':
            raise Unsupported('the contract raised %r' % (spec.value,))
        s = spec.value
        obs.tag(s[0])
        if s[0] == 'refused':
            return obs.check('refused', real.kind == 'raise' and isinstance(real.value.cls, type) and
                issubclass(real.value.cls, (TypeError, ValueError)), '%r, contract says refused' % (real,))
        obs.check('cloned', real.kind == 'return', '%r' % (real,))
        if real.kind != 'return':
            return
        c = real.value
        obs.field, obs.typ = c, typ
        obs.check('class', isinstance(c, Inst) and c is not field and c.cls is field.cls)
        want = dict((k, x) for op, k, x in s[1].log)
        for k in CK.CARRIED:
            if k not in want:
                x = obs.attribute(field, k)
                want[k] = over[k] if k in over else x if k in ('extractor', 'instantiator', 'preprocessor', 'errors') \
                    else models.deepcopy(ip, x)
        if events or told:
            if ctx.choose(2) == 1:
                return obs.same_events('events', events, told)
        aspects = ip.norm(ip.force(c.attrs['aspects']))
        names = set(k for k in (e[1] for e in aspects.log)) if isinstance(aspects, DObj) and aspects.base is None else None
        # known finding: the aspects of a clone of an enumeration list its representation
        obs.check('aspects', names is not None and names <= ({'representation'} if typ == 'enumeration' else set()) and
            aspects is not before['aspects'], '%r' % (aspects,))
        held = sorted(k for k in want if isinstance(ip.norm(ip.force(want[k])), (LObj, DObj, tuple)))
        part = ctx.choose(len(held) + 1)
        for k in (sorted(set(want) - set(held)) if part == 0 else [held[part - 1]]):
            x, y = ip.norm(ip.force(obs.attribute(c, k))), ip.norm(ip.force(want[k]))
            was = ip.norm(ip.force(before.get(k)))
            if k in SHARED and k not in over and (x is was or isinstance(x, Sym) and isinstance(was, Sym) and x.t.eq(was.t)):
                # values that are not the schema's own may be shared
                obs.check(k, True)
                continue
            obs.same(k, x, y)
            if isinstance(x, (LObj, DObj)) and x.kind is not tuple:
                obs.check('shared', x is not ip.norm(ip.force(before.get(k))), k)
    return run

for t in SCALARS + STRUCTURAL:
    GOALS['clone.' + t] = goal_clone(t)
    EXPECT['clone.' + t] = {'ok'} | ({'refused'} if OWN[t] else set())
    OBSERVERS['clone.' + t] = CloneObs
EXPECT['clone.token'] = {'ok'}

# ---------------------------------------------------------------- edits
def given_members(ip):
    u = z3.Const('given', I)
    ip.ctx.assume(z3.And(CLS(u) == ip.world.exact[dict], LEN(u) >= 0))
    ip.ctx.add_univ(z3.IntVal(0), LEN(u), lambda i: is_str(KEYAT(u, i)))
    return Sym(VRef(u))

def dict_of(ip, name):
    u = z3.Const(name, I)
    ip.ctx.assume(z3.And(CLS(u) == ip.world.exact[dict], LEN(u) >= 0))
    return u

def goal_edit(op):
    def run(ip, obs):
        ctx, w = ip.ctx, ip.world
        p, field = make(ip, 'structure', hooks=())
        u = dict_of(ip, 'p.structure')
        field.attrs['structure'] = old = DObj(ctx, dict, u)
        copies = []
        def c_clone(ip, args, kw):
            if kw or len(args) != 1 or copies:
                raise Unsupported('another use of clone')
            c = Inst(ctx, field.cls, dict(args[0].attrs))
            c.attrs['structure'] = DObj(ctx, dict, dict_of(ip, 'cloned'))
            copies.append((c, c.attrs['structure'], dict(c.attrs)))
            return c
        ip.overrides = {Field.clone: c_clone}
        ctx.hasuses = ctx.naming = True
        members = DObj(ctx, dict, u)
        kw = {}
        if op == 'insert':
            args = [arbitrary('f')]
            if ctx.choose(2) == 1:
                args.append(sbool('overwrite'))
            told = [members, args[0], args[1] if len(args) > 1 else False]
        elif op == 'remove':
            n = z3.Const('names', I)
            ctx.assume(n >= 0)
            def name(i):
                t = app('NAME', [i], Val)
                ctx.fact(is_str(t))
                return Sym(t)
            args, kw = [], {'*': SymSeg(n, name, None)}
            told = [members, LObj(ctx, list, [SymSeg(n, name, None)])]
        else:
            args = [given_members(ip)]
            if op == 'merge' and ctx.choose(2) == 1:
                args.append(sbool('prefer'))
            told = [members] + args
            if op == 'merge' and len(args) < 2:
                told.append(False)
            if op == 'extend':
                told[0] = DObj(ctx, dict, dict_of(ip, 'cloned'))
            if op == 'replace':
                told.insert(1, DObj(ctx, dict, dict_of(ip, 'cloned')))
        if not ctx.feasible():
            raise Infeasible()
        before = dict(field.attrs)
        ip.frame_mark = ctx.counter
        ip.events, ip.violations = [], []
        real = attempt(ip, lambda: ip.call(ip.getattr_(field, op), list(args), kw))
        if op in ('insert', 'remove', 'merge'):
            ip.violations = [x for x in ip.violations if x[0] is not old]
        obs.frame('frame')
        ip.frame_mark = None
        obs.check('frame', set(before) == set(field.attrs) and all(before[k] is field.attrs[k] for k in before))
        events, ip.events = ip.events, []
        spec = attempt(ip, lambda: ip.call(getattr(CK, op), told, {}))
        calls, ip.events = ip.events, []
        if spec.kind == 'raise':
            raise Unsupported('the contract raised %r' % (spec.value,))
        s = spec.value
        obs.tag(s[0])
        if s[0] in ('type', 'value'):
            return obs.check('refused', real.kind == 'raise' and isinstance(real.value.cls, type) and
                issubclass(real.value.cls, TypeError if s[0] == 'type' else ValueError), '%r' % (real,))
        obs.check('done', real.kind == 'return', '%r' % (real,))
        if real.kind != 'return':
            return
        r = ip.norm(ip.force(real.value))
        if s[0] == 'self':
            return obs.check('self', r is field)
        if op in ('extend', 'replace'):
            obs.check('copy', len(copies) == 1 and r is copies[0][0], '%r' % (r,))
            if not copies or r is not copies[0][0]:
                return
            c, now, was = copies[0]
            obs.check('copy', set(was) == set(c.attrs) and all(was[k] is c.attrs[k] for k in was))
            want = told[0] if op == 'extend' else told[1]
        else:
            now, want = old, members
        if (events or calls) and ctx.choose(2) == 1:
            return obs.same_events('events', events, calls)
        obs.same('members', now, want)
    return run

for op in ('insert', 'remove', 'merge', 'extend', 'replace'):
    GOALS['edit.' + op] = goal_edit(op)
    EXPECT['edit.' + op] = {'ok'} | ({'type'} if op != 'remove' else set()) | ({'value'} if op == 'insert' else set()) \
        | ({'self'} if op == 'replace' else set())
    OBSERVERS['edit.' + op] = CloneObs
