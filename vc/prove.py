"""Verification conditions: runs the code under contract and its specification on the same
symbolic inputs, and discharges what the contract demands at the end of every path."""
import time
import z3
from .smt import *
from .core import *
from .interp import Interp, Frame, is_const, UserErr
from .world import World, Opaque
from . import models

class Failed(object):
    def __init__(self, label, status, detail, model=None):
        self.label, self.status, self.detail, self.model = label, status, detail, model
        self.trail = ()

class Report(object):
    def __init__(self, name):
        self.name = name
        self.obligations = 0
        self.discharged = 0
        self.failed = []
        self.paths = 0
        self.covered = set()
        self.unsupported = None
        self.time = 0.0
        self.solver_time = 0.0
        self.queries = 0
        self.assumptions = set()
        self.functions = set()
        self.labels = {}            # label -> [stated, discharged]

    @property
    def status(self):
        if any(f.status == 'refuted' for f in self.failed):
            return 'refuted'
        if self.unsupported:
            return 'undecided'
        if self.failed:
            return 'undecided'
        return 'proved' if self.obligations else 'vacuous'

class Outcome(object):
    """how a call ended: ('return', value) or ('raise', exception)"""
    def __init__(self, kind, value):
        self.kind, self.value = kind, value
    def __repr__(self):
        return '%s %r' % (self.kind, self.value)

def attempt(ip, fn):
    try:
        return Outcome('return', fn())
    except PyExc as e:
        return Outcome('raise', e.inst)

class Obs(object):
    """the obligations of one path"""
    def __init__(self, ip, report):
        self.ip, self.report = ip, report

    def check(self, label, f, detail=''):
        r = self.report
        r.obligations += 1
        count = r.labels.setdefault(label.split('[')[0].split(' ')[0], [0, 0])
        count[0] += 1
        if self.decide(label, f, detail):
            r.discharged += 1
            count[1] += 1

    def decide(self, label, f, detail):
        ctx = self.ip.ctx
        if f is True:
            return True
        if f is False:
            # a structural mismatch: a violation if the path is feasible at all
            res = ctx.check()
        else:
            f = z3.simplify(f)
            if z3.is_true(f):
                return True
            res = ctx.check(z3.Not(f))
        if res == z3.unsat:
            return True
        if isinstance(detail, tuple):
            detail = detail[0] % detail[1:]
        status = 'refuted' if res == z3.sat else 'unknown'
        model = None
        if res == z3.sat:
            try:
                model = str(ctx.solver.model())[:3000]
            except z3.Z3Exception:
                pass
        fd = Failed(label, status, '%s %s' % (detail, f if f is not False else ''), model)
        fd.trail = [str(a)[:200] for a in ctx.asserted[-14:]]
        self.report.failed.append(fd)
        return False

    leaf = None

    def frame(self, label):
        """nothing that existed before the call was written to"""
        bad = [x for x in self.ip.violations]
        self.check(label, not bad, '%r' % (bad[:2],))

    def cover(self, spec):
        if spec.kind == 'return' and isinstance(spec.value, tuple) and spec.value:
            k = str(spec.value[0])
            if k == 'ok' and len(spec.value) > 1 and spec.value[1] is not None:
                k = 'value'
            if k not in self.report.covered and self.ip.ctx.check() == z3.sat:
                self.report.covered.add(k)

    def pinned(self, s):
        """a text whose numbers have but one value on this path, written out"""
        out = []
        for p in s.pieces:
            t = p[1] if p[0] == 's' else None
            if t is not None and z3.is_app(t) and t.decl().name() == 'VInt':
                n = self.ip.ctx.value(t.arg(0))
                if n is not None:
                    p = ('l', str(n))
            out.append(p)
        return models.mkstr(self.ip, out)

    @staticmethod
    def skeleton(s):
        return [p[1] if p[0] == 'l' else None for p in s.pieces]

    def texts(self, *strings):
        """a text formatted by %s is itself"""
        for s in strings:
            for p in s.pieces:
                if p[0] == 's':
                    self.ip.ctx.fact(z3.Implies(is_str(p[1]), app('FMT_s', [p[1]], I) == app('FMT_t', [sv(p[1])], I)))

    # -- deep equality of what the code and the specification produced
    def same(self, label, a, b, depth=0):
        ip = self.ip
        a, b = ip.norm(ip.force(a)), ip.norm(ip.force(b))
        if self.leaf is not None and depth > 0 and self.leaf(a, b):
            return
        if depth > 12:
            raise Unsupported('comparison depth')
        if a is b:
            return self.check(label, True)
        if is_const(a) and is_const(b):
            return self.check(label, type(a) is type(b) and (a == b or a != a), ('%r / %r', a, b))
        if a.__class__ is str and isinstance(b, SStr) and b.pieces is not None:
            b = self.pinned(b)
        if b.__class__ is str and isinstance(a, SStr) and a.pieces is not None:
            a = self.pinned(a)
        if isinstance(a, str) and isinstance(b, str):
            return self.check(label, a == b, ('%r / %r', a, b))
        if isinstance(a, SStr) and isinstance(b, SStr) and a.pieces is not None and b.pieces is not None:
            if len(a.pieces) == len(b.pieces) and all(x[0] == y[0] for x, y in zip(a.pieces, b.pieces)):
                for x, y in zip(a.pieces, b.pieces):
                    if x[0] == 'l':
                        self.check(label, x[1] == y[1], ('%r / %r', x, y))
                    elif x[0] == 'o':
                        self.same(label, x[2], y[2], depth + 1)
                    else:
                        self.check(label, x[1] == y[1])
                return
            self.texts(a, b)
            claim = ip.val(a) == ip.val(b)
            if self.skeleton(a) == self.skeleton(b) and not ip.ctx.entails(claim):
                raise Unsupported('texts formatted differently')
            return self.check(label, claim, ('%r / %r', a, b))
        scalar = lambda v: isinstance(v, (Sym, SInt, SBool, SStr)) or is_const(v)
        if scalar(a) and scalar(b):
            if isinstance(a, (bytes,)) or isinstance(b, bytes):
                raise Unsupported('bytes')
            return self.check(label, ip.val(a) == ip.val(b), ('%r / %r', a, b))
        if isinstance(a, (LObj, tuple)) and isinstance(b, (LObj, tuple)):
            return self.same_seq(label, a, b, depth)
        if isinstance(a, (DObj, dict)) and isinstance(b, (DObj, dict)):
            return self.same_dict(label, a, b, depth)
        if isinstance(a, Inst) and isinstance(b, Inst):
            if a.cls is not b.cls:
                return self.check(label, False, ('%s / %s', a.cls, b.cls))
            if a.origin is not None and b.origin is not None:
                return self.same_origin(label, a.origin, b.origin, depth)
            return self.check(label, False, ('%r / %r', a, b))
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return self.same_origin(label, a.origin, b.origin, depth)
        if isinstance(a, Obj) and a.ref is not None and isinstance(b, Sym):
            return self.check(label, VRef(a.ref) == b.t)
        if isinstance(b, Obj) and b.ref is not None and isinstance(a, Sym):
            return self.check(label, VRef(b.ref) == a.t)
        if isinstance(a, UserFn) and isinstance(b, UserFn):
            return self.check(label, a.name == b.name)
        if isinstance(a, Sym) and isinstance(b, (UserFn,)) or isinstance(b, Sym) and isinstance(a, (UserFn,)):
            return self.check(label, ip.val(a) == ip.val(b))
        hostish = lambda v: not isinstance(v, (Obj, Sym, Closure, Bound, tuple))
        if hostish(a) and isinstance(b, Sym) or hostish(b) and isinstance(a, Sym):
            return self.check(label, ip.val(a) == ip.val(b))
        return self.check(label, False, ('%r / %r', a, b))

    def same_origin(self, label, a, b, depth):
        if a[0] != b[0] or a[1] != b[1] or len(a) != len(b):
            return self.check(label, False, ('%r / %r', a, b))
        if a[0] == 'child' and len(a) > 2:
            self.check(label, a[2] == b[2], 'child field')
            for x, y in zip(a[3], b[3]):
                self.same(label, x, y, depth + 1)
        elif a[0] == 'user':
            self.same(label, a[2], b[2], depth + 1)

    def kind(self, v):
        return v.kind if isinstance(v, (LObj, DObj)) else type(v)

    def same_seq(self, label, a, b, depth):
        ip, ctx = self.ip, self.ip.ctx
        if self.kind(a) is not self.kind(b):
            return self.check(label, False, ('%s / %s', self.kind(a), self.kind(b)))
        sa = a.segs if isinstance(a, LObj) else [ItemsSeg(list(a))]
        sb = b.segs if isinstance(b, LObj) else [ItemsSeg(list(b))]
        fa = [s for s in sa if isinstance(s, TraceSeg) and not s.always]
        fb = [s for s in sb if isinstance(s, TraceSeg) and not s.always]
        if (fa or fb) and len(sa) == 1 and len(sb) == 1:
            # selections from the same number of candidates: compare candidate by candidate
            from .loops import seg_parts
            na, ata = seg_parts(ip, sa[0])
            nb, atb = seg_parts(ip, sb[0])
            self.check(label + ' length', z3.simplify(na == nb))
            t = ctx.fresh('t', I)
            ctx.require(z3.And(t >= 0, t < na, t < nb))
            ctx.add_index(t)
            def get(at):
                try:
                    return (at(t),)
                except Skip:
                    return None
            x, y = get(ata), get(atb)
            if x is None or y is None:
                return self.check(label, x is None and y is None, 'selection')
            return self.same(label, x[0], y[0], depth + 1)
        la = ip.length(a) if not isinstance(a, tuple) else len(a)
        lb = ip.length(b) if not isinstance(b, tuple) else len(b)
        if isinstance(la, int) and isinstance(lb, int):
            self.check(label + ' length', la == lb, ('%s / %s', la, lb))
            if la != lb:
                return
            for i in range(la):
                self.same(label, ip.getitem(a, i), ip.getitem(b, i), depth + 1)
            return
        ta, tb = models.intterm(la), models.intterm(lb)
        self.check(label + ' length', ta == tb, ('%s / %s', la, lb))
        t = ctx.fresh('t', I)
        ctx.require(z3.And(t >= 0, t < ta, t < tb))
        ctx.add_index(t)
        self.same(label, models.seq_at(ip, sa, t), models.seq_at(ip, sb, t), depth + 1)

    def same_dict(self, label, a, b, depth):
        ip, ctx = self.ip, self.ip.ctx
        if self.kind(a) is not self.kind(b):
            return self.check(label, False, ('%s / %s', self.kind(a), self.kind(b)))
        plain = lambda d: isinstance(d, dict) or (d.base is None and
            all(e[0] in ('set', 'del') and is_const(e[1]) for e in d.log))
        if plain(a) and plain(b):
            ka, kb = dict(models.pairs(ip, a)) if isinstance(a, DObj) else a, \
                dict(models.pairs(ip, b)) if isinstance(b, DObj) else b
            self.check(label + ' keys', set(ka) == set(kb), ('%s / %s', list(ka), list(kb)))
            for k in ka:
                if k in kb:
                    self.same('%s[%s]' % (label, k), ka[k], kb[k], depth + 1)
            return
        key = ctx.fresh('key', Val)
        ctx.assume(z3.Implies(is_ref(key), HASHABLE(rv(key))))
        K = Sym(key)
        ra = models.dict_lookup(ip, a, K)
        rb = models.dict_lookup(ip, b, K)
        if ra is None and rb is None:
            return self.check(label, True)
        if ra is None or rb is None:
            return self.check(label + ' keys', False, 'key on one side only (%s)' %
                              ('specification' if ra is None else 'code'))
        self.same(label, ra[0], rb[0], depth + 1)

    def same_events(self, label, a, b):
        if len(a) != len(b):
            # a loop that did not run has no calls
            ran = lambda e: e[0] != 'loop' or not self.ip.ctx.entails(e[1].ndone <= 0)
            a, b = [e for e in a if ran(e)], [e for e in b if ran(e)]
        if len(a) != len(b):
            if any(e[0] == 'loop' for e in list(a) + list(b)):
                return self.same_calls(label, a, b)
            return self.check(label, False, '%d calls / %d calls: %r / %r' % (len(a), len(b), a, b))
        i = self.ip.ctx.choose(len(a)) if len(a) > 1 else 0
        for x, y in zip(a[i:i + 1], b[i:i + 1]):
            self.same_event(label, x, y)

    def same_calls(self, label, a, b):
        """the same calls, told by loops that divide them differently: one call each time round"""
        ctx = self.ip.ctx
        loops = [e for e in list(a) + list(b) if e[0] == 'loop']
        i = ctx.choose(len(loops) + 1)
        if i < len(loops):
            e = loops[i]
            t = ctx.fresh('t', I)
            ctx.require(z3.And(t >= 0, t < e[1].ndone))
            ctx.add_index(t)
            inner = e[1].resolve(ctx, t)[1].get(e[2], [])
            if len(inner) != 1 or inner[0][0] == 'loop':
                raise Unsupported('calls divided differently over loops')
            return
        total = lambda es: z3.Sum([e[1].ndone if e[0] == 'loop' else z3.IntVal(1) for e in es] + [z3.IntVal(0)])
        self.check(label + ' count', total(a) == total(b))
        t = ctx.fresh('t', I)
        ctx.require(z3.And(t >= 0, t < total(a), t < total(b)))
        ctx.add_index(t)
        def nth(es):
            at = t
            for e in es:
                n = e[1].ndone if e[0] == 'loop' else z3.IntVal(1)
                if self.ip.branch(at < n):
                    if e[0] != 'loop':
                        return e
                    ctx.add_index(z3.simplify(at))
                    inner = e[1].resolve(ctx, z3.simplify(at))[1].get(e[2], [])
                    if len(inner) != 1:
                        raise Unsupported('calls divided differently over loops')
                    return inner[0]
                at = at - n
            raise Infeasible()
        x, y = nth(a), nth(b)
        if x[0] != y[0]:
            return self.check(label, False, ('%r / %r', x, y))
        return self.same_origin(label, x, y, 0)

    def same_event(self, label, x, y):
        ip, ctx = self.ip, self.ip.ctx
        if x[0] == 'loop' and y[0] == 'loop':
            self.check(label + ' count', x[1].ndone == y[1].ndone)
            t = ctx.fresh('t', I)
            ctx.require(z3.And(t >= 0, t < x[1].ndone, t < y[1].ndone))
            ctx.add_index(t)
            _, ea = x[1].resolve(ctx, t)
            _, eb = y[1].resolve(ctx, t)
            return self.same_events(label, ea.get(x[2], []), eb.get(y[2], []))
        if x[0] != y[0] or x[0] == 'loop':
            return self.check(label, False, ('%r / %r', x, y))
        return self.same_origin(label, x, y, 0)

def one_path(ctx, world, run, observer, rep):
    """run(ip, obs): executes one path and states its obligations"""
    ip = Interp(ctx, world)
    ip.violations = []
    obs = observer(ip, rep)
    try:
        run(ip, obs)
    except Unsupported:
        # facts assumed on the way may have made the path impossible
        if ctx.check() == z3.unsat:
            raise Infeasible()
        raise
    finally:
        rep.functions |= ip.functions

def verify(name, world, run, deadline=120.0, timeout=4000, observer=Obs):
    rep = Report(name)
    t0 = time.time()
    shared = Shared('proof', deadline=t0 + deadline, timeout=timeout)
    world.assumptions = set()
    def leaf(ctx, r):
        rep.paths += 1
    try:
        explore(shared, lambda ctx: one_path(ctx, world, run, observer, rep), leaf)
    except Unsupported as e:
        rep.unsupported = str(e)
    except Budget:
        rep.unsupported = 'time budget'
    except z3.Z3Exception as e:
        rep.unsupported = 'z3: %s' % e
    except RecursionError:
        rep.unsupported = 'recursion'
    rep.time = time.time() - t0
    rep.solver_time = shared.solver_time
    rep.queries = shared.queries
    rep.assumptions = set(world.assumptions)
    return rep
