"""Goals for the utilities on nested values."""
import z3
from .goals import *
from .goals import GOALS, OBSERVERS, EXPECT
from scheme import util
from contracts import nested as ND

class Fold(object):
    """what a loop over the keys of a path has reached after j of them: fold(0) is the subject, fold(j + 1) the value of
    fold(j) under the j-th key"""
    def __init__(self, ip, name, init, step):
        self.name, self.init, self.step = name, init, step
    def at(self, ctx, j):
        j = z3.simplify(j)
        t = app(self.name, [j], Val)
        ctx.fact(app(self.name, [z3.IntVal(0)], Val) == self.init)
        n = z3.simplify(j + 1)
        ctx.fact(app(self.name, [n], Val) == self.step(t, j))
        return t

@models.model(prim.write)
def m_write(ip, args, kw):
    ip.setitem(args[0], args[1], args[2])

@models.model(prim.child_merge)
def m_child_merge(ip, args, kw):
    return merged(ip, args, kw)

def merged(ip, args, kw):
    """recursive_merge by its contract: merges the second into the first and returns the first"""
    a, b = [ip.norm(ip.force(x)) for x in args]
    ip.events.append(('merge', 'merge', a, b))
    return a

class NestedObs(PObs):
    def tag(self, k):
        if k not in self.report.covered and self.ip.ctx.check() == z3.sat:
            self.report.covered.add(k)
    def same_origin(self, label, a, b, depth):
        if a[0] in ('write', 'merge') and a[0] == b[0]:
            for x, y in zip(a[2:], b[2:]):
                self.same(label, x, y, depth + 1)
            return
        return PObs.same_origin(self, label, a, b, depth)
    def outcome(self, real, spec, expect):
        ip = self.ip
        if spec.kind == 'raise':
            raise Unsupported('the contract raised %r' % (spec.value,))
        s = spec.value
        self.tag(s[0])
        if s[0] in ('type', 'missing'):
            cls = TypeError if s[0] == 'type' else KeyError
            return self.check('outcome', real.kind == 'raise' and real.value.cls is cls, '%r, contract says %s' % (real, s[0]))
        if real.kind != 'return':
            return self.check('outcome', False, '%r, contract says %s' % (real, s[0]))
        if expect is not None:
            expect(real.value, s[1])

def goal_path(which):
    def run(ip, obs):
        subject, path = Sym(z3.Const('subject', Val)), SStr(z3.Const('path', I))
        new = Sym(z3.Const('new', Val))
        keys = models.str_method(ip, path, 'split', ['.'], {})
        r = keys.segs[0].origin
        ip.ctx.folds = [Fold(ip, 'REACHED', subject.t, lambda t, j: GET(rv(t), VStr(app('SPLITAT', [r, j], I))))]
        ip.ctx.writable = True
        ip.frame_mark = ip.ctx.counter
        ip.events, ip.violations = [], []
        if which == 'traverse':
            call = lambda: ip.call(util.traverse_to_key, [subject, path], {})
            spec_ = lambda: ip.call(ND.traverse, [subject, keys], {})
        else:
            call = lambda: ip.call(util.set_nested_value, [subject, path, new], {})
            spec_ = lambda: ip.call(ND.assign, [subject, keys, new], {})
        real = attempt(ip, call)
        obs.frame('frame')
        ip.frame_mark = None
        events, ip.events = ip.events, []
        ip.ctx.written = False
        spec = attempt(ip, spec_)
        obs.same_events('writes', events, ip.events)
        obs.outcome(real, spec, lambda a, b: obs.same('result', a, b) if which == 'traverse' else None)
    return run

def goal_merge(ip, obs):
    u, w = z3.Const('original', I), z3.Const('addition', I)
    for x in (u, w):
        ip.ctx.assume(z3.And(CLS(x) == ip.world.exact[dict], LEN(x) >= 0))
    a, b = DObj(ip.ctx, dict, u), DObj(ip.ctx, dict, u)
    addition = Sym(VRef(w))
    ip.ctx.hasuses = True
    ip.ctx.writable = True
    ip.events, ip.violations = [], []
    entered = []
    def override(ip, args, kw):
        if not entered:
            entered.append(1)
            del ip.overrides[util.recursive_merge]
            try:
                from .interp import def_of
                ip.functions.add(('scheme/util.py', 'recursive_merge'))
                node = def_of(util.recursive_merge)
                ip.overrides[util.recursive_merge] = merged
                return ip.run(node, None, util.recursive_merge.__globals__, args, kw, node.args, util.recursive_merge)
            finally:
                pass
        return merged(ip, args, kw)
    ip.overrides = {util.recursive_merge: override}
    real = attempt(ip, lambda: ip.call(util.recursive_merge, [a, addition], {}))
    obs.frame('frame')
    events, ip.events = ip.events, []
    ip.ctx.written = False
    spec = attempt(ip, lambda: ip.call(ND.merge, [b, addition], {}))
    if ip.ctx.choose(2) == 1:
        return obs.same_events('merges', events, ip.events)
    def result(x, y):
        obs.check('identity', ip.norm(ip.force(x)) is a, 'the result is not the first argument')
        obs.same('merged', a, b)
    obs.outcome(real, spec, result)

for t in ('traverse', 'assign'):
    GOALS['nested.' + t] = goal_path(t)
    EXPECT['nested.' + t] = {'ok', 'type', 'missing'}
    OBSERVERS['nested.' + t] = NestedObs
GOALS['nested.merge'] = goal_merge
EXPECT['nested.merge'] = {'ok'}
OBSERVERS['nested.merge'] = NestedObs
