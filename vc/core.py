"""Path exploration, engine values and loop traces of the deductive verifier."""
import time
import contextlib
import z3
from .smt import *

class Unsupported(Exception):
    """The code uses something outside the verifier's subset: nothing is proved."""

class Infeasible(Exception):
    """The current path cannot happen."""

class Skip(Exception):
    """An element of a filtered sequence that is not there."""

class PyExc(Exception):
    """A Python exception raised by the interpreted code."""
    def __init__(self, inst):
        self.inst = inst

class BreakLoop(Exception):
    pass
class ContinueLoop(Exception):
    pass
class ReturnValue(Exception):
    def __init__(self, value):
        self.value = value

class Budget(Exception):
    pass

class NoMerge(Exception):
    """The two sides of a condition cannot be described by one state: explore them separately."""

UNBOUND = type('Unbound', (), {'__repr__': lambda s: 'UNBOUND'})()

# ---------------------------------------------------------------- values
class Sym(object):
    """A Python value known only as a term of sort Val."""
    __slots__ = ('t',)
    def __init__(self, t):
        self.t = t
    def __repr__(self):
        return 'Sym(%s)' % self.t

class SInt(object):
    __slots__ = ('t',)
    def __init__(self, t):
        self.t = t
    def __repr__(self):
        return 'SInt(%s)' % self.t

class SBool(object):
    __slots__ = ('t',)
    def __init__(self, t):
        self.t = t
    def __repr__(self):
        return 'SBool(%s)' % self.t

class SStr(object):
    """A string; pieces is a canonical concatenation or None (atomic)."""
    __slots__ = ('t', 'pieces')
    def __init__(self, t, pieces=None):
        self.t = t
        self.pieces = pieces
    def __repr__(self):
        return 'SStr(%s)' % (self.pieces or self.t)

class Obj(object):
    def __init__(self, ctx):
        self.serial = ctx.tick()
        self.ref = None

class ItemsSeg(object):
    def __init__(self, items):
        self.items = items
    def __repr__(self):
        return repr(self.items)

class SymSeg(object):
    """n elements, the i-th being at(i) (an engine value)."""
    def __init__(self, n, at, origin=None):
        self.n, self.at, self.origin = n, at, origin
    def __repr__(self):
        return 'SymSeg(%s,%s)' % (self.n, self.origin)

class TraceSeg(object):
    def __init__(self, trace, slot, always):
        self.trace, self.slot, self.always = trace, slot, always
    def __repr__(self):
        return 'TraceSeg(%s)' % ('map' if self.always else 'filter')

class LObj(Obj):
    """list / tuple with possibly symbolic segments."""
    def __init__(self, ctx, kind, segs):
        Obj.__init__(self, ctx)
        self.kind = kind
        self.segs = segs
    def __repr__(self):
        return '%s%s' % (self.kind.__name__, self.segs)

class DObj(Obj):
    """dict: base (None or the ref term of a symbolic dict) plus a log of writes."""
    def __init__(self, ctx, kind=dict, base=None):
        Obj.__init__(self, ctx)
        self.kind = kind
        self.base = base
        self.writable = False       # given to code that may write to it
        self.log = []
    def __repr__(self):
        return '%s(base=%s, %s)' % (self.kind.__name__, self.base, self.log)

class SObj(Obj):
    """set: base None, ('dict', u) keys of a symbolic dict, ('seq', seq) elements of a sequence."""
    def __init__(self, ctx, base=None):
        Obj.__init__(self, ctx)
        self.base = base
        self.log = []

class Inst(Obj):
    def __init__(self, ctx, cls, attrs=None):
        Obj.__init__(self, ctx)
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.origin = None
    def __repr__(self):
        return '<%s %s%s>' % (self.cls.__name__, self.attrs, ' origin' if self.origin else '')

class Closure(object):
    def __init__(self, node, env, name='<lambda>', cls=None):
        self.node, self.env, self.name, self.cls = node, env, name, cls

class Bound(object):
    """Bound method: func is a host function or Closure."""
    def __init__(self, func, self_, owner=None):
        self.func, self.self_, self.owner = func, self_, owner

class SymMethod(object):
    """Method of a value whose class is not statically known."""
    def __init__(self, recv, name):
        self.recv, self.name = recv, name

class FileObj(object):
    """an open file"""
    def __init__(self, path, mode):
        self.path, self.mode = path, mode
    def read(self):
        pass
    def write(self, text):
        pass
    def close(self):
        pass

class UserFn(object):
    """A user supplied callable, known only by name (an uninterpreted pure function)."""
    def __init__(self, name):
        self.name = name
    def __repr__(self):
        return 'UserFn(%s)' % self.name

class SuperObj(object):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_

class Lazy(object):
    """A local or attribute after (or before) a loop whose value is decided on demand."""
    def __init__(self, force):
        self.force = force

# ---------------------------------------------------------------- context
class Shared(object):
    """State shared by all the paths of one exploration."""
    def __init__(self, mode='proof', bound=2, deadline=None, timeout=4000):
        self.mode, self.bound, self.deadline, self.timeout = mode, bound, deadline, timeout
        self.cache = {}
        self.solver_time = 0.0
        self.queries = 0
        self.paths = 0
        self.unknowns = 0

_TRUE = z3.BoolVal(True)

class Ctx(object):
    def __init__(self, shared, prefix):
        self.shared = shared
        self.mode = shared.mode
        self.solver = z3.SolverFor('ALL') if False else z3.Solver()
        self.solver.set('timeout', shared.timeout)
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.alts = []
        self.asserted = []
        self.have = {_TRUE.get_id(): _TRUE}
        self.kinds = []            # of the assertions: decision, fact, derived
        self.known = {}
        self.counter = 0
        self.namecount = 0
        self.idxstack = []
        self.trail = []
        self.pool = []
        self.univs = []
        self.recorders = []
        self.chain = ()
        self.subcount = 0
        self.depth = 0
        self.calls = []
        self.insub = 0
        self.obligations = []
        self.attrver = {}
        self.domuses = []
        self.keyhook = None        # told of the keys found in symbolic dicts
        self.naming = False         # a field given a name is an event
        self.formats = False        # objects may be formats
        self.copying = False        # deep copies go into containers
        self.folds = []             # loop invariants the goal offers
        self.writable = self.written = False    # dicts of unknown content may be written to, have been
        self.hasuses = False       # keep track of the keys looked up in loops
        self.nested = False         # loops within loops may leave lists and dicts behind
        self.lookups = []           # which loops wrote which keys
        self.picks = []             # filtered sequences that were numbered
        self.memo = {}
        self.instantiating = 0
        self.spec = 0              # depth of speculative execution (no branching allowed)
        self.specmark = None
        self.capture = None
        self.steps = 0
        self.forker = None         # explores the alternatives of decisions, see fork.py

    # -- bookkeeping
    def tick(self):
        self.counter += 1
        return self.counter

    def fresh(self, base, sort):
        self.namecount += 1
        name = '%s!%d' % (base, self.namecount)
        if self.idxstack:
            return app(name + '/' + str(len(self.idxstack)), list(self.idxstack), sort)
        return z3.Const(name, sort)

    def undo_mark(self):
        return len(self.trail)

    def log(self, undo):
        self.trail.append(undo)

    def undo_to(self, mark):
        while len(self.trail) > mark:
            self.trail.pop()()

    def step(self):
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported('step budget')
        if self.steps % 64 == 0 and self.shared.deadline and time.time() > self.shared.deadline:
            raise Budget()

    # -- solving
    def check(self, *extra):
        t0 = time.time()
        if self.shared.deadline and t0 > self.shared.deadline:
            raise Budget()
        self.shared.queries += 1
        r = self.solver.check(*extra)
        self.shared.solver_time += time.time() - t0
        if r == z3.unknown:
            self.shared.unknowns += 1
        return r

    def assume(self, f, kind='decision'):
        f = z3.simplify(f) if not z3.is_bool(f) else f
        i = f.get_id()
        if f is _TRUE or i in self.have:
            return
        self.have[i] = f            # keeps the formula, so that the number stays its own
        self.log(lambda: self.have.pop(i, None))
        self.asserted.append(f)
        self.kinds.append(kind)
        self.solver.add(f)

    def fact(self, f):
        """something true of the values themselves, whatever the path"""
        self.assume(f, 'fact')

    def require(self, f):
        """assume and make sure that the path stays feasible"""
        self.assume(f)
        if self.pos >= len(self.prefix) and self.check() == z3.unsat:
            raise Infeasible()

    def _lookup(self, cond):
        e = self.known.get(cond.get_id())
        if e is not None and e[0].eq(cond):
            return e[1]
        return None

    def _know(self, cond, value):
        i = cond.get_id()
        old = self.known.get(i)
        self.known[i] = (cond, value)
        def undo():
            if old is None:
                self.known.pop(i, None)
            else:
                self.known[i] = old
        self.log(undo)

    def branch(self, cond):
        if cond is True or cond is False:
            return cond
        self.step()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = self._lookup(cond)
        if k is not None:
            return k
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        elif self.check(cond) == z3.unsat:
            d = 'F'
        elif self.check(z3.Not(cond)) == z3.unsat:
            d = 'T'
        else:
            if self.spec:
                raise NoMerge()
            d = 1
            if self.forker is not None and not self.insub:
                d = self.forker.split(self, 1, [0])
            else:
                self.alts.append(self.decisions + [0])
        return self.settle(cond, d)

    def settle(self, cond, d):
        """T and F: the path leaves no choice"""
        self.pos += 1
        self.decisions.append(d)
        v = d == 'T' or d == 1
        self.assume(cond if v else z3.Not(cond), 'decision' if d in (0, 1) else 'derived')
        self._know(cond, v)
        return v

    def choose(self, n):
        """nondeterministic choice among n alternatives (all of them explored)"""
        if self.spec:
            raise NoMerge()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = 0
            if self.forker is not None and not self.insub:
                d = self.forker.split(self, 0, range(1, n))
            else:
                for alt in range(1, n):
                    self.alts.append(self.decisions + [alt])
        self.pos += 1
        self.decisions.append(d)
        return d

    # -- merging the two sides of a condition
    def decide(self, cond):
        """True or False when the path settles the condition, otherwise None"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = self._lookup(cond)
        if k is not None:
            return k
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        elif self.check(cond) == z3.unsat:
            d = 'F'
        elif self.check(z3.Not(cond)) == z3.unsat:
            d = 'T'
        else:
            d = '?'
        if d == '?':
            self.pos += 1
            self.decisions.append(d)
            return None
        return self.settle(cond, d)

    def attempt_merge(self, fn):
        """fn() under the record of whether it succeeds; None when it does not"""
        self.step()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            if d == 'x':
                return None
            return (fn(),)
        dmark, pmark, amark = len(self.decisions), self.pos, len(self.alts)
        self.decisions.append('m')
        self.pos += 1
        try:
            return (fn(),)
        except NoMerge:
            del self.decisions[dmark:]
            self.pos = pmark
            self.decisions.append('x')
            self.pos += 1
            return None

    def speculate(self, f, fn, events):
        """(result, writes) of running fn under the assumption f, without keeping its effects;
        raises NoMerge when that takes more than one path"""
        mark, amark = self.undo_mark(), len(self.asserted)
        saved = (self.recorders, self.capture, self.specmark)
        self.recorders, self.capture, self.specmark = [], [], self.counter
        nev = len(events)
        self.spec += 1
        self.solver.push()
        ok = False
        try:
            self.assume(f)
            self._know(z3.simplify(f), True)
            bmark = len(self.asserted)
            try:
                r = fn()
            except (PyExc, ReturnValue, BreakLoop, ContinueLoop, Infeasible, Skip, Unsupported):
                raise NoMerge()
            if len(events) != nev:
                raise NoMerge()
            writes = []
            for store, name, kind, target in self.capture:
                if not any(w[0] is store and w[1] == name for w in writes):
                    writes.append((store, name, kind, target, store.get(name, UNBOUND)))
            ok = True
        finally:
            del events[nev:]
            self.solver.pop()
            facts = list(zip(self.asserted[bmark:], self.kinds[bmark:])) if ok else []
            del self.asserted[amark:]
            del self.kinds[amark:]
            self.undo_to(mark)
            self.recorders, self.capture, self.specmark = saved
            self.spec -= 1
        for fact, kind in facts:
            self.assume(z3.Implies(f, fact), kind)
        return r, writes

    def nospec(self, target=None):
        if self.spec and (target is None or target.serial <= self.specmark):
            raise NoMerge()

    def feasible(self):
        return self.check() != z3.unsat

    def entails(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return not self.feasible()
        return self.check(z3.Not(f)) == z3.unsat

    def value(self, t):
        """the number t must be, if there is but one"""
        t = z3.simplify(t)
        if not z3.is_int_value(t):
            if self.check() != z3.sat:
                return None
            m = self.solver.model().eval(t, model_completion=True)
            if not z3.is_int_value(m) or self.check(t != m) != z3.unsat:
                return None
            t = m
        return t.as_long()

    # -- universally quantified facts, instantiated at the index terms in use
    def add_index(self, t):
        t = z3.simplify(t)
        if self.nested and str(t).count('PICK!') > 1:
            return
        for p in self.pool:
            if p.eq(t):
                return
        self.pool.append(t)
        self.log(lambda: self.pool.pop())
        for u in list(self.univs):
            self._instantiate(u, t)

    @contextlib.contextmanager
    def aside(self):
        """what is assumed and used meanwhile is forgotten"""
        mark, amark = self.undo_mark(), len(self.asserted)
        self.solver.push()
        try:
            yield
        finally:
            self.solver.pop()
            del self.asserted[amark:]
            del self.kinds[amark:]
            self.undo_to(mark)

    def add_univ(self, lo, hi, fn):
        if self.insub and self.nested:
            return              # less is known of loops within loops
        if self.insub:
            raise Unsupported('quantified fact inside a loop body')
        u = (lo, hi, fn)
        self.univs.append(u)
        self.log(lambda: self.univs.pop())
        for t in list(self.pool):
            self._instantiate(u, t)

    def _instantiate(self, u, t):
        lo, hi, fn = u
        f = fn(t)
        if f is not None:
            self.assume(z3.Implies(z3.And(lo <= t, t < hi), f), 'derived')

    # -- nested exploration of a piece of code (all its paths, without effects)
    def sub_explore(self, fn):
        self.nospec()
        key = (self.chain, tuple(self.decisions), self.subcount)
        self.subcount += 1
        saved = (self.prefix, self.pos, self.decisions, self.alts, self.chain, self.subcount)
        cached = self.shared.cache.get(key)
        results, vectors = [], []
        stack = list(reversed(cached)) if cached is not None else [[]]
        nc, cc = self.namecount, self.counter
        maxnc, maxcc = nc, cc
        self.insub += 1
        try:
            while stack:
                vec = stack.pop()
                mark, amark, pmark = self.undo_mark(), len(self.asserted), len(self.pool)
                self.solver.push()
                self.prefix, self.pos, self.decisions, self.alts = vec, 0, [], []
                self.chain, self.subcount = key, 0
                self.namecount, self.counter = nc, cc
                try:
                    try:
                        r = fn()
                    except Infeasible:
                        r = None
                    if r is not None:
                        new = list(zip(self.asserted[amark:], self.kinds[amark:]))
                        results.append((r, Conds([f for f, k in new if k == 'decision'],
                            [f for f, k in new if k == 'fact'], self.pool[pmark:])))
                        vectors.append(list(self.decisions))
                finally:
                    maxnc, maxcc = max(maxnc, self.namecount), max(maxcc, self.counter)
                    self.solver.pop()
                    del self.asserted[amark:]
                    del self.kinds[amark:]
                    self.undo_to(mark)
                if cached is None:
                    stack.extend(self.alts)
                if len(results) > 400:
                    raise Unsupported('too many paths in a loop body')
        finally:
            self.insub -= 1
            (self.prefix, self.pos, self.decisions, self.alts, self.chain, self.subcount) = saved
            self.namecount, self.counter = maxnc, maxcc
        self.shared.cache[key] = vectors
        return results

def explore(shared, run, on_leaf):
    """Runs run(ctx) over every feasible path."""
    stack = [[]]
    while stack:
        prefix = stack.pop()
        ctx = Ctx(shared, prefix)
        shared.paths += 1
        try:
            r = run(ctx)
            on_leaf(ctx, r)
        except Infeasible:
            pass
        stack.extend(ctx.alts)

# ---------------------------------------------------------------- loop traces
class Recorder(object):
    """Records the effects of one loop iteration on the state that existed before the loop."""
    def __init__(self, mark, env):
        self.mark = mark
        self.env = env
        self.events = []

class Conds(object):
    """what sets a path of a loop body apart, what is known on it, and its index terms"""
    def __init__(self, decisions, facts, pool):
        self.decisions, self.facts, self.pool = decisions, facts, pool

class TPath(object):
    def __init__(self, conds, control, effects):
        self.conds, self.control, self.effects = conds, control, effects

class Trace(object):
    """The iterations of a loop: at every index below ndone exactly one of the paths was taken."""
    def __init__(self, ctx, k, n):
        self.k = k
        self.n = n
        self.ndone = None
        self.paths = []
        self.mark = ctx.counter
        self.id = ctx.tick()
        self.dom = {}
        self.keys = {}
        self.uses = []

    def cond(self, p, t):
        """formula: iteration t takes path p"""
        return z3.substitute(p.cform, (self.k, t))

    def body(self, t):
        return z3.Or([self.cond(p, t) for p in self.paths]) if self.paths else z3.BoolVal(False)

    def resolve(self, ctx, t, only=None):
        """the path taken at index t (0 <= t < ndone must hold), as (path, effects instantiated at t)"""
        t = z3.simplify(t)
        key = ('resolve', self.id, t.get_id())
        e = ctx.memo.get(key)
        if e is not None and e[0].eq(t):
            if only is not None and e[1][0] not in only:
                raise Infeasible()
            return e[1]
        ctx.add_index(t)
        cands = [p for p in self.paths if only is None or p in only]
        if not cands:
            raise Infeasible()
        chosen = None
        for p in cands[:-1]:
            if ctx.branch(self.cond(p, t)):
                chosen = p
                break
        if chosen is None:
            chosen = cands[-1]
            ctx.require(self.cond(chosen, t))
        for f in chosen.conds.facts:
            ctx.fact(z3.substitute(f, (self.k, t)))
        for i in chosen.conds.pool:
            ctx.add_index(z3.substitute(i, (self.k, t)))
        memo = {}
        effects = {slot: subst_any(ctx, eff, self.k, t, self.mark, memo)
                   for slot, eff in chosen.effects.items()}
        ctx.memo[key] = (t, (chosen, effects))
        ctx.log(lambda: ctx.memo.pop(key, None))
        return chosen, effects

def subst_any(ctx, v, k, t, mark, memo):
    """v with the loop index k replaced by t; objects allocated by the iteration are copied."""
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return v
    if isinstance(v, Sym):
        return Sym(z3.substitute(v.t, (k, t)))
    if isinstance(v, SInt):
        return SInt(z3.substitute(v.t, (k, t)))
    if isinstance(v, SBool):
        return SBool(z3.substitute(v.t, (k, t)))
    if isinstance(v, SStr):
        ps = None
        if v.pieces is not None:
            ps = [(p[0],) + tuple(z3.substitute(x, (k, t)) if z3.is_expr(x) else x for x in p[1:])
                  for p in v.pieces]
        return SStr(z3.substitute(v.t, (k, t)) if v.t is not None else None, ps)
    if z3.is_expr(v):
        return z3.substitute(v, (k, t))
    if isinstance(v, (tuple, list)):
        return type(v)(subst_any(ctx, x, k, t, mark, memo) for x in v)
    if isinstance(v, dict):
        return {a: subst_any(ctx, x, k, t, mark, memo) for a, x in v.items()}
    if isinstance(v, Obj):
        if v.serial <= mark:
            return v
        if id(v) in memo:
            return memo[id(v)]
        c = object.__new__(type(v))
        memo[id(v)] = c
        c.__dict__.update(v.__dict__)
        c.serial = ctx.tick()
        if v.ref is not None:
            c.ref = z3.substitute(v.ref, (k, t))
        if isinstance(v, Inst):
            c.attrs = subst_any(ctx, v.attrs, k, t, mark, memo)
            c.origin = subst_any(ctx, v.origin, k, t, mark, memo)
        elif isinstance(v, LObj):
            c.segs = [subst_seg(ctx, s, k, t, mark, memo) for s in v.segs]
        elif isinstance(v, DObj):
            c.base = subst_any(ctx, v.base, k, t, mark, memo)
            c.log = [subst_any(ctx, e, k, t, mark, memo) if e[0] != 'trace' else
                     ('trace', subst_trace(ctx, e[1], k, t, mark, memo), e[2]) for e in v.log]
        elif isinstance(v, SObj):
            c.base = subst_any(ctx, v.base, k, t, mark, memo)
            c.log = [subst_any(ctx, e, k, t, mark, memo) if e[0] != 'trace' else _nope() for e in v.log]
        return c
    if isinstance(v, Closure) and ctx.nested and self_contained(v):
        return v
    if isinstance(v, Lazy) and ctx.nested:
        return Lazy(_nope)      # what a loop within the loop left in a variable
    if isinstance(v, (Lazy, Closure, SymMethod)):
        raise Unsupported('loop effect holds a %s' % type(v).__name__)
    if isinstance(v, Bound):
        return Bound(v.func, subst_any(ctx, v.self_, k, t, mark, memo), v.owner)
    return v        # host objects: classes, functions, ...

def _nope():
    raise Unsupported('nested trace in a loop effect')

def subst_seg(ctx, s, k, t, mark, memo):
    if isinstance(s, ItemsSeg):
        return ItemsSeg([subst_any(ctx, x, k, t, mark, memo) for x in s.items])
    if isinstance(s, SymSeg):
        if s.origin is None:
            raise Unsupported('symbolic segment without origin in a loop effect')
        from .interp import symseg
        return symseg(z3.substitute(s.origin, (k, t)))
    if isinstance(s, TraceSeg):
        return TraceSeg(subst_trace(ctx, s.trace, k, t, mark, memo), s.slot, s.always)
    _nope()

def self_contained(f):
    """whether a function depends on its arguments, builtins and what is global alone"""
    import ast
    a = f.node.args
    own = set(x.arg for x in a.args)
    if a.vararg or a.kwarg or a.defaults or a.kwonlyargs or not isinstance(f.node, ast.Lambda):
        return False
    for n in ast.walk(f.node.body):
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return False
        if isinstance(n, ast.Name) and n.id not in own:
            e = f.env
            while e is not None:
                if n.id in e.locals:
                    return False
                e = e.parent
    return True

def subst_trace(ctx, tr, k, t, mark, memo):
    """a loop that an iteration of another ran through: as it was in iteration t"""
    if not ctx.nested:
        _nope()
    if ('trace', tr.id) in memo:
        return memo['trace', tr.id]
    c = object.__new__(type(tr))
    memo['trace', tr.id] = c
    c.__dict__.update(tr.__dict__)
    if tr.folds or tr.dom:
        _nope()
    c.id = ctx.tick()
    c.n, c.ndone = z3.substitute(tr.n, (k, t)), z3.substitute(tr.ndone, (k, t))
    c.paths = []
    for p in tr.paths:
        q = TPath(Conds([z3.substitute(f, (k, t)) for f in p.conds.decisions], [z3.substitute(f, (k, t)) for f in p.conds.facts],
            [z3.substitute(f, (k, t)) for f in p.conds.pool]), p.control,
            {s: subst_any(ctx, e, k, t, mark, memo) for s, e in p.effects.items() if s != ('events',)})
        q.cform = z3.substitute(p.cform, (k, t))
        c.paths.append(q)
    if not ctx.insub and not (z3.is_expr(t) and t.eq(k)):
        ctx.add_univ(z3.IntVal(0), c.ndone, c.body)
    return c
