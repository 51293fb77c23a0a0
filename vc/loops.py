"""Loops over sequences of unknown length.

A loop body is explored at a symbolic index k under the assumption that earlier iterations ended
normally; what an iteration writes is summarised per path, as a function of k.  The state after
(or at the start of iteration k* of) the loop is then described by these summaries: iteration j
took exactly one of the normal paths, for every j below the number of completed iterations.  A
body that reads what earlier iterations wrote is only accepted if the read can be shown not to
depend on them, or if the variable advances by a constant."""
import z3
from .smt import *
from .core import *
from .interp import Frame, is_const

class PoisonSeg(object):
    """stands for what earlier iterations appended"""
    always = False
    @property
    def n(self):
        raise Unsupported('a list is read in the loop that builds it')
    trace = n
    items = n

class BuiltSeg(object):
    """what earlier iterations appended, one element each: only their number is known"""
    always = True
    def __init__(self, n):
        self.n = n
    @property
    def trace(self):
        raise Unsupported('a list is read in the loop that builds it')
    items = trace
    at = trace

class LTrace(Trace):
    pass

def seg_parts(ip, seg):
    if isinstance(seg, SymSeg):
        return seg.n, seg.at
    tr = seg.trace
    def at(i):
        path, eff = tr.resolve(ip.ctx, i)
        vals = eff.get(seg.slot, [])
        if not vals:
            raise Skip()
        return vals[0]
    return tr.ndone, at

def summarise(events):
    eff = {}
    for slot, target, data in events:
        if slot[0] in ('local', 'attr'):
            eff[slot] = data
        elif slot[0] in ('append', 'dict', 'set', 'events'):
            eff.setdefault(slot, []).append(data)
        else:
            raise Unsupported('loop body writes %s' % (slot[0],))
    return eff

def trace_loop(ip, seg, body, frame, loaded=()):
    ctx = ip.ctx
    n, at = seg_parts(ip, seg)
    n = z3.simplify(n)
    if z3.is_int_value(n) and n.as_long() <= 12:
        for i in range(n.as_long()):
            try:
                x = at(z3.IntVal(i))
            except Skip:
                continue
            body(x)
        return
    f = frame
    while f is not None:
        for name in list(f.locals):
            if isinstance(f.locals[name], Lazy) and (not loaded or name in loaded):
                try:
                    ip.set_local(f, name, ip.force(f.locals[name]), record=False)
                except Unsupported:
                    if not (ctx.nested and ctx.insub):
                        raise
                    # unless it is read before it is written
        f = f.parent
    if ctx.insub and ctx.insub >= 2:
        raise Unsupported('deeply nested loops')
    ctx.fact(n >= 0)
    ctx.namecount += 1
    k = z3.Const('k!%d' % ctx.namecount, I)
    mark = ctx.counter
    targets = {}
    carried = {}       # slot -> mode
    previous = None
    plan = {}
    for attempt in range(6):
        reads = set()
        cvals = {}
        def once():
            nev, nviol = len(ip.events), len(ip.violations)
            ctx.idxstack.append(k)
            rec = Recorder(mark, None)
            ctx.recorders.append(rec)
            hstack = list(ip.handling)
            frames = ip.frames
            try:
                ctx.fact(z3.And(k >= 0, k < n))
                if ctx.nested:
                    ctx.add_index(k)
                install(ip, plan, targets, k, reads, cvals, n)
                try:
                    x = at(k)
                    if isinstance(x, Sym):
                        x = ip.norm(x)
                    body(x)
                    control = 'next'
                except Skip:
                    control = 'next'
                except BreakLoop:
                    control = 'break'
                except ReturnValue:
                    control = 'return'
                except PyExc:
                    control = 'raise'
                for slot, target, data in rec.events:
                    targets[slot] = target
                eff = summarise(rec.events)
                new = ip.events[nev:]
                if new:
                    eff[('events',)] = list(new)
                try:
                    # what the iteration built is undone when its exploration ends
                    memo = {}
                    eff = {s: subst_any(ctx, e, k, k, mark, memo) for s, e in eff.items()}
                except Unsupported:
                    pass        # and again when an iteration is looked up
                return control, eff
            finally:
                ctx.idxstack.pop()
                ctx.recorders.pop()
                ip.handling[:] = hstack
                ip.frames = frames
                del ip.events[nev:]
        ctx.domuses, olduses = [], ctx.domuses
        res = ctx.sub_explore(once)
        uses, ctx.domuses = ctx.domuses, olduses
        nexts = [(eff, conds) for ((control, eff), conds) in res if control == 'next']
        exits = [(eff, conds) for ((control, eff), conds) in res if control != 'next']
        state = replan(ip, plan, targets, nexts, reads, cvals, k)
        if state == 'done':
            break
    else:
        raise Unsupported('loop state does not stabilise')

    tr = Trace(ctx, k, n)
    tr.mark = mark
    tr.folds = {s: m[1] for s, m in plan.items() if m[0] == 'fold'}
    for u in uses:
        if not any(u[0] is x[0] and (u[1] == x[1] if u[0] else u[1].eq(x[1])) and u[2].eq(x[2]) for x in tr.uses):
            tr.uses.append(u)
    for eff, conds in nexts:
        p = TPath(conds, 'next', eff)
        p.cform = z3.simplify(z3.And(conds.decisions)) if conds.decisions else z3.BoolVal(True)
        tr.paths.append(p)
    saved = [(s, targets[s]) for s in targets]
    if exits and ctx.choose(2) == 1:
        kx = ctx.fresh('kx', I)
        ctx.require(z3.And(kx >= 0, kx < n) if nexts else z3.And(kx == 0, kx < n))
        tr.ndone = kx
        finish(ip, tr, targets)
        ctx.add_index(kx)
        try:
            x = at(kx)
        except Skip:
            raise Infeasible()
        body(ip.norm(x) if isinstance(x, Sym) else x)
        raise Infeasible()
    if not nexts:
        ctx.require(n <= 0)
        return
    tr.ndone = n
    finish(ip, tr, targets)

def install(ip, plan, targets, k, reads, cvals, n):
    """the state at the start of iteration k, as far as the loop itself changes it"""
    ctx = ip.ctx
    for slot, mode in plan.items():
        t = targets[slot]
        if slot[0] in ('local', 'attr'):
            store = t.locals if slot[0] == 'local' else t.attrs
            name = slot[2]
            old = store.get(name, UNBOUND)
            def force(slot=slot, mode=mode, old=old):
                reads.add(slot)
                if mode[0] == 'induction':
                    init, step = mode[1], mode[2]
                    from .models import mkint
                    return mkint(z3.IntVal(init) + step * k if isinstance(init, int) else init.t + step * k)
                if mode[0] == 'flag':
                    c = ctx.fresh('carry', Val)
                    ctx.assume(z3.Or([c == ip.val(v) for v in mode[1]]))
                    return ip.norm(Sym(c))
                if mode[0] == 'int':
                    c = ctx.fresh('carry', I)
                    cvals[slot] = c
                    return SInt(c)
                if mode[0] == 'fold':
                    return ip.norm(Sym(mode[1].at(ctx, k)))
                raise Unsupported('loop reads %s of an earlier iteration' % slot[2])
            had = name in store
            store[name] = Lazy(force)
            def undo(store=store, name=name, had=had, old=old):
                if had:
                    store[name] = old
                else:
                    store.pop(name, None)
            ctx.log(undo)
        elif slot[0] == 'append':
            old = t.segs
            t.segs = old + [BuiltSeg(k) if mode[1] else PoisonSeg()]
            ctx.log(lambda t=t, old=old: setattr(t, 'segs', old))
        elif slot[0] in ('dict', 'set'):
            keys = mode[1]
            def guard(ip, key, keys=keys):
                from .models import keyeq
                for kt, conds in keys:
                    j = z3.Const('j!guard', I)
                    s = ctx.solver
                    f = keyeq(ip, key, kt)
                    kk = ip.val(key)
                    s.push()
                    s.add(j >= 0, j < k)
                    for c in conds.decisions + conds.facts:
                        s.add(z3.substitute(c, (k, j)))
                    s.add(z3.substitute(ip.val(kt), (k, j)) == kk)
                    r = ctx.check()
                    if r != z3.unsat:
                        for lo, hi, fn in list(ctx.univs):
                            for x in (j, k):
                                g = fn(x)
                                if g is not None:
                                    s.add(z3.Implies(z3.And(lo <= x, x < hi), g))
                        r = ctx.check()
                    s.pop()
                    if r != z3.unsat:
                        raise Unsupported('loop reads a container it changes')
            key = ('guard', id(t))
            ctx.memo[key] = (len(t.log), guard)
            ctx.log(lambda key=key: ctx.memo.pop(key, None))

def initial_fold(ip, init):
    """the invariant (see nested.py) that holds of a variable before the loop, if there is one"""
    for f in ip.ctx.folds:
        if isinstance(init, (Sym, SStr, SInt, SBool)) and ip.ctx.entails(ip.val(init) == f.at(ip.ctx, z3.IntVal(0))):
            return f
    return None

def advances(ip, f, v, conds, k):
    """whether an iteration maintains the invariant"""
    ctx, s = ip.ctx, ip.ctx.solver
    v = ip.norm(ip.force(v))
    if not isinstance(v, (Sym, SStr, SInt, SBool)) and not is_const(v):
        return False
    s.push()
    try:
        for c in conds.decisions + conds.facts:
            s.add(c)
        return ctx.check(ip.val(v) != f.at(ctx, k + 1)) == z3.unsat
    finally:
        s.pop()

def slot_values(nexts, slot):
    return [eff[slot] for eff, conds in nexts if slot in eff]

def entry_key(e):
    if e[0] in ('set', 'del', 'add', 'discard'):
        return e[1]
    raise Unsupported('loop body does %s to a container' % e[0])

def replan(ip, plan, targets, nexts, reads, cvals, k):
    """-> 'done' when the last exploration already used the right plan"""
    changed = False
    slots = set(s for eff, conds in nexts for s in eff if s[0] != 'events')
    for slot in slots:
        t = targets[slot]
        if slot[0] in ('local', 'attr'):
            store = t.locals if slot[0] == 'local' else t.attrs
            init = store.get(slot[2], UNBOUND)
            vals = slot_values(nexts, slot)
            old = plan.get(slot)
            if old is None:
                consts = [init] + vals
                if all(is_const(v) for v in consts):
                    if all(isinstance(v, int) and not isinstance(v, bool) for v in consts):
                        plan[slot] = ('int',)
                    else:
                        plan[slot] = ('flag', consts)
                elif isinstance(init, (int, SInt)) and not isinstance(init, bool) and \
                        all(isinstance(v, (int, SInt)) for v in vals):
                    plan[slot] = ('int',)
                else:
                    f = initial_fold(ip, init)
                    plan[slot] = ('unknown',) if f is None else ('fold', f)
                changed = True
            elif old[0] == 'fold':
                if not all(slot in eff and advances(ip, old[1], eff[slot], conds, k) for eff, conds in nexts):
                    plan[slot] = ('unknown',)
                    changed = True
            elif slot in reads and old[0] == 'int':
                c = cvals.get(slot)
                steps = set()
                for eff, conds in nexts:
                    v = eff.get(slot)
                    if v is None:
                        steps.add(0)
                    elif isinstance(v, SInt):
                        d = z3.simplify(v.t - c)
                        steps.add(d.as_long() if z3.is_int_value(d) else None)
                    else:
                        steps.add(None)
                if len(steps) == 1 and None not in steps:
                    plan[slot] = ('induction', init, steps.pop())
                else:
                    plan[slot] = ('unknown',)
                changed = True
            elif slot in reads and old[0] == 'flag':
                consts = list(old[1])
                for v in vals:
                    if not is_const(v):
                        plan[slot] = ('unknown',)
                        changed = True
                        break
                    if v not in consts:
                        consts.append(v)
                        plan[slot] = ('flag', consts)
                        changed = True
        elif slot[0] == 'append':
            always = all(len(eff.get(slot, ())) == 1 for eff, conds in nexts)
            if slot not in plan or plan[slot][1] and not always:
                plan[slot] = ('append', always)
                changed = True
        elif slot[0] in ('dict', 'set'):
            keys = []
            for eff, conds in nexts:
                for e in eff.get(slot, ()):
                    keys.append((entry_key(e), conds))
            names = sorted(set(str(ip.val(kt)) for kt, c in keys))
            old = plan.get(slot)
            if old is None or old[2] != names:
                if old is not None and old[3] > 3:
                    raise Unsupported('container keys of a loop do not stabilise')
                changed = True
            plan[slot] = ('keys', keys, names, (old[3] + 1) if old else 0)
    return 'again' if changed else 'done'

def finish(ip, tr, targets):
    """the state after tr.ndone iterations"""
    ctx = ip.ctx
    if tr.paths:
        ctx.add_univ(z3.IntVal(0), tr.ndone, tr.body)
        for other, slot, kt in tr.uses:
            def known(j, other=other, slot=slot, kt=kt):
                text = str(j)
                if 'DOM!' in text or 'KIDX' in text:
                    return None
                if other is None:
                    u, key = z3.substitute(slot, (tr.k, j)), z3.substitute(kt, (tr.k, j))
                    i = KIDX(u, key)
                    ctx.add_index(i)
                    return z3.Implies(HAS(u, key), z3.And(KEYAT(u, i) == key, i >= 0, i < LEN(u)))
                return domain_fact(ctx, other, slot, z3.substitute(kt, (tr.k, j)))
            ctx.add_univ(z3.IntVal(0), tr.ndone, known)
    else:
        ctx.require(tr.ndone <= 0)
        return
    slots = []
    for p in tr.paths:
        for s in p.effects:
            if s not in slots:
                slots.append(s)
    for slot in slots:
        if slot == ('events',):
            ip.events.append(('loop', tr, slot))
            continue
        t = targets[slot]
        if slot in tr.folds:
            v = tr.folds[slot].at(ctx, tr.ndone)
            if slot[0] == 'local':
                ip.set_local(t, slot[2], ip.norm(Sym(v)))
            else:
                ip.inst_set(t, slot[2], ip.norm(Sym(v)))
        elif slot[0] == 'local':
            old = t.locals.get(slot[2], UNBOUND)
            ip.set_local(t, slot[2], Lazy(lambda slot=slot, old=old: last_write(ip, tr, slot, old)))
        elif slot[0] == 'attr':
            old = t.attrs.get(slot[2], UNBOUND)
            ip.inst_set(t, slot[2], Lazy(lambda slot=slot, old=old: last_write(ip, tr, slot, old)))
        elif slot[0] == 'append':
            counts = [len(p.effects.get(slot, ())) for p in tr.paths]
            if max(counts) > 1:
                raise Unsupported('several appends per iteration')
            oldsegs = t.segs
            seg = TraceSeg(tr, slot, min(counts) == 1)
            t.segs = oldsegs + [numbered(ip, seg) if ctx.nested and not seg.always and not ctx.insub else seg]
            ctx.log(lambda t=t, oldsegs=oldsegs: setattr(t, 'segs', oldsegs))
            if ctx.recorders:
                ip.record(t, ('assign', id(t)), None)
        else:
            for p in tr.paths:
                if len(p.effects.get(slot, ())) > 1:
                    raise Unsupported('several writes to a container per iteration')
            entry = ('trace', tr, slot)
            if not ctx.insub and all(e[0] == 'set' for p in tr.paths for e in p.effects.get(slot, ())) and \
                    injective_base(ip, tr, writers(tr, slot), slot) is None:
                # the set of keys written
                for p in writers(tr, slot):
                    p.keyfacts = [f for f in p.conds.facts if 'KIDX' in str(f)]
                    for i, e in enumerate(p.effects[slot]):
                        tr.keys[slot, p, i] = ip.val(entry_key(e))
                tr.dom[slot] = name = 'DOM!%d!%d' % (tr.id, t.serial)
                ctx.add_univ(z3.IntVal(0), tr.ndone, lambda j, slot=slot, name=name: z3.And(
                    [z3.Implies(tr.cond(p, j), app(name, [z3.substitute(ip.val(entry_key(e)), (tr.k, j))], B))
                     for p in writers(tr, slot) for e in p.effects[slot]]))
            if slot[0] == 'dict':
                ip.dict_log(t, entry)
            else:
                ip.set_log(t, entry)

def numbered(ip, seg):
    """a filtered sequence as one whose elements are numbered: the j-th is the one of iteration PICK(j)"""
    ctx, tr = ip.ctx, seg.trace
    wrote = [p for p in tr.paths if p.effects.get(seg.slot)]
    kept = lambda i: z3.Or([tr.cond(p, i) for p in wrote])
    found = None
    for n, other, what in ctx.picks:
        if not z3.simplify(n).eq(z3.simplify(tr.ndone)):
            continue
        i = ctx.fresh('i', I)
        with ctx.aside():
            ctx.add_index(i)
            if ctx.entails(z3.Implies(z3.And(i >= 0, i < n), other(i) == kept(i))):
                found = what
        if found is not None:
            break
    if found is None:
        ctx.namecount += 1
        x = ctx.namecount
        m = z3.Const('COUNT!%d' % x, I)
        pick, rank = (lambda j: app('PICK!%d' % x, [j], I)), (lambda i: app('RANK!%d' % x, [i], I))
        found = (m, pick, rank)
        n = tr.ndone
        ctx.fact(z3.And(m >= 0, m <= n))
        ctx.add_univ(z3.IntVal(0), n, lambda i: z3.Implies(kept(i), z3.And(rank(i) >= 0, rank(i) < m, pick(rank(i)) == i)))
        ctx.picks.append((n, kept, found))
        ctx.log(lambda: ctx.picks.pop())
    m, pick, rank = found
    def at(j):
        i = pick(j)
        ctx.fact(z3.Implies(z3.And(j >= 0, j < m), z3.And(i >= 0, i < tr.ndone, rank(i) == j, kept(i))))
        path, eff = tr.resolve(ctx, i, only=wrote)
        return eff[seg.slot][0]
    s = SymSeg(m, at, None)
    s.pick = found
    return s

def last_write(ip, tr, slot, old):
    ctx = ip.ctx
    key = ('last', tr.id, slot)
    if key in ctx.memo:
        return ctx.memo[key]
    wp = [p for p in tr.paths if slot in p.effects]
    if len(wp) == len(tr.paths):
        if ctx.branch(z3.simplify(tr.ndone > 0)):
            path, eff = tr.resolve(ctx, z3.simplify(tr.ndone - 1))
            v = eff[slot]
        else:
            v = old
    elif ctx.choose(2) == 0:
        m = ctx.fresh('last', I)
        ctx.require(z3.And(m >= 0, m < tr.ndone))
        path, eff = tr.resolve(ctx, m, only=wp)
        ctx.add_univ(m + 1, tr.ndone, lambda j: z3.Not(z3.Or([tr.cond(p, j) for p in wp])))
        v = eff[slot]
    else:
        ctx.add_univ(z3.IntVal(0), tr.ndone, lambda j: z3.Not(z3.Or([tr.cond(p, j) for p in wp])))
        ctx.add_index(z3.IntVal(0))
        if not ctx.feasible():
            raise Infeasible()
        v = old
    v = ip.force(v)
    ctx.memo[key] = v
    ctx.log(lambda: ctx.memo.pop(key, None))
    return v

def writers(tr, slot):
    return [p for p in tr.paths if p.effects.get(slot)]

def in_domain(ip, tr, slot, key):
    """formula: some iteration wrote the key; with the index of one that did"""
    ctx = ip.ctx
    return domain(ctx, tr, slot, ip.val(key))

def domain(ctx, tr, slot, kt):
    f = app(tr.dom[slot], [kt], B)
    if ctx.insub:
        ctx.domuses.append((tr, slot, kt))
    ctx.fact(domain_fact(ctx, tr, slot, kt))
    return f

def domain_fact(ctx, tr, slot, kt):
    f = app(tr.dom[slot], [kt], B)
    w = app(tr.dom[slot] + 'w', [kt], I)
    ctx.add_index(w)
    return z3.Implies(f, z3.And(w >= 0, w < tr.ndone, z3.Or(
        [z3.And([tr.cond(p, w), z3.substitute(tr.keys[slot, p, i], (tr.k, w)) == kt] +
                [z3.substitute(f, (tr.k, w)) for f in p.keyfacts])
         for p in writers(tr, slot) for i in range(len(p.effects[slot]))])))

def unknown_value():
    raise Unsupported('value of a loop result looked up inside a loop')

def injective_base(ip, tr, wp, slot):
    """the symbolic dict whose k-th key every path writes, if that is so"""
    base = None
    for p in wp:
        for e in p.effects[slot]:
            t = z3.simplify(ip.val(entry_key(e)))
            if not (z3.is_app(t) and t.decl().name() == 'KEYAT' and t.arg(1).eq(tr.k)):
                return None
            if base is not None and not base.eq(t.arg(0)):
                return None
            base = t.arg(0)
    return base

def trace_lookup(ip, entry, key):
    """the last write of a loop to a key: an effect entry, or None"""
    from .models import keyeq, has_key
    ctx = ip.ctx
    tr, slot = entry[1], entry[2]
    wp = [p for p in tr.paths if p.effects.get(slot)]
    if not wp:
        return None
    base = injective_base(ip, tr, wp, slot)
    if base is not None:
        kt = ip.val(key)
        if not has_key(ip, base, kt):
            return None
        m = z3.simplify(KIDX(base, kt))
        if not ip.branch(z3.simplify(m < tr.ndone)):
            return None
        path, eff = tr.resolve(ctx, m)
        if path not in wp:
            return None
        return eff[slot][0]
    if slot in tr.dom:
        f = in_domain(ip, tr, slot, key)
        if ctx.insub:
            if not ctx.branch(f):
                return None
            return ('set', key, Lazy(unknown_value))
    elif ctx.insub:
        raise Unsupported('lookup of a loop result inside a loop')
    def nowrite(j):
        fs = []
        for p in wp:
            for e in p.effects[slot]:
                kj = z3.substitute(ip.val(entry_key(e)), (tr.k, j))
                fs.append(z3.Implies(tr.cond(p, j), kj != ip.val(key)))
        return z3.And(fs)
    if ctx.choose(2) == 0:
        m = ctx.fresh('w', I)
        ctx.require(z3.And(m >= 0, m < tr.ndone))
        path, eff = tr.resolve(ctx, m, only=wp)
        e = eff[slot][0]
        f = keyeq(ip, e[1], key)
        if f is False:
            raise Infeasible()
        if f is not True:
            ctx.require(f)
        ctx.add_univ(m + 1, tr.ndone, nowrite)
        looked(ip, tr, ip.val(key), m)
        return e
    ctx.add_univ(z3.IntVal(0), tr.ndone, nowrite)
    looked(ip, tr, ip.val(key), None)
    if not ctx.feasible():
        raise Infeasible()
    return None

def looked(ip, tr, kt, m):
    """one loop wrote a key, another did not: what the other did in that iteration"""
    ctx = ip.ctx
    if not ctx.nested or ctx.insub:
        return
    for other, key, w in list(ctx.lookups):
        if other is tr or not key.eq(kt) or (w is None) == (m is None):
            continue
        at, quiet = (w, tr) if m is None else (m, other)
        if ctx.branch(z3.And(at >= 0, at < quiet.ndone)):
            quiet.resolve(ctx, at)
    ctx.lookups.append((tr, kt, m))
    ctx.log(lambda: ctx.lookups.pop())

def trace_items(ip, entry):
    tr, slot = entry[1], entry[2]
    wp = [p for p in tr.paths if p.effects.get(slot)]
    if wp and injective_base(ip, tr, wp, slot) is None:
        raise Unsupported('iteration over a dict whose keys may repeat')
    def at(i):
        path, eff = tr.resolve(ip.ctx, i)
        if path not in wp:
            raise Skip()
        e = eff[slot][0]
        if e[0] != 'set':
            raise Skip()
        return e[1], e[2]
    return at

def exists(ip, seg, pred):
    def body(x):
        if pred(x):
            raise BreakLoop()
    try:
        trace_loop(ip, seg, body, Frame(ip.ctx, {}))
        return False
    except BreakLoop:
        return True
