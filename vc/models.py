"""Models of the builtins and library functions that the code under contract calls."""
import ast
import base64
import copy
import datetime
import decimal
import inspect
import os
import re
import string
import sys
import time
import traceback
import types
from collections import OrderedDict
import z3
from .smt import *
from .core import *
from .interp import (Iter, View, Slice, BuiltinMethod, Frame, is_const, symseg, interpretable, UserErr)

def trivially(f):
    if isinstance(f, bool):
        return f
    return None

# ---------------------------------------------------------------- strings
def merge_pieces(ps):
    out = []
    for p in ps:
        if p[0] == 'l':
            if not p[1]:
                continue
            if out and out[-1][0] == 'l':
                out[-1] = ('l', out[-1][1] + p[1])
                continue
        out.append(p)
    return out

def mkstr(ip, pieces):
    ps = merge_pieces(pieces)
    if not ps:
        return ''
    if len(ps) == 1 and ps[0][0] == 'l':
        return ps[0][1]
    if len(ps) == 1 and ps[0][0] == 't':
        return ip.norm(Sym(VStr(ps[0][1])))
    return SStr(None, ps)

def fmt_piece(ip, conv, x):
    """pieces of  '%<conv>' % x"""
    x = ip.norm(ip.force(x))
    if conv in ('d', 'i', 'f'):
        if is_const(x):
            if isinstance(x, (int, float)):
                try:
                    return [('l', ('%' + conv) % x)]
                except (OverflowError, ValueError) as e:
                    ip.raise_(type(e))
            ip.raise_(TypeError, '%d format')
        if isinstance(x, (SInt, SBool)):
            return [('s' if conv != 'f' and isinstance(x, SInt) else conv, ip.val(x))]
        if isinstance(x, Sym):
            if ip.branch(z3.Or(is_int(x.t), is_bool(x.t))):
                return [(conv, x.t)]
            if ip.branch(is_flt(x.t)):
                if conv == 'd' and ip.branch(z3.Not(app('FFINITE', [fv(x.t)], B))):
                    ip.raise_(OverflowError)
                return [(conv, x.t)]
            if ip.branch(ip.world.has_class(x.t, decimal.Decimal)):
                return [(conv, x.t)]
            ip.raise_(TypeError, '%d format')
        ip.raise_(TypeError, '%d format')
    if is_const(x):
        return [('l', ('%' + conv) % (x,))]
    if conv == 's' and isinstance(x, SStr):
        return list(x.pieces) if x.pieces is not None else [('t', x.t)]
    if ip.texts is not None and conv == 's' and isinstance(x, Sym) and ip.ctx.entails(is_str(x.t)):
        return [('t', z3.simplify(sv(x.t)))]
    if isinstance(x, SInt) and conv == 'r':
        conv = 's'
    if isinstance(x, (Sym, SInt, SBool, SStr)):
        return [(conv, ip.val(x))]
    return [('o', conv, x)]

def str_format(ip, template, args, kw):
    """template.format(...) whose fields are names or positions, without format specifications"""
    out, auto = [], 0
    for text, field, spec, conv in string.Formatter().parse(template):
        out.append(('l', text))
        if field is None:
            continue
        if spec or conv not in (None, 's', 'r'):
            raise Unsupported('string method format')
        if field == '':
            field, auto = str(auto), auto + 1
        if field.isdigit():
            if int(field) >= len(args):
                ip.raise_(IndexError, 'format')
            x = args[int(field)]
        elif field.isidentifier():
            if field not in kw:
                ip.raise_(KeyError, field)
            x = kw[field]
        else:
            raise Unsupported('string method format')
        x = ip.norm(ip.force(x))
        if conv is None and not (is_const(x) or isinstance(x, (SInt, SBool, SStr))):
            raise Unsupported('string method format')
        out.extend(fmt_piece(ip, conv or 's', x))
    return mkstr(ip, out)

def percent(ip, template, args):
    args = ip.norm(ip.force(args))
    pos, out, used = 0, [], 0
    mapping = isinstance(args, (DObj, dict))
    if isinstance(args, Sym):
        # a tuple supplies several arguments, anything else one
        if ip.branch(ip.world.has_class(args.t, tuple)):
            n = len(re.findall(r'%[^%(]', template))
            if n != 1:
                raise Unsupported('tuple of unknown length in a format')
            u = rv(args.t)
            if not ip.ctx.branch(LEN(u) == 1):
                ip.raise_(TypeError, 'not all arguments converted')
            args = (Sym(AT(u, z3.IntVal(0))),)
        else:
            args = (args,)
    elif isinstance(args, LObj) and args.kind is tuple:
        args = tuple(ip.concrete_items(args))
    elif not isinstance(args, tuple):
        if not mapping or '%(' not in template:
            args = (args,)
            mapping = False
    for m in re.finditer(r'%(\((\w+)\))?([-+0 #]*\d*(?:\.\d+)?)([a-zA-Z%])', template):
        out.append(('l', template[pos:m.start()]))
        pos = m.end()
        if m.group(4) == '%':
            out.append(('l', '%'))
            continue
        if m.group(1):
            x = getitem(ip, args, m.group(2)) if mapping else ip.raise_(TypeError, 'format requires a mapping')
        else:
            if mapping:
                raise Unsupported('format')
            if used >= len(args):
                ip.raise_(TypeError, 'not enough arguments for format string')
            x = args[used]
            used += 1
        conv = m.group(4)
        if m.group(3):
            x = ip.norm(ip.force(x))
            if is_const(x):
                out.append(('l', ('%' + m.group(3) + conv) % x))
            elif isinstance(x, (SInt,)) or isinstance(x, Sym):
                fmt_piece(ip, conv, x)
                out.append((m.group(3) + conv, ip.val(x)))
            else:
                raise Unsupported('format')
        else:
            out.extend(fmt_piece(ip, conv, x))
    if not mapping and used < len(args):
        ip.raise_(TypeError, 'not all arguments converted during string formatting')
    out.append(('l', template[pos:]))
    return mkstr(ip, out)

def pieces_of(ip, s):
    if isinstance(s, str):
        return [('l', s)]
    if s.pieces is not None:
        return list(s.pieces)
    return [('t', s.t)]

def isstr(v):
    return isinstance(v, (str, SStr))

# ---------------------------------------------------------------- hashing
def need_hashable(ip, k):
    f = unhashable(ip, k)
    if ip.branch(f):
        ip.raise_(TypeError, 'unhashable type')

def unhashable(ip, k):
    k = ip.norm(ip.force(k))
    if isinstance(k, (LObj,)):
        if k.kind is list:
            return True
        if all(isinstance(s, ItemsSeg) for s in k.segs):
            fs = [unhashable(ip, x) for s in k.segs for x in s.items]
            return z3.simplify(z3.Or([z3.BoolVal(f) if isinstance(f, bool) else f for f in fs])) \
                if fs else False
        raise Unsupported('hash of a symbolic tuple')
    if isinstance(k, (DObj, SObj)):
        return True
    if isinstance(k, tuple):
        fs = [unhashable(ip, x) for x in k]
        return z3.simplify(z3.Or([z3.BoolVal(f) if isinstance(f, bool) else f for f in fs])) \
            if fs else False
    if isinstance(k, Sym):
        f, facts = hash_facts(ip.world, k.t)
        for x in facts:
            ip.ctx.fact(x)
        return f
    return False

@kept
def hash_facts(w, t):
    u = rv(t)
    return z3.simplify(z3.And(is_ref(t), z3.Not(HASHABLE(u)))), [
        z3.simplify(z3.Implies(z3.And(is_ref(t), z3.Or(w.in_class(u, list), w.in_class(u, dict),
            w.in_class(u, set))), z3.Not(HASHABLE(u)))),
        z3.simplify(z3.Implies(z3.And(is_ref(t), z3.Or([w.in_class(u, c) for c in
            (bytes, datetime.date, datetime.time, decimal.Decimal, w.Field, w.Undefined,
             frozenset, types.FunctionType, type)])), HASHABLE(u)))]

def keyeq(ip, a, b):
    """equality of dict keys: bool or formula"""
    a, b = ip.norm(ip.force(a)), ip.norm(ip.force(b))
    if is_const(a) and is_const(b):
        return a == b
    if isinstance(a, tuple) or isinstance(b, tuple):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            fs = [keyeq(ip, x, y) for x, y in zip(a, b)]
            if any(f is False for f in fs):
                return False
            fs = [f for f in fs if f is not True]
            return z3.And(fs) if fs else True
        if isinstance(a, (Sym,)) or isinstance(b, (Sym,)):
            raise Unsupported('tuple keys')
        return False
    if isinstance(a, SStr) and isinstance(b, SStr) and a.pieces is not None and b.pieces is not None:
        if a.pieces == b.pieces:
            return True
    if a is b:
        return True
    f = z3.simplify(ip.val(a) == ip.val(b))
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return False
    return f

# ---------------------------------------------------------------- dicts
def has_key(ip, u, kt):
    """branches on the presence of a key in a symbolic dict"""
    if ip.ctx.written:
        raise Unsupported('a dict is read after one was written to')
    f = HAS(u, kt)
    if ordered(u):
        v = u.arg(0)
        ip.ctx.fact(z3.And(f == HAS(v, kt), GET(u, kt) == GET(v, kt)))
    if ip.ctx.insub and ip.ctx.hasuses:
        ip.ctx.domuses.append((None, u, kt))
    if ip.ctx.branch(f):
        i = KIDX(u, kt)
        ip.ctx.fact(z3.And(KEYAT(u, i) == kt, i >= 0, i < LEN(u)))
        ip.ctx.add_index(i)
        if ip.ctx.keyhook is not None:
            ip.ctx.keyhook(ip, u, kt)
        return True
    return False

def ordered(u):
    """another enumeration of the entries of a dict"""
    return z3.is_app(u) and u.decl().name() == 'ORDERED'

def key_at(ip, u, i):
    k = KEYAT(u, i)
    if ordered(u):
        v = u.arg(0)
        ip.ctx.fact(z3.And(HAS(u, k) == HAS(v, k), GET(u, k) == GET(v, k)))
        j = KIDX(v, k)
        ip.ctx.fact(z3.Implies(z3.And(i >= 0, i < LEN(u)), z3.And(KEYAT(v, j) == k, j >= 0, j < LEN(v))))
        ip.ctx.add_index(j)
    ip.ctx.fact(z3.And(HAS(u, k), KIDX(u, k) == i))
    ip.ctx.fact(z3.Implies(is_ref(k), HASHABLE(rv(k))))
    return k

def dict_lookup(ip, d, key):
    """(value,) or None; the key must be hashable"""
    if isinstance(d, dict):
        key = ip.norm(ip.force(key))
        if is_const(key) or isinstance(key, type):
            return (d[key],) if key in d else None
        for k in d:
            if ip.branch(keyeq(ip, k, key)):
                return (d[k],)
        return None
    if isinstance(d, Sym):
        u, kt = rv(d.t), ip.val(key)
        return (ip.norm(Sym(GET(u, kt))),) if has_key(ip, u, kt) else None
    pos = len(d.log)
    guard = ip.ctx.memo.get(('guard', id(d)))
    while pos > 0:
        pos -= 1
        if guard is not None and pos + 1 == guard[0]:
            guard[1](ip, key)
        e = d.log[pos]
        if e[0] == 'set':
            if ip.branch(keyeq(ip, e[1], key)):
                return (ip.force(e[2]),)
        elif e[0] == 'del':
            if ip.branch(keyeq(ip, e[1], key)):
                return None
        elif e[0] == 'clear':
            return None
        elif e[0] == 'update':
            u, kt = e[1], ip.val(key)
            if has_key(ip, u, kt):
                return (ip.norm(Sym(GET(u, kt))),)
        elif e[0] == 'trace':
            from .loops import trace_lookup
            r = trace_lookup(ip, e, key)
            if r is not None:
                if r[0] == 'del':
                    return None
                return (r[2],)
        else:
            raise Unsupported('dict log %s' % e[0])
    if guard is not None and guard[0] == 0:
        guard[1](ip, key)
    if d.base is not None:
        kt = ip.val(key)
        if has_key(ip, d.base, kt):
            return (ip.norm(Sym(GET(d.base, kt))),)
    return None

def isdict(ip, d):
    return isinstance(d, (DObj, dict))

def shape(what, k, v):
    return k if what == 'keys' else v if what == 'values' else (k, v)

def writes_nothing(ip, e):
    """whether no iteration of a loop wrote to the container"""
    ctx, tr, slot = ip.ctx, e[1], e[2]
    if ctx.insub:
        return False
    t = ctx.fresh('none', I)
    ctx.add_index(t)
    from .loops import writers
    return all(ctx.check(z3.And(t >= 0, t < tr.ndone, tr.cond(p, t))) == z3.unsat for p in writers(tr, slot))

def dict_iter(ip, d, what):
    if isinstance(d, dict):
        return Iter([ItemsSeg([shape(what, k, v) for k, v in d.items()])])
    if isinstance(d, Sym):
        u = rv(d.t)
        ip.ctx.fact(LEN(u) >= 0)
        def at(i):
            ip.ctx.add_index(i)
            k = key_at(ip, u, i)
            return shape(what, ip.norm(Sym(k)), ip.norm(Sym(GET(u, k))))
        s = SymSeg(LEN(u), at, None)
        s.keysof = u if what == 'keys' else None
        s.what = (what, u)
        return Iter([s])
    segs = []
    keys = []
    base = d.base
    if base is not None:
        ip.ctx.fact(LEN(base) >= 0)
        if not d.log:
            it = dict_iter(ip, Sym(VRef(base)), what)
            if d.writable and what != 'keys':
                # the entries at the time they are reached
                def current(i):
                    ip.ctx.add_index(i)
                    k = ip.norm(Sym(key_at(ip, base, i)))
                    r = dict_lookup(ip, d, k)
                    if r is None:
                        raise Skip()
                    return shape(what, k, r[0])
                it.segs[0].at = current
            return it
        def at(i):
            k = ip.norm(Sym(key_at(ip, base, i)))
            r = dict_lookup(ip, d, k)
            if r is None:
                raise Skip()
            return shape(what, k, r[0])
        segs.append(SymSeg(LEN(base), at, None))
    first = True
    for n, e in enumerate(d.log):
        if e[0] == 'set':
            k = e[1]
            if base is not None and has_key(ip, base, ip.val(k)):
                continue
            if any(ip.branch(keyeq(ip, k, k2)) for k2 in keys):
                continue
            if any(x[0] == 'trace' for x in d.log[:n]):
                raise Unsupported('iteration over a dict written in several ways')
            keys.append(k)
            r = dict_lookup(ip, d, k)
            if r is None:
                continue
            segs.append(ItemsSeg([shape(what, k, r[0])]))
        elif e[0] == 'trace' and base is None and n == 0:
            from .loops import trace_items
            at = trace_items(ip, e)
            def at2(i, at=at):
                k, v = at(i)
                r = dict_lookup(ip, d, k)
                if r is None:
                    raise Skip()
                return shape(what, k, r[0])
            segs.append(SymSeg(e[1].ndone, at2, None))
        elif e[0] == 'trace' and writes_nothing(ip, e):
            pass
        elif e[0] == 'del':
            pass
        elif e[0] == 'update' and base is None and n == 0:
            u = e[1]
            ip.ctx.fact(LEN(u) >= 0)
            def at3(i, u=u):
                k = ip.norm(Sym(key_at(ip, u, i)))
                r = dict_lookup(ip, d, k)
                if r is None:
                    raise Skip()
                return shape(what, k, r[0])
            segs.append(SymSeg(LEN(u), at3, None))
            base = u
        else:
            raise Unsupported('iteration over a dict with a %s' % e[0])
    return Iter(segs)

def dict_nonempty(ip, d):
    if not d.log:
        return d.base is not None and LEN(d.base) > 0
    if all(e[0] == 'set' for e in d.log):
        return True
    # otherwise: is there any element?
    return nonempty_iter(ip, dict_iter(ip, d, 'keys'))

def nonempty_iter(ip, it):
    """branches: is there an element that is not skipped?"""
    pend = []
    for s in it.segs:
        if isinstance(s, ItemsSeg):
            if s.items:
                return True
        else:
            pend.append(s)
    from .loops import exists
    for s in pend:
        if exists(ip, s, lambda x: True):
            return True
    return False

def dict_len(ip, d):
    if d.base is None and all(e[0] in ('set', 'del') for e in d.log):
        return len(ip.concrete_items(d))
    if not d.log:
        ip.ctx.fact(LEN(d.base) >= 0)
        return SInt(LEN(d.base))
    raise Unsupported('length of a modified symbolic dict')

# ---------------------------------------------------------------- sets
def set_member(ip, s, x):
    pos = len(s.log)
    guard = ip.ctx.memo.get(('guard', id(s)))
    while pos > 0:
        pos -= 1
        if guard is not None and pos + 1 == guard[0]:
            guard[1](ip, x)
        e = s.log[pos]
        if e[0] == 'add':
            if ip.branch(keyeq(ip, e[1], x)):
                return True
        elif e[0] == 'discard':
            if ip.branch(keyeq(ip, e[1], x)):
                return False
        elif e[0] == 'trace':
            from .loops import trace_lookup
            r = trace_lookup(ip, e, x)
            if r is not None:
                return r[0] in ('add', 'set')
        else:
            raise Unsupported('set log')
    if guard is not None and guard[0] == 0:
        guard[1](ip, x)
    if s.base is None:
        return False
    if s.base[0] == 'keys':
        d = s.base[1]
        return dict_lookup(ip, d, x) is not None
    if s.base[0] == 'seq':
        return contains(ip, s.base[1], x)
    raise Unsupported('set base')

def set_iter(ip, s):
    segs = []
    base = s.base
    if base is not None:
        it = dict_iter(ip, base[1], 'keys') if base[0] == 'keys' else ip.iterate(base[1])
        if base[0] != 'keys':
            raise Unsupported('iteration over a set of a sequence')
        for g in it.segs:
            if isinstance(g, ItemsSeg):
                for x in g.items:
                    if not s.log or set_member(ip, s, x):
                        segs.append(ItemsSeg([x]))
            else:
                def at(i, g=g):
                    x = g.at(i)
                    if s.log and not set_member(ip, s, x):
                        raise Skip()
                    return x
                segs.append(SymSeg(g.n, at, None))
    keys = []
    for n, e in enumerate(s.log):
        if e[0] == 'add':
            x = e[1]
            if base is not None and dict_lookup(ip, base[1], x) is not None:
                continue
            if any(ip.branch(keyeq(ip, x, k)) for k in keys):
                continue
            keys.append(x)
            if set_member(ip, s, x):
                segs.append(ItemsSeg([x]))
        elif e[0] == 'trace':
            # removals only concern elements already there
            if any(op[0] != 'discard' for p in e[1].paths for op in p.effects.get(e[2], ())):
                raise Unsupported('iteration over a set built by a loop')
    return Iter(segs)

def set_nonempty(ip, s):
    if s.base is None and not s.log:
        return False
    return nonempty_iter(ip, set_iter(ip, s))

def set_len(ip, s):
    if s.base is None:
        return len(set_items(ip, s))
    if s.base[0] == 'keys' and not s.log:
        return ip.length(s.base[1])
    if s.base[0] == 'seq' and not s.log:
        return SInt(setlen_term(ip, s.base[1]))
    raise Unsupported('length of a set')

def setlen_term(ip, seq):
    """number of distinct elements of a sequence, equal to its length iff there is no duplicate"""
    n = intterm(ip.length(seq))
    m = ip.ctx.fresh('distinct', I)
    ip.ctx.fact(z3.And(m >= 0, m <= n))
    decide_duplicates(ip, seq, ip.branch(m != n))
    ip.world.note('equal values have equal hashes')
    return m

def pair_equal(ip, segs, i, j):
    """formula: elements i and j of the sequence are equal"""
    ip.ctx.add_index(i)
    ip.ctx.add_index(j)
    f = or_same(ip, ip.norm(ip.force(seq_at(ip, segs, j))), ip.norm(ip.force(seq_at(ip, segs, i))))
    return z3.BoolVal(f) if isinstance(f, bool) else f

def duplicate_facts(ip):
    if ip.ctx.insub or ip.ctx.spec:
        ip.ctx.nospec()
        raise Unsupported('duplicates inside a loop')
    if not hasattr(ip.ctx, 'dups'):
        ip.ctx.dups = []
    return ip.ctx.dups

def decide_duplicates(ip, seq, dup):
    """records that the sequence has two equal elements, or none"""
    facts = duplicate_facts(ip)
    segs = list(seq.segs)
    n = intterm(ip.length(seq))
    if dup:
        i, j = ip.ctx.fresh('dup', I), ip.ctx.fresh('dup', I)
        ip.ctx.require(z3.And(0 <= i, i < j, j < n))
        ip.ctx.require(pair_equal(ip, segs, i, j))
        witness(ip, facts, i, j)
    else:
        for f in list(facts):
            if f[0] == 'prefix':
                for t in list(ip.ctx.pool):
                    if ip.ctx.entails(z3.And(0 <= t, t < f[2])):
                        x = ip.norm(ip.force(seq_at(ip, f[1], t)))
                        if ip.ctx.entails(f[3](t, x)):
                            i = ip.ctx.fresh('dup', I)
                            ip.ctx.require(z3.And(0 <= i, i < t))
                            ip.ctx.require(pair_equal(ip, f[1], i, t))
                            witness(ip, facts, i, t)
        for f in list(facts):
            if f[0] == 'yes':
                exclude(ip, segs, n, f[1], f[2])
        facts.append(('no', segs, n))

def witness(ip, facts, i, j):
    facts.append(('yes', i, j))
    for f in list(facts):
        if f[0] == 'no':
            exclude(ip, f[1], f[2], i, j)
        elif f[0] == 'prefix':
            if ip.branch(z3.And(0 <= i, i < j, j < f[2])):
                x = ip.norm(ip.force(seq_at(ip, f[1], j)))
                ip.ctx.require(z3.Implies(pair_equal(ip, f[1], i, j), f[3](j, x)))

def exclude(ip, segs, n, i, j):
    if ip.branch(z3.And(0 <= i, i < j, j < n)):
        ip.ctx.require(z3.Not(pair_equal(ip, segs, i, j)))

def prefix_contains(ip, seq, hi, x):
    """x in seq[:hi]"""
    name = 'PREFIX%d/%d' % (seq.serial, len(seq.segs))
    def f(k, y):
        return app(name, [k, ip.val(y)], B)
    f0 = f(hi, x)
    if not hasattr(ip.ctx, 'dups'):
        ip.ctx.dups = []
    facts = ip.ctx.dups
    if not any(e[0] == 'prefix' and e[4] == name for e in facts):
        facts.append(('prefix', list(seq.segs), intterm(ip.length(seq)), f, name))
    if ip.ctx.insub:
        return f0
    duplicate_facts(ip)
    if not ip.branch(f0):
        return False
    i = ip.ctx.fresh('dup', I)
    ip.ctx.require(z3.And(0 <= i, i < hi))
    e = or_same(ip, x, ip.norm(ip.force(seq_at(ip, list(seq.segs), i))))
    ip.ctx.require(z3.BoolVal(e) if isinstance(e, bool) else e)
    witness(ip, facts, i, hi)
    return True

def set_items(ip, s):
    out = []
    for g in set_iter(ip, s).segs:
        if not isinstance(g, ItemsSeg):
            raise Unsupported('symbolic set')
        out.extend(g.items)
    return out

# ---------------------------------------------------------------- subscripts
def as_index(ip, i):
    i = ip.norm(ip.force(i))
    if isinstance(i, bool):
        return int(i)
    if isinstance(i, (int, SInt)):
        return i
    if isinstance(i, Sym):
        if ip.branch(is_int(i.t)):
            return SInt(iv(i.t))
        raise Unsupported('index of unknown type')
    if is_const(i) or isinstance(i, (SStr, LObj, DObj)):
        ip.raise_(TypeError, 'indices must be integers')
    raise Unsupported('index %r' % (i,))

def getitem(ip, o, i):
    if isinstance(o, (DObj, dict)):
        i = ip.force(i)
        need_hashable(ip, i)
        r = dict_lookup(ip, o, i)
        if r is None:
            ip.raise_(KeyError, i)
        return ip.force(r[0])
    if isinstance(i, Slice):
        return getslice(ip, o, i)
    if isinstance(o, Sym):
        t, u = o.t, rv(o.t)
        w = ip.world
        if ip.branch(w.has_class(t, dict)):
            need_hashable(ip, i)
            r = dict_lookup(ip, o, i)
            if r is None:
                ip.raise_(KeyError, i)
            return r[0]
        if ip.branch(z3.Or(w.has_class(t, list), w.has_class(t, tuple))):
            return seq_index(ip, [symseg(u)], i, LEN(u))
        if ip.branch(z3.Or(is_none(t), is_bool(t), is_int(t), is_flt(t))):
            ip.raise_(TypeError, 'not subscriptable')
        if ip.branch(is_str(t)):
            return getitem(ip, SStr(sv(t)), i)
        w.note('only lists, tuples, dicts and strings can be subscripted')
        ip.raise_(TypeError, 'not subscriptable')
    if isinstance(o, (tuple, list)):
        j = as_index(ip, i)
        if isinstance(j, int):
            try:
                return o[j]
            except IndexError:
                ip.raise_(IndexError)
        return seq_index(ip, [ItemsSeg(list(o))], j, z3.IntVal(len(o)))
    if isinstance(o, LObj):
        n = ip.length(o)
        return seq_index(ip, o.segs, i, z3.IntVal(n) if isinstance(n, int) else n.t)
    if isinstance(o, (str, bytes)) and isinstance(i, int):
        try:
            return o[i]
        except IndexError:
            ip.raise_(IndexError)
    if isinstance(o, SStr) and isinstance(i, int):
        ps = pieces_of(ip, o)
        if i >= 0 and ps[0][0] == 'l' and len(ps[0][1]) > i:
            return ps[0][1][i]
        s = ip.str_term(o)
        n = SLEN(s)
        ip.ctx.fact(n >= 0)
        if ip.ctx.branch(n > i if i >= 0 else n >= -i):
            r = app('CHAR', [s, z3.IntVal(i)], I)
            if ip.texts is not None:
                ip.texts.char(s, i, r)
            ip.ctx.fact(SLEN(r) == 1)
            return SStr(r)
        ip.raise_(IndexError)
    if is_const(o) or isinstance(o, (SInt, SBool, Inst, UserFn)):
        if isinstance(o, Inst) and ip.class_lookup(o.cls, '__getitem__'):
            return ip.call(ip.getattr_(o, '__getitem__'), [i], {})
        ip.raise_(TypeError, 'not subscriptable')
    raise Unsupported('subscript of %r' % (o,))

def seq_index(ip, segs, i, n):
    j = as_index(ip, i)
    t = z3.IntVal(j) if isinstance(j, int) else j.t
    t = z3.simplify(t)
    if isinstance(j, int) and j < 0:
        t = z3.simplify(n + j)
        if not ip.branch(z3.simplify(t >= 0)):
            ip.raise_(IndexError)
    elif not isinstance(j, int):
        if ip.branch(z3.simplify(t < 0)):
            t = z3.simplify(t + n)
            if ip.branch(z3.simplify(t < 0)):
                ip.raise_(IndexError)
    if not ip.branch(z3.simplify(t < n)):
        ip.raise_(IndexError)
    return seq_at(ip, segs, t)

def seq_at(ip, segs, t):
    """element at a valid index"""
    off = z3.IntVal(0)
    for k, s in enumerate(segs):
        rel = z3.simplify(t - off)
        last = (k == len(segs) - 1)
        if isinstance(s, ItemsSeg):
            m = len(s.items)
            if z3.is_int_value(rel):
                r = rel.as_long()
                if r < m:
                    return s.items[r]
            else:
                for x in range(m):
                    if (last and x == m - 1) or ip.ctx.branch(rel == x):
                        return s.items[x]
            off = off + m
        else:
            n = s.n if isinstance(s, SymSeg) else (s.trace.ndone if s.always else None)
            if n is None:
                raise Unsupported('index into a filtered sequence')
            if last or ip.branch(z3.simplify(rel < n)):
                return seg_at(ip, s, rel)
            off = off + n
    raise Infeasible()

def seg_at(ip, s, i):
    if isinstance(s, SymSeg):
        ip.ctx.add_index(i)
        v = s.at(i)
        return ip.norm(v) if isinstance(v, Sym) else v
    path, eff = s.trace.resolve(ip.ctx, i)
    vals = eff.get(s.slot, [])
    if not vals:
        raise Skip()
    return vals[0]

def getslice(ip, o, s):
    if isinstance(o, (str, bytes, tuple, list)) and all(x is None or isinstance(x, int)
                                                   for x in (s.lo, s.hi, s.step)):
        r = o[s.lo:s.hi:s.step]
        return ip.new_list(r) if isinstance(r, list) else r
    if s.step is not None:
        raise Unsupported('slice step')
    if ip.texts is not None and isinstance(o, SStr):
        return ip.texts.slice(o, s)
    if isinstance(o, (tuple,)):
        o = ip.new_list(o, tuple)
    if isinstance(o, Sym):
        t, u = o.t, z3.simplify(rv(o.t))
        if z3.is_app(u) and u.decl().name() == 'STRPTIME' and all(
                x is None or isinstance(x, int) for x in (s.lo, s.hi)):
            return ip.new_list([Sym(AT(u, z3.IntVal(i))) for i in range(9)[s.lo:s.hi]], tuple)
        if ip.branch(ip.world.has_class(t, list)):
            o = LObj(ip.ctx, list, [symseg(u)])
        elif ip.branch(ip.world.has_class(t, tuple)):
            o = LObj(ip.ctx, tuple, [symseg(u)])
        else:
            raise Unsupported('slice of an arbitrary value')
        ip.ctx.fact(LEN(u) >= 0)
    if not isinstance(o, LObj):
        raise Unsupported('slice of %r' % (o,))
    n = ip.length(o)
    lo = 0 if s.lo is None else as_index(ip, s.lo)
    hi = n if s.hi is None else as_index(ip, s.hi)
    if all(isinstance(x, ItemsSeg) for x in o.segs) and isinstance(lo, int) and isinstance(hi, int):
        items = [x for g in o.segs for x in g.items]
        return ip.new_list(items[lo:hi], o.kind)
    nt = z3.IntVal(n) if isinstance(n, int) else n.t
    T = lambda x: z3.IntVal(x) if isinstance(x, int) else x.t
    def clamp(x):
        t = z3.simplify(T(x))
        if ip.branch(z3.simplify(t < 0)):
            t = z3.simplify(t + nt)
            if ip.branch(z3.simplify(t < 0)):
                return z3.IntVal(0)
            return t
        if ip.branch(z3.simplify(t > nt)):
            return nt
        return t
    lo, hi = clamp(lo), clamp(hi)
    segs = list(o.segs)
    if z3.is_int_value(lo) and lo.as_long() == 0 and not z3.is_int_value(hi):
        seg = SymSeg(hi, lambda i: seq_at(ip, segs, i), None)
        seg.prefix = (o, hi)
        return LObj(ip.ctx, o.kind, [seg])
    if ip.branch(z3.simplify(lo >= hi)):
        return ip.new_list([], o.kind)
    return LObj(ip.ctx, o.kind, [SymSeg(z3.simplify(hi - lo),
                lambda i: seq_at(ip, segs, z3.simplify(i + lo)), None)])

def setitem(ip, o, i, v):
    if isinstance(o, DObj):
        need_hashable(ip, i)
        ip.dict_log(o, ('set', ip.force(i), v))
        if getattr(o, 'owner', None) is not None:
            ip.inst_set(o.owner, i, v)
        return
    if isinstance(o, Sym):
        ip.violations.append((o, 'setitem'))
        if ip.branch(ip.world.has_class(o.t, dict)):
            need_hashable(ip, i)
            if ip.ctx.writable and not ip.ctx.insub:
                ip.violations.pop()
                ip.events.append(('write', 'write', o, i, v))
                ip.ctx.written = True
                return
            raise Unsupported('write to a symbolic dict')
        raise Unsupported('write to a symbolic container')
    if isinstance(o, dict):
        ip.violations.append((o, 'setitem'))
        raise Unsupported('write to a shared dict')
    if isinstance(o, LObj) and o.kind is list and all(isinstance(s, ItemsSeg) for s in o.segs):
        j = as_index(ip, i)
        items = [x for s in o.segs for x in s.items]
        if isinstance(j, int):
            try:
                items[j] = v
            except IndexError:
                ip.raise_(IndexError)
            ip.list_assign(o, [ItemsSeg(items)])
            return
    if is_const(o) or isinstance(o, tuple):
        ip.raise_(TypeError, 'item assignment')
    raise Unsupported('item assignment to %r' % (o,))

def delitem(ip, o, i):
    if isinstance(o, DObj):
        need_hashable(ip, i)
        if dict_lookup(ip, o, i) is None:
            ip.raise_(KeyError, i)
        ip.dict_log(o, ('del', i))
        return
    raise Unsupported('del of an item of %r' % (o,))

# ---------------------------------------------------------------- operators
@kept
def numeric(t):
    return z3.Or(is_int(t), is_bool(t), is_flt(t))
@kept
def num(t):
    return z3.If(is_bool(t), z3.If(bv(t), z3.RealVal(1), z3.RealVal(0)),
                 z3.If(is_int(t), z3.ToReal(iv(t)), FVAL(fv(t))))
@kept
def notnan(t):
    return z3.Or(z3.Not(is_flt(t)), z3.Not(FNAN(fv(t))))

def flt_facts(ip, v):
    if isinstance(v, float):
        t = fltlit(v)
        if v != v:
            ip.ctx.fact(FNAN(t))
        else:
            ip.ctx.fact(z3.Not(FNAN(t)))
            if v not in (float('inf'), float('-inf')):
                ip.ctx.fact(FVAL(t) == z3.RealVal(repr(v) if 'e' not in repr(v) else
                              str(decimal.Decimal(v))))
        ip.ctx.fact(app('FNONZERO', [t], B) == z3.BoolVal(v != 0))

def intterm(v):
    """z3 int of a definitely integer engine value"""
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, SBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    return None

def pyeq(ip, a, b):
    """a == b as bool or formula"""
    a, b = ip.norm(ip.force(a)), ip.norm(ip.force(b))
    if is_const(a) and is_const(b):
        return a == b
    if a is b and not isinstance(a, Sym):
        return True
    if isinstance(a, (SInt, SBool, int)) and isinstance(b, (SInt, SBool, int)):
        return z3.simplify(intterm(a) == intterm(b))
    if isstr(a) and isstr(b):
        f = keyeq(ip, a, b)
        return f
    for x, y in ((a, b), (b, a)):
        if isinstance(x, LObj):
            if isinstance(y, LObj) or isinstance(y, tuple):
                return seq_eq(ip, x, y)
            if isinstance(y, Sym):
                if not ip.branch(ip.world.has_class(y.t, x.kind)):
                    return False
                return seq_eq(ip, x, LObj(ip.ctx, x.kind, [symseg(rv(y.t))]))
            return False
        if isinstance(x, DObj):
            if isinstance(y, DObj) or isinstance(y, Sym):
                raise Unsupported('equality of dicts')
            return False
        if isinstance(x, SObj):
            raise Unsupported('equality of sets')
        if isinstance(x, tuple):
            if isinstance(y, tuple):
                if len(x) != len(y):
                    return False
                fs = [pyeq(ip, p, q) for p, q in zip(x, y)]
                if any(f is False for f in fs):
                    return False
                fs = [f for f in fs if f is not True]
                return z3.And(fs) if fs else True
            if isinstance(y, Sym):
                raise Unsupported('equality of tuples')
            return False
        if isinstance(x, Inst):
            if ip.class_lookup(x.cls, '__eq__')[1] is not object:
                raise Unsupported('__eq__ of %s' % x.cls)
            if not isinstance(y, Sym):
                return x is y
            if x.ref is None:
                return False
    if not isinstance(a, (Sym, SInt, SBool, SStr)) and not is_const(a) and not isinstance(b, Sym):
        return a is b
    flt_facts(ip, a)
    flt_facts(ip, b)
    return eq_formula(ip, ip.val(a), ip.val(b))

def eq_formula(ip, s, t):
    f1, f2, f = eq_parts(ip.world, s, t)
    ip.ctx.fact(f1)
    ip.ctx.fact(f2)
    return f

@kept
def eq_parts(w, s, t):
    dec = lambda x: z3.And(is_ref(x), w.in_class(rv(x), decimal.Decimal))
    f1 = VEQ(s, t) == VEQ(t, s)
    f2 = z3.Implies(z3.And(s == t, z3.Not(z3.And(dec(s), NAN(rv(s))))), VEQ(s, t))
    f = z3.If(z3.And(numeric(s), numeric(t)), z3.And(num(s) == num(t), notnan(s), notnan(t)),
              z3.If(z3.Or(is_none(s), is_none(t), is_str(s), is_str(t)), s == t,
                    z3.If(z3.Or(is_ref(s), is_ref(t)), VEQ(s, t), False)))
    return f1, f2, z3.simplify(f)

def seq_eq(ip, a, b):
    ka = a.kind if isinstance(a, LObj) else tuple
    kb = b.kind if isinstance(b, LObj) else tuple
    if ka is not kb:
        return False
    if isinstance(b, tuple):
        b = ip.new_list(b, tuple)
    la, lb = ip.length(a), ip.length(b)
    if isinstance(la, int) and isinstance(lb, int):
        if la != lb:
            return False
    else:
        if not ip.ctx.branch(z3.simplify(intterm(la) == intterm(lb))):
            return False
    n = la if isinstance(la, int) else lb if isinstance(lb, int) else None
    if n is None:
        raise Unsupported('equality of symbolic sequences')
    for i in range(n):
        if not ip.branch(pyeq(ip, getitem(ip, a, i), getitem(ip, b, i))):
            return False
    return True

def identical(ip, a, b):
    """a is b"""
    if is_const(a) and is_const(b):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return a is b
        return type(a) is type(b) and a == b
    if isinstance(a, (Sym, SInt, SBool, SStr)) or isinstance(b, (Sym, SInt, SBool, SStr)):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Obj,)):
                if isinstance(y, Sym) and x.ref is not None:
                    return z3.simplify(y.t == VRef(x.ref))
                return False
            if isinstance(x, tuple):
                return False
        if isinstance(a, SBool) and isinstance(b, bool):
            return a.t if b else z3.Not(a.t)
        if isinstance(b, SBool) and isinstance(a, bool):
            return b.t if a else z3.Not(b.t)
        return z3.simplify(ip.val(a) == ip.val(b))
    if isinstance(a, Bound) and isinstance(b, Bound):
        return a.func is b.func and a.self_ is b.self_
    if isinstance(a, UserFn) and isinstance(b, UserFn):
        return a.name == b.name
    return a is b

def contains(ip, c, x):
    """x in c"""
    c = ip.norm(ip.force(c))
    x = ip.norm(ip.force(x))
    if isinstance(c, View):
        if c.what == 'keys':
            c = c.d
        else:
            raise Unsupported('membership in a view')
    if isinstance(c, (DObj, dict)):
        need_hashable(ip, x)
        return dict_lookup(ip, c, x) is not None
    if isinstance(c, SObj):
        need_hashable(ip, x)
        return set_member(ip, c, x)
    if isinstance(c, (tuple, list)):
        fs = []
        for y in c:
            f = or_same(ip, x, y)
            if f is True:
                return True
            if f is not False:
                fs.append(f)
        return z3.Or(fs) if fs else False
    if isinstance(c, LObj):
        fs = []
        if len(c.segs) == 1 and getattr(c.segs[0], 'prefix', None) is not None:
            return prefix_contains(ip, c.segs[0].prefix[0], c.segs[0].prefix[1], x)
        for s in c.segs:
            if isinstance(s, ItemsSeg):
                f = contains(ip, tuple(s.items), x)
                if f is True:
                    return True
                if f is not False:
                    fs.append(f)
            elif isinstance(s, SymSeg) and s.origin is not None:
                fs.append(lin(ip, s.origin, x))
            else:
                from .loops import exists
                if exists(ip, s, lambda y: ip.branch(or_same(ip, x, y))):
                    return True
        return z3.Or(fs) if fs else False
    if isinstance(c, Sym):
        t, u = c.t, rv(c.t)
        w = ip.world
        if ip.branch(w.has_class(t, dict)):
            need_hashable(ip, x)
            return dict_lookup(ip, c, x) is not None
        if ip.branch(z3.Or(w.has_class(t, list), w.has_class(t, tuple))):
            if isinstance(x, (LObj, DObj, tuple)):
                raise Unsupported('membership of a container')
            return lin(ip, u, x)
        if ip.branch(is_str(t)):
            if isstr(x):
                return app('SUBSTR', [sv(ip.val(x)), sv(t)], B)
            if isinstance(x, Sym):
                if ip.branch(is_str(x.t)):
                    return app('SUBSTR', [sv(x.t), sv(t)], B)
            ip.raise_(TypeError, 'in <string> requires string')
        if ip.branch(z3.Or(w.has_class(t, set), w.has_class(t, frozenset))):
            need_hashable(ip, x)
            return lin(ip, u, x)
        if ip.branch(w.has_class(t, bytes)):
            raise Unsupported('membership in bytes')
        w.note('only the modelled container classes support membership tests')
        ip.raise_(TypeError, 'not iterable')
    if isstr(c):
        if isinstance(x, str) and isinstance(c, str):
            return x in c
        if isstr(x):
            if isinstance(x, str) and len(x) >= 1 and isinstance(c, SStr) and c.pieces is not None \
                    and any(p[0] == 'l' and x in p[1] for p in c.pieces):
                return True
            return app('SUBSTR', [sv(ip.val(x)), sv(ip.val(c))], B)
        if isinstance(x, Sym):
            if ip.branch(is_str(x.t)):
                return app('SUBSTR', [sv(x.t), sv(ip.val(c))], B)
        ip.raise_(TypeError, 'in <string> requires string')
    if is_const(c) or isinstance(c, (SInt, SBool, Inst)):
        ip.raise_(TypeError, 'not iterable')
    raise Unsupported('membership in %r' % (c,))

def lin(ip, u, x):
    """formula: the list u holds x"""
    t = ip.val(x)
    f = app('LIN', [u, t], B)
    ip.ctx.fact(z3.Implies(f, LEN(u) > 0))
    if getattr(ip.ctx, 'rendered', None) is not None:
        # some element equals x, respectively none does
        j = app('LINAT', [u, t], I)
        is_ = lambda y: z3.Or(y == t, eq_parts(ip.world, y, t)[2])
        split = z3.is_app(u) and u.decl().name() == 'SSPLIT'
        at = lambda i: VStr(app('SPLITAT', [u, i], I)) if split else AT(u, i)
        ip.ctx.fact(z3.Implies(f, z3.And(j >= 0, j < LEN(u), is_(at(j)))))
        ip.ctx.add_univ(z3.IntVal(0), LEN(u), lambda i: z3.Implies(is_(at(i)), f))
        ip.ctx.add_index(j)
    return f

def or_same(ip, x, y):
    e = pyeq(ip, x, y)
    if e is True:
        return True
    i = identical(ip, x, y)
    if i is True:
        return True
    if i is False:
        return e
    if e is False:
        return i
    return z3.Or(e, i)

def compare(ip, op, a, b):
    r = compare_(ip, op, a, b)
    if isinstance(r, bool):
        return r
    r = z3.simplify(r)
    return True if z3.is_true(r) else False if z3.is_false(r) else SBool(r)

def NOT(f):
    return (not f) if isinstance(f, bool) else z3.Not(f)

def compare_(ip, op, a, b):
    if isinstance(op, ast.Is):
        return identical(ip, a, b)
    if isinstance(op, ast.IsNot):
        return NOT(identical(ip, a, b))
    if isinstance(op, ast.In):
        return contains(ip, b, a)
    if isinstance(op, ast.NotIn):
        return NOT(contains(ip, b, a))
    if isinstance(op, ast.Eq):
        return pyeq(ip, a, b)
    if isinstance(op, ast.NotEq):
        return NOT(pyeq(ip, a, b))
    if isinstance(op, ast.Lt):
        return less(ip, a, b, True)
    if isinstance(op, ast.Gt):
        return less(ip, b, a, True)
    if isinstance(op, ast.LtE):
        return less(ip, a, b, False)
    if isinstance(op, ast.GtE):
        return less(ip, b, a, False)
    raise Unsupported('comparison')

def less(ip, a, b, strict):
    if is_const(a) and is_const(b):
        try:
            return a < b if strict else a <= b
        except TypeError:
            ip.raise_(TypeError, 'not supported')
    ia, ib = intterm(a), intterm(b)
    if ia is not None and ib is not None:
        return z3.simplify(ia < ib if strict else ia <= ib)
    if isinstance(a, (LObj, DObj, SObj, tuple)) or isinstance(b, (LObj, DObj, SObj, tuple)):
        raise Unsupported('order of containers')
    hostlike = lambda v: isinstance(v, (datetime.date, datetime.time, decimal.Decimal))
    for v in (a, b):
        if isinstance(v, Inst) or not (isinstance(v, (Sym, SInt, SBool, SStr)) or is_const(v) or hostlike(v)):
            raise Unsupported('order of %r' % (v,))
    s, t = ip.val(a), ip.val(b)
    flt_facts(ip, a)
    flt_facts(ip, b)
    w = ip.world
    cmpf = (lambda x, y: x < y) if strict else (lambda x, y: x <= y)
    if ip.branch(z3.simplify(z3.And(numeric(s), numeric(t)))):
        if ip.branch(z3.simplify(z3.And(z3.Not(is_flt(s)), z3.Not(is_flt(t))))):
            toint = lambda x: z3.If(is_bool(x), z3.If(bv(x), z3.IntVal(1), z3.IntVal(0)), iv(x))
            return z3.simplify(cmpf(toint(s), toint(t)))
        inf = z3.And(notnan(s), notnan(t))
        return z3.And(inf, cmpf(num(s), num(t)))
    if ip.branch(z3.simplify(z3.And(is_str(s), is_str(t)))):
        return cmpf(SORD(sv(s)), SORD(sv(t)))
    isd = lambda x, c: w.has_class(x, c)
    dt = datetime.datetime
    if ip.branch(z3.simplify(z3.And(isd(s, dt), isd(t, dt)))):
        if not ip.branch(AWARE(rv(s)) == AWARE(rv(t))):
            ip.raise_(TypeError, "can't compare offset-naive and offset-aware datetimes")
        return cmpf(ORD(rv(s)), ORD(rv(t)))
    if ip.branch(z3.simplify(z3.And(isd(s, datetime.date), isd(t, datetime.date),
                                    z3.Not(isd(s, dt)), z3.Not(isd(t, dt))))):
        return cmpf(ORD(rv(s)), ORD(rv(t)))
    if ip.branch(z3.simplify(z3.And(isd(s, datetime.time), isd(t, datetime.time)))):
        if not ip.branch(AWARE(rv(s)) == AWARE(rv(t))):
            ip.raise_(TypeError, "can't compare offset-naive and offset-aware times")
        return cmpf(ORD(rv(s)), ORD(rv(t)))
    D = decimal.Decimal
    if ip.branch(z3.simplify(z3.And(isd(s, D), isd(t, D)))):
        if ip.branch(z3.Or(NAN(rv(s)), NAN(rv(t)))):
            ip.raise_(decimal.InvalidOperation)
        return cmpf(ORD(rv(s)), ORD(rv(t)))
    if ip.branch(z3.simplify(z3.Or(z3.And(isd(s, D), numeric(t)), z3.And(numeric(s), isd(t, D))))):
        key = lambda x: z3.If(is_ref(x), ORD(rv(x)), num(x))
        if ip.branch(z3.simplify(z3.Or(z3.And(is_ref(s), NAN(rv(s))), z3.And(is_ref(t), NAN(rv(t)))))):
            ip.raise_(decimal.InvalidOperation)
        return cmpf(key(s), key(t))
    known = lambda x: z3.Or(is_none(x), is_bool(x), is_int(x), is_flt(x), is_str(x), *[isd(x, c) for c in
        (datetime.date, datetime.time, D, w.Field, w.Undefined, dict)])
    if ip.branch(z3.simplify(z3.Or(is_none(s), is_none(t), z3.And(known(s), known(t))))):
        ip.raise_(TypeError, 'not supported between instances')
    if ip.branch(z3.simplify(z3.Not(app('ORDERABLE', [s, t], B)))):
        ip.raise_(TypeError, 'not supported between instances')
    return app('LESS' if strict else 'LEQ', [s, t], B)

def binop(ip, op, a, b):
    if is_const(a) and is_const(b) and not isinstance(op, ast.Mod):
        try:
            return pyop(op)(a, b)
        except Exception as e:
            ip.raise_(type(e), *e.args)
    if isinstance(op, ast.Mod) and isstr(a):
        if not isinstance(a, str):
            raise Unsupported('symbolic format')
        if is_const(b) and '%(' not in a:
            try:
                return a % b
            except Exception as e:
                ip.raise_(type(e), *e.args)
        return percent(ip, a, b)
    if isinstance(op, ast.Mod) and isinstance(a, Sym):
        if ip.branch(is_str(a.t)):
            raise Unsupported('symbolic format')
    if isinstance(op, ast.Add):
        if isstr(a) and isstr(b):
            return mkstr(ip, pieces_of(ip, a) + pieces_of(ip, b))
        if isstr(a) and isinstance(b, Sym) or isstr(b) and isinstance(a, Sym):
            s = b if isinstance(b, Sym) else a
            if ip.branch(is_str(s.t)):
                x = SStr(sv(s.t))
                return mkstr(ip, pieces_of(ip, a if s is not a else x) + pieces_of(ip, b if s is not b else x))
            ip.raise_(TypeError, 'concatenation')
        la, lb = isinstance(a, (LObj, tuple)), isinstance(b, (LObj, tuple))
        if la and lb:
            return concat(ip, a, b)
        if la and isinstance(b, Sym) or lb and isinstance(a, Sym):
            o, s = (a, b) if la else (b, a)
            kind = o.kind if isinstance(o, LObj) else tuple
            if ip.branch(ip.world.has_class(s.t, kind)):
                x = LObj(ip.ctx, kind, [symseg(rv(s.t))])
                ip.ctx.fact(LEN(rv(s.t)) >= 0)
                return concat(ip, x, b) if s is a else concat(ip, a, x)
            ip.raise_(TypeError, 'concatenation')
        if la or lb or isstr(a) or isstr(b):
            ip.raise_(TypeError, 'concatenation')
    if isinstance(op, ast.Sub) and isinstance(a, SObj):
        raise Unsupported('set difference')
    ia, ib = intterm(a), intterm(b)
    if ia is not None and ib is not None:
        if isinstance(op, ast.Add):
            return mkint(ia + ib)
        if isinstance(op, ast.Sub):
            return mkint(ia - ib)
        if isinstance(op, ast.Mult):
            return mkint(ia * ib)
    if isinstance(a, Sym) and ib is not None or isinstance(b, Sym) and ia is not None:
        s = a if isinstance(a, Sym) else b
        if ip.branch(z3.Or(is_int(s.t), is_bool(s.t))):
            x = SInt(z3.If(is_int(s.t), iv(s.t), z3.If(bv(s.t), z3.IntVal(1), z3.IntVal(0))))
            return binop(ip, op, x if s is a else a, x if s is b else b)
        if ip.branch(z3.Or(is_none(s.t), is_str(s.t))):
            ip.raise_(TypeError, 'unsupported operand')
    raise Unsupported('operator %s on %r, %r' % (type(op).__name__, a, b))

def mkint(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else SInt(t)

def concat(ip, a, b):
    ka = a.kind if isinstance(a, LObj) else tuple
    kb = b.kind if isinstance(b, LObj) else tuple
    if ka is not kb:
        ip.raise_(TypeError, 'concatenation')
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    sa = a.segs if isinstance(a, LObj) else [ItemsSeg(list(a))]
    sb = b.segs if isinstance(b, LObj) else [ItemsSeg(list(b))]
    segs = list(sa)
    for s in sb:
        if segs and isinstance(s, ItemsSeg) and isinstance(segs[-1], ItemsSeg):
            segs[-1] = ItemsSeg(segs[-1].items + s.items)
        else:
            segs.append(s)
    return LObj(ip.ctx, ka, segs)

def pyop(op):
    import operator as o
    return {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv,
            ast.FloorDiv: o.floordiv, ast.Mod: o.mod, ast.Pow: o.pow, ast.BitOr: o.or_,
            ast.BitAnd: o.and_, ast.BitXor: o.xor}[type(op)]

# ---------------------------------------------------------------- keyword splat
def splat(ip, kwargs, v):
    v = ip.norm(ip.force(v))
    if isinstance(v, dict):
        for k, x in v.items():
            kwargs[k] = x
        return
    if isinstance(v, Sym):
        if not ip.branch(ip.world.has_class(v.t, dict)):
            ip.raise_(TypeError, 'argument after ** must be a mapping')
        d = DObj(ip.ctx, dict, rv(v.t))
        kwargs['**'] = d
        return
    if not isinstance(v, DObj):
        ip.raise_(TypeError, 'argument after ** must be a mapping')
    if v.base is not None:
        d = DObj(ip.ctx, dict, v.base)
        d.log = []
        for e in v.log:
            if e[0] == 'set' and isinstance(e[1], str):
                kwargs[e[1]] = e[2]
            elif e[0] == 'del':
                d.log.append(e)
            else:
                raise Unsupported('symbolic keyword arguments')
        kwargs['**'] = d
        return
    for k, x in [(k, x) for k, x in pairs(ip, v)]:
        if not isinstance(k, str):
            raise Unsupported('symbolic keyword')
        if k in kwargs:
            ip.raise_(TypeError, 'multiple values for keyword')
        kwargs[k] = x

def pairs(ip, d):
    out = []
    for s in dict_iter(ip, d, 'items').segs:
        if not isinstance(s, ItemsSeg):
            raise Unsupported('a symbolic dict where a concrete one is needed')
        out.extend(s.items)
    return out

def count_term(ip, seg):
    raise Unsupported('length of a filtered sequence')

# ---------------------------------------------------------------- host functions
CONSTRUCTORS = {}
MODELS = {}

def model(*fns):
    def deco(f):
        for fn in fns:
            MODELS[id(fn)] = (fn, f)
        return f
    return deco

def ctor(*types_):
    def deco(f):
        for t in types_:
            CONSTRUCTORS[t] = f
        return f
    return deco

def host_model(ip, fn):
    m = ip.overrides.get(fn) if isinstance(fn, types.FunctionType) else None
    if m is not None:
        return m
    e = MODELS.get(id(fn))
    if e is not None and e[0] is fn:
        return e[1]
    return None

PURE = {re.compile, repr, abs, ord, chr, divmod, round, pow}

def call_host(ip, fn, args, kwargs):
    args = [ip.norm(ip.force(a)) for a in args]
    w = getattr(fn, '__self__', None)
    if isinstance(w, re.Pattern):
        return pattern_call(ip, w, fn.__name__, args)
    if isinstance(fn, (types.WrapperDescriptorType, types.MethodDescriptorType, types.MethodType,
                       types.BuiltinFunctionType, types.FunctionType, type)):
        name = getattr(fn, '__name__', '')
        if name == '__init__' and args and isinstance(args[0], Inst):
            return None
        if isinstance(fn, types.MethodDescriptorType) and args:
            return call_method(ip, args[0], name, args[1:], kwargs)
    if all(is_const(a) or isinstance(a, type) for a in args) and not kwargs and \
            isinstance(fn, types.BuiltinFunctionType) and fn in PURE:
        try:
            return fn(*args)
        except Exception as e:
            ip.raise_(type(e), *e.args)
    raise Unsupported('call of %r' % (fn,))

def pattern_call(ip, pat, name, args):
    if ip.texts is not None:
        return ip.texts.pattern(pat, name, args)
    s = args[0]
    if name in ('match', 'search', 'fullmatch'):
        if isinstance(s, str):
            m = getattr(pat, name)(s)
            return m if m is None else MatchObj(m)
        t = ip.val(s)
        if not ip.branch(is_str(t)):
            ip.raise_(TypeError, 'expected string')
        f = pattern_formula(ip, pat.pattern, pat.flags, name, t)
        if not ip.branch(f):
            return None
        return MatchSym(pat, name, t)
    if name == 'sub':
        if all(isinstance(a, str) for a in args):
            return pat.sub(*args)
        t = ip.val(args[1])
        if not ip.branch(is_str(t)):
            ip.raise_(TypeError, 'expected string')
        return SStr(app('RESUB', [VStr(strlit(pat.pattern)), ip.val(args[0]), t], I))
    raise Unsupported('pattern method %s' % name)

KNOWN_PATTERNS = set()

def pattern_formula(ip, pattern, flags, how, t):
    if (pattern, flags, how) not in KNOWN_PATTERNS:
        # two spellings of one pattern cannot be compared: leave it to the monitored contract
        raise Unsupported('pattern %r' % pattern)
    return app('MATCH', [VStr(strlit('%s %r %d' % (how, pattern, flags))), t], B)

@model(re.compile)
def m_compile(ip, args, kw):
    args = [ip.norm(ip.force(a)) for a in args]
    if kw or len(args) != 1:
        raise Unsupported('re.compile')
    if isinstance(args[0], str):
        try:
            return re.compile(args[0])
        except re.error as e:
            ip.raise_(re.error, *e.args)
    t = ip.val(args[0])
    if ip.branch(ip.world.has_class(t, re.Pattern)):
        return args[0]
    if not ip.branch(is_str(t)):
        ip.raise_(TypeError, 'first argument must be string or compiled pattern')
    if not ip.branch(app('REOK', [sv(t)], B)):
        ip.raise_(re.error, 'bad pattern')
    return compiled(ip, t)

def compiled(ip, t):
    r = app('REOBJ', [sv(t)], I)
    ip.ctx.fact(CLS(r) == ip.world.exact[re.Pattern])
    ip.ctx.fact(app('PAT_PATTERN', [r], Val) == t)
    return Sym(VRef(r))

def sym_match(ip, v, args):
    """match() of a compiled pattern known only as a term"""
    t = ip.val(args[0])
    if not ip.branch(is_str(t)):
        ip.raise_(TypeError, 'expected string')
    if not ip.branch(app('PMATCH', [v.t, t], B)):
        return None
    return MatchSym(None, 'match', t)

class MatchSym(object):
    """the match object of a symbolic text"""
    def __init__(self, pat, how, t):
        self.pat, self.how, self.t = pat, how, t
    def group(self, *a):
        raise NotImplementedError
class MatchObj(object):
    def __init__(self, m):
        self.m = m
    def group(self, *a):
        return self.m.group(*a)

@model(isinstance)
def m_isinstance(ip, args, kw):
    f = ip.isinstance_(args[0], args[1])
    return f if isinstance(f, bool) else wrapb(f)

def wrapb(f):
    f = z3.simplify(f)
    return True if z3.is_true(f) else False if z3.is_false(f) else SBool(f)

@model(issubclass)
def m_issubclass(ip, args, kw):
    return issubclass(args[0], args[1])

@model(len)
def m_len(ip, args, kw):
    return ip.length(args[0])

@model(hash)
def m_hash(ip, args, kw):
    need_hashable(ip, args[0])
    return SInt(app('HASH', [ip.val(args[0])], I)) if not isinstance(args[0], tuple) else 0

@model(callable)
def m_callable(ip, args, kw):
    v = ip.norm(ip.force(args[0]))
    if isinstance(v, Sym):
        raise Unsupported('callable of an arbitrary value')
    return isinstance(v, (Closure, Bound, UserFn, BuiltinMethod, SymMethod)) or callable(v)

@model(getattr)
def m_getattr(ip, args, kw):
    o, name = ip.norm(ip.force(args[0])), ip.norm(ip.force(args[1]))
    if isinstance(name, (SStr, Sym)):
        if isinstance(name, Sym):
            if not ip.branch(is_str(name.t)):
                ip.raise_(TypeError, 'attribute name must be string')
        r = Sym(app('GETATTR', [ip.val(o), ip.val(name)], Val))
        known = app('HASATTR', [ip.val(o), ip.val(name)], B)
        if isinstance(o, Inst) and issubclass(o.cls, ip.world.Field):
            return r            # a field has an answer for every attribute
        if ip.branch(known):
            return r
        if len(args) > 2:
            return args[2]
        ip.raise_(AttributeError)
    if len(args) > 2:
        try:
            return ip.getattr_(o, name)
        except PyExc as e:
            if isinstance(e.inst.cls, type) and issubclass(e.inst.cls, AttributeError):
                return args[2]
            raise
    return ip.getattr_(o, name)

@model(hasattr)
def m_hasattr(ip, args, kw):
    try:
        m_getattr(ip, args, kw)
        return True
    except PyExc as e:
        if issubclass(e.inst.cls, AttributeError):
            return False
        raise

@model(setattr)
def m_setattr(ip, args, kw):
    o, name = ip.norm(ip.force(args[0])), ip.norm(ip.force(args[1]))
    if isinstance(name, str):
        return ip.setattr_(o, name, args[2])
    raise Unsupported('setattr with a symbolic name')

@model(id)
def m_id(ip, args, kw):
    return SInt(app('ID', [ip.val(args[0])], I))

@model(enumerate)
def m_enumerate(ip, args, kw):
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    it = ip.iterate(args[0])
    segs, off = [], z3.IntVal(start)
    for s in it.segs:
        if isinstance(s, ItemsSeg):
            segs.append(ItemsSeg([(mkint(off + i), x) for i, x in enumerate(s.items)]))
            off = z3.simplify(off + len(s.items))
        else:
            n = seg_len(ip, s)
            segs.append(SymSeg(n, lambda i, s=s, off=off: (mkint(off + i), seg_at(ip, s, i)), None))
            off = z3.simplify(off + n)
    return Iter(segs)

def seg_len(ip, s):
    if isinstance(s, ItemsSeg):
        return z3.IntVal(len(s.items))
    if isinstance(s, SymSeg):
        return s.n
    if s.always:
        return s.trace.ndone
    raise Unsupported('numbering a filtered sequence')

@model(zip)
def m_zip(ip, args, kw):
    its = [ip.iterate(a) for a in args]
    if all(isinstance(s, ItemsSeg) for it in its for s in it.segs):
        cols = [[x for s in it.segs for x in s.items] for it in its]
        return Iter([ItemsSeg([tuple(r) for r in zip(*cols)])])
    ns = [z3.simplify(z3.Sum([z3.IntVal(0)] + [seg_len(ip, s) for s in it.segs])) for it in its]
    n = ns[0]
    for m in ns[1:]:
        if m.eq(n):
            continue
        if not ip.ctx.branch(n <= m):
            n = m
    return Iter([SymSeg(n, lambda i: tuple(seq_at(ip, it.segs, i) for it in its), None)])

@model(reversed)
def m_reversed(ip, args, kw):
    it = ip.iterate(args[0])
    segs = []
    for s in reversed(it.segs):
        if isinstance(s, ItemsSeg):
            segs.append(ItemsSeg(list(reversed(s.items))))
        else:
            n = seg_len(ip, s)
            segs.append(SymSeg(n, lambda i, s=s, n=n: seg_at(ip, s, z3.simplify(n - 1 - i)), None))
    return Iter(segs)

@ctor(enumerate)
def c_enumerate(ip, args, kw):
    return m_enumerate(ip, args, kw)
@ctor(zip)
def c_zip(ip, args, kw):
    return m_zip(ip, args, kw)
@ctor(reversed)
def c_reversed(ip, args, kw):
    return m_reversed(ip, args, kw)

@ctor(range)
def c_range(ip, args, kw):
    a = [ip.norm(ip.force(x)) for x in args]
    if all(isinstance(x, int) for x in a):
        return Iter([ItemsSeg(list(range(*a)))])
    if len(a) == 3:
        raise Unsupported('range step')
    lo, hi = (z3.IntVal(0), a[0]) if len(a) == 1 else (intterm(a[0]), a[1])
    hi = intterm(hi)
    if lo is None or hi is None:
        raise Unsupported('range of unknown bounds')
    if not ip.branch(z3.simplify(hi > lo)):
        return Iter([])
    return Iter([SymSeg(z3.simplify(hi - lo), lambda i: mkint(lo + i), None)])

@model(any)
def m_any(ip, args, kw):
    return anyof(ip, args[0], lambda x: ip.truth(x))
@model(all)
def m_all(ip, args, kw):
    return not anyof(ip, args[0], lambda x: not ip.truth(x))

def anyof(ip, v, pred):
    from .loops import exists
    for s in ip.iterate(v).segs:
        if isinstance(s, ItemsSeg):
            for x in s.items:
                if pred(x):
                    return True
        elif exists(ip, s, pred):
            return True
    return False

@model(sorted)
def m_sorted(ip, args, kw):
    if kw:
        raise Unsupported('sorted with a key')
    segs = ip.iterate(args[0]).segs
    if len(segs) == 1 and isinstance(segs[0], SymSeg) and getattr(segs[0], 'what', (None,))[0] in ('keys', 'items'):
        # the entries of a dict with texts as keys, ordered by key: another enumeration of the same entries
        what, u = segs[0].what
        i = ip.ctx.fresh('i', I)
        with ip.ctx.aside():
            ip.ctx.add_index(i)
            ip.ctx.fact(z3.Implies(z3.And(i >= 0, i < LEN(u)), HAS(u, KEYAT(u, i))))
            if not ip.ctx.entails(z3.Implies(z3.And(i >= 0, i < LEN(u)), is_str(KEYAT(u, i)))):
                raise Unsupported('sorting keys that may not be texts')
        o = app('ORDERED', [u], I)
        ip.ctx.fact(z3.And(CLS(o) == ip.world.exact[dict], LEN(o) == LEN(u)))
        def at(i):
            ip.ctx.add_index(i)
            k = key_at(ip, o, i)
            return shape(what, ip.norm(Sym(k)), ip.norm(Sym(GET(o, k))))
        return LObj(ip.ctx, list, [SymSeg(LEN(o), at, None)])
    if len(segs) == 1 and isinstance(segs[0], SymSeg):
        # texts in some order
        seg = segs[0]
        i = ip.ctx.fresh('i', I)
        ip.ctx.add_index(i)
        x = ip.val(seg.at(i))
        if not ip.ctx.entails(z3.Implies(z3.And(i >= 0, i < seg.n), is_str(x))):
            raise Unsupported('sorting what may not be texts')
        ip.ctx.namecount += 1
        name = 'ORDER!%d' % ip.ctx.namecount
        def at(i):
            j = app(name, [i], I)
            ip.ctx.add_index(j)
            ip.ctx.fact(z3.Implies(z3.And(i >= 0, i < seg.n), z3.And(j >= 0, j < seg.n)))
            return seg.at(j)
        return LObj(ip.ctx, list, [SymSeg(seg.n, at, None)])
    items = ip.concrete_items(args[0])
    if all(is_const(x) for x in items):
        try:
            return ip.new_list(sorted(items))
        except TypeError:
            ip.raise_(TypeError)
    if len(items) < 2:
        return ip.new_list(items)
    raise Unsupported('sorting symbolic values')

@model(min, max, sum)
def m_minmax(ip, args, kw):
    raise Unsupported('min, max, sum')

@model(repr)
def m_repr(ip, args, kw):
    return mkstr(ip, fmt_piece(ip, 'r', args[0]))

@model(open)
def m_open(ip, args, kw):
    (path, mode), rest = ip.world.bindargs(ip, ['file', 'mode'], [None, 'r'], args, kw)
    mode = ip.norm(ip.force(mode))
    if rest or mode not in ('r', 'rt', 'w', 'wt', 'w+', 'w+t', 'wt+'):
        raise Unsupported('open in mode %r %r' % (mode, sorted(rest)))
    ip.world.note('files that exist can be read, and written to')
    return FileObj(ip.norm(ip.force(path)), mode)

@model(FileObj.read)
def m_file_read(ip, args, kw):
    f = args[0]
    if len(args) > 1 or f.mode[0] != 'r':
        raise Unsupported('part of a file')
    r = app('CONTENT', [ip.val(f.path)], Val)
    ip.ctx.fact(is_str(r))
    return Sym(r)

@model(FileObj.write)
def m_file_write(ip, args, kw):
    f = args[0]
    ip.events.append(('written', f.path, args[1]))

@model(FileObj.close)
def m_file_close(ip, args, kw):
    return None

@model(os.path.exists)
def m_exists(ip, args, kw):
    return SBool(app('EXISTS', [ip.val(args[0])], B))

@model(os.path.splitext)
def m_splitext(ip, args, kw):
    p = ip.val(args[0])
    out = []
    for n in ('ROOT', 'EXTENSION'):
        r = app(n, [p], Val)
        ip.ctx.fact(is_str(r))
        out.append(Sym(r))
    return tuple(out)

IMMUTABLE = (datetime.date, datetime.time, decimal.Decimal, bytes, re.Pattern)

@model(copy.deepcopy)
def m_deepcopy(ip, args, kw):
    v = ip.norm(ip.force(args[0]))
    return deepcopy(ip, v)

def deepcopy(ip, v):
    v = ip.norm(ip.force(v))
    if is_const(v) or isinstance(v, (SInt, SBool, SStr, type, UserFn, Closure, re.Pattern)):
        return v
    if isinstance(v, tuple):
        return tuple(deepcopy(ip, x) for x in v)
    if isinstance(v, LObj):
        if all(isinstance(s, ItemsSeg) for s in v.segs):
            return LObj(ip.ctx, v.kind, [ItemsSeg([deepcopy(ip, x) for x in s.items]) for s in v.segs])
        if ip.ctx.copying:
            from contracts.clone import elements
            r = ip.call(elements, [v], {})
            return r if v.kind is list else ip.call(v.kind, [r], {})
        return LObj(ip.ctx, v.kind, [deepseg(ip, s) for s in v.segs])
    if isinstance(v, DObj) and v.base is None and all(e[0] == 'set' for e in v.log):
        d = DObj(ip.ctx, v.kind)
        d.log = [('set', e[1], deepcopy(ip, e[2])) for e in v.log]
        return d
    if isinstance(v, DObj) and ip.ctx.copying:
        from contracts.clone import entries
        return ip.call(entries, [v], {})
    if isinstance(v, dict):
        d = DObj(ip.ctx, type(v))
        d.log = [('set', k, deepcopy(ip, x)) for k, x in v.items()]
        return d
    if isinstance(v, Inst):
        h = ip.class_lookup(v.cls, '__deepcopy__')
        if h is not None:
            return ip.call(Bound(h[0], v), [ip.new_dict()], {})
    if isinstance(v, Sym):
        t, w, ctx = v.t, ip.world, ip.ctx
        atomic = z3.Or(is_none(t), is_bool(t), is_int(t), is_flt(t), is_str(t))
        if ctx.copying:
            for c in (w.Field, dict, list, tuple):
                held = w.has_class(t, c)
                if ctx.entails(z3.Or(atomic, held)):
                    if not ip.branch(held):
                        return v
                    if c is w.Field:
                        return w.child_call(ip, v, 'clone', [], {})
                    return deepcopy(ip, DObj(ctx, dict, rv(t)) if c is dict else ip.call(c, [v], {}))
            if ctx.entails(z3.Or([atomic] + [w.has_class(t, c) for c in IMMUTABLE])):
                w.note('copies of immutable values are the values themselves')
                return v
        elif ip.branch(atomic):
            return v
        r = app('DEEPCOPY', [t], Val)
        ctx.fact(z3.Implies(atomic, r == t))
        ctx.fact(z3.Implies(z3.Not(atomic), z3.And(is_ref(r), CLS(rv(r)) == CLS(rv(t)), LEN(rv(r)) == LEN(rv(t)))))
        return Sym(r)
    if isinstance(v, (datetime.tzinfo,)):
        return v
    if not isinstance(v, Obj):
        return v
    raise Unsupported('deep copy of %r' % (v,))

def deepseg(ip, s):
    if isinstance(s, ItemsSeg):
        return ItemsSeg([deepcopy(ip, x) for x in s.items])
    if isinstance(s, SymSeg):
        return SymSeg(s.n, lambda i: deepcopy(ip, seg_at(ip, s, i)), None)
    raise Unsupported('deep copy of a loop result')

@model(traceback.format_exc)
def m_format_exc(ip, args, kw):
    return SStr(ip.ctx.fresh('traceback', I))

@model(time.strptime)
def m_strptime(ip, args, kw):
    v, pat = ip.norm(ip.force(args[0])), ip.norm(ip.force(args[1]))
    t, p = ip.val(v), ip.val(pat)
    if not ip.branch(is_str(t)):
        ip.raise_(TypeError, 'strptime() argument 0 must be str')
    readable(ip, t, p)
    if not ip.branch(app('STRPOK', [t, p], B)):
        ip.raise_(ValueError, 'does not match format')
    r = app('STRPTIME', [t, p], I)
    ip.ctx.fact(CLS(r) == ip.world.exact[tuple])
    ip.ctx.fact(LEN(r) == 9)
    return Sym(VRef(r))

def strp_fields(ip, r, lo, hi):
    return [Sym(AT(r, z3.IntVal(i))) for i in range(lo, hi)]

def temporal_ctor(name, cls, arity):
    def m(ip, args, kw):
        args = [ip.norm(ip.force(a)) for a in args]
        kw = {k: ip.norm(ip.force(x)) for k, x in kw.items()}
        if not args and not kw:
            ip.raise_(TypeError, 'missing arguments')
        terms = [ip.val(a) for a in args]
        extra = ''.join('_' + k for k in sorted(kw))
        terms += [ip.val(kw[k]) for k in sorted(kw)]
        # arguments that come from one strptime() of the same pattern are in range
        if not strp_args(args):
            if not ip.branch(app(name + 'OK' + extra, terms, B)):
                if ip.branch(app(name + 'TE' + extra, terms, B)):
                    ip.raise_(TypeError)
                ip.raise_(ValueError)
        r = app(name + extra, terms, I)
        ip.ctx.fact(CLS(r) == ip.world.exact[cls])
        if cls is not datetime.date:
            tz = kw.get('tzinfo')
            ip.ctx.fact(AWARE(r) == z3.BoolVal(tz is not None))
            ip.ctx.fact(app('TZ', [r], Val) == (ip.val(tz) if tz is not None else VNone))
        return Sym(VRef(r))
    return m

def strp_args(args):
    src = None
    for a in args:
        if not isinstance(a, Sym):
            return False
        t = a.t
        if not (z3.is_app(t) and t.decl().name() == 'AT'):
            return False
        r = t.arg(0)
        if not (z3.is_app(r) and r.decl().name() == 'STRPTIME'):
            return False
        if src is not None and not src.eq(r):
            return False
        src = r
    return src is not None

CONSTRUCTORS[datetime.date] = temporal_ctor('DATE', datetime.date, 3)
CONSTRUCTORS[datetime.datetime] = temporal_ctor('DATETIME', datetime.datetime, 6)
CONSTRUCTORS[datetime.time] = temporal_ctor('TIME', datetime.time, 3)

def temporal_attr(ip, v, name):
    u = rv(v.t)
    if name == 'tzinfo':
        r = app('TZ', [u], Val)
        w = ip.world
        ip.ctx.fact(z3.Or(is_none(r), w.has_class(r, datetime.tzinfo)))
        # a datetime is aware iff it has a timezone that gives an offset
        ip.ctx.fact(z3.Implies(is_none(r), z3.Not(AWARE(u))))
        zones = sys.modules['scheme.timezone']
        for z in (zones.UTC, zones.LOCAL):
            ip.ctx.fact(z3.Implies(z3.And(w.has_class(v.t, datetime.datetime), r == ip.val(z)), AWARE(u)))
        return ip.norm(Sym(r))
    r = app(name.upper(), [u], I)
    ip.ctx.fact(r >= 0)
    if name == 'year' and getattr(ip.ctx, 'roundtrip', False):
        # the year of an instant in a timezone
        isdt = ip.world.has_class(v.t, datetime.datetime)
        ip.ctx.fact(r == z3.If(isdt, app('YEARIN', [ORD(u), app('TZ', [u], Val)], I), app('YEAROF', [ORD(u)], I)))
    return SInt(r)

@ctor(decimal.Decimal)
def c_decimal(ip, args, kw):
    w = ip.world
    if not args:
        raise Unsupported('Decimal()')
    v = ip.norm(ip.force(args[0]))
    if not isinstance(v, (Sym, SInt, SBool, SStr)) and not is_const(v):
        if isinstance(v, (Inst, DObj)):
            ip.raise_(TypeError)
        raise Unsupported('Decimal of %r' % (v,))
    t = ip.val(v)
    if ip.branch(w.has_class(t, decimal.Decimal)):
        return v
    def result(name, x):
        r = app(name, [x], I)
        ip.ctx.fact(CLS(r) == w.exact[decimal.Decimal])
        return Sym(VRef(r))
    if ip.branch(is_str(t)):
        readable(ip, t)
        if not ip.branch(app('DECOK', [sv(t)], B)):
            ip.raise_(decimal.InvalidOperation)
        return result('DEC_S', sv(t))
    if ip.branch(z3.Or(is_int(t), is_bool(t), is_flt(t))):
        return result('DEC_N', t)
    if ip.branch(z3.Or(w.has_class(t, list), w.has_class(t, tuple))):
        if ip.branch(app('DECSEQOK', [t], B)):
            return result('DEC_T', t)
        ip.raise_(ValueError)
    ip.raise_(TypeError)

@ctor(int)
def c_int(ip, args, kw):
    if len(args) != 1 or kw:
        raise Unsupported('int()')
    v = ip.norm(ip.force(args[0]))
    if is_const(v):
        try:
            return int(v)
        except Exception as e:
            ip.raise_(type(e), *e.args)
    if isinstance(v, SInt):
        return v
    if isinstance(v, (LObj, DObj, SObj, Inst, UserFn, tuple)):
        ip.raise_(TypeError)
    t = ip.val(v)
    w = ip.world
    if ip.branch(z3.simplify(z3.Or(is_int(t), is_bool(t)))):
        return mkint(z3.If(is_int(t), iv(t), z3.If(bv(t), z3.IntVal(1), z3.IntVal(0))))
    if ip.branch(z3.simplify(is_flt(t))):
        if ip.branch(FNAN(fv(t))):
            ip.raise_(ValueError)
        if ip.branch(z3.Not(app('FFINITE', [fv(t)], B))):
            ip.raise_(OverflowError)
        return SInt(app('FTRUNC', [fv(t)], I))
    if ip.branch(z3.simplify(is_str(t))):
        if ip.branch(app('INTOK', [sv(t)], B)):
            return SInt(app('INTOF', [sv(t)], I))
        ip.raise_(ValueError)
    if ip.branch(z3.simplify(w.has_class(t, decimal.Decimal))):
        if ip.branch(NAN(rv(t))):
            ip.raise_(ValueError)
        if ip.branch(z3.Not(app('DFINITE', [rv(t)], B))):
            ip.raise_(OverflowError)
        return SInt(app('DTRUNC', [rv(t)], I))
    if ip.branch(z3.simplify(z3.Or(w.has_class(t, bytes)))):
        if ip.branch(app('INTOKB', [rv(t)], B)):
            return SInt(app('INTOFB', [rv(t)], I))
        ip.raise_(ValueError)
    w.note('int() and float() convert only the modelled classes')
    ip.raise_(TypeError)

@ctor(float)
def c_float(ip, args, kw):
    v = ip.norm(ip.force(args[0]))
    if is_const(v):
        try:
            return float(v)
        except Exception as e:
            ip.raise_(type(e), *e.args)
    if isinstance(v, (LObj, DObj, SObj, Inst, UserFn, tuple)):
        ip.raise_(TypeError)
    t = ip.val(v)
    w = ip.world
    if ip.branch(z3.simplify(is_flt(t))):
        return v
    def res(name, x):
        r = app(name, [x], I)
        return Sym(VFlt(r))
    if ip.branch(z3.simplify(z3.Or(is_int(t), is_bool(t)))):
        if ip.branch(z3.And(is_int(t), z3.Not(app('FLTRANGE', [iv(t)], B)))):
            ip.raise_(OverflowError)
        return res('FLT_N', t)
    if ip.branch(z3.simplify(is_str(t))):
        if ip.branch(app('FLTOK', [sv(t)], B)):
            return res('FLT_S', sv(t))
        ip.raise_(ValueError)
    if ip.branch(z3.simplify(z3.Or(w.has_class(t, decimal.Decimal), w.has_class(t, bytes)))):
        if ip.branch(app('FLTOKR', [t], B)):
            return res('FLT_R', t)
        ip.raise_(ValueError)
    ip.raise_(TypeError)

@ctor(str)
def c_str(ip, args, kw):
    if not args:
        return ''
    v = ip.norm(ip.force(args[0]))
    if isinstance(v, Sym) and ip.branch(ip.world.has_class(v.t, decimal.Decimal)):
        return dec_str(ip, v)
    if getattr(ip.ctx, 'numtext', False) and isinstance(v, (Sym, SInt)):
        t = ip.val(v)
        if ip.branch(is_str(t)):
            return v
        if ip.branch(is_int(t)):
            s = app('STR_INT', [iv(t)], I)
            ip.ctx.fact(z3.And(app('INTOK', [s], B), app('INTOF', [s], I) == iv(t), s != strlit('')))
            ip.world.note('int(str(i)) == i, float(str(f)) == f (or both are NaN)')
            return SStr(s)
        if ip.branch(is_flt(t)):
            s = app('STR_FLT', [fv(t)], I)
            ip.ctx.fact(z3.And(app('FLTOK', [s], B), app('FLT_S', [s], I) == fv(t), s != strlit('')))
            return SStr(s)
    return mkstr(ip, fmt_piece(ip, 's', v))

def dec_str(ip, v):
    """str() of a decimal, and what decimal() makes of it"""
    u = rv(v.t)
    s = app('STR_DEC', [u], I)
    rendered(ip, VStr(s))
    ip.ctx.fact(app('DECOK', [s], B))
    ip.ctx.fact(s != strlit(''))
    back = app('DEC_S', [s], I)
    ip.ctx.fact(ORD(back) == ORD(u))
    ip.ctx.fact(NAN(back) == NAN(u))
    ip.ctx.fact(app('STR_DEC', [back], I) == s)
    ip.ctx.fact(CLS(back) == ip.world.exact[decimal.Decimal])
    ip.ctx.fact(z3.Implies(z3.Not(NAN(u)), VEQ(VRef(back), v.t)))
    ip.world.note('decimal(str(d)) == d for every decimal d that is not a NaN')
    return SStr(s)

@ctor(bool)
def c_bool(ip, args, kw):
    if not args:
        return False
    v = ip.norm(ip.force(args[0]))
    if is_const(v):
        return bool(v)
    f = ip.truth_formula(v)
    return f if isinstance(f, bool) else wrapb(f)

@ctor(list)
def c_list(ip, args, kw):
    if not args:
        return ip.new_list([])
    return LObj(ip.ctx, list, to_segs(ip, ip.iterate(args[0])))

@ctor(tuple)
def c_tuple(ip, args, kw):
    if not args:
        return ()
    segs = to_segs(ip, ip.iterate(args[0]))
    if all(isinstance(s, ItemsSeg) for s in segs):
        return tuple(x for s in segs for x in s.items)
    return LObj(ip.ctx, tuple, segs)

def to_segs(ip, it):
    """a list of the elements; elements that may be skipped need a loop"""
    out = []
    for s in it.segs:
        out.append(s)
    return out

@ctor(dict, OrderedDict)
def c_dict(ip, args, kw, kind=dict):
    d = DObj(ip.ctx, kind)
    if args:
        update(ip, d, args[0])
    for k, x in kw.items():
        if k == '**':
            raise Unsupported('dict(**symbolic)')
        ip.dict_log(d, ('set', k, x))
    return d

@model(dict.__init__)
def m_dict_init(ip, args, kw):
    if kw or len(args) > 2:
        raise Unsupported('dict.__init__')
    if len(args) == 2:
        update(ip, args[0].attrs['__entries__'], args[1])

def c_odict(ip, args, kw):
    return c_dict(ip, args, kw, OrderedDict)
CONSTRUCTORS[OrderedDict] = c_odict

def update(ip, d, src):
    src = ip.norm(ip.force(src))
    if isinstance(src, dict):
        for k, x in src.items():
            ip.dict_log(d, ('set', k, x))
    elif isinstance(src, Sym):
        if not ip.branch(ip.world.has_class(src.t, dict)):
            if ip.branch(z3.Or(is_none(src.t), is_bool(src.t), is_int(src.t), is_flt(src.t))):
                ip.raise_(TypeError, 'not iterable')
            if ip.branch(is_str(src.t)):
                if ip.branch(src.t == VStr(strlit(''))):
                    return
                ip.raise_(ValueError, 'dictionary update sequence')
            if ip.branch(z3.Or(*[ip.world.has_class(src.t, c) for c in (list, tuple, set, frozenset, bytes)])):
                if ip.branch(LEN(rv(src.t)) == 0):
                    return
                if ip.branch(app('PAIRS', [src.t], B)):
                    raise Unsupported('dict() of a sequence of pairs')
                ip.raise_(ValueError, 'dictionary update sequence')
            ip.raise_(TypeError, 'not iterable')
        base_update(ip, d, rv(src.t))
    elif isinstance(src, Inst) and '__entries__' in src.attrs:
        update(ip, d, src.attrs['__entries__'])
    elif isinstance(src, DObj):
        if src.base is not None:
            base_update(ip, d, src.base)
        for e in src.log:
            if e[0] == 'del' and (d.base is not None or len(d.log) > 0) and src.base is None:
                raise Unsupported('update from a dict with removals')
            ip.dict_log(d, e)
    else:
        from .loops import trace_loop
        def body(x):
            k, v = ip.unpack(x, 2)
            need_hashable(ip, k)
            ip.dict_log(d, ('set', k, v))
        frame = Frame(ip.ctx, {})
        ip.loop(ip.iterate(src), body, frame)

def base_update(ip, d, u):
    if d.base is None and not d.log and not ip.ctx.recorders:
        d.base = u
        def undo():
            d.base = None
        ip.ctx.log(undo)
    else:
        ip.dict_log(d, ('update', u))

@ctor(set, frozenset)
def c_set(ip, args, kw):
    s = SObj(ip.ctx)
    if not args:
        return s
    src = ip.norm(ip.force(args[0]))
    if isinstance(src, View) and src.what == 'keys':
        src = src.d
    if isinstance(src, (DObj, dict)) or isinstance(src, Sym) and ip.branch(ip.world.has_class(src.t, dict)):
        # the keys at this moment
        if isinstance(src, DObj):
            c = DObj(ip.ctx, src.kind, src.base)
            c.log = list(src.log)
            src = c
        s.base = ('keys', src)
        return s
    it = ip.iterate(src)
    if all(isinstance(x, ItemsSeg) for x in it.segs):
        for g in it.segs:
            for x in g.items:
                need_hashable(ip, x)
                s.log.append(('add', x))
        return s
    src = LObj(ip.ctx, list, list(it.segs))
    from .loops import exists
    for g in it.segs:
        if isinstance(g, ItemsSeg):
            for x in g.items:
                need_hashable(ip, x)
        elif exists(ip, g, lambda y: ip.branch(unhashable(ip, y))):
            ip.raise_(TypeError, 'unhashable type')
    s.base = ('seq', src)
    return s

@ctor(type)
def c_type(ip, args, kw):
    if len(args) != 1:
        raise Unsupported('type()')
    c = ip.class_of(args[0])
    if c is None:
        raise Unsupported('type of an arbitrary value')
    return c

@ctor(object)
def c_object(ip, args, kw):
    return Inst(ip.ctx, object)

@ctor(property, classmethod, staticmethod)
def c_prop(ip, args, kw):
    raise Unsupported('descriptor')

def b64_encoder(which):
    def m(ip, args, kw):
        t, w = ip.val(args[0]), alphabet(which, args, kw)
        if not ip.branch(ip.world.has_class(t, bytes)):
            ip.raise_(TypeError)
        r = app('B64E' + w, [rv(t)], I)
        ip.ctx.fact(CLS(r) == ip.world.exact[bytes])
        # decoding with the URL-safe alphabet reads both
        for d in {'U', w}:
            ip.ctx.fact(app('B64OK' + d, [VRef(r)], B))
            ip.ctx.fact(app('B64D' + d, [VRef(r)], Val) == t)
            rendered(ip, VRef(r), strlit(d), strlit(d))
        ip.world.note('base64: decoding what was encoded in the same alphabet gives the bytes back')
        return Sym(VRef(r))
    return m

def alphabet(which, args, kw):
    if len(args) > 1 or kw:
        alt = args[1] if len(args) == 2 else kw.get('altchars')
        if which == 'S' and alt == b'-_' and len(args) + len(kw) == 2:
            return 'U'
        if not (which == 'S' and alt is None and len(args) + len(kw) == 2):
            raise Unsupported('base64 arguments')
    return which

def b64_decoder(which):
    def m(ip, args, kw):
        t, w = ip.val(args[0]), alphabet(which, args, kw)
        if not ip.branch(z3.Or(ip.world.has_class(t, bytes), is_str(t))):
            ip.raise_(TypeError)
        readable(ip, t, strlit(w), strlit(w))
        if not ip.branch(app('B64OK' + w, [t], B)):
            ip.raise_(ValueError)
        r = app('B64D' + w, [t], Val)
        ip.ctx.fact(ip.world.has_class(r, bytes))
        return Sym(r)
    return m

model(base64.urlsafe_b64encode)(b64_encoder('U'))
model(base64.b64encode, base64.standard_b64encode)(b64_encoder('S'))
model(base64.urlsafe_b64decode)(b64_decoder('U'))
model(base64.b64decode, base64.standard_b64decode)(b64_decoder('S'))

# ---------------------------------------------------------------- methods
def call_method(ip, o, name, args, kw):
    o = ip.norm(ip.force(o))
    if name == 'object.__init__':
        if isinstance(o, Inst):
            ip.inst_set(o, 'args', tuple(args), record=False)
        return None
    if isinstance(o, View):
        raise Unsupported('method %s of a view' % name)
    if isinstance(o, LObj):
        return list_method(ip, o, name, args, kw)
    if isinstance(o, (DObj, dict)):
        return dict_method(ip, o, name, args, kw)
    if isinstance(o, SObj):
        return set_method(ip, o, name, args, kw)
    if isstr(o):
        return str_method(ip, o, name, args, kw)
    if isinstance(o, tuple):
        if name == 'index' or name == 'count':
            raise Unsupported(name)
    if is_const(o) and all(is_const(a) for a in args) and not kw:
        try:
            return getattr(o, name)(*args)
        except Exception as e:
            ip.raise_(type(e), *e.args)
    if isinstance(o, Sym):
        return sym_method(ip, o, name, args, kw)
    if isinstance(o, Inst) and name in ('with_traceback',):
        return o
    if isinstance(o, type) and name == '__subclasses__':
        raise Unsupported(name)
    raise Unsupported('method %s of %r' % (name, o))

def list_method(ip, o, name, args, kw):
    if name == 'append':
        ip.list_append(o, args[0])
        return None
    if name == 'extend':
        segs = ip.iterate(args[0]).segs
        if all(isinstance(s, ItemsSeg) for s in segs):
            for s in segs:
                for x in s.items:
                    ip.list_append(o, x)
        else:
            ip.list_assign(o, list(o.segs) + list(segs))
        return None
    if name == 'copy':
        return LObj(ip.ctx, list, list(o.segs))
    if name == 'insert' and all(isinstance(s, ItemsSeg) for s in o.segs) and isinstance(args[0], int):
        items = [x for s in o.segs for x in s.items]
        items.insert(args[0], args[1])
        ip.list_assign(o, [ItemsSeg(items)])
        return None
    if name == 'insert' and args[0] == 0:
        ip.list_assign(o, [ItemsSeg([args[1]])] + list(o.segs))
        return None
    if name == 'pop' and all(isinstance(s, ItemsSeg) for s in o.segs):
        items = [x for s in o.segs for x in s.items]
        try:
            r = items.pop(*args)
        except IndexError:
            ip.raise_(IndexError)
        ip.list_assign(o, [ItemsSeg(items)] if items else [])
        return r
    if name == 'pop' and not args and len(o.segs) == 1 and isinstance(o.segs[0], SymSeg):
        n = z3.simplify(o.segs[0].n)
        if not ip.branch(z3.simplify(n > 0)):
            ip.raise_(IndexError)
        at = o.segs[0].at
        r = at(z3.simplify(n - 1))
        ip.list_assign(o, [SymSeg(z3.simplify(n - 1), at, None)])
        return r
    if name in ('sort',) and all(isinstance(s, ItemsSeg) for s in o.segs):
        r = m_sorted(ip, [o], kw)
        ip.list_assign(o, r.segs)
        return None
    if name == 'reverse':
        ip.list_assign(o, m_reversed(ip, [o], {}).segs)
        return None
    raise Unsupported('list method %s' % name)

def dict_method(ip, o, name, args, kw):
    if name in ('items', 'keys', 'values'):
        return View(o, name)
    if name == 'get':
        need_hashable(ip, args[0])
        r = dict_lookup(ip, o, args[0])
        return r[0] if r is not None else (args[1] if len(args) > 1 else None)
    if name == 'copy':
        if isinstance(o, dict):
            return ip.new_dict(o.items())
        d = DObj(ip.ctx, o.kind, o.base)
        d.log = list(o.log)
        return d
    if name == '__contains__':
        return contains(ip, o, args[0])
    if isinstance(o, dict):
        ip.violations.append((o, name))
        raise Unsupported('write to a shared dict')
    if name == 'pop':
        need_hashable(ip, args[0])
        r = dict_lookup(ip, o, args[0])
        if r is None:
            if len(args) > 1:
                return args[1]
            ip.raise_(KeyError, args[0])
        ip.dict_log(o, ('del', args[0]))
        return r[0]
    if name == 'setdefault':
        need_hashable(ip, args[0])
        r = dict_lookup(ip, o, args[0])
        if r is not None:
            return r[0]
        v = args[1] if len(args) > 1 else None
        ip.dict_log(o, ('set', args[0], v))
        return v
    if name == 'update':
        for a in args:
            update(ip, o, a)
        for k, x in kw.items():
            if k == '**':
                update(ip, o, x)
            else:
                ip.dict_log(o, ('set', k, x))
        return None
    if name == 'clear':
        ip.dict_log(o, ('clear',))
        return None
    raise Unsupported('dict method %s' % name)

def set_method(ip, o, name, args, kw):
    if name == 'add':
        need_hashable(ip, args[0])
        ip.set_log(o, ('add', args[0]))
        return None
    if name == 'discard':
        need_hashable(ip, args[0])
        ip.set_log(o, ('discard', args[0]))
        return None
    if name == 'remove':
        need_hashable(ip, args[0])
        if not set_member(ip, o, args[0]):
            ip.raise_(KeyError, args[0])
        ip.set_log(o, ('discard', args[0]))
        return None
    if name == 'copy':
        s = SObj(ip.ctx, o.base)
        s.log = list(o.log)
        return s
    raise Unsupported('set method %s' % name)

def str_method(ip, o, name, args, kw):
    args = [ip.norm(ip.force(a)) for a in args]
    if ip.texts is not None:
        r = ip.texts.method(o, name, args, kw)
        if r is not None:
            return r
    if name in ('strip', 'lstrip', 'rstrip') and getattr(ip, 'documents', None) and not kw and \
            [args] in ([['\r\n']], [['\n']], [[]]):
        for t, doc in ip.documents:
            if isinstance(o, SStr) and o.t is not None and o.t.eq(t) and not isinstance(doc, Inst):
                return o
    if name == 'encode' and getattr(ip.ctx, 'numtext', False):
        if kw or [a for a in args if a not in ('ascii', 'us-ascii', 'utf-8', 'latin-1')]:
            raise Unsupported('encoding as %r' % (args,))
        r = app('TEXT_BYTES', [ip.str_term(o) if isinstance(o, SStr) else strlit(o)], I)
        ip.ctx.fact(CLS(r) == ip.world.exact[bytes])
        return Sym(VRef(r))
    if isinstance(o, str) and all(is_const(a) for a in args) and not kw:
        try:
            r = getattr(o, name)(*args)
        except Exception as e:
            ip.raise_(type(e), *e.args)
        return ip.new_list(r) if isinstance(r, list) else r
    if name == 'format' and isinstance(o, str):
        return str_format(ip, o, args, kw)
    if name == 'join':
        items = ip.iterate(args[0])
        if all(isinstance(s, ItemsSeg) for s in items.segs):
            out, first = [], True
            for s in items.segs:
                for x in s.items:
                    x = ip.norm(ip.force(x))
                    if not first:
                        out.extend(pieces_of(ip, o))
                    first = False
                    if isinstance(x, Sym):
                        if not ip.branch(is_str(x.t)):
                            ip.raise_(TypeError, 'sequence item')
                        x = SStr(sv(x.t))
                    if not isstr(x):
                        ip.raise_(TypeError, 'sequence item')
                    out.extend(pieces_of(ip, x))
            return mkstr(ip, out)
        return SStr(ip.ctx.fresh('joined', I))
    s = ip.str_term(o) if isinstance(o, SStr) else strlit(o)
    if name in ('strip', 'lower', 'upper', 'lstrip', 'rstrip', 'capitalize'):
        r = app('S' + name.upper(), [s] + [ip.val(a) for a in args], I)
        ip.ctx.fact(SLEN(r) >= 0)
        if name.endswith('strip'):
            ip.ctx.fact(SLEN(r) <= SLEN(s))
            ip.ctx.fact(app('S' + name.upper(), [r] + [ip.val(a) for a in args], I) == r)
        else:
            ip.ctx.fact(app('S' + name.upper(), [r], I) == r)
        return SStr(r)
    if name == 'count':
        if not isstr(args[0]):
            ip.raise_(TypeError)
        r = app('SCOUNT', [s, sv(ip.val(args[0]))], I)
        ip.ctx.fact(r >= 0)
        return SInt(r)
    if name == 'replace':
        return str_replace(ip, o, args)
    if name in ('startswith', 'endswith'):
        if isinstance(args[0], str) and len(args[0]) == 1:
            return SBool(z3.And(SLEN(s) >= 1, app('CHAR', [s, z3.IntVal(0 if name == 'startswith' else -1)], I) ==
                strlit(args[0])))
        return SBool(app('S' + name.upper(), [s, ip.val(args[0])], B))
    if name == 'split':
        r = app('SSPLIT', [s] + [ip.val(a) for a in args], I)
        ip.ctx.fact(LEN(r) >= (1 if args else 0))
        ip.ctx.fact(CLS(r) == ip.world.exact[list])
        l = LObj(ip.ctx, list, [SymSeg(LEN(r), lambda i: SStr(app('SPLITAT', [r, i], I)), r)])
        return l
    raise Unsupported('string method %s' % name)

def str_replace(ip, o, args):
    """literal.replace(literal, symbolic)"""
    if isinstance(o, str) and isinstance(args[0], str) and len(args) == 2 and isstr(args[1]):
        parts = o.split(args[0])
        out = [('l', parts[0])]
        for p in parts[1:]:
            out.extend(pieces_of(ip, args[1]))
            out.append(('l', p))
        return mkstr(ip, out)
    s = ip.val(o)
    return SStr(app('SREPLACE', [s] + [ip.val(a) for a in args], I))

def sym_method(ip, v, name, args, kw):
    """method of a value known only as a term"""
    t, u, w = v.t, rv(v.t), ip.world
    B_ = ip.branch
    if B_(z3.simplify(is_str(t))) if name in w.METHODS[str] else False:
        return str_method(ip, SStr(sv(t)), name, args, kw)
    if name in w.METHODS[dict] and B_(w.has_class(t, dict)):
        d = DObj(ip.ctx, dict, u)
        d.serial = -1
        if name in ('items', 'keys', 'values'):
            return View(v, name)
        if name in ('get', 'copy'):
            return dict_method(ip, d, name, args, kw)
        ip.violations.append((v, name))
        raise Unsupported('%s on a symbolic dict' % name)
    if name in w.METHODS[list] and B_(w.has_class(t, list)):
        if name == 'copy':
            return LObj(ip.ctx, list, [symseg(u)])
        ip.violations.append((v, name))
        raise Unsupported('%s on a symbolic list' % name)
    dt, d_, tm = datetime.datetime, datetime.date, datetime.time
    if name in ('strftime', 'isoformat', 'utcoffset', 'date', 'astimezone', 'replace', 'time') and \
            B_(z3.Or(w.has_class(t, d_), w.has_class(t, tm))):
        return temporal_method(ip, v, name, args, kw)
    if name == 'match' and B_(w.has_class(t, re.Pattern)):
        return sym_match(ip, v, args)
    if name in w.METHODS[decimal.Decimal] and B_(w.has_class(t, decimal.Decimal)):
        if name == 'is_nan':
            return SBool(NAN(u))
        return SBool(app('D' + name.upper(), [u], B))
    if name == 'decode' and getattr(ip.ctx, 'numtext', False) and B_(w.has_class(t, bytes)):
        if kw or [a for a in args if a not in ('ascii', 'us-ascii', 'utf-8', 'latin-1')]:
            raise Unsupported('decoding as %r' % (args,))
        s = app('BYTES_TEXT', [u], I)
        ip.ctx.fact(app('TEXT_BYTES', [s], I) == u)
        ip.ctx.fact((s == strlit('')) == (LEN(u) == 0))
        w.note('bytes of ASCII characters: t.encode() is b for t == b.decode()')
        return SStr(s)
    raise Unsupported('method %s of an arbitrary value' % name)

def temporal_method(ip, v, name, args, kw):
    t, u, w = v.t, rv(v.t), ip.world
    isdt = w.has_class(t, datetime.datetime)
    if name == 'utcoffset':
        if ip.branch(AWARE(u)):
            return Sym(VRef(app('UTCOFF', [u], I)))
        return None
    if name == 'date':
        r = app('DATEOF', [u], I)
        ip.ctx.fact(CLS(r) == w.exact[datetime.date])
        return Sym(VRef(r))
    if name == 'strftime':
        # a time of day or date is rendered from its fields; nothing else can fail for the
        # patterns used here
        s = app('STRFTIME', [u, ip.val(args[0])], I)
        strf_facts(ip, v, args[0], s)
        return SStr(s)
    if name == 'isoformat':
        return SStr(app('ISOFORMAT', [u], I))
    if name == 'astimezone':
        tz = ip.val(args[0])
        # the converted instant may be out of range
        over = lambda x, z: app('TZOVERFLOW', [ORD(x), z], B)
        if ip.branch(z3.If(AWARE(u), over(u, tz), app('TZOVERFLOWN', [u, tz], B))):
            ip.raise_(OverflowError)
        if getattr(ip.ctx, 'roundtrip', False):
            # an instant that is written in some zone fits into that zone
            ip.ctx.fact(z3.Implies(AWARE(u), z3.Not(over(u, app('TZ', [u], Val)))))
        r = app('ASTZ', [u, tz], I)
        ip.ctx.fact(CLS(r) == w.exact[datetime.datetime])
        ip.ctx.fact(z3.Implies(AWARE(u), ORD(r) == ORD(u)))
        ip.ctx.fact(AWARE(r))
        if getattr(ip.ctx, 'roundtrip', False):
            ours = lambda z: z3.Or([z == ip.val(x) for x in zones()])
            ip.ctx.fact(z3.Implies(z3.And(AWARE(u), ours(tz), ours(app('TZ', [u], Val))), WHOLE(r) == WHOLE(u)))
            ip.world.note('the offsets of scheme.timezone.UTC and LOCAL are whole seconds, constant over time')
        ip.ctx.fact(app('TZ', [r], Val) == tz)
        ip.ctx.fact(z3.Implies(AWARE(u), VEQ(VRef(r), t)))
        w.note('datetime.astimezone() denotes the same instant')
        return Sym(VRef(r))
    if name == 'replace':
        if args or set(kw) - {'tzinfo'}:
            raise Unsupported('replace of a temporal value')
        tz = ip.val(kw['tzinfo'])
        r = app('REPLTZ', [u, tz], I)
        if getattr(ip.ctx, 'roundtrip', False):
            ip.ctx.fact(WHOLE(r) == WHOLE(u))
        ip.ctx.fact(CLS(r) == w.exact[datetime.datetime])
        ip.ctx.fact(AWARE(r) == z3.Not(is_none(tz)))
        ip.ctx.fact(app('TZ', [r], Val) == tz)
        return Sym(VRef(r))
    raise Unsupported('temporal method %s' % name)

WHOLE = z3.Function('WHOLE', I, B)      # a datetime or time without fractions of a second

def zones():
    m = sys.modules['scheme.timezone']
    return m.UTC, m.LOCAL

def rendering(ip, u, pat):
    """(constructor, first and last strptime field, strptime pattern) of a full rendering of the temporal value u"""
    pat = ip.norm(ip.force(pat))
    if isinstance(pat, str):
        return {'%H:%M:%S': ('TIME', 3, 6, pat)}.get(pat)
    ps = [x for x in pieces_of(ip, pat) if x != ('l', '')] if isinstance(pat, SStr) else []
    if len(ps) == 2 and ps[0][0] == '04d' and ps[1][0] == 'l' and z3.simplify(ps[0][1]).eq(
            z3.simplify(VInt(app('YEAR', [u], I)))):
        return {'-%m-%d': ('DATE', 0, 3, '%Y-%m-%d'), '-%m-%dT%H:%M:%SZ': ('DATETIME', 0, 6, '%Y-%m-%dT%H:%M:%SZ')}.get(ps[1][1])

def strf_facts(ip, v, pat, s):
    """what strptime() makes of the text s that strftime() gave for v"""
    known = getattr(ip.ctx, 'rendered', None)
    if known is None:
        return
    u, w = rv(v.t), ip.world
    how = rendering(ip, u, pat)
    if how is None:
        return
    name, lo, hi, p = how
    text, p = VStr(s), ip.val(p)
    isdt = w.has_class(v.t, datetime.datetime)
    fits = z3.And(w.has_class(v.t, datetime.time), z3.Not(AWARE(u)), WHOLE(u)) if name == 'TIME' else \
        z3.And(w.has_class(v.t, datetime.date), z3.Not(isdt)) if name == 'DATE' else z3.And(isdt, WHOLE(u))
    if not ip.branch(z3.simplify(fits)):
        return
    rendered(ip, text, p)
    R_ = app('STRPTIME', [text, p], I)
    r = app(name, [AT(R_, z3.IntVal(i)) for i in range(lo, hi)], I)
    ip.ctx.fact(app('STRPOK', [text, p], B))
    if name == 'DATETIME':
        r = app('REPLTZ', [r, app('TZ', [u], Val)], I)
        ip.ctx.fact(AWARE(r) == AWARE(u))
    ip.ctx.fact(ORD(r) == ORD(u))
    ip.ctx.fact(WHOLE(r) == WHOLE(u))
    ip.ctx.fact(VEQ(VRef(r), v.t))
    zone = [app('TZ', [u], Val)] if name == 'DATETIME' else []
    ip.ctx.fact(s == app('TEXT_' + name, [ORD(u)] + zone, I))
    w.note('strptime() reads back what strftime() wrote with the year in four digits: the same date, naive time or, in '
        'the same timezone, datetime, in whole seconds')

def rendered(ip, *key):
    known = getattr(ip.ctx, 'rendered', None)
    if known is not None:
        known.append(key)
        ip.ctx.log(lambda: known.pop())

def readable(ip, *key):
    """when reading back: only texts whose rendering is known"""
    known = getattr(ip.ctx, 'rendered', None)
    if known is not None and ip.ctx.roundtrip and not any(all(a.eq(b) for a, b in zip(key, k)) for k in known
            if len(k) == len(key)):
        raise Unsupported('reading a text of unknown rendering')
