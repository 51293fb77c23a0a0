"""Goals for CSV: the real code turns a list of structures into rows of texts, and the rows, as a reader of the document
gives them back, into structures.  The csv module is known by its contract (contracts/table.py)."""
import csv
import io
import z3
from .goals import *
from .goals import GOALS, OBSERVERS, EXPECT
from .markup import MarkupObs, TEXTS
from contracts import table as CT

Csv = scheme.formats.Csv
TYPES = {'boolean': is_bool, 'integer': is_int, 'float': is_flt}
GOOD = {'delimiter': ',', 'doublequote': True, 'escapechar': None, 'lineterminator': '\r\n', 'quotechar': '"',
    'quoting': csv.QUOTE_ALL, 'skipinitialspace': False}

# ---------------------------------------------------------------- files and csv by their contract
@models.ctor(io.StringIO)
def c_buffer(ip, args, kw):
    if kw or len(args) > 1:
        raise Unsupported('options of StringIO')
    if not args:
        return ip.construct(CT.Buffer, [], {})
    v = ip.norm(ip.force(args[0]))
    for t, doc in ip.documents:
        if isinstance(v, SStr) and v.t is not None and v.t.eq(t):
            b = ip.construct(CT.Buffer, [], {})
            ip.inst_set(b, 'rows', doc)
            return b
    raise Unsupported('a file of %r' % (v,))

def dialect(d):
    if not isinstance(d, type) or not issubclass(d, csv.Dialect) or \
            [k for k, v in GOOD.items() if type(getattr(d, k)) is not type(v) or getattr(d, k) != v]:
        raise Unsupported('dialect %r' % (d,))

@models.model(csv.writer)
def m_writer(ip, args, kw):
    if kw or len(args) != 2 or not isinstance(args[0], Inst) or args[0].cls is not CT.Buffer:
        raise Unsupported('a writer of csv')
    dialect(args[1])
    return ip.construct(CT.Writer, [args[0].attrs['rows']], {})

@models.model(csv.reader)
def m_reader(ip, args, kw):
    if kw or len(args) != 2 or not isinstance(args[0], Inst) or args[0].cls is not CT.Buffer:
        raise Unsupported('a reader of csv')
    dialect(args[1])
    ip.world.note('csv: rows of texts, at least one each, written with QUOTE_ALL are read back from the file as they were, also '
        'without the line break at the end')
    return ip.construct(CT.Reader, [args[0].attrs['rows']], {})

def getvalue(ip, args, kw):
    b = args[0]
    t = app('CSVTEXT', [z3.IntVal(ip.ctx.tick())], I)
    ip.documents.append((t, LObj(ip.ctx, list, list(b.attrs['rows'].segs))))
    return SStr(t)

def m_getvalue(self):
    pass
CT.Buffer.getvalue = m_getvalue
models.model(m_getvalue)(getvalue)

@models.model(next)
def m_next(ip, args, kw):
    r = args[0]
    if len(args) != 1 or kw or not isinstance(r, Inst) or r.cls is not CT.Reader:
        raise Unsupported('next of %r' % (r,))
    rows = r.attrs['rows']
    if not rows.segs or not isinstance(rows.segs[0], ItemsSeg) or not rows.segs[0].items:
        raise Unsupported('the first of unknown rows')
    items = rows.segs[0].items
    ip.inst_set(r, 'rows', LObj(ip.ctx, list, [ItemsSeg(items[1:])] + rows.segs[1:]))
    return items[0]

# ---------------------------------------------------------------- goals
def structural(f):
    return app('attr_structural', [rv(f)], Val) == VBool(True)

def shaped(ip, x, f):
    """x is a processed value of the field f, or none"""
    t = app('attr_type', [rv(f)], Val)
    w = ip.world
    u = rv(x)
    cases = [z3.And(t == VStr(strlit(k)), p(x)) for k, p in sorted(TYPES.items())]
    cases += [z3.And(t == VStr(strlit('binary')), is_ref(x), CLS(u) == w.exact[bytes])]
    cases += [z3.And(z3.Or([t == VStr(strlit(k)) for k in TEXTS]), is_str(x))]
    return z3.Or(is_none(x), structural(f), z3.Or(cases))

def goal_csv(asked):
    def run(ip, obs):
        ctx, w = ip.ctx, ip.world
        ctx.hasuses = ctx.numtext = ctx.nested = True
        ip.documents = []
        s = z3.Const('structure', I)
        ctx.assume(z3.And(CLS(s) == w.exact[dict], LEN(s) >= 0))
        ctx.add_univ(z3.IntVal(0), LEN(s), lambda i: is_str(KEYAT(s, i)))
        v = z3.Const('v', I)
        ctx.assume(z3.And(z3.Or(CLS(v) == w.exact[list], CLS(v) == w.exact[tuple]), LEN(v) >= 0))
        ctx.add_univ(z3.IntVal(0), LEN(v), lambda i: z3.And(is_ref(AT(v, i)), CLS(rv(AT(v, i))) == w.exact[dict],
            LEN(rv(AT(v, i))) >= 0))
        def keyhook(ip, u, kt):
            u = z3.simplify(u)
            if u.eq(s):
                ip.ctx.fact(w.has_class(GET(s, kt), Field))
            elif u.decl().name() == 'rv' and u.arg(0).decl().name() == 'AT' and u.arg(0).arg(0).eq(v):
                ip.ctx.fact(z3.Implies(HAS(s, kt), shaped(ip, GET(u, kt), GET(s, kt))))
        ctx.keyhook = keyhook
        columns, one = None, z3.Const('one', I)
        if asked:
            c = z3.Const('columns', I)
            ctx.assume(z3.And(CLS(c) == w.exact[list], LEN(c) > 0))
            ctx.add_univ(z3.IntVal(0), LEN(c), lambda i: is_str(AT(c, i)))
            columns, name, n = Sym(VRef(c)), AT(c, one), LEN(c)
        else:
            name, n = KEYAT(app('ORDERED', [s], I), one), LEN(s)
        # some column is selected
        ctx.assume(z3.And(one >= 0, one < n, HAS(s, name), z3.Not(structural(GET(s, name)))))
        ctx.add_index(one)
        item = ip.construct(F.Structure, [{}], {})
        anything(ip, item)
        item.attrs['structure'] = Sym(VRef(s))
        schema = ip.construct(F.Sequence, [item], {})
        anything(ip, schema)
        if not ctx.feasible():
            raise Infeasible()
        value = Sym(VRef(v))
        wanted = ip.call(CT.table, [value, Sym(VRef(s)), columns], {})
        back = ip.call(CT.restored, [value, Sym(VRef(s)), columns], {})
        ip.events, ip.violations = [], []
        ip.frame_mark = ctx.counter
        r = attempt(ip, lambda: ip.call(ip.getattr_(Csv, 'serialize'), [value, schema] + ([columns] if asked else []), {}))
        obs.check('written', r.kind == 'return', '%r' % (r,))
        obs.frame('frame')
        if r.kind != 'return':
            return
        obs.check('written', len(ip.documents) == 1 and r.value is not None, '%r' % (r.value,))
        obs.tag('written')
        part = ctx.choose(2)
        if part == 0:
            obs.same('table', ip.documents[0][1], wanted)
            return
        ip.frame_mark = ctx.counter
        ip.violations = []
        x = attempt(ip, lambda: ip.call(ip.getattr_(Csv, 'unserialize'), [r.value, schema], {}))
        obs.frame('frame')
        ip.frame_mark = None
        obs.check('read', x.kind == 'return', '%r' % (x,))
        if x.kind == 'return':
            obs.tag('read')
            obs.same('restored', x.value, back)
    return run

for _n, _a in (('all', False), ('columns', True)):
    GOALS['csv.' + _n] = goal_csv(_a)
    EXPECT['csv.' + _n] = {'written', 'read'}
    OBSERVERS['csv.' + _n] = MarkupObs
