"""Goals for structured text and URL-encoded data: the real code writes a value and reads the text again.  Items and entries
by induction: a dict or list among them is written as a text that is read as that value.  Regular expressions, str.join and
str.split are known by their contracts on the texts the codec makes."""
from urllib.parse import parse_qsl, urlencode
import z3
from .goals import *
from .goals import GOALS, OBSERVERS, EXPECT
from .interp import Slice
from .loops import seg_parts
from .markup import MarkupObs, body, decided
from .models import isstr, mkstr, pieces_of
from contracts import text as CX

Structured, UrlEncoded = scheme.formats.StructuredText, scheme.formats.UrlEncoded
WRITE = Structured.__dict__['_serialize_content'].__func__
READ = Structured.__dict__['_unserialize_structured_value'].__func__
BRACKETS = r'([{}\[\]])'
ESCAPED = r'\\([{}\[\]])'
STRUCTURES = r'(?:(?<!\\)\{((\\[\\\[\]\{\}])|[^\\{\[\]])*?\})|(?:(?<!\\)\[((\\[\\\[\]\{\}])|[^\\{}\[])*?\])'
KEYWORDS = ('true', 'false', 'null')
APART = ',\\|'              # what texts are free of
KEYED = ',:\\{}[]'          # what names are free of

def free(t, c):
    return app('FREE', [t, strlit(c)], B)

def plain(s):
    """a text the format can carry"""
    low = app('SLOWER', [s], I)
    return z3.And([s != strlit('')] + [free(s, c) for c in APART] + [low != strlit(k) for k in KEYWORDS])

def name(s):
    return z3.And([s != strlit('')] + [free(s, c) for c in KEYED])

def structured(ip, t):
    return z3.And(is_ref(t), z3.Or([CLS(rv(t)) == ip.world.exact[c] for c in (list, dict)]))

def head(t, n):
    """the arguments of an application of the function n, or None"""
    return t.children() if z3.is_app(t) and t.decl().name() == n else None

class Texts(object):
    """the texts of a goal: concatenations of literals, joined lists and terms that are known by what they are made of"""
    def __init__(self, ip):
        self.ip = ip
        self.inner = z3.Const('inner', I)       # the structures replaced so far
        self.documents = []
        self.stage = 0
        self.token = None
        ip.ctx.keyhook = self.found

    # -------------------------------------------------- what texts are made of
    def content(self, x):
        """the text of a dict or list, by induction"""
        t = app('CONTENT', [x], I)
        self.ip.ctx.fact(SLEN(t) >= 2)
        return SStr(t)

    def free(self, p, c):
        """whether a piece of a text is free of a character"""
        if p[0] == 'l':
            return c not in p[1]
        if p[0] != 't':
            return False
        esc = head(p[1], 'ESC')
        if esc is not None:
            return c not in '\\{}[]' and self.ip.ctx.entails(free(esc[0], c))
        if head(p[1], 'TOKEN') is not None:
            return c not in '|0123456789'
        return head(p[1], 'CONTENT') is None and self.ip.ctx.entails(free(p[1], c))

    def filled(self, s):
        """whether a text is not empty"""
        ps = [p for p in s.pieces if p != ('l', '')]
        if len(ps) == 1 and ps[0][0] == 'j':
            n, at = ps[0][4], ps[0][5]
            if self.ip.branch(n == 0):
                return False
            if not self.ip.branch(n == 1):
                return bool(ps[0][3]) or Unsupported('an empty separator')
            return self.ip.truth(self.text(at(z3.IntVal(0))))
        return self.ip.str_term(s) != strlit('')

    def text(self, x):
        x = decided(self.ip, x)
        if isinstance(x, Sym):
            if not self.ip.ctx.entails(is_str(x.t)):
                raise Unsupported('a text that may be none')
            x = SStr(z3.simplify(sv(x.t)))
        if not isstr(x):
            raise Unsupported('a text that is none: %r' % (x,))
        return x

    def char(self, s, i, r):
        """what is known of a character of a text"""
        ctx = self.ip.ctx
        esc, con = head(s, 'ESC'), head(s, 'CONTENT')
        if esc is not None and i == 0:
            for c in '{}[]':
                ctx.fact(r != strlit(c))
        if con is not None and i == 0:
            w = self.ip.world
            ctx.fact(r == z3.If(CLS(rv(con[0])) == w.exact[list], strlit('['), strlit('{')))

    # -------------------------------------------------- methods
    def method(self, o, name, args, kw):
        ip = self.ip
        if name == 'join' and isinstance(o, str) and len(args) == 1 and not kw:
            items = ip.iterate(args[0])
            if all(isinstance(s, ItemsSeg) for s in items.segs):
                return None
            if len(items.segs) != 1 or not isinstance(items.segs[0], SymSeg) and not items.segs[0].always:
                raise Unsupported('joining some of many texts')
            n, at = seg_parts(ip, items.segs[0])
            return SStr(None, [('j', ip.ctx.fresh('joined', I), None, o, n, at)])
        if name == 'split' and isinstance(o, SStr) and args and isinstance(args[0], str) and not kw:
            return self.split(o, *args)
        if name in ('startswith', 'endswith') and isstr(o) and len(args) == 1 and not kw:
            asked = args[0] if isinstance(args[0], tuple) else (args[0],)
            return SBool(z3.simplify(z3.Or([self.begins(o, ip.norm(ip.force(c)), name == 'startswith') for c in asked])))
        if name == 'lower' and isinstance(o, SStr) and not args:
            s = ip.str_term(o)
            r = app('SLOWER', [s], I)
            esc = head(s, 'ESC')
            if esc is None:
                raise Unsupported('the lower case of %s' % s)
            for k in KEYWORDS:
                ip.ctx.fact((r == strlit(k)) == (app('SLOWER', [esc[0]], I) == strlit(k)))
            return SStr(r)
        return None

    def begins(self, o, c, first):
        if isinstance(o, str) and isinstance(c, str):
            return z3.BoolVal(o.startswith(c) if first else o.endswith(c))
        ps = [p for p in pieces_of(self.ip, o) if p != ('l', '')]
        p = ps[0 if first else -1]
        if p[0] == 'l' and isinstance(c, str) and len(p[1]) >= len(c):
            return z3.BoolVal(p[1].startswith(c) if first else p[1].endswith(c))
        if len(ps) > 1 or p[0] != 't' or not first or not isinstance(c, str) or len(c) != 1:
            raise Unsupported('whether %r begins or ends with %r' % (o, c))
        r = app('CHAR', [p[1], z3.IntVal(0)], I)
        self.char(p[1], 0, r)
        return z3.And(SLEN(p[1]) >= 1, r == strlit(c))

    def split(self, o, sep, most=None):
        ip = self.ip
        ps = [p for p in pieces_of(ip, o) if p != ('l', '')]
        if len(ps) == 1 and ps[0][0] == 'j' and ps[0][3] == sep and most is None:
            n, at = ps[0][4:6]
            if ip.branch(n == 0):
                return ip.new_list([''])
            def part(i):
                x = self.text(at(i))
                if not all(self.free(p, c) for p in pieces_of(ip, x) for c in sep):
                    raise Unsupported('a part may hold the separator %r: %r' % (sep, x))
                return x
            return LObj(ip.ctx, list, [SymSeg(n, part)])
        if most == 1 and len(sep) == 1:
            left = []
            for k, p in enumerate(ps):
                if p[0] == 'l' and sep in p[1]:
                    a, b = p[1].split(sep, 1)
                    return ip.new_list([mkstr(ip, left + [('l', a)]), mkstr(ip, [('l', b)] + ps[k + 1:])])
                if not self.free(p, sep):
                    break
                left.append(p)
        raise Unsupported('splitting %r' % (o,))

    def slice(self, o, s):
        ps = [p for p in pieces_of(self.ip, o) if p != ('l', '')]
        lo, hi = s.lo or 0, s.hi
        if s.step is None and isinstance(lo, int) and lo >= 0 and (hi is None or isinstance(hi, int) and hi < 0) and \
                ps[0][0] == 'l' and (len(ps) > 1 and ps[-1][0] == 'l'):
            hi = 0 if hi is None else -hi
            if len(ps[0][1]) >= lo and len(ps[-1][1]) >= hi:
                last = ps[-1][1]
                return mkstr(self.ip, [('l', ps[0][1][lo:])] + ps[1:-1] + [('l', last[:len(last) - hi])])
        raise Unsupported('a slice of %r' % (o,))

    # -------------------------------------------------- regular expressions by their contracts
    def pattern(self, pat, what, args):
        ip = self.ip
        ip.world.note('the regular expressions of the codec: escaping puts a backslash before every bracket, which unescaping '
            'undoes in texts without backslashes; the pattern of structures finds the dicts and lists that hold no other')
        args = [decided(ip, a) for a in args]
        if pat.flags != 32:
            raise Unsupported('flags of a pattern')
        if what == 'sub' and len(args) == 2 and all(isinstance(a, str) for a in args):
            return pat.sub(*args)
        if what == 'sub' and len(args) == 2 and (pat.pattern, args[0]) in ((BRACKETS, r'\\\1'), (ESCAPED, r'\1')):
            t = ip.val(args[1])
            if not ip.branch(is_str(t)):
                ip.raise_(TypeError, 'expected string')
            t = z3.simplify(sv(t))
            if pat.pattern == BRACKETS:
                r = app('ESC', [t], I)
                ip.ctx.fact(SLEN(r) >= z3.If(t == strlit(''), 0, 1))
                ip.ctx.fact((r == strlit('')) == (t == strlit('')))
                return SStr(r)
            esc = head(t, 'ESC')
            if esc is not None and ip.ctx.entails(free(esc[0], '\\')):
                return SStr(esc[0])
            raise Unsupported('unescaping %s' % t)
        if what == 'subn' and pat.pattern == STRUCTURES and len(args) == 2:
            return self.round(args[0], self.text(args[1]))
        raise Unsupported('pattern %r' % pat.pattern)

    def replaced(self, x, i):
        """a part of a text in which the token of a structure stands for it"""
        ip = self.ip
        out = []
        for p in pieces_of(ip, self.text(x)):
            con = head(p[1], 'CONTENT') if p[0] == 't' else None
            if con is not None:
                t = app('TOKEN', [i, con[0]], I)
                ip.ctx.fact(z3.And(t != strlit(''), HAS(self.inner, VStr(t)), GET(self.inner, VStr(t)) == con[0]))
                p = ('t', t)
            out.append(p)
        return mkstr(ip, out)

    def found(self, ip, u, kt):
        """which tokens there are"""
        kt = z3.simplify(kt)
        u = z3.simplify(u)
        if not u.eq(self.inner):
            # its place in the order of the keys
            o = app('ORDERED', [u], I)
            j = KIDX(o, kt)
            ip.ctx.fact(z3.Implies(LEN(o) == LEN(u), z3.And(HAS(o, kt), KEYAT(o, j) == kt, j >= 0, j < LEN(o))))
            ip.ctx.add_index(j)
            return
        s = z3.simplify(sv(kt))
        esc = head(s, 'ESC')
        if z3.is_int_value(s) and '|' not in lit_of(s) or esc is not None and ip.ctx.entails(free(esc[0], '|')):
            ip.ctx.fact(z3.Not(HAS(u, kt)))
            if not ip.ctx.feasible():
                raise Infeasible()
        elif head(s, 'TOKEN') is None:
            raise Unsupported('whether %s is a token' % s)

    def round(self, replace, text):
        """one replacement of all structures that hold no other: in turn the inner ones, the outer one and none"""
        ip = self.ip
        ps = [p for p in pieces_of(ip, text) if p != ('l', '')]
        self.stage += 1
        if self.stage == 1:
            if len(ps) != 3 or ps[1][0] != 'j' or (ps[0], ps[2], ps[1][3]) not in (
                    (('l', '['), ('l', ']'), ','), (('l', '{'), ('l', '}'), ',')):
                raise Unsupported('the structures of %r' % (text,))
            self.inside(replace)
            at = ps[1][5]
            self.flat = SStr(None, [ps[0], ps[1][:5] + (lambda i: self.replaced(at(i), i),), ps[2]])
            n = ip.ctx.fresh('count', I)
            ip.ctx.fact(n >= 1)
            return (self.flat, SInt(n))
        if self.stage == 2 and text is self.flat:
            self.token = self.text(ip.call(replace, [ip.construct(CX.Match, [text], {})], {}))
            return (self.token, 1)
        if self.stage == 3 and ip.ctx.entails(ip.str_term(text) == ip.str_term(self.token)
                if isinstance(self.token, SStr) else z3.BoolVal(text == self.token)):
            return (text, 0)
        raise Unsupported('a replacement in %r' % (text,))

    def inside(self, replace):
        """the inner structures have been replaced: where their values are, tokens and values are arbitrary"""
        ip = self.ip
        mark, log, seen = ip.ctx.counter, ip.dict_log, []
        def watch(d, entry):
            if d.serial <= mark:
                seen.append((d, entry))
            log(d, entry)
        ip.dict_log = watch
        try:
            token = ip.norm(ip.force(ip.call(replace, [ip.construct(CX.Match, ['{}'], {})], {})))
        finally:
            del ip.dict_log
        if len(seen) != 1 or not isinstance(token, str) or seen[0][1][:2] != ('set', token) or \
                not isinstance(ip.norm(ip.force(seen[0][1][2])), DObj):
            raise Unsupported('what replaces a structure: %r, %r' % (token, seen))
        d = seen[0][0]
        if d.base is not None or len(d.log) != 1:
            raise Unsupported('the values of the structures')
        d.log = []
        d.base = self.inner
        ip.ctx.fact(z3.And(LEN(self.inner) >= 0, CLS(self.inner) == ip.world.exact[dict]))
        ip.world.note('structural induction: the inner dicts and lists are replaced by tokens under which their values are '
            'found; that tokens differ from each other is monitored')

@models.model(CX.Match.group)
def m_group(ip, args, kw):
    if kw or [a for a in args[1:] if ip.norm(ip.force(a)) != 0]:
        raise Unsupported('a group of a match')
    return args[0].attrs['text']

@models.model(urlencode)
def m_urlencode(ip, args, kw):
    if kw or len(args) != 1 or ip.texts is None:
        raise Unsupported('options of urlencode')
    pairs = ip.iterate(args[0])
    t = app('URLTEXT', [z3.IntVal(ip.ctx.tick())], I)
    ip.texts.documents.append((t, pairs))
    ip.world.note('parse_qsl reads the names and texts back that urlencode wrote, texts that are empty aside (texts that UTF-8 '
        'can encode)')
    return SStr(t)

@models.model(parse_qsl)
def m_parse_qsl(ip, args, kw):
    v = decided(ip, args[0])
    for t, pairs in ip.texts.documents if ip.texts is not None and len(args) == 1 and not kw else ():
        if isinstance(v, SStr) and v.t is not None and v.t.eq(t):
            if len(pairs.segs) != 1 or not isinstance(pairs.segs[0], SymSeg) and not pairs.segs[0].always:
                raise Unsupported('some of many pairs')
            n, at = seg_parts(ip, pairs.segs[0])
            def pair(i):
                k, x = [ip.texts.text(y) for y in ip.unpack(at(i), 2)]
                if isinstance(x, SStr) and not ip.ctx.entails(ip.str_term(x) != strlit('')) and \
                        head(ip.str_term(x), 'CONTENT') is None or x == '':
                    raise Unsupported('a text that may be empty')
                return (k, x)
            return LObj(ip.ctx, list, [SymSeg(n, pair)])
    raise Unsupported('the parameters of %r' % (v,))

# ---------------------------------------------------------------- the codec by its contract
def write(outer):
    """the call under proof is run, dicts and lists within are known by their contract"""
    state = [not outer]
    def m(ip, args, kw):
        cls, x = args
        if state[0] and not kw:
            t = z3.simplify(ip.val(ip.norm(ip.force(x))))
            if head(t, 'AT') is not None:
                ip.ctx.add_index(t.arg(1))
            if ip.branch(structured(ip, t)):
                return ip.texts.content(t)
        state[0] = True
        return decided(ip, body(ip, WRITE, args, kw))
    return m

def read(ip, args, kw):
    s = ip.texts.text(args[1])
    con = head(ip.str_term(s), 'CONTENT') if isinstance(s, SStr) else None
    if con is None or len(args) > 2 or kw:
        raise Unsupported('reading %r' % (s,))
    return Sym(con[0])

def goal_text(kind):
    def run(ip, obs):
        ctx, w = ip.ctx, ip.world
        ctx.hasuses = True
        ip.texts = Texts(ip)
        v = z3.Const('v', Val)
        u = rv(v)
        def carried(x):
            return z3.Or(is_none(x), is_bool(x), z3.And(is_str(x), plain(sv(x))), structured(ip, x))
        if kind == 'scalar':
            ctx.assume(z3.And(carried(v), z3.Not(is_ref(v))))
        else:
            ctx.assume(z3.And(is_ref(v), CLS(u) == w.exact[list if kind == 'list' else dict], LEN(u) >= 0))
            if kind == 'list':
                ctx.add_univ(z3.IntVal(0), LEN(u), lambda i: carried(AT(u, i)))
            else:
                ctx.add_univ(z3.IntVal(0), LEN(u), lambda i: z3.And(is_str(KEYAT(u, i)), name(sv(KEYAT(u, i))),
                    carried(GET(u, KEYAT(u, i)))))
        if not ctx.feasible():
            raise Infeasible()
        value = Sym(v)
        want = value if kind == 'scalar' else LObj(ctx, list, [symseg(u)]) if kind == 'list' else DObj(ctx, dict, u)
        codec = UrlEncoded if kind == 'urlencoded' else Structured
        ip.overrides = {WRITE: write(kind != 'urlencoded')}
        if kind == 'urlencoded':
            ip.overrides[READ] = read
        ip.events, ip.violations = [], []
        ip.frame_mark = ctx.counter
        r = attempt(ip, lambda: ip.call(ip.getattr_(codec, 'serialize'), [value], {}))
        obs.check('written', r.kind == 'return', '%r' % (r,))
        if r.kind != 'return':
            return
        obs.tag('written')
        x = attempt(ip, lambda: ip.call(ip.getattr_(codec, 'unserialize'), [r.value], {}))
        obs.frame('frame')
        ip.frame_mark = None
        obs.check('read', x.kind == 'return', '%r' % (x,))
        if x.kind == 'return':
            obs.tag('read')
            obs.same('restored', x.value, want)
    return run

for _k in ('scalar', 'list', 'dict', 'urlencoded'):
    GOALS['text.' + _k] = goal_text(_k)
    EXPECT['text.' + _k] = {'written', 'read'}
    OBSERVERS['text.' + _k] = MarkupObs
