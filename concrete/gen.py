"""Seeded generation of schemas (records) and candidate values, biased towards boundaries, towards
values the schema accepts, and towards the constants that occur in /repo's current source."""
import ast
import glob
import random
import string
from base64 import urlsafe_b64encode
from collections import OrderedDict
from datetime import date, datetime, time, timedelta, tzinfo
from decimal import Decimal as decimal

from scheme.timezone import LOCAL, UTC
from concrete.records import Rec, SCALARS, STRUCTURAL, polymorphic, kids

class Offset(tzinfo):
    """a fixed offset; utcoffset is None for none"""
    def __init__(self, minutes):
        self.minutes = minutes
    def __deepcopy__(self, memo):
        return self
    def utcoffset(self, dt):
        return None if self.minutes is None else timedelta(minutes=self.minutes)
    def dst(self, dt):
        return timedelta(0)
    def tzname(self, dt):
        return 'offset'
    def __repr__(self):
        return 'Offset(%r)' % self.minutes

class Once(object):
    """an iterable that is no sequence"""
    def __init__(self, values):
        self.values = values
    def __iter__(self):
        return iter(self.values)

class Thing(object):
    """an object of a foreign class"""
    def __init__(self, **attrs):
        self.__dict__.update(attrs)
    def __repr__(self):
        return 'Thing(%s)' % ', '.join('%s=%r' % x for x in sorted(self.__dict__.items()))

class Odd(object):
    """an object whose comparison and conversion raise"""
    def __eq__(self, other):
        return self is other
    def __hash__(self):
        return 1
    def __int__(self):
        raise KeyError('odd')
    def __float__(self):
        raise OSError('odd')
    def __repr__(self):
        return 'Odd()'

class Spiteful(object):
    """an object with which one can do nothing"""
    def __init__(self, error=ValueError):
        self.__dict__['error'] = error
    def _raise(self, *args):
        raise self.error('spiteful')
    __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __hash__ = __len__ = __iter__ = __bool__ = __int__ = __float__ = \
        __str__ = __getitem__ = __contains__ = __index__ = __add__ = _raise
    def __deepcopy__(self, memo):
        return self
    def __repr__(self):
        return 'Spiteful(%s)' % self.error.__name__

class Text(str):
    pass

class Number(int):
    pass

def harvest():
    """integers and texts that occur as constants in the source under test"""
    ints, texts = set(), set()
    for path in sorted(glob.glob('/repo/scheme/*.py') + glob.glob('/repo/scheme/fields/*.py')):
        try:
            tree = ast.parse(open(path).read())
        except SyntaxError:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                if type(n.value) is int and abs(n.value) < 3000:
                    ints.add(n.value)
                elif isinstance(n.value, str) and 0 < len(n.value) < 12 and ' ' not in n.value:
                    texts.add(n.value)
    return sorted(ints), sorted(texts)

INTS, TEXTS = harvest()
NAMES = ['a', 'b', 'c', 'id', 'name', 'type', 'value', 'x', 'key', 'items', 'keys', 'title', 'default']

# hooks a schema may carry
def pre_same(v):
    return v
def pre_raise(v):
    raise ValueError('preprocessor')
def pre_keyerror(v):
    return {}['missing']
def pre_none(v):
    return None
def pre_text(v):
    return str(v)
def pre_first(v):
    return v[0]
def pre_copy(v):
    return type(v)(v)
def pre_add(v):
    return v + v
def pre_wrap(v):
    return [v]
def pre_upper(v):
    return v.upper()
def pre_reverse(v):
    return v[::-1]
HOOKS = [pre_same, pre_raise, pre_keyerror, pre_none, pre_text, pre_first, pre_copy, pre_add, pre_wrap,
    pre_upper, pre_reverse]

PATTERNS = ['^a', 'a*$', '^[a-z]+$', '.*', r'\d+', '^$', 'ab|b']

class Gen(object):
    def __init__(self, rng, hooks=True, undefined=False, unions=True, names=True, aware_times=True,
                 plain=False, aspects=False, constants=True, constkinds=None):
        self.rng = rng
        self.hooks, self.undefined, self.unions, self.names = hooks, undefined, unions, names
        self.aware_times = aware_times
        self.plain = plain
        self.aspects = aspects
        self.constants = constants
        self.leaves = list(SCALARS)
        self.spite = self.oddkeys = False
        self.fractions = True

    def p(self, x):
        return self.rng.random() < x

    def pick(self, xs):
        return xs[self.rng.randrange(len(xs))]

    # ------------------------------------------------------------ atoms
    def int_(self):
        r = self.rng.randrange(10)
        if r < 5:
            return self.rng.randint(-6, 12)
        if r < 8:
            return self.pick(INTS) + self.rng.randint(-1, 1)
        if r < 9:
            return self.rng.randint(-2000, 2000)
        return self.pick([2 ** 31, -2 ** 31, 2 ** 31 - 1, 2 ** 63, -2 ** 63 - 1, 10 ** 25, 2 ** 53 + 1])

    def float_(self):
        r = self.rng.randrange(10)
        if r < 5:
            return self.rng.randint(-12, 24) / 2.0
        if r < 7:
            return float(self.pick(INTS)) + self.pick([0.0, 0.5, -0.5, 1e-9])
        if r < 8:
            return self.rng.uniform(-100, 100)
        return self.pick([0.0, -0.0, float('inf'), float('-inf'), float('nan'), 1e300, 1e-300, 0.1])

    def decimal_(self):
        r = self.rng.randrange(10)
        if r < 5:
            return decimal(self.rng.randint(-12, 24)) / 2
        if r < 8:
            return decimal('%d.%0*d' % (self.rng.randint(-20, 20), self.rng.randint(1, 4), self.rng.randint(0, 999)))
        return decimal(self.pick(['0', '-0', '1.0', '1.00', 'Infinity', '-Infinity', '1E+30', '1E-30',
            '0.1', '99999999999999999999.99', 'NaN', 'sNaN']))

    def text_(self, n=None):
        r = self.rng.randrange(12)
        if n is None:
            if r == 0:
                return ''
            if r == 1:
                return self.pick(TEXTS)
            if r == 2:
                return self.pick(NAMES)
            if r == 3:
                return self.pick([' ', '\t', '\n', ' a', 'a ', ' a b ', '\u00a0', 'a\n', '\x00', 'a b'])
            if r == 4:
                return self.pick(['\u00e9', '\u4e2d\u6587', '\U0001f600', '%s', '%(x)s', '{}', '${a}', 'None', 'true', '0'])
            n = self.rng.randint(0, 7)
        out = ''.join(self.pick('abcab 01-.:Z_') for _ in range(n))
        if r == 5 and n > 1:
            out = ' ' + out[:-1]
        return out

    def bytes_(self):
        n = self.rng.randint(0, 7)
        return bytes(bytearray(self.rng.randrange(256) for _ in range(n)))

    def date_(self):
        r = self.rng.randrange(10)
        if r < 6:
            return date(2000, 1, 1) + timedelta(days=self.rng.randint(-40, 40))
        if r < 8:
            return date(self.rng.randint(1, 9999), self.rng.randint(1, 12), self.rng.randint(1, 28))
        return self.pick([date.min, date.max, date(999, 12, 31), date(1000, 1, 1), date(2000, 2, 29),
            date(1970, 1, 1), date(99, 1, 2)])

    def zone(self):
        return self.pick([None, None, UTC, UTC, LOCAL, LOCAL, Offset(60), Offset(-300), Offset(1439),
            Offset(-1439), Offset(None)])

    def datetime_(self, whole=None):
        if whole is None:
            whole = not self.fractions or self.p(0.8)
        r = self.rng.randrange(10)
        if r < 6:
            d = datetime(2000, 1, 1) + timedelta(seconds=self.rng.randint(-200000, 200000))
        elif r < 8:
            d = datetime(self.rng.randint(1, 9999), self.rng.randint(1, 12), self.rng.randint(1, 28),
                self.rng.randrange(24), self.rng.randrange(60), self.rng.randrange(60))
        else:
            d = self.pick([datetime(1, 1, 1), datetime(9999, 12, 31, 23, 59, 59), datetime(999, 12, 31, 23, 59, 59),
                datetime(1970, 1, 1), datetime(2000, 2, 29, 12), datetime(1, 1, 1, 12), datetime(9999, 12, 31, 12)])
        if not whole and self.p(0.3):
            d = d.replace(microsecond=self.pick([0, 1, 500000, 999999]))
        return d.replace(tzinfo=self.zone())

    def time_(self, whole=None):
        if whole is None:
            whole = not self.fractions or self.p(0.8)
        t = self.pick([time(0, 0, 0), time(23, 59, 59), time(12, 0, 0), time(0, 0, 1)]) if self.p(0.3) else \
            time(self.rng.randrange(24), self.rng.randrange(60), self.rng.randrange(60))
        if not whole and self.p(0.3):
            t = t.replace(microsecond=self.pick([0, 1, 500000, 999999]))
        if self.aware_times and self.p(0.25):
            t = t.replace(tzinfo=self.pick([UTC, Offset(60), Offset(-300), LOCAL, Offset(None)]))
        return t

    def uuid_(self):
        return '-'.join(''.join(self.pick('0123456789abcdef') for _ in range(n)) for n in (8, 4, 4, 4, 12))

    def token_(self, segments=None):
        n = segments if segments is not None and segments > 0 else self.rng.randint(1, 4)
        def seg():
            a = ''.join(self.pick('ab0_Z-+.') for _ in range(self.rng.randint(0, 3)))
            if not a:
                return self.pick('ab0_')
            return self.pick('ab0_Z') + a + self.pick('ab0_Z')
        return ':'.join(seg() for _ in range(n))

    def native(self, type_):
        """some value of the type of a field type"""
        f = {'integer': self.int_, 'float': self.float_, 'boolean': lambda: self.p(0.5), 'text': self.text_,
            'binary': self.bytes_, 'decimal': self.decimal_, 'date': self.date_, 'datetime': self.datetime_,
            'time': self.time_, 'uuid': self.uuid_, 'token': self.token_}.get(type_)
        return f() if f else self.any(1)

    def any(self, depth=2):
        """any value at all"""
        r = self.rng.randrange(26)
        if r < 3:
            return None
        if r == 3:
            return self.p(0.5)
        if r < 6:
            return self.int_()
        if r == 6:
            return self.float_()
        if r < 9:
            return self.text_()
        if r == 9:
            return self.bytes_()
        if r == 10:
            return self.decimal_()
        if r == 11:
            return self.date_()
        if r == 12:
            return self.datetime_()
        if r == 13:
            return self.time_()
        if r == 14:
            return self.pick([Thing(), Thing(a=1), Odd(), object, len, Text('ab'), Number(3), 1j, range(3),
                bytearray(b'ab'), Ellipsis, frozenset([1]), set(), {1, 2}]
                + ([Spiteful(self.pick([ValueError, TypeError, KeyError, ArithmeticError]))] if self.spite else []))
        if r == 15:
            return self.pick([self.uuid_, self.token_])()
        if r == 16:
            return self.pick(['', (), [], {}, b'', 0, 0.0, False, OrderedDict(), ((),), [[]], [None], [False], {'a': None}])
        if depth <= 0:
            return self.int_()
        if r < 19:
            return [self.any(depth - 1) for _ in range(self.rng.randint(0, 3))]
        if r == 19:
            return tuple(self.any(depth - 1) for _ in range(self.rng.randint(0, 3)))
        if r < 24:
            return dict((self.key_(), self.any(depth - 1)) for _ in range(self.rng.randint(0, 3)))
        x = self.any(depth - 1)
        return [x, x]

    def key_(self):
        r = self.rng.randrange(10)
        if r < 7:
            return self.pick(NAMES)
        return self.pick([1, None, (1, 2), '', 'a.b', 2.5, True, b'a', 'z', 0, ('a',), date(2000, 1, 1)])

    # ------------------------------------------------------------ schemas
    def common(self, r, depth=0):
        if self.p(0.35):
            r.nonnull = self.p(0.6)
        if self.p(0.25):
            r.required = self.p(0.7)
        if self.p(0.12):
            r.nonempty = True
        if self.p(0.15):
            r.ignore_null = True
        if self.names and self.p(0.3):
            r.name = self.pick(NAMES)
        if self.p(0.1):
            r.title = self.text_()
        if self.p(0.05):
            r.description = self.text_()
        if self.p(0.05):
            r.notes = self.text_()
        if self.aspects and self.p(0.3):
            r.aspects = dict((self.pick(['alpha', 'beta', 'gamma']), self.pick([1, 0, 'x', True, False, 'y', [1], 2.5]))
                for _ in range(self.rng.randint(1, 2)))
        if self.hooks and self.p(0.1):
            r.preprocessor = self.pick(HOOKS)
        return r

    def finish(self, r):
        """defaults and constants, once the rest of the record is known"""
        if self.p(0.25):
            r.default = self.value(r) if self.p(0.9) else self.any(1)
        if self.constants and r.type in SCALARS and r.type != 'enumeration' and self.p(0.08):
            r.constant = self.value(r)
        return r

    def bounds(self, r, make):
        k = self.rng.randrange(8)
        if k < 3:
            return
        a, b = make(), make()
        try:
            if self.p(0.85) and b < a:
                a, b = b, a
        except TypeError:
            pass
        if k != 3:
            r.minimum = a
        if k != 4:
            r.maximum = self.pick([a, b, b, b]) if k > 5 else b

    def lengths(self, r):
        if self.p(0.4):
            r.min_length = self.rng.randint(0, 4)
        if self.p(0.4):
            r.max_length = (r.min_length or 0) + self.rng.randint(-1, 4) if self.p(0.9) else self.rng.randint(0, 9)
            r.max_length = max(0, r.max_length)

    def scalar(self, type_=None):
        t = type_ or self.pick(self.leaves)
        r = self.common(Rec(t))
        if t == 'integer':
            self.bounds(r, self.int_)
        elif t == 'float':
            self.bounds(r, lambda: self.float_())
        elif t == 'decimal':
            def make():
                d = self.decimal_()
                while d.is_nan():
                    d = self.decimal_()
                return d
            self.bounds(r, make)
            for k in ('minimum', 'maximum'):
                if r.__dict__.get(k) is not None and self.p(0.3):
                    setattr(r, k, str(getattr(r, k)))
        elif t == 'date':
            self.bounds(r, self.date_)
            for k in ('minimum', 'maximum'):
                if r.__dict__.get(k) is not None and self.p(0.3):
                    setattr(r, k, getattr(r, k).isoformat())
        elif t == 'datetime':
            if self.p(0.5):
                r.utc = self.p(0.8)
            self.bounds(r, lambda: datetime(2000, 1, 1, tzinfo=self.pick([UTC, UTC, LOCAL, Offset(60)])) +
                timedelta(seconds=self.rng.randint(-200000, 200000)))
            for k in ('minimum', 'maximum'):
                v = r.__dict__.get(k)
                if v is not None and self.p(0.3):
                    setattr(r, k, v.astimezone(UTC).strftime('%Y-%m-%dT%H:%M:%SZ'))
                elif v is not None and self.p(0.2):
                    setattr(r, k, v.replace(tzinfo=None))
        elif t == 'time':
            self.bounds(r, self.time_)
            for k in ('minimum', 'maximum'):
                v = r.__dict__.get(k)
                if v is not None and v.tzinfo is None and self.p(0.3):
                    setattr(r, k, v.strftime('%H:%M:%S'))
            a, b = r.__dict__.get('minimum'), r.__dict__.get('maximum')
            if isinstance(a, time) and isinstance(b, time) and (a.utcoffset() is None) != (b.utcoffset() is None):
                r.maximum = None
        elif t == 'text':
            self.lengths(r)
            if self.p(0.25):
                r.strip = self.p(0.2)
            if self.p(0.2):
                r.pattern = self.pick(PATTERNS)
        elif t == 'binary':
            self.lengths(r)
        elif t == 'token':
            if self.p(0.4):
                r.segments = self.rng.randint(0, 4)
        elif t == 'enumeration':
            n = self.rng.randint(1, 4)
            if self.p(0.3):
                r.enumeration = ' '.join(self.pick(NAMES + ['0', '']) for _ in range(n))
            else:
                r.enumeration = [self.pick([self.int_(), self.text_(), 'a', 'b', 0, 1, '', False, True, 1.5, None, (1, 2), [1]])
                    for _ in range(n)]
                if self.p(0.2):
                    r.enumeration = tuple(r.enumeration)
            if self.p(0.3):
                r.ignored_values = self.pick(['', 'none', 'a b', [0], ['', 'a'], [False, 'x'], ['a'], [None], []])
        return self.finish(r)

    def schema(self, depth=2, type_=None):
        if type_ is None:
            if depth <= 0 or self.p(0.35):
                if self.undefined and self.p(0.15):
                    return Rec('undefined')
                return self.scalar()
            type_ = self.pick([t for t in STRUCTURAL if self.unions or t != 'union'])
        if type_ not in STRUCTURAL:
            return self.scalar(type_)
        r = self.common(Rec(type_))
        sub = lambda: self.child(depth - 1)
        if type_ == 'sequence':
            r.item = sub()
            self.lengths(r)
            if self.p(0.3):
                r.unique = True
        elif type_ == 'tuple':
            r.values = [sub() for _ in range(self.rng.randint(1, 3))]
            if self.p(0.5):
                r.values = tuple(r.values)
        elif type_ == 'map':
            r.value = sub()
            if self.p(0.5):
                r.key = self.scalar(self.pick(['text', 'text', 'integer', 'enumeration', 'token', 'date', 'boolean']))
                if self.p(0.2):
                    r.key = self.schema(1, 'tuple')
                elif self.p(0.1):
                    r.key = self.schema(1, self.pick(['sequence', 'union' if self.oddkeys else 'sequence']))
                elif self.oddkeys and self.p(0.1):
                    r.key = self.scalar('field')
                    r.key.preprocessor = self.pick(HOOKS)
            if self.p(0.35):
                if r.key is None or r.key.type == 'text':
                    r.required_keys = self.pick(['a', 'a b', ['a'], ['b', 'c'], ('a', 'id'), []])
                else:
                    r.required_keys = [self.value(r.key) for _ in range(self.rng.randint(1, 2))]
                    r.required_keys = [k for k in r.required_keys if hashable(k)]
        elif type_ == 'union':
            r.fields = [sub() for _ in range(self.rng.randint(1, 3))]
            if self.p(0.5):
                r.fields = tuple(r.fields)
        elif self.p(0.3):
            return self.poly(r, depth)
        else:
            keys = self.rng.sample(NAMES, self.rng.randint(0, 4) if self.p(0.7) else 3)
            r.structure = dict((k, sub()) for k in keys)
            if self.p(0.3):
                r.strict = False
            if keys and self.p(0.2):
                ks = list(keys)
                self.rng.shuffle(ks)
                if self.p(0.15):
                    ks = ks[1:] + ['extra'] if self.p(0.5) else ks[1:] or ks
                r.key_order = ' '.join(ks) if self.p(0.4) else ks
        return self.finish(r)

    def child(self, depth):
        return self.schema(depth)

    def poly(self, r, depth):
        own = self.p(0.3)
        if own:
            ids = self.rng.sample(self.pick([[1, 2, 3], ['x', 'y', 'z'],
                [date(2000, 1, 1), date(1999, 2, 3)], [True, False]]), 2)
            t = {int: 'integer', str: 'token', date: 'date', bool: 'boolean'}[type(ids[0])]
            disc = Rec(t, name=self.pick(['kind', 'type']))
            if self.p(0.5):
                disc.required = True
            if self.p(0.5):
                disc.nonnull = True
        else:
            ids = self.rng.sample(['x', 'y', 'z', 'w'], self.rng.randint(1, 3))
            disc = None
            r.polymorphic_on = self.pick(['kind', 'type'])
        if own:
            r.polymorphic_on = disc
        taken = disc.name if own else r.polymorphic_on
        names = [n for n in NAMES if n != taken]
        base = {}
        for i in ids:
            base[i] = dict((k, self.child(depth - 1)) for k in self.rng.sample(names, self.rng.randint(0, 3)))
        if self.p(0.4):
            base['*'] = dict((k, self.child(depth - 1)) for k in self.rng.sample(names, self.rng.randint(1, 2)))
        polymorphic(r, base, disc)
        for s in r.structure.values():
            s[r.polymorphic_on.name].loose = True
        r.polymorphic_on.loose = True
        if self.p(0.3):
            r.strict = False
        if self.p(0.2):
            ks = sorted(set(k for s in r.structure.values() for k in s))
            self.rng.shuffle(ks)
            r.key_order = ks
        return r

    # ------------------------------------------------------------ values of a schema
    def value(self, r, quality=1.0):
        """a value for the schema: native, mostly valid; quality is the chance that each part is meant
        to be valid"""
        while r.type == 'undefined':
            if r.field is None:
                return self.any(1)
            r = r.field
        if quality < 1 and self.rng.random() > quality:
            return self.bad(r, quality)
        if not (r.nonnull or r.nonempty) and self.p(0.06):
            return None
        if r.constant is not None and self.p(0.8):
            return r.constant
        t = r.type
        if t in ('integer', 'float', 'decimal', 'date', 'datetime', 'time'):
            return self.ranged(r)
        if t == 'text':
            return self.lengthy(r, self.text_, self.text_)
        if t == 'binary':
            return self.lengthy(r, self.bytes_, None)
        if t == 'token':
            return self.token_(r.segments)
        if t == 'enumeration':
            e = r.enumeration.split(' ') if isinstance(r.enumeration, str) else list(r.enumeration)
            return self.pick(e)
        if t in ('boolean', 'uuid'):
            return self.native(t)
        if t == 'sequence':
            lo = r.min_length or 0
            hi = r.max_length if r.max_length is not None else lo + 3
            n = self.rng.randint(lo, max(lo, min(hi, lo + 3)))
            if r.max_length is None and not kids(r.item) and self.p(0.03):
                n = lo + self.rng.randint(30, 150)
                few = [self.value(r.item, quality) for _ in range(self.rng.randint(2, 200))]
                return [self.pick(few) for _ in range(n)] if self.p(0.5) else few[:n]
            out = [self.value(r.item, quality) for _ in range(n)]
            if n > 1 and self.p(0.15):
                out[-1] = out[0]
            return out
        if t == 'tuple':
            out = [self.value(c, quality) for c in r.values]
            return out if self.p(0.3) else tuple(out)
        if t == 'map':
            ks = []
            rk = r.required_keys
            if rk:
                ks = rk.split(' ') if isinstance(rk, str) else list(rk)
                if quality < 1 and self.p(0.3):
                    ks = ks[1:]
            for _ in range(self.rng.randint(0, 3)):
                k = self.value(r.key, quality) if r.key is not None else self.pick(NAMES)
                ks.append(tuple(k) if isinstance(k, list) else k)
            return dict((k, self.value(r.value, quality)) for k in ks if hashable(k))
        if t == 'structure':
            s = r.structure
            out = {}
            if r.polymorphic_on is not None:
                i = self.pick(list(s))
                s = s[i]
                out[r.polymorphic_on.name] = i
            for k, c in s.items():
                if k in out:
                    continue
                required = (c.required or c.nonempty) and c.default is None
                if self.p(0.97 if required and quality == 1 else 0.75):
                    out[k] = self.value(c, quality)
            if (quality < 1 and self.p(0.15)) or (not r.strict and self.p(0.3)):
                out[self.key_() if self.p(0.5) else self.pick(NAMES)] = self.any(1)
            if self.p(0.3):
                ks = list(out)
                self.rng.shuffle(ks)
                out = dict((k, out[k]) for k in ks)
            return out if self.p(0.9) else OrderedDict(out)
        if t == 'union':
            return self.value(self.pick(list(r.fields)), quality)
        return self.any(1)

    def ranged(self, r):
        from contracts import values as V
        conv = {'date': V.as_date, 'time': V.as_time, 'decimal': V.as_decimal}.get(r.type)
        if r.type == 'datetime':
            conv = lambda x: V.as_instant(r, x)
        lo, hi = r.minimum, r.maximum
        if conv:
            lo, hi = conv(lo) if lo is not None else None, conv(hi) if hi is not None else None
        for _ in range(4):
            b = self.pick([x for x in (lo, hi) if x is not None] or [None])
            if b is None:
                v = self.native(r.type)
            elif r.type in ('integer', 'float', 'decimal'):
                k = self.pick([0, 0, 1, -1, 2, -2])
                v = b + k if r.type != 'float' else b + k * self.pick([1.0, 0.5])
                if self.p(0.15):
                    v = self.near(b)
            elif r.type in ('date', 'datetime'):
                try:
                    v = b + timedelta(days=self.pick([0, 0, 1, -1])) + \
                        timedelta(seconds=0 if r.type == 'date' else self.pick([0, 0, 1, -1]))
                    if r.type == 'datetime' and self.fractions and self.p(0.15):
                        v = b + timedelta(microseconds=self.pick([1, -1, 500000, -500000, 999999]))
                except OverflowError:
                    v = b
            else:
                v = self.pick([b, b, self.time_(), b.replace(microsecond=self.pick([0, 1, 500000, 999999]) if self.fractions else 0)])
            try:
                if (lo is None or not v < lo) and (hi is None or not v > hi):
                    break
            except Exception:
                pass
        if r.type == 'date' and self.p(0.15):
            v = datetime(v.year, v.month, v.day, self.rng.randrange(24), tzinfo=self.zone())
        if r.type == 'datetime' and v.tzinfo is not None and self.p(0.2):
            try:
                v = v.astimezone(self.pick([Offset(60), Offset(-300), UTC, LOCAL]))
            except (OverflowError, ValueError):
                pass
        return v

    def near(self, b):
        """a number hardly different from a bound, or its equal of another shape"""
        if isinstance(b, decimal):
            try:
                return b + self.pick([decimal('1E-9'), decimal('-1E-9'), decimal('0.00'), decimal('1E-25'), decimal('-1E-25')])
            except ArithmeticError:
                return b
        if isinstance(b, float):
            return self.pick([b * (1 + 2 ** -52), b * (1 - 2 ** -53), b + 1e-9, b - 1e-9, -b])
        return self.pick([b * 2, -b, b + 2 ** 53, b])

    def lengthy(self, r, make, sized):
        from contracts import values as V
        lo, hi = V.minimum_length(r) or 0, r.max_length
        for _ in range(5):
            n = None
            v = make() if sized is None or self.p(0.3) else sized(self.rng.randint(lo, max(lo, hi if hi is not None else lo + 4)))
            if sized is None and self.p(0.5):
                n = self.rng.randint(lo, max(lo, hi if hi is not None else lo + 4))
                v = bytes(bytearray(self.rng.randrange(256) for _ in range(n)))
            n = len(v.strip()) if r.type == 'text' and r.strip else len(v)
            if n >= lo and (hi is None or n <= hi):
                break
        return v

    def bad(self, r, quality):
        """a value that is probably not valid for the schema"""
        k = self.rng.randrange(10)
        if k < 2:
            return None
        if k < 5 or r.type == 'undefined':
            return self.any(2)
        t = r.type
        if t in ('integer', 'float', 'decimal', 'date', 'datetime', 'time'):
            if k < 8:
                return self.native(t)
            return self.pick([self.p(0.5), self.int_(), self.float_(), self.decimal_(), self.date_(), self.datetime_(), self.time_()])
        if t in ('text', 'token', 'uuid', 'binary'):
            v = self.value(r)
            if isinstance(v, str):
                return self.pick([v + '\n', '\n' + v, v + v, v[1:], v[:-1], v.upper(), v + ':', ':' + v, v.encode('utf-8', 'replace'),
                    v + ' ', v.replace('-', ''), v + 'g', v + '-', v + '.', '-' + v, self.text_(), v * 3, Text(v), v + ':a'])
            if isinstance(v, bytes):
                return self.pick([v + b'a', v[1:], v * 2, bytearray(v), v.decode('latin-1'), b''])
            return v
        if t == 'enumeration':
            return self.pick([self.text_(), self.int_(), 'a', [], {}, 0, False, True, 1])
        if t in ('sequence', 'tuple'):
            v = self.value(r, quality)
            if not isinstance(v, (list, tuple)):
                return v
            return self.pick([tuple(v), list(v), list(v) + list(v), list(v)[1:], list(v)[:-1], list(v) + [None], {}, list(v) + [self.any(1)],
                Once(v), set(x for x in v if hashable(x))])
        if t in ('map', 'structure'):
            v = self.value(r, quality)
            if not isinstance(v, dict):
                return v
            v = dict(v)
            for _ in range(self.rng.randint(1, 2)):
                if v and self.p(0.5):
                    v.pop(self.pick(list(v)))
                else:
                    v[self.key_()] = self.any(1)
            if self.p(0.15):
                return list(v.items())
            return v
        return self.any(2)

    # ------------------------------------------------------------ serialized values
    def serialized(self, r, v):
        """v as a serialized candidate for the schema (best effort)"""
        from contracts import values as V
        while r.type == 'undefined':
            if r.field is None:
                return v
            r = r.field
        t = r.type
        try:
            if t in ('decimal', 'date', 'datetime', 'time', 'binary') and v is not None:
                o = V.validate(r, v)
                if o[0] == 'ok':
                    o = V.serialize(r, o[1])
                    if o[0] == 'ok':
                        s = o[1]
                        if self.p(0.12):
                            if isinstance(s, str):
                                s = self.pick([s + ' ', ' ' + s, s[1:], s[:-1], s.replace('-', '/'), s + '0', s.upper(), s.replace('0', '9', 1),
                                    s.replace('Z', ''), s.encode()])
                            else:
                                s = self.pick([s + b'=', s[1:], s[:-1], s.decode(), s.replace(b'a', b'\xff')])
                        return s
                return v
            if t in ('integer', 'float') and self.p(0.4) and isinstance(v, (int, float)) and not isinstance(v, bool):
                return self.pick([str(v), ' %s ' % v, repr(v) + 'x', float(v), str(v).encode()])
            if t == 'sequence' and isinstance(v, list):
                return [self.serialized(r.item, x) for x in v]
            if t == 'tuple' and isinstance(v, (list, tuple)):
                return type(v)(self.serialized(c, x) for c, x in zip(r.values, v))
            if t == 'map' and isinstance(v, dict):
                return dict((self.serialized(r.key, k) if r.key is not None else k, self.serialized(r.value, x)) for k, x in v.items())
            if t == 'structure' and isinstance(v, dict):
                s = r.structure
                if r.polymorphic_on is not None:
                    s = s.get(v.get(r.polymorphic_on.name)) or {}
                return dict((k, self.serialized(s[k], x) if k in s else x) for k, x in v.items())
            if t == 'union':
                return self.serialized(self.pick(list(r.fields)), v)
        except Exception:
            pass
        return v

def hashable(k):
    try:
        hash(k)
        return True
    except Exception:
        return False
