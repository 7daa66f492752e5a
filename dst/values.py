"""Random model values, construction through the code under test, reading through the code under test."""
import struct
from dst.refcodec import T, PRIM
from dst import refcodec as rc

RANGE = {'int8': (-128, 127), 'int16': (-2 ** 15, 2 ** 15 - 1), 'int32': (-2 ** 31, 2 ** 31 - 1),
         'int64': (-2 ** 63, 2 ** 63 - 1), 'uint8': (0, 255), 'uint16': (0, 2 ** 16 - 1), 'uint32': (0, 2 ** 32 - 1),
         'uint64': (0, 2 ** 64 - 1)}
UCHARS = [u'a', u'z', u'"', u'\\', u"'", u'\n', u'\0', u'\xe0', u'\u20ac', u'\U0001f600', u'7', u' ']


class Gen(object):
    """Generates values of a struct definition.

    budget limits the number of generated nodes; big makes some blobs/lists large (buffer growth, >512 bytes)."""

    maxlist = 9000

    def __init__(self, ch, budget=40, big=False, only_ctor=False, anytypes=()):
        self.ch, self.budget, self.big = ch, budget, big
        self.only_ctor = only_ctor
        self.anytypes = anytypes
        self.depth = 0

    def prim(self, k, ch=None):
        ch = ch or self.ch
        if k in ('float32', 'float64'):
            x = ch.rand(10)
            if x < 4:
                return float(ch.rand(64)) / 4
            if x == 4:
                return -0.0
            if x == 5:
                return float('inf')
            if x == 6:
                return ch.pick([-1.5e9, 0.1, 5e-324, 1e-310, -1.7976931348623157e308, 1e16, 123456789.125] if k == 'float64' else
                               [-1.5e9, 0.10000000149011612, 1.401298464324817e-45, -3.4028234663852886e+38, 16777214.0])
            if k == 'float64':
                return (ch.rand(1 << 30) - (1 << 29)) * 1.0000001e-3
            return struct.unpack('<f', struct.pack('<f', (ch.rand(1 << 20) - (1 << 19)) * 0.37))[0]
        lo, hi = RANGE[k]
        x = ch.rand(10)
        if x == 9:
            # around powers of two, and where the hash of an int wraps around
            if hi >> 62 and ch.rand(3) == 2:
                v = (1 + ch.rand(8)) * ((1 << 61) - 1) + ch.rand(3) - 1
            else:
                v = (1 << ch.rand(hi.bit_length() + 1)) + ch.rand(3) - 1
            v = -v if lo < 0 and ch.rand(2) else v
            return max(lo, min(hi, v))
        if x < 3:
            return ch.rand(min(hi, 99) + 1)
        if x == 3:
            return hi
        if x == 4:
            return lo
        if x == 5:
            return max(lo, -1)
        if x == 6:
            return hi - ch.rand(3)
        return lo + ch.rand(hi - lo + 1)

    def blob(self):
        ch = self.ch
        n = self.length()
        if n > 700:
            return ch.sub().randbytes(n)
        if n == 0:
            return b''
        m = ch.rand(4)
        if m == 0:
            return (b'abcdefghij' * (n // 10 + 1))[:n]
        if m == 1:
            return b'x' * n
        r = ch.sub()
        return bytes(bytearray(r.getrandbits(8) for _ in range(n)))

    def length(self):
        ch = self.ch
        if self.big and ch.rand(6) == 5:
            # more than any buffer on the way holds
            return ch.pick([5000, 8192, 20000, 70000, 140000]) + ch.rand(5000)
        return ch.size(12, 40, 700 if self.big else 60)

    def textbytes(self):
        # Text as bytes: capnpy hands it out uninterpreted; keep it utf-8 so that shortrepr works
        ch = self.ch
        n = self.length()
        if n and ch.rand(4) == 3 and n < 1000:
            r = ch.sub()
            return u''.join(UCHARS[r.randrange(len(UCHARS))] for _ in range(n)).encode('utf-8')
        return (b'qwertyuiopasdf' * (n // 14 + 1))[:n]

    def utext(self):
        ch = self.ch
        n = ch.size(6, 30)
        r = ch.sub()
        return u''.join(UCHARS[r.randrange(len(UCHARS))] for _ in range(n))

    def value(self, t):
        k = t.kind
        ch = self.ch
        if k == 'void':
            return None
        if k == 'bool':
            return bool(ch.rand(2))
        if k == 'enum':
            return ch.rand(len(t.target.members))
        if k in PRIM:
            return self.prim(k)
        self.budget -= 1
        if self.budget < 0 or ch.rand(4) == 0:
            return None
        if k == 'text':
            return self.textbytes()
        if k == 'utext':
            return self.utext()
        if k == 'data':
            return self.blob()
        if k == 'struct':
            return self.struct(t.target)
        if k == 'list':
            return self.list(t.elem)
        if k == 'any':
            if not self.anytypes:
                return None
            at = ch.pick(self.anytypes)
            v = self.value(at)
            return None if v is None else (at, v)
        raise AssertionError(k)

    def list(self, e):
        ch = self.ch
        k = e.kind
        if k in PRIM or k in ('bool', 'enum', 'void'):
            n = ch.size(4, 20, 70, self.maxlist) if self.big else ch.size(4, 20, 70)
            if k == 'void':
                return [None] * n
            if n > 16:
                r = ch.sub()
                if k == 'bool':
                    return [bool(r.getrandbits(1)) for _ in range(n)]
                if k == 'enum':
                    return [r.randrange(len(e.target.members)) for _ in range(n)]
                if k in ('float32', 'float64'):
                    return [float(r.randrange(1 << 16)) / 8 for _ in range(n)]
                lo, hi = RANGE[k]
                return [r.randint(lo, hi) for _ in range(n)]
            return [self.value(e) for _ in range(n)]
        n = ch.size(2, 5, 12, 40 if self.big else 14)
        res = []
        for _ in range(n):
            if k == 'struct':
                self.budget -= 1
                res.append(self.struct(e.target))
            elif k == 'list':
                # a null inner list reads back as an empty one: never generate it
                self.budget -= 1
                res.append(self.list(e.elem) if self.budget > 0 else [])
            else:
                v = self.value(e)
                res.append(v)
        return res

    def struct(self, sd):
        self.depth += 1
        try:
            v = {}
            if self.depth > 12 or self.budget < -60:
                return rc.default_struct(sd)
            if sd.disc_count:
                u = sd.union_fields()
                if self.only_ctor:
                    u = [f for f in u if ctor_ok(f)]
                v['$which'] = self.ch.pick(u).name
            for f in sd.fields:
                if f.disc is not None and f.name != v['$which']:
                    continue
                v[f.name] = self.field(f)
            return v
        finally:
            self.depth -= 1

    def field(self, f):
        if f.kind == 'group':
            if f.nullable:
                if self.ch.rand(3) == 0:
                    return None
                vf = f.group.fields[1]
                v = self.field(vf)
                return v
            return self.struct(f.group)
        if self.only_ctor and not ctor_ok(f):
            return rc.zero_value(f)
        return self.value(f.type)


def ctor_ok(f):
    """can the constructor take this field?"""
    if f.kind == 'group':
        return all(ctor_ok(g) for g in f.group.fields)
    t = f.type
    while t.kind == 'list':
        t = t.elem
        if t.kind in ('bool', 'any'):
            return False
    return t.kind != 'any'


# ------------------------------------------------------------------------------------------------------------

class Mod(object):
    """A loaded schema module of the code under test + the reference schema set."""

    def __init__(self, module, schemas):
        self.module, self.schemas = module, schemas
        self._cls = {}

    def cls(self, sd):
        c = self._cls.get(sd.name)
        if c is None:
            c = self.module
            for p in sd.name.split('.'):
                c = getattr(c, p)
            self._cls[sd.name] = c
        return c

    def enumcls(self, ed):
        return self.cls(ed)

    # ---- building through the constructors
    def build(self, sd, v, wrap=None, seqhook=None):
        """Instance of the class of sd with the value v.  seqhook(list) may wrap every list given to a constructor."""
        if v is None:
            return None
        if not sd.fields:
            return self.cls(sd).from_buffer(b'', 0, 0, 0)    # field-less structs have no constructor of their own
        kw = self.kwargs(sd, v, seqhook)
        if wrap:
            return wrap(self.cls(sd), kw)
        return self.cls(sd)(**kw)

    def kwargs(self, sd, v, seqhook=None):
        kw = {}
        for f in sd.fields:
            if f.disc is not None and f.name != v['$which']:
                continue
            if not ctor_ok(f) or (f.disc is None and f.kind == 'slot' and f.type.kind == 'void'):
                continue
            kw[pykw(f)] = self.arg(sd, f, v[f.name], seqhook)
        return kw

    def arg(self, sd, f, v, seqhook=None):
        if f.kind == 'group':
            if f.nullable:
                return self.conv(f.group.fields[1].type, v, seqhook) if f.group.fields[1].kind == 'slot' else v
            kw = self.kwargs(f.group, v, seqhook)
            if not sd.is_group:
                return getattr(self.cls(sd), kwcap(f))(**kw)
            # the helpers of nested groups are not reachable from the class: a plain tuple does
            assert not f.group.disc_count
            return tuple(kw[pykw(g)] for g in f.group.fields if not (g.kind == 'slot' and g.type.kind == 'void'))
        return self.conv(f.type, v, seqhook)

    def conv(self, t, v, seqhook=None):
        if v is None:
            return None
        k = t.kind
        if k == 'struct':
            return self.build(t.target, v, seqhook=seqhook)
        if k == 'list':
            lst = [self.conv(t.elem, x, seqhook) for x in v]
            return seqhook(t, lst) if seqhook else lst
        if k == 'enum':
            return v
        return v

    # ---- reading through the accessors
    def read(self, obj, sd, full=False):
        """Model value of obj (a struct of the code under test); full=True also cross-checks the other accessors"""
        if obj is None:
            return None
        v = {}
        if sd.disc_count:
            w = obj.which()
            name = None
            for f in sd.union_fields():
                if int(w) == f.disc:
                    name = f.name
            v['$which'] = name if name is not None else int(w)
            if full:
                for f in sd.union_fields():
                    got = getattr(obj, 'is_' + f.pyname)()
                    if bool(got) != (f.name == name):
                        raise Mismatch('is_%s() is %r while which() is %r' % (f.pyname, got, w))
        for f in sd.fields:
            if f.disc is not None and f.name != v['$which']:
                if full:
                    try:
                        getattr(obj, f.pyname)
                    except ValueError:
                        pass
                    else:
                        raise Mismatch('inactive union member %s was readable' % f.pyname)
                continue
            v[f.name] = self.read_field(obj, f, full)
        return v

    def read_field(self, obj, f, full=False):
        x = getattr(obj, pyattr(f))
        if f.kind == 'group':
            if f.nullable:
                vf = f.group.fields[1]
                return None if x is None else (self.from_py(vf.type, x, full) if vf.kind == 'slot' else x)
            return self.read(x, f.group, full)
        t = f.type
        if full and t.is_ptr():
            has = getattr(obj, 'has_' + f.pyname)()
            if bool(has) != (x is not None):
                raise Mismatch('has_%s() is %r but the field is %r' % (f.pyname, has, type(x)))
            if t.kind != 'any':
                g = getattr(obj, 'get_' + f.pyname)()
                if x is None:
                    d = self.from_py(t, g, False)
                    want = rc.default_struct(t.target) if t.kind == 'struct' else \
                        {'text': b'', 'data': b'', 'utext': u'', 'list': []}[t.kind]
                    if not same(d, want):
                        raise Mismatch('get_%s() on null: %s' % (f.pyname, diff(d, want)))
                elif t.kind in ('text', 'data', 'utext') and g != x:
                    raise Mismatch('get_%s() differs from the field' % f.pyname)
        return self.from_py(t, x, full)

    def from_py(self, t, x, full=False):
        if x is None:
            return None
        k = t.kind
        if k == 'struct':
            return self.read(x, t.target, full)
        if k == 'list':
            return self.read_list(t.elem, x, full)
        if k == 'enum':
            return int(x) & 0xffff
        if k == 'any':
            return ('ANY', x)
        if k in ('float32', 'float64'):
            if isinstance(x, bool) or not isinstance(x, (int, float)):
                raise Mismatch('%s came out as %s' % (k, type(x).__name__))
            return float(x)       # a field beyond the data section reads as the integer 0
        if k in ('text', 'data') and not isinstance(x, bytes):
            raise Mismatch('%s came out as %s' % (k, type(x).__name__))
        if k == 'utext' and isinstance(x, bytes):
            raise Mismatch('unicode text came out as bytes')
        if k == 'bool' and x is not True and x is not False:
            raise Mismatch('bool came out as %r' % (x,))
        return x

    def read_list(self, e, lst, full=False):
        n = len(lst)
        if n > 100000:
            raise Mismatch('list of %d items' % n)
        res = [self.from_py(e, lst[i], full) for i in range(n)]
        if full:
            it = [self.from_py(e, x) for x in lst]
            if not same(it, res):
                raise Mismatch('iteration and indexing of a list differ')
            if n:
                if not same(self.from_py(e, lst[-1]), res[-1]):
                    raise Mismatch('lst[-1] differs')
                sl = [self.from_py(e, x) for x in lst[::2]]
                if not same(sl, res[::2]):
                    raise Mismatch('slice of a list differs')
            for bad in (n, -n - 1):
                try:
                    lst[bad]
                except IndexError:
                    pass
                else:
                    raise Mismatch('lst[%d] of %d items was readable' % (bad, n))
        return res

    def read_any(self, anyp, at, full=True):
        """typed read of an any-pointer"""
        k = at.kind
        if full:
            want = {'struct': (True, False, False), 'list': (False, True, at.elem is not None and
                                                             at.elem.kind in ('int8', 'uint8')),
                    'text': (False, True, True), 'utext': (False, True, True), 'data': (False, True, True)}[k]
            got = (bool(anyp.is_struct()), bool(anyp.is_list()), bool(anyp.is_text()))
            if got != want:
                raise Mismatch('any-pointer to %r answers is_struct/is_list/is_text = %r' % (at, got))
        if k == 'struct':
            return self.read(anyp.as_struct(self.cls(at.target)), at.target, full)
        if k == 'text':
            return anyp.as_text_bytes()
        if k == 'utext':
            return anyp.as_text_unicode()
        if k == 'data':
            return anyp.as_data()
        return self.read_list(at.elem, anyp.as_list(self.item_spec(at.elem)), full)

    def item_spec(self, e):
        import capnpy.type
        k = e.kind
        if k == 'text':
            return bytes
        if k == 'utext':
            return type(u'')
        if k == 'struct':
            return self.cls(e.target)
        if k == 'enum':
            return self.cls(e.target)
        if k == 'list':
            return [self.item_spec(e.elem)]
        return getattr(capnpy.type.Types, k)


class Mismatch(Exception):
    pass


def owner(sd):
    while getattr(sd, 'is_group', False):
        sd = sd.parent
    return sd


def kwcap(f):
    return f.pyname.capitalize()


def pykw(f):
    import keyword
    return f.pyname + '_' if keyword.iskeyword(f.pyname) else f.pyname


pyattr = pykw


def same(a, b):
    """deep equality, floats by bits"""
    if isinstance(a, float) and isinstance(b, float):
        return struct.pack('<d', a) == struct.pack('<d', b)
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b or (isinstance(a, bool) and isinstance(b, bool) and a == b)
    return type(a) in (int,) and type(b) in (int,) and a == b or (type(a) == type(b) and a == b)


def diff(a, b, path=''):
    """first difference, for messages"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return '%s.%s only on one side' % (path, k)
            if not same(a[k], b[k]):
                return diff(a[k], b[k], '%s.%s' % (path, k))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '%s: %d items vs %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return diff(x, y, '%s[%d]' % (path, i))
    ra, rb = repr(a), repr(b)
    return '%s: %s vs expected %s' % (path or 'value', ra[:120], rb[:120])


def strip_any(sd, v):
    """replace any-pointer fields by a marker of presence (they are compared separately)"""
    if v is None:
        return None
    res = {}
    for k, x in v.items():
        if k == '$which':
            res[k] = x
            continue
        f = sd.field(k)
        res[k] = _strip_f(f, x)
    return res


def _strip_f(f, x):
    if f.kind == 'group':
        return x if f.nullable else strip_any(f.group, x)
    return _strip_t(f.type, x)


def _strip_t(t, x):
    if x is None:
        return None
    if t.kind == 'any':
        return 'ANY'
    if t.kind == 'struct':
        return strip_any(t.target, x)
    if t.kind == 'list':
        return [_strip_t(t.elem, y) for y in x]
    return x


def shape_key(v):
    """coarse shape of a value, for coverage counting"""
    if isinstance(v, dict):
        return tuple(sorted((k, shape_key(x)) for k, x in v.items() if x not in (None, 0, False)))
    if isinstance(v, (list, tuple)):
        return ('L', min(len(v), 4))
    if isinstance(v, (bytes, str)):
        return ('B', min(len(v) // 8, 3))
    return 0
