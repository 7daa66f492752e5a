"""Reference Cap'n Proto codec, written from the encoding specification; shares no code with capnpy.

 * Obj/layout/encode: turns a model value into a message with ANY legal layout (segments, far pointers, gaps,
   order, truncated or extended structs), every decision drawn from the simulator's choices
 * Reader: strict bounds-checked decoder, which also accounts for every word it visits
"""
import struct

PRIM = {  # name -> (bits, struct code)
    'int8': (8, 'b'), 'int16': (16, 'h'), 'int32': (32, 'i'), 'int64': (64, 'q'),
    'uint8': (8, 'B'), 'uint16': (16, 'H'), 'uint32': (32, 'I'), 'uint64': (64, 'Q'),
    'float32': (32, 'f'), 'float64': (64, 'd'),
}
LSIZE = {'void': 0, 'bool': 1, 'int8': 2, 'uint8': 2, 'int16': 3, 'uint16': 3, 'enum': 3, 'int32': 4, 'uint32': 4,
         'float32': 4, 'int64': 5, 'uint64': 5, 'float64': 5}
LBITS = {0: 0, 1: 1, 2: 8, 3: 16, 4: 32, 5: 64}


class RefError(Exception):
    pass


class T(object):
    """A type: kind in PRIM, 'void', 'bool', 'text', 'utext', 'data', 'enum', 'struct', 'list', 'any'."""
    __slots__ = ('kind', 'elem', 'target')

    def __init__(self, kind, elem=None, target=None):
        self.kind, self.elem, self.target = kind, elem, target

    def is_ptr(self):
        return self.kind in ('text', 'utext', 'data', 'struct', 'list', 'any')

    def __repr__(self):
        if self.kind == 'list':
            return 'List(%r)' % self.elem
        if self.target is not None:
            return '%s:%s' % (self.kind, self.target.name)
        return self.kind


class F(object):
    """A field. kind 'slot' or 'group'."""

    def __init__(self, name, kind, type=None, offset=0, default=None, group=None, disc=None):
        self.name, self.kind, self.type, self.offset = name, kind, type, offset
        self.default, self.group, self.disc = default, group, disc
        self.nullable = False
        self.order = 0
        self.pyname = name

    def __repr__(self):
        return '<F %s %s>' % (self.name, self.type or self.kind)


class S(object):
    """A struct or group definition."""

    def __init__(self, name, data, ptrs):
        self.name, self.data, self.ptrs = name, data, ptrs
        self.fields = []
        self.disc_count = 0
        self.disc_offset = 0   # in 16 bit units
        self.is_group = False
        self.key = None
        self.id = None

    def field(self, name):
        for f in self.fields:
            if f.name == name:
                return f
        raise KeyError(name)

    def plain_fields(self):
        return [f for f in self.fields if f.disc is None]

    def union_fields(self):
        return [f for f in self.fields if f.disc is not None]

    def __repr__(self):
        return '<S %s %d+%d>' % (self.name, self.data, self.ptrs)


class E(object):
    def __init__(self, name, members):
        self.name, self.members = name, members


# ------------------------------------------------------------------------------------------------------------
# encoding: value -> object graph -> layout -> segments

class Obj(object):
    __slots__ = ('words', 'body', 'slots', 'mk', 'seg', 'off', 'depth', 'kind')

    def __init__(self, words, mk, kind):
        self.words = words
        self.body = bytearray(words * 8)
        self.slots = []        # (word index, child Obj)
        self.mk = mk           # offset -> 64 bit pointer to this object
        self.seg = self.off = None
        self.kind = kind


def p_struct(off, data, ptrs):
    return ((off & 0x3fffffff) << 2) | (data << 32) | (ptrs << 48)


def p_list(off, tag, count):
    return 1 | ((off & 0x3fffffff) << 2) | (tag << 32) | (count << 35)


def p_far(double, off, seg):
    return 2 | (4 if double else 0) | (off << 3) | (seg << 32)


EMPTY = object()   # zero-sized struct: encoded in the pointer itself


class Policy(object):
    """How a peer encodes: extra choices. `ch` is the choice source, or None for the canonical compact layout."""

    def __init__(self, ch=None, resize=False, grow=None):
        self.ch = ch
        self.resize = resize   # truncate default words, or (grow) add unknown ones
        self.grow = grow

    def struct_size(self, data, ptrs, used_data, used_ptrs):
        if self.ch is None or not self.resize:
            return data, ptrs
        m = self.ch.rand(4)
        if m == 1:
            return used_data, used_ptrs
        if m == 2:
            return (used_data + self.ch.rand(data - used_data + 1),
                    used_ptrs + self.ch.rand(ptrs - used_ptrs + 1))
        return data, ptrs


def _set_bits(body, bitoff, nbits, raw):
    if nbits == 1:
        if raw:
            body[bitoff >> 3] |= 1 << (bitoff & 7)
        return
    n = nbits // 8
    o = bitoff // 8
    body[o:o + n] = raw


def _raw(t, v):
    if t.kind == 'enum':
        return struct.pack('<H', v & 0xffff)
    bits, code = PRIM[t.kind]
    return struct.pack('<' + code, v)


def _xor(a, b):
    return bytes(bytearray(x ^ y for x, y in zip(a, b)))


class Graph(object):
    def __init__(self, policy):
        self.objs = []
        self.policy = policy

    def new(self, words, mk, kind):
        o = Obj(words, mk, kind)
        self.objs.append(o)
        return o

    def struct_body(self, sd, value):
        """(data bytearray, [child or None])"""
        data = bytearray(sd.data * 8)
        ptrs = [None] * sd.ptrs
        self._fill(sd, value, data, ptrs)
        return data, ptrs

    def _fill(self, sd, value, data, ptrs):
        if sd.disc_count:
            which = value['$which']
            f = sd.field(which)
            struct.pack_into('<H', data, sd.disc_offset * 2, f.disc)
        for f in sd.fields:
            if f.disc is not None and f.name != value['$which']:
                continue
            v = value[f.name]
            if f.kind == 'group':
                if f.nullable:
                    isnull, val = f.group.fields[0], f.group.fields[1]
                    gv = {isnull.name: int(v is None), val.name: v}
                    if v is None:
                        gv[val.name] = None if val.type and val.type.is_ptr() else zero_value(val)
                    v = gv
                self._fill(f.group, v, data, ptrs)
                continue
            t = f.type
            if t.kind == 'void':
                continue
            if t.kind == 'bool':
                _set_bits(data, f.offset, 1, bool(v) != bool(f.default))
            elif t.is_ptr():
                ptrs[f.offset] = self.pointer(t, v)
            else:
                raw = _raw(t, v)
                if f.default:
                    raw = _xor(raw, _raw(t, f.default))
                bits = len(raw) * 8
                _set_bits(data, f.offset * bits, bits, raw)

    def pointer(self, t, v):
        if v is None:
            return None
        k = t.kind
        if k == 'struct':
            return self.struct(t.target, v)
        if k == 'text':
            return self.blob(v + b'\0')
        if k == 'utext':
            return self.blob(v.encode('utf-8') + b'\0')
        if k == 'data':
            return self.blob(v)
        if k == 'list':
            return self.list(t.elem, v)
        if k == 'any':
            return self.pointer(v[0], v[1])
        raise AssertionError(k)

    def blob(self, b):
        o = self.new((len(b) + 7) // 8, lambda off, n=len(b): p_list(off, 2, n), 'blob')
        o.body[:len(b)] = b
        return o

    def struct(self, sd, v):
        data, ptrs = self.struct_body(sd, v)
        ud = len(bytes(data).rstrip(b'\0'))
        ud = (ud + 7) // 8
        up = max([i + 1 for i, p in enumerate(ptrs) if p is not None] or [0])
        nd, np_ = self.policy.struct_size(sd.data, sd.ptrs, ud, up)
        if nd + np_ == 0:
            return EMPTY
        o = self.new(nd + np_, lambda off: p_struct(off, nd, np_), 'struct')
        o.body[:nd * 8] = data[:nd * 8]
        for i, c in enumerate(ptrs[:np_]):
            if c is not None:
                o.slots.append((nd + i, c))
        return o

    def list(self, elem, items):
        n = len(items)
        k = elem.kind
        if k == 'struct':
            sd = elem.target
            bodies = [self.struct_body(sd, v) for v in items]
            ud = max([(len(bytes(d).rstrip(b'\0')) + 7) // 8 for d, _ in bodies] or [0])
            up = max([i + 1 for _, ps in bodies for i, p in enumerate(ps) if p is not None] or [0])
            nd, np_ = self.policy.struct_size(sd.data, sd.ptrs, ud, up)
            w = nd + np_
            o = self.new(1 + w * n, lambda off: p_list(off, 7, w * n), 'clist')
            o.body[0:8] = struct.pack('<Q', p_struct(n, nd, np_))
            for i, (d, ps) in enumerate(bodies):
                base = 1 + i * w
                o.body[base * 8:(base + nd) * 8] = d[:nd * 8]
                for j, c in enumerate(ps[:np_]):
                    if c is not None:
                        o.slots.append((base + nd + j, c))
            return o
        if k in ('text', 'utext', 'data', 'list'):
            o = self.new(n, lambda off: p_list(off, 6, n), 'plist')
            for i, v in enumerate(items):
                c = self.pointer(elem, v)
                if c is not None:
                    o.slots.append((i, c))
            return o
        tag = LSIZE[k]
        bits = LBITS[tag]
        o = self.new((n * bits + 63) // 64, lambda off: p_list(off, tag, n), 'list')
        if k == 'bool':
            for i, v in enumerate(items):
                if v:
                    o.body[i >> 3] |= 1 << (i & 7)
        elif k != 'void':
            raw = b''.join(_raw(elem, v) for v in items)
            o.body[:len(raw)] = raw
        return o


def zero_value(f):
    if f.kind == 'group':
        return default_struct(f.group)
    k = f.type.kind
    if k == 'bool':
        return bool(f.default)
    if k in ('float32', 'float64'):
        return float(f.default or 0)
    if k == 'void' or f.type.is_ptr():
        return None
    return f.default or 0


def default_struct(sd):
    """Value of a struct whose bytes are all zero."""
    v = {}
    if sd.disc_count:
        for f in sd.fields:
            if f.disc == 0:
                v['$which'] = f.name
    for f in sd.fields:
        if f.disc is not None and f.disc != 0:
            continue
        if f.kind == 'group' and f.nullable:
            v[f.name] = zero_value(f.group.fields[1])
        else:
            v[f.name] = zero_value(f)
    return v


class Layout(object):
    """Where the objects go.  style: 'compact' | 'multi'"""

    def __init__(self, ch=None, maxsegs=1, gaps=False, shuffle=False, samefar=False):
        self.ch, self.maxsegs, self.gaps, self.shuffle, self.samefar = ch, maxsegs, gaps, shuffle, samefar

    def run(self, graph, root):
        ch = self.ch
        nseg = 1 if ch is None or self.maxsegs <= 1 else 1 + ch.rand(self.maxsegs)
        segs = [bytearray() for _ in range(nseg)]
        segs[0] += b'\0' * 8
        order = list(graph.objs)
        mode = 1 + ch.rand(3) if ch is not None and self.shuffle and order else 0
        if mode < 3:
            order = self._preorder(root)
            n = len(order)
            # almost in order: the hard cases for code that only looks at some of the objects
            for _ in range(mode and 1 + ch.rand(2)):
                i, j = ch.rand(n), ch.rand(n)
                if mode == 1:
                    order.insert(j, order.pop(i))
                else:
                    order[i], order[j] = order[j], order[i]
        else:
            for i in range(len(order) - 1, 0, -1):
                j = ch.rand(i + 1)
                order[i], order[j] = order[j], order[i]
        # gaps: in many places, or in just one
        gap = ch.rand(len(order) + 1) if self.gaps and ch.rand(2) else None
        for k, o in enumerate(order):
            s = ch.rand(nseg) if nseg > 1 else 0
            if self.gaps and (ch.rand(4) == 1 if gap is None else k == gap):
                segs[s] += b'\xa5' * (8 * (1 + ch.rand(3)))
            o.seg, o.off = s, len(segs[s]) // 8
            segs[s] += o.body
        self.segs = segs
        self.fars = 0
        self.doubles = 0
        self._point(0, 0, root)
        for o in order:
            for w, child in o.slots:
                self._point(o.seg, o.off + w, child)
        # a message may have empty trailing segments
        return [bytes(s) for s in segs]

    def _preorder(self, root):
        res = []
        stack = [root]
        seen = set()
        while stack:
            o = stack.pop()
            if o is None or o is EMPTY or id(o) in seen:
                continue
            seen.add(id(o))
            res.append(o)
            stack.extend(c for _, c in reversed(o.slots))
        return res

    def _put(self, seg, word, p):
        struct.pack_into('<Q', self.segs[seg], word * 8, p)

    def _alloc(self, seg, words):
        off = len(self.segs[seg]) // 8
        self.segs[seg] += b'\0' * (8 * words)
        return off

    def _point(self, seg, word, o):
        if o is None:
            return
        if o is EMPTY:
            self._put(seg, word, p_struct(-1, 0, 0))
            return
        ch = self.ch
        near = (o.seg == seg)
        if near and self.samefar and len(self.segs) > 1 and ch.rand(8) == 1:
            near = False
        if near:
            self._put(seg, word, o.mk(o.off - word - 1))
            return
        self.fars += 1
        if ch.rand(3) == 1:
            # double far: landing pad in any segment
            self.doubles += 1
            s = ch.rand(len(self.segs))
            pad = self._alloc(s, 2)
            self._put(s, pad, p_far(False, o.off, o.seg))
            self._put(s, pad + 1, o.mk(0))
            self._put(seg, word, p_far(True, pad, s))
        else:
            pad = self._alloc(o.seg, 1)
            self._put(o.seg, pad, o.mk(o.off - pad - 1))
            self._put(seg, word, p_far(False, pad, o.seg))


def frame(segs):
    """Stream framing of a message."""
    hdr = struct.pack('<I', len(segs) - 1)
    hdr += b''.join(struct.pack('<I', len(s) // 8) for s in segs)
    if len(hdr) % 8:
        hdr += b'\0' * (8 - len(hdr) % 8)
    return hdr + b''.join(segs)


def encode(sd, value, policy=None, layout=None):
    """Framed message for the value."""
    g = Graph(policy or Policy())
    root = g.struct(sd, value)
    lay = layout or Layout()
    return frame(lay.run(g, root))


# ------------------------------------------------------------------------------------------------------------
# decoding

def unframe(b):
    """Framed message -> list of segments; strict."""
    if len(b) < 8:
        raise RefError('message shorter than a header')
    n = struct.unpack_from('<I', b, 0)[0] + 1
    if n > 512:
        raise RefError('too many segments')
    hl = 4 + 4 * n
    hl += -hl % 8
    if len(b) < hl:
        raise RefError('short header')
    sizes = struct.unpack_from('<%dI' % n, b, 4)
    if len(b) != hl + 8 * sum(sizes):
        raise RefError('header says %d bytes of body, there are %d' % (8 * sum(sizes), len(b) - hl))
    res = []
    pos = hl
    for s in sizes:
        res.append(b[pos:pos + 8 * s])
        pos += 8 * s
    return res


class Reader(object):
    def __init__(self, segs, strict=False):
        self.segs = segs
        self.strict = strict
        self.used = [bytearray(len(s) // 8) for s in segs]
        self.depth = 0

    def word(self, seg, w):
        s = self.segs[seg]
        if w < 0 or (w + 1) * 8 > len(s):
            raise RefError('word %d outside segment %d' % (w, seg))
        return struct.unpack_from('<Q', s, w * 8)[0]

    def claim(self, seg, w, n, what):
        if n == 0:
            return
        u = self.used[seg]
        if w < 0 or w + n > len(u):
            raise RefError('%s at words [%d, %d) outside segment of %d words' % (what, w, w + n, len(u)))
        if self.strict and any(u[w:w + n]):
            raise RefError('%s at words [%d, %d) overlaps another object' % (what, w, w + n))
        for i in range(w, w + n):
            u[i] = 1

    def resolve(self, seg, w):
        """pointer at word w -> None or (tag pointer, target seg, target word)"""
        p = self.word(seg, w)
        if p == 0:
            return None
        kind = p & 3
        if kind == 2:
            tseg = p >> 32
            if tseg >= len(self.segs):
                raise RefError('far pointer to segment %d' % tseg)
            off = (p >> 3) & 0x1fffffff
            if p & 4:
                self.claim(tseg, off, 2, 'double landing pad')
                far = self.word(tseg, off)
                tag = self.word(tseg, off + 1)
                if far & 7 != 2:
                    raise RefError('bad double far landing pad')
                s2 = far >> 32
                if s2 >= len(self.segs):
                    raise RefError('far pointer to segment %d' % s2)
                return tag, s2, (far >> 3) & 0x1fffffff
            self.claim(tseg, off, 1, 'landing pad')
            p = self.word(tseg, off)
            if p & 3 == 2:
                raise RefError('far pointer to far pointer')
            seg, w = tseg, off
            if p == 0:
                return None
        if p & 3 == 3:
            raise RefError('bad pointer kind')
        off = (p >> 2) & 0x3fffffff
        if off >= 1 << 29:
            off -= 1 << 30
        return p, seg, w + 1 + off

    def root(self, sd):
        self.claim(0, 0, 1, 'root pointer')
        return self.struct_at(0, 0, sd)

    def struct_at(self, seg, w, sd):
        r = self.resolve(seg, w)
        if r is None:
            return None
        p, s, o = r
        if p & 3 != 0:
            raise RefError('expected a struct pointer')
        nd, np_ = (p >> 32) & 0xffff, p >> 48
        self.claim(s, o, nd + np_, 'struct')
        return self.struct_body(s, o, nd, np_, sd)

    def struct_body(self, seg, w, nd, np_, sd):
        self.depth += 1
        if self.depth > 200:
            raise RefError('too deep')
        data = self.segs[seg][w * 8:(w + nd) * 8]
        v = self._fields(sd, seg, w + nd, np_, data)
        self.claim_unknown(seg, w + nd, np_, sd)
        self.depth -= 1
        return v

    def claim_unknown(self, seg, pw, np_, sd):
        """account for pointers the schema does not know (newer versions)"""
        known = sd.ptrs
        for i in range(known, np_):
            self.walk_unknown(seg, pw + i)

    def walk_unknown(self, seg, w):
        r = self.resolve(seg, w)
        if r is None:
            return None
        p, s, o = r
        if p & 3 == 0:
            nd, np_ = (p >> 32) & 0xffff, p >> 48
            self.claim(s, o, nd + np_, 'struct')
            return ('S', bytes(self.segs[s][o * 8:(o + nd) * 8]), [self.walk_unknown(s, o + nd + i) for i in range(np_)])
        tag, n = (p >> 32) & 7, p >> 35
        if tag == 7:
            self.claim(s, o, n + 1, 'list')
            t = self.word(s, o)
            cnt, nd, np_ = (t >> 2) & 0x3fffffff, (t >> 32) & 0xffff, t >> 48
            return ('C', [('S', bytes(self.segs[s][(o + 1 + i * (nd + np_)) * 8:(o + 1 + i * (nd + np_) + nd) * 8]),
                           [self.walk_unknown(s, o + 1 + i * (nd + np_) + nd + j) for j in range(np_)])
                          for i in range(cnt)])
        if tag == 6:
            self.claim(s, o, n, 'list')
            return ('P', [self.walk_unknown(s, o + i) for i in range(n)])
        nb = (n * LBITS[tag] + 7) // 8
        self.claim(s, o, (nb + 7) // 8, 'list')
        return ('L', tag, n, bytes(self.segs[s][o * 8:o * 8 + nb]))

    def _fields(self, sd, seg, pw, np_, data):
        v = {}
        which = None
        if sd.disc_count:
            o = sd.disc_offset * 2
            d = struct.unpack_from('<H', data, o)[0] if o + 2 <= len(data) else 0
            for f in sd.fields:
                if f.disc == d:
                    which = f
                    v['$which'] = f.name
            if which is None:
                v['$which'] = d
        for f in sd.fields:
            if f.disc is not None and f is not which:
                continue
            v[f.name] = self._field(f, seg, pw, np_, data)
        return v

    def _field(self, f, seg, pw, np_, data):
        if f.kind == 'group':
            g = self._fields(f.group, seg, pw, np_, data)
            if f.nullable:
                isnull, val = f.group.fields[0], f.group.fields[1]
                return None if g[isnull.name] else g[val.name]
            return g
        t = f.type
        k = t.kind
        if k == 'void':
            return None
        if k == 'bool':
            o = f.offset >> 3
            b = (data[o] >> (f.offset & 7)) & 1 if o < len(data) else 0
            return bool(b) != bool(f.default)
        if t.is_ptr():
            if f.offset >= np_:
                return None
            return self.ptr_at(seg, pw + f.offset, t)
        n, code = (2, 'H') if k == 'enum' else (PRIM[k][0] // 8, PRIM[k][1])
        o = f.offset * n
        raw = bytes(data[o:o + n]) if o + n <= len(data) else b'\0' * n
        if f.default:
            raw = _xor(raw, _raw(t, f.default))
        return struct.unpack('<' + code, raw)[0]

    def ptr_at(self, seg, w, t):
        k = t.kind
        if k == 'struct':
            return self.struct_at(seg, w, t.target)
        if k == 'any':
            return self.walk_unknown(seg, w)
        r = self.resolve(seg, w)
        if r is None:
            return None
        p, s, o = r
        if p & 3 != 1:
            raise RefError('expected a list pointer')
        tag, n = (p >> 32) & 7, p >> 35
        if k in ('text', 'utext', 'data'):
            if tag != 2:
                raise RefError('text with element size %d' % tag)
            nw = (n + 7) // 8
            self.claim(s, o, nw, k)
            b = bytes(self.segs[s][o * 8:o * 8 + n])
            if self.strict and self.segs[s][o * 8 + n:(o + nw) * 8].strip(b'\0'):
                raise RefError('non-zero padding after %s' % k)
            if k == 'data':
                return b
            if not b.endswith(b'\0'):
                raise RefError('text without terminator')
            b = b[:-1]
            return b.decode('utf-8') if k == 'utext' else b
        return self.list_body(p, s, o, t.elem)

    def list_body(self, p, s, o, elem):
        tag, n = (p >> 32) & 7, p >> 35
        k = elem.kind
        if k == 'struct':
            if tag != 7:
                raise RefError('struct list with element size %d' % tag)
            self.claim(s, o, n + 1, 'list')
            t = self.word(s, o)
            cnt, nd, np_ = (t >> 2) & 0x3fffffff, (t >> 32) & 0xffff, t >> 48
            if t & 3 or cnt * (nd + np_) > n:
                raise RefError('bad composite list tag')
            if self.strict and cnt * (nd + np_) != n:
                raise RefError('composite list tag and word count differ')
            return [self.struct_body(s, o + 1 + i * (nd + np_), nd, np_, elem.target) for i in range(cnt)]
        if k in ('text', 'utext', 'data', 'list'):
            if tag != 6:
                if n == 0:
                    return []
                raise RefError('pointer list with element size %d' % tag)
            self.claim(s, o, n, 'list')
            return [self.ptr_at(s, o + i, elem) for i in range(n)]
        want = LSIZE[k]
        if tag != want:
            raise RefError('list of %s with element size %d' % (k, tag))
        bits = LBITS[tag]
        nw = (n * bits + 63) // 64
        self.claim(s, o, nw, 'list')
        data = self.segs[s][o * 8:(o + nw) * 8]
        if k == 'void':
            return [None] * n
        if k == 'bool':
            return [bool((data[i >> 3] >> (i & 7)) & 1) for i in range(n)]
        if self.strict and bytes(data[n * bits // 8:]).strip(b'\0'):
            raise RefError('non-zero padding after a list')
        code = 'H' if k == 'enum' else PRIM[k][1]
        return list(struct.unpack_from('<%d%s' % (n, code), data, 0))

    def uncovered(self):
        return sum(u.count(0) for u in self.used)


def decode(msg, sd, strict=False):
    r = Reader(unframe(msg), strict)
    v = r.root(sd)
    return v, r


# ------------------------------------------------------------------------------------------------------------
# schema: decoded from the CodeGeneratorRequest that `capnp compile -o-` prints (layout of schema.capnp, which is
# part of the Cap'n Proto standard and never changes incompatibly)

class _Raw(object):
    """Untyped struct reader over a Reader."""

    def __init__(self, rd, seg, w, nd, np_):
        self.rd, self.seg, self.w, self.nd, self.np_ = rd, seg, w, nd, np_
        self.data = rd.segs[seg][w * 8:(w + nd) * 8]

    def num(self, code, bit):
        o = bit // 8
        n = struct.calcsize('<' + code)
        if o + n > len(self.data):
            return 0
        return struct.unpack_from('<' + code, self.data, o)[0]

    def bit(self, bit):
        o = bit // 8
        return bool(o < len(self.data) and (bytearray(self.data)[o] >> (bit & 7)) & 1)

    def _res(self, i):
        return self.rd.resolve(self.seg, self.w + self.nd + i) if i < self.np_ else None

    def text(self, i):
        r = self._res(i)
        if r is None:
            return ''
        p, s, o = r
        return bytes(self.rd.segs[s][o * 8:o * 8 + (p >> 35) - 1]).decode('utf-8')

    def struct(self, i):
        r = self._res(i)
        if r is None:
            return _Raw(self.rd, 0, 0, 0, 0)
        p, s, o = r
        return _Raw(self.rd, s, o, (p >> 32) & 0xffff, p >> 48)

    def structs(self, i):
        r = self._res(i)
        if r is None:
            return []
        p, s, o = r
        assert (p >> 32) & 7 == 7
        t = self.rd.word(s, o)
        cnt, nd, np_ = (t >> 2) & 0x3fffffff, (t >> 32) & 0xffff, t >> 48
        return [_Raw(self.rd, s, o + 1 + k * (nd + np_), nd, np_) for k in range(cnt)]


TYPES = ['void', 'bool', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float32',
         'float64', 'text', 'data', 'list', 'enum', 'struct', 'interface', 'any']
ANN_KEY = None


class SchemaSet(object):
    """All the nodes of one CodeGeneratorRequest."""

    def __init__(self, cgr_bytes, annotations):
        """annotations: {annotation id: name} for the $Py annotations we interpret"""
        self.annotations = annotations
        rd = Reader(unframe(cgr_bytes))
        p, s, o = rd.resolve(0, 0)
        req = _Raw(rd, s, o, (p >> 32) & 0xffff, p >> 48)
        self.nodes = {}
        self.structs = {}
        self.enums = {}
        raws = req.structs(0)
        self.requested = [(r.num('Q', 0), r.text(0)) for r in req.structs(1)]
        parent = {}
        names = {}
        for n in raws:
            nid = n.num('Q', 0)
            parent[nid] = n.num('Q', 128)
            names[nid] = n.text(0)[n.num('I', 64):]
            for nn in n.structs(1):
                names[nn.num('Q', 0)] = nn.text(0)
        self.by_id = {}
        defs = []
        for n in raws:
            nid = n.num('Q', 0)
            which = n.num('H', 96)
            if which == 1:
                sd = S(None, n.num('H', 112), n.num('H', 192))
                sd.id = nid
                sd.is_group = n.bit(224)
                sd.disc_count = n.num('H', 240)
                sd.disc_offset = n.num('I', 256)
                self.by_id[nid] = sd
                defs.append((n, sd))
            elif which == 2:
                self.by_id[nid] = E(None, [e.text(0) for e in sorted_by_order(n.structs(3))])
        fileids = set(i for i, w in ((n.num('Q', 0), n.num('H', 96)) for n in raws) if w == 0)
        for n in raws:
            nid = n.num('Q', 0)
            d = self.by_id.get(nid)
            if d is None:
                continue
            parts = [names[nid]]
            q = parent[nid]
            while q and q not in fileids:
                parts.append(names.get(q, '?'))
                q = parent.get(q, 0)
            d.name = '.'.join(reversed(parts))
            d.file = q
            d.scope = parent[nid]
        for n, sd in defs:
            sd.key = self._ann(n.structs(2), 'key')
            sd.unicode = self._unicode(n.structs(2))
        for n, sd in defs:
            for fr in n.structs(3):
                f = self._field(fr, sd)
                sd.fields.append(f)
            sd.fields.sort(key=lambda f: f.order)
        for sd in list(self.by_id.values()):
            if isinstance(sd, S):
                for f in sd.fields:
                    if f.kind == 'group':
                        f.group.parent = sd
        main = self.requested[0][0]
        for nid, d in self.by_id.items():
            if getattr(d, 'file', None) == main:
                if isinstance(d, S) and not d.is_group:
                    self.structs[d.name] = d
                elif isinstance(d, E):
                    self.enums[d.name] = d

    def _ann(self, anns, name):
        for a in anns:
            if self.annotations.get(a.num('Q', 0)) == name:
                v = a.struct(0)
                return v.text(0) if v.num('H', 0) == 12 else True
        return None

    def _unicode(self, anns):
        for a in anns:
            if self.annotations.get(a.num('Q', 0)) == 'options':
                v = a.struct(0)
                opt = v.struct(0)
                # Options: versionCheck bits[0,16) = notset, convertCase, textType @ bits[32,48) = notset(0)
                tt = opt.num('H', 32)
                return {1: False, 2: True}.get(tt)
        return None

    def _type(self, tr, uni):
        k = TYPES[tr.num('H', 0)]
        if k == 'text':
            return T('utext' if uni else 'text')
        if k == 'list':
            return T('list', self._type(tr.struct(0), uni))
        if k in ('enum', 'struct'):
            return T(k, target=self.by_id[tr.num('Q', 64)])
        return T(k)

    def _uni_scope(self, sd):
        d = sd
        while d is not None:
            u = getattr(d, 'unicode', None)
            if u is not None:
                return u
            d = self.by_id.get(getattr(d, 'scope', None))
        return False

    def _field(self, fr, sd):
        name = fr.text(0)
        disc = fr.num('H', 16) ^ 65535
        disc = None if disc == 65535 else disc
        uni = self._unicode(fr.structs(1))
        if uni is None:
            uni = self._uni_scope(sd)
        if fr.num('H', 64) == 1:
            f = F(name, 'group', group=self.by_id[fr.num('Q', 128)], disc=disc)
            f.nullable = self._ann(fr.structs(1), 'nullable') is not None
        else:
            t = self._type(fr.struct(2), uni)
            dv = fr.struct(3)
            f = F(name, 'slot', type=t, offset=fr.num('I', 32), disc=disc)
            k = t.kind
            bit = {'bool': 16, 'int8': 16, 'uint8': 16, 'int16': 16, 'uint16': 16, 'enum': 16, 'int32': 32,
                   'uint32': 32, 'float32': 32, 'int64': 64, 'uint64': 64, 'float64': 64}.get(k)
            if bit is not None:
                f.default = dv.bit(bit) if k == 'bool' else dv.num('H' if k == 'enum' else PRIM[k][1], bit)
        f.order = fr.num('H', 0)
        f.pyname = to_snake(name)
        return f


def sorted_by_order(enumerants):
    return enumerants    # enumerants are listed by ordinal, which is their value


def to_snake(name):
    res = []
    for i, c in enumerate(name):
        if c.isupper():
            res.append('_')
            res.append(c.lower())
        else:
            res.append(c)
    return ''.join(res)
