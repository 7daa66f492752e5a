"""C14: the same program, messages and faults on nodes of every kind; the event logs are compared."""
import io
import os
import pickle
import struct

from dst.scenarios.common import *
from dst.scenarios.c05_corrupt import corrupt
from dst.scenarios.c17_keys import KEYS
from dst import sim as S

RICH = ['Rec', 'Tree', 'Lists', 'Lists', 'Shape', 'Shape', 'Outer', 'Outer', 'Texts', 'Scalars', 'Scalars', 'Named', 'Point',
        'Envelope']
KEYED = ['KInts', 'KMix', 'KUni', 'KNest', 'KNull', 'KOne', 'KChain']


def setup(platform):
    return Ctx(platform, ('rich', 'anyp', 'keyed'))


class Skip(BaseException):
    pass


class Node(object):
    """one flavour of the generated modules, in this process"""

    def __init__(self, mods):
        self.mods = mods
        self.budget = 0

    # ---- canonical form of whatever the library returns
    def canon(self, t, x, depth=0):
        if x is None:
            return None
        k = t.kind
        if k == 'struct':
            return self.read(t.target, x, depth + 1)
        if k == 'list':
            return self.read_list(t.elem, x, depth + 1)
        if k == 'enum':
            return [int(x), type(x).__name__ == t.target.name.split('.')[-1]]
        if k == 'any':
            return self.read_any(x, depth + 1)
        return self.plain(x)

    def plain(self, x):
        if isinstance(x, bool) or x is None:
            return x
        if isinstance(x, float):
            return 'f' + struct.pack('>d', x).hex()
        if isinstance(x, int):
            return int(x)
        if isinstance(x, (bytes, bytearray)):
            return [type(x).__name__, bytes(x).hex()]
        if isinstance(x, str):
            return 'u' + x.encode('utf-8', 'surrogatepass').hex()
        return type(x).__name__

    def attempt(self, fn, *a):
        try:
            return fn(*a)
        except EOFError:
            return '!eof'
        except (RecursionError, MemoryError):
            raise Skip()
        except Exception as e:
            return '!error'

    def read(self, sd, obj, depth=0):
        self.budget -= 1
        if depth > 8 or self.budget < 0:
            return '...'
        res = []
        if sd.disc_count:
            res.append(self.attempt(lambda: int(obj.which())))
            res.append(self.attempt(lambda: str(obj.which())))
        for f in sd.fields:
            if f.disc is not None:
                res.append(self.attempt(lambda: bool(getattr(obj, 'is_' + f.pyname)())))
            res.append(self.attempt(lambda: self.field(f, obj, depth)))
        return res

    def field(self, f, obj, depth):
        x = getattr(obj, values.pyattr(f))
        if f.kind == 'group':
            if f.nullable:
                vf = f.group.fields[1]
                return self.canon(vf.type, x, depth) if vf.kind == 'slot' else self.plain(x)
            return self.read(f.group, x, depth + 1)
        t = f.type
        res = [self.canon(t, x, depth)]
        if t.is_ptr():
            res.append(self.attempt(lambda: bool(getattr(obj, 'has_' + f.pyname)())))
            if x is None and t.kind != 'any':
                res.append(self.attempt(lambda: self.canon(t, getattr(obj, 'get_' + f.pyname)(), depth)))
        return res

    def read_list(self, e, lst, depth):
        n = len(lst)
        if depth > 8:
            return [n]
        return [n] + [self.attempt(lambda: self.canon(e, lst[i], depth)) for i in range(min(n, 12))] + \
            ([self.attempt(lambda: self.canon(e, lst[-1], depth))] if n else [])

    def read_any(self, a, depth):
        T = rc.T
        r = self.mods['rich']
        s = r.schemas
        res = [self.attempt(lambda: bool(a.is_struct())), self.attempt(lambda: bool(a.is_list())),
               self.attempt(lambda: bool(a.is_text()))]
        self.budget -= 2
        if self.budget < 0:
            return res
        res.append(self.attempt(lambda: self.plain(a.as_text_bytes())))
        res.append(self.attempt(lambda: self.plain(a.as_text_unicode())))
        res.append(self.attempt(lambda: self.plain(a.as_data())))
        for n in ('Point', 'Tree', 'Texts'):
            res.append(self.attempt(lambda: self.read(s.structs[n], a.as_struct(r.cls(s.structs[n])), depth)))
        for e in (T('int32'), T('text'), T('bool'), T('float64'), T('list', T('int16')), T('struct', target=s.structs['Named'])):
            res.append(self.attempt(lambda: self.read_list(e, a.as_list(r.item_spec(e)), depth)))
        return res


# ---- arguments that may be wrong ---------------------------------------------------------------------------

def spoil(ch, t, v):
    """an argument that the constructor may refuse"""
    k = ch.rand(12)
    if t.kind in values.RANGE and k < 6:
        lo, hi = values.RANGE[t.kind]
        return ch.pick([lo - 1, hi + 1, -1, 1 << 64, -(1 << 64), (1 << 63), -(1 << 63) - 1, hi])
    if t.kind == 'enum' and k < 4:
        return ch.pick([-1, 0, 4, 5, 100, 0x7fff, 0x8000, 0xffff, 0x10000])
    if t.kind == 'list' and v and k < 5:
        v = list(v)
        i = ch.rand(len(v))
        v[i] = spoil(ch, t.elem, v[i])
        return tuple(v) if ch.rand(2) else v
    if t.kind in ('float32', 'float64') and k < 4:
        return ch.pick([1e39, 1e300, 7, True, 1 << 70])
    if t.kind == 'bool' and k < 4:
        return ch.pick([0, 1, 2, -1, 256, None])
    if t.kind in ('text', 'data') and k < 3:
        return ch.pick([bytearray(b'xy'), memoryview(b'xy'), [1, 2], u'xy'])
    # no floats for integers: the compiled constructors convert them
    return ch.pick([None, u'text', b'bytes', 1.5 if t.kind not in values.RANGE and t.kind != 'enum' else 2, 3, -3, (), [], [1], {}, object, True])


def show(x):
    if isinstance(x, (tuple, list)):
        return [show(y) for y in x]
    return type(x).__name__ if isinstance(x, (memoryview, type)) else repr(x)


def ctor_plan(run, ctx, schema, sd):
    """(value, field to spoil, ...): drawn once, applied by every flavour"""
    ch = run.ch
    g = values.Gen(ch, budget=ch.size(6, 16), only_ctor=True)
    v = g.struct(sd)
    plan = {'v': v, 'spoil': None, 'extra': None, 'drop': None}
    k = ch.rand(3)
    if k:
        names = [f for f in sd.fields if f.kind == 'slot' and values.ctor_ok(f) and f.type.kind != 'void' and
                 (f.disc is None or f.name == v['$which'])]
        if names:
            f = ch.pick(names)
            plan['spoil'] = (f.name, spoil(ch, f.type, v[f.name]))
    x = ch.rand(8)
    if x == 6 and sd.fields:
        plan['drop'] = values.pykw(ch.pick(sd.fields))
    elif x == 7:
        plan['extra'] = (ch.pick(['nosuch', 'which', 'self', 'buf', 'cls'] + [values.pykw(f) for f in sd.fields]),
                         ch.pick([None, 1, b'x']))
    return plan


def construct(mod, sd, plan):
    kw = mod.kwargs(sd, plan['v'])
    if plan['spoil']:
        f = sd.field(plan['spoil'][0])
        kw[values.pykw(f)] = plan['spoil'][1]
    if plan['drop']:
        kw.pop(plan['drop'], None)
    if plan['extra']:
        kw[plan['extra'][0]] = plan['extra'][1]
    return mod.cls(sd)(**kw)


# ---- the program -------------------------------------------------------------------------------------------

def run(run, ctx):
    ch = run.ch
    n = 2
    nodes = []
    for i in range(2):
        nodes.append(Node({s: ctx.mods[s][i] for s in ctx.mods}))
    prog = ch.pick([build, build, conforming, conforming, malformed, malformed, stream, keyed, lists, raw])
    run.state(prog.__name__)
    run.probe(prog.__name__)
    try:
        prog(run, ctx, nodes)
    except Skip:
        raise Discard('recursion or memory limits')


def both(run, nodes, what, fn):
    """the same step on both flavours of the generated modules; they must agree, and the log must on all platforms"""
    res = []
    for nd in nodes:
        nd.budget = 400
        res.append(nd.attempt(fn, nd))
    if res[0] != res[1]:
        raise Violation('flavours-differ', '%s: py module: %s; pyx module: %s' % (what, clip(res[0], res[1]), clip(res[1], res[0])))
    run.log(what, repr(res[0]))
    run.state(what.split(' ')[0], '!error' in repr(res[0]))
    run.steps += 1
    return res[0]


def clip(a, b):
    a, b = repr(a), repr(b)
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return a[max(0, i - 40):i + 80]


def use(run, nodes, what, sd, schema, objs, wellformed=True):
    """drawn operations on the objects (one per flavour)"""
    import capnpy
    ch = run.ch
    get = dict((id(nd), o) for nd, o in zip(nodes, objs))

    def step(name, fn):
        return both(run, nodes, '%s %s' % (name, what), lambda nd: fn(nd, get[id(nd)]))
    step('read', lambda nd, o: nd.read(sd, o))
    ops = ['text', 'dumps', 'slow', 'compact', 'pickle', 'repr', 'misc', 'eq', 'dump', 'rawdump', 'end']
    for _ in range(1 + ch.rand(4)):
        op = ch.pick(ops)
        if op in ('text', 'repr') and not wellformed and not tame(objs[0], sd, 200):
            continue    # a forged list with millions of items
        if op == 'text':
            step('text', lambda nd, o: nd.plain(o.shortrepr()))
        elif op == 'dumps':
            step('dumps', lambda nd, o: nd.plain(capnpy.dumps(o)))
        elif op == 'slow':
            step('slow', lambda nd, o: nd.plain(capnpy.dumps(o, fastpath=False)))
        elif op == 'dump':
            def f(nd, o):
                b = io.BytesIO()
                o.dump(b)
                return nd.plain(b.getvalue())
            step('dump', f)
        elif op == 'compact':
            step('compact', lambda nd, o: [nd.plain(o.compact()._seg.buf), nd.read(sd, o.compact())])
        elif op == 'pickle':
            step('pickle', lambda nd, o: nd.read(sd, pickle.loads(pickle.dumps(o, 2))))
        elif op == 'rawdump':
            step('rawdump', lambda nd, o: nd.read(sd, type(o)._raw_loads(o._raw_dumps())))
        elif op == 'repr':
            step('repr', lambda nd, o: nd.plain(repr(o)))
        elif op == 'eq':
            step('eq', lambda nd, o: [nd.attempt(lambda: bool(o == o)), nd.attempt(lambda: o != o.compact()),
                                      nd.attempt(lambda: o < o), nd.attempt(lambda: o == 3), nd.attempt(lambda: o == (1, 2)),
                                      nd.attempt(lambda: hash(o) == hash(o.compact())), nd.attempt(lambda: o in [o]),
                                      nd.attempt(lambda: o is None or o == None)])
        elif op == 'misc':
            step('misc', lambda nd, o: [nd.attempt(lambda: int(o.which())), nd.attempt(lambda: o.nosuch),
                                        nd.attempt(lambda: len(o)), nd.attempt(lambda: nd.plain(type(o).__name__)),
                                        nd.attempt(lambda: bool(o)), nd.attempt(lambda: o[0])])
        elif op == 'end':
            step('end', lambda nd, o: [nd.attempt(o._get_end), nd.attempt(lambda: bool(o._is_compact()))])


def build(run, ctx, nodes):
    import capnpy
    ch = run.ch
    schema = 'rich' if ch.rand(3) else 'keyed'
    name = ch.pick(RICH + ['Empty'] if schema == 'rich' else KEYED + ['Point', 'Keyed'])
    sd = ctx.sd(name, schema)
    plan = ctor_plan(run, ctx, schema, sd)
    what = '%s %s %s %s' % (name, show(plan['spoil']), show(plan['extra']), plan['drop'])
    objs = []

    def make(nd):
        mod = nd.mods[schema]
        o = construct(mod, sd, plan) if sd.fields else mod.build(sd, plan['v'])
        objs.append(o)
        return nd.plain(o._seg.buf)
    r = both(run, nodes, 'build ' + what, make)
    run.probe('refused' if r == '!error' else 'built')
    if len(objs) == 2:
        use(run, nodes, name, sd, schema, objs)


def wire(run, ctx, schema, name):
    ch = run.ch
    v = gen_value(run, ctx, name, schema, budget=ch.size(8, 24), only_ctor=False,
                  anytypes=any_types(ctx) if schema == 'anyp' else ())
    pol, lay = layout(run)
    return rc.encode(ctx.sd(name, schema), v, pol, lay)


def pick_type(run):
    ch = run.ch
    schema = ch.pick(['rich', 'rich', 'keyed', 'anyp'])
    return schema, 'Any' if schema == 'anyp' else ch.pick(RICH if schema == 'rich' else KEYED + ['Keyed'])


def conforming(run, ctx, nodes):
    load_and_use(run, ctx, nodes, lambda msg: msg)


def malformed(run, ctx, nodes):
    def spoilt(msg):
        ch = run.ch
        if ch.rand(6) == 5:
            k = ch.rand(3)
            if k == 0:
                return msg[:ch.rand(len(msg) + 1)]
            if k == 1:
                return msg + b'\0' * (1 + ch.rand(9))
            i = ch.rand(min(len(msg), 16))
            return msg[:i] + bytes(bytearray([ch.rand(256)])) + msg[i + 1:]
        segs = rc.unframe(msg)
        return rc.frame(corrupt(run, segs))
    load_and_use(run, ctx, nodes, spoilt)


def load_and_use(run, ctx, nodes, change):
    import capnpy
    schema, name = pick_type(run)
    sd = ctx.sd(name, schema)
    msg = change(wire(run, ctx, schema, name))
    objs = []

    def load(nd):
        o = capnpy.loads(msg, nd.mods[schema].cls(sd))
        objs.append(o)
        return 'loaded'
    run.log('message', name, msg.hex() if len(msg) < 600 else len(msg))
    both(run, nodes, 'loads ' + name, load)
    if len(objs) == 2:
        use(run, nodes, name, sd, schema, objs, wellformed=False)


def stream(run, ctx, nodes):
    """a program that reads and writes a faulty connection"""
    import capnpy
    from capnpy.buffered import BufferedSocket
    ch = run.ch
    schema, name = pick_type(run)
    sd = ctx.sd(name, schema)
    data = b''
    for _ in range(1 + ch.rand(3)):
        data += wire(run, ctx, schema, name)
        if ch.rand(3) == 0:
            data += b'line %d\n' % ch.rand(100)
    if ch.rand(3) == 0:
        data = data[:ch.rand(len(data) + 1)]
    ops = [ch.pick(['load', 'load', 'load', 'line', 'read', 'readall', 'write', 'flush', 'dump']) for _ in range(1 + ch.rand(8))]
    sizes = [ch.size(10, 100, 1000) for _ in ops]
    fails = set(ch.rand(30) for _ in range(ch.rand(4)))
    bufsize = 1 + ch.rand(200)
    cuts = [1 + ch.rand(120) for _ in range(6)]
    kind = ch.pick(['socket', 'socket', 'file', 'string'])
    run.log(name, kind, len(data), ops)

    class Sock(object):
        def __init__(self):
            self.pos = self.calls = 0
            self.sent = []

        def fault(self):
            self.calls += 1
            if self.calls in fails:
                raise OSError('injected')

        def recv(self, n):
            self.fault()
            k = min(n, cuts[self.calls % 6])
            r = data[self.pos:self.pos + k]
            self.pos += len(r)
            return r

        def sendall(self, b):
            self.fault()
            self.sent.append(bytes(b))

        def close(self):
            self.sent.append('closed')

    class File(Sock):
        def read(self, n=-1):
            self.fault()
            r = data[self.pos:] if n < 0 else data[self.pos:self.pos + n]
            self.pos += len(r)
            return r

        def readline(self):
            self.fault()
            i = data.find(b'\n', self.pos) + 1 or len(data)
            r = data[self.pos:i]
            self.pos = i
            return r

        def write(self, b):
            self.sent.append(bytes(b))

        def flush(self):
            pass

    def program(nd):
        if kind == 'socket':
            s = Sock()
            f = BufferedSocket(s, bufsize)
        elif kind == 'file':
            s = f = File()
        else:
            s = Sock()
            f = capnpy.buffered.StringBuffer(data)
        cls = nd.mods[schema].cls(sd)
        res = []
        last = None
        for op, size in zip(ops, sizes):
            if op == 'load':
                def one():
                    o = capnpy.load(f, cls)
                    return o, nd.read(sd, o)
                r = nd.attempt(one)
                if isinstance(r, tuple):
                    last, r = r
                res.append(r)
            elif op == 'line':
                res.append(nd.attempt(lambda: nd.plain(f.readline())))
            elif op == 'read':
                res.append(nd.attempt(lambda: nd.plain(f.read(size))))
            elif op == 'readall':
                res.append(nd.attempt(lambda: nd.plain(f.read())))
            elif op == 'write':
                res.append(nd.attempt(lambda: f.write(b'x' * size) and None))
            elif op == 'flush':
                res.append(nd.attempt(lambda: f.flush() and None))
            elif op == 'dump' and last is not None:
                res.append(nd.attempt(lambda: capnpy.dump(last, f) and None))
        return [res, s.calls, s.pos, [x if isinstance(x, str) else x.hex() for x in s.sent]]
    if fails:
        run.fault('transport-error')
    both(run, nodes, 'stream %s' % kind, program)


def keyed(run, ctx, nodes):
    import capnpy
    ch = run.ch
    name = ch.pick(KEYED)
    sd = ctx.sd(name, 'keyed')
    msgs = []
    v = gen_value(run, ctx, name, 'keyed', budget=8)
    for _ in range(2 + ch.rand(3)):
        w = dict(v)
        if ch.rand(2):
            f = ch.pick(sd.fields)
            w[f.name] = values.Gen(ch, budget=4, only_ctor=True).field(f)
        pol, lay = layout(run)
        msgs.append(rc.encode(sd, w, pol, lay))

    def program(nd):
        cls = nd.mods['keyed'].cls(sd)
        objs = [capnpy.loads(m, cls) for m in msgs]
        res = []
        for a in objs:
            res.append(nd.attempt(lambda: a == a._key()))
            res.append(nd.attempt(lambda: hash(a) == hash(a._key())))
            for b in objs:
                res.append(nd.attempt(lambda: bool(a == b)))
                res.append(nd.attempt(lambda: bool(a != b)))
                res.append(nd.attempt(lambda: hash(a) == hash(b)))
        res.append(nd.attempt(lambda: len(set(objs))))
        return res
    both(run, nodes, 'keys ' + name, program)


def lists(run, ctx, nodes):
    import capnpy
    ch = run.ch
    sd = ctx.sd('Lists')
    v = gen_value(run, ctx, 'Lists', budget=20)
    pol, lay = layout(run)
    m1, m2 = rc.encode(sd, v, pol, lay), rc.encode(sd, v)
    f = ch.pick(sd.fields)
    idx = [ch.rand(20) - 10 for _ in range(4)]
    sl = slice(ch.pick([None, 0, 1, -3, 5]), ch.pick([None, 3, -1, 100]), ch.pick([None, 1, 2, -1, 0]))

    def program(nd):
        cls = nd.mods['rich'].cls(sd)
        a, b = capnpy.loads(m1, cls), capnpy.loads(m2, cls)
        x, y = getattr(a, values.pyattr(f)), getattr(b, values.pyattr(f))
        if x is None or y is None:
            return [x is None, y is None]
        e = f.type.elem
        t = f.type
        at = nd.attempt
        return [at(lambda: nd.canon(t, x)), at(lambda: nd.canon(t, y)), at(lambda: len(x)), at(lambda: x == y), at(lambda: x != y),
                at(lambda: x == list(y)), at(lambda: list(x) == y), at(lambda: x < y), at(lambda: hash(x)),
                at(lambda: [nd.canon(e, z) for z in x[sl]]), at(lambda: nd.plain(x.shortrepr())), at(lambda: nd.plain(repr(x))),
                at(lambda: x == 3), at(lambda: x == tuple(y)), at(lambda: bool(x)), at(lambda: y[0] in x), at(lambda: x.index(y[0])),
                at(lambda: [nd.canon(e, z) for z in reversed(x)]), at(lambda: len(pickle.dumps(x))), at(lambda: x['a']),
                at(lambda: x + y), at(lambda: x._get_end() - x._offset)] + \
            [at(lambda: nd.canon(e, x[i])) for i in idx]
    both(run, nodes, 'lists ' + f.name, program)


def raw(run, ctx, nodes):
    """enums, groups, defaults"""
    ch = run.ch
    n = ch.pick([0, 1, 2, 4, 5, 7, 100, -1, 0x7fff, 0x8000, 1 << 20])
    tags = [ch.rand(12) for _ in range(3)]

    def program(nd):
        m = nd.mods['rich'].module
        at = nd.attempt
        e = m.Color
        x = e(n)
        return [at(lambda: int(x)), at(lambda: nd.plain(x.name)), at(lambda: nd.plain(str(x))), at(lambda: nd.plain(repr(x))),
                at(lambda: x == n), at(lambda: hash(x) == hash(n)), at(lambda: int(e.blue)), at(lambda: e('red')), at(lambda: e(None)),
                at(lambda: x + 1), at(lambda: type(x + 0) is int), at(lambda: sorted([e.blue, e.red])[0] == 0),
                at(lambda: nd.plain(m.Outer.Mode(2).name)), at(lambda: e(1.0)), at(lambda: bool(e(n))),
                at(lambda: int(pickle.loads(pickle.dumps(x)))), at(lambda: nd.plain(str(m.Shape.__tag__(n)))),
                at(lambda: [int(y) for y in map(m.Shape.__tag__, tags)])]
    both(run, nodes, 'enum %d' % n, program)
