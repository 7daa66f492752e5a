"""C13: a cluster of nodes which run different versions of one schema, exchange, relay, store, copy and recombine each
other's records, while nodes are upgraded, rolled back and restarted."""
import io
import pickle

from dst.scenarios.common import *

NV = 3
TYPES = ['Sub', 'Leaf', 'Named', 'Choice', 'Item', 'Box', 'Extra']


def setup(platform):
    return Ctx(platform, ('evo1', 'evo2', 'evo3'))


class Ver(object):
    """a struct value in terms of the version that wrote it"""
    __slots__ = ('sd', 'v')

    def __init__(self, sd, v):
        self.sd, self.v = sd, v


def adapt(x, sdw, sdr):
    """what a reader with the schema sdr must see of the value x (in terms of sdw)"""
    if x is None:
        return None
    if isinstance(x, Ver):
        return adapt(x.v, x.sd, sdr)
    res = {}
    if sdr.disc_count:
        if sdw.disc_count:
            w = x['$which']
            fw = sdw.field(w) if not isinstance(w, int) else None
            d = fw.disc if fw is not None else w
        else:
            d = 0
        res['$which'] = d
        for f in sdr.union_fields():
            if f.disc == d:
                res['$which'] = f.name
    defaults = rc.default_struct(sdr)
    for f in sdr.fields:
        if f.disc is not None and f.name != res['$which']:
            continue
        try:
            fw = sdw.field(f.name)
        except KeyError:
            res[f.name] = defaults[f.name] if f.name in defaults else rc.zero_value(f)
            continue
        res[f.name] = adapt_field(x[f.name], fw, f)
    return res


def adapt_field(x, fw, fr):
    if fr.kind == 'group':
        if fr.nullable:
            return x
        return adapt(x, fw.group, fr.group)
    return adapt_type(x, fw.type, fr.type)


def adapt_type(x, tw, tr):
    if x is None:
        return None
    if tr.kind == 'struct':
        return adapt(x, tw.target, tr.target)
    if tr.kind == 'list':
        return [adapt_type(y, tw.elem, tr.elem) for y in x]
    return x


class Msg(object):
    def __init__(self, name, data, ver, origin):
        self.name, self.data, self.ver, self.origin = name, data, ver, origin


class Node(object):
    def __init__(self, ctx, ch):
        self.ctx, self.ch = ctx, ch
        self.flavour = ch.rand(2)
        self.version = ch.rand(NV)
        self.disk = []

    @property
    def schema(self):
        return 'evo%d' % (self.version + 1)

    @property
    def mod(self):
        return self.ctx.mods[self.schema][self.flavour]

    def sd(self, name):
        return self.ctx.schemas[self.schema].structs.get(name)


def size(v):
    if isinstance(v, Ver):
        return size(v.v)
    if isinstance(v, dict):
        return 1 + sum(size(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return 1 + sum(size(x) for x in v)
    if isinstance(v, (bytes, str)):
        return 1 + len(v) // 16
    return 1


def run(run, ctx):
    import capnpy
    ch = run.ch
    nodes = [Node(ctx, ch) for _ in range(2 + ch.rand(2))]
    wire = []     # messages in flight or stored

    def expect(node, obj, m, what):
        sd = node.sd(m.name)
        want = adapt(m.ver, None, sd)
        check_value(run, node.mod, obj, sd, want, '%s: version %d reads the %s of version %d (%s)' % (
            what, node.version + 1, m.name, 1 + vnum(ctx, m.ver), m.origin), full=ch.rand(3) == 2)
        return obj

    def load(node, m):
        cls = node.mod.cls(node.sd(m.name))
        k = ch.rand(3)
        if k == 0:
            obj = capnpy.loads(m.data, cls)
        elif k == 1:
            f = io.BytesIO(m.data * 2)
            capnpy.load(f, cls)
            obj = capnpy.load(f, cls)
        else:
            obj = list(capnpy.load_all(io.BytesIO(m.data), cls))[0]
        if node.version != vnum(ctx, m.ver):
            run.fault('version-skew')
        return expect(node, obj, m, 'loaded')

    def write(node):
        name = ch.pick(TYPES[:6] if node.version == 0 else TYPES)
        sd = node.sd(name)
        if ch.rand(3):
            v = gen_value(run, ctx, name, node.schema, only_ctor=False, budget=ch.size(6, 16, 30))
            pol, lay = layout(run)
            data = rc.encode(sd, v, pol, lay)
            return Msg(name, data, Ver(sd, v), 'peer')
        v = gen_value(run, ctx, name, node.schema, only_ctor=True, budget=ch.size(6, 16, 30))
        return Msg(name, sut_bytes(run, node.mod, sd, v), Ver(sd, v), 'library')

    def send(node, obj, name, ver, origin):
        data = capnpy.dumps(obj, fastpath=bool(ch.rand(2))) if ch.rand(2) else obj.dumps()
        # the writer of the message claims nothing about versions: a reader of the version which knows every field
        # must find each of them
        wire.append(Msg(name, data, ver, origin))
        if size(ver) < 400:
            fin = ctx.sd(name, 'evo%d' % NV)
            ref_check(run, data, fin, adapt(ver, None, fin), 'output of version %d (%s of %s)' % (
                node.version + 1, origin, name))

    for _ in range(1 + ch.rand(3)):
        wire.append(write(ch.pick(nodes)))
    for step in range(1 + ch.size(4, 8, 16)):
        node = ch.pick(nodes)
        k = ch.rand(12)
        if k == 11:
            old = node.version
            node.version = ch.rand(NV)
            if node.version != old:
                run.fault('node-upgrade' if node.version > old else 'node-rollback')
            # what it had stored is read back with the new schema
            for m in node.disk:
                if node.sd(m.name) is not None:
                    load(node, m)
            continue
        usable = [m for m in wire if node.sd(m.name) is not None and size(m.ver) < 600]
        if k == 10 or not usable:
            wire.append(write(node))
            continue
        m = ch.pick(usable)
        obj = load(node, m)
        run.log(step, node.version, k, m.name, m.origin, len(m.data))
        run.state(k, m.name, m.origin, node.version, vnum(ctx, m.ver))
        if k in (0, 1):
            send(node, obj, m.name, m.ver, 'relay')
        elif k == 2:
            c = obj.compact()
            expect(node, c, m, 'compacted')
            send(node, c, m.name, m.ver, 'compacted')
        elif k == 3:
            c = pickle.loads(pickle.dumps(obj, 2))
            expect(node, c, m, 'pickled')
            send(node, c, m.name, m.ver, 'pickled')
        elif k == 4:
            node.disk.append(Msg(m.name, capnpy.dumps(obj), m.ver, 'stored'))
        elif k in (5, 6, 7):
            # build a new record which takes existing objects for some of its fields
            cands = []
            for sn in TYPES:
                sd = node.sd(sn)
                for f in (sd.fields if sd is not None else ()):
                    if f.kind == 'slot' and (f.type.kind == 'struct' and f.type.target.name == m.name or
                                             f.type.kind == 'list' and f.type.elem.kind == 'struct' and
                                             f.type.elem.target.name == m.name):
                        cands.append((sn, f))
            if not cands:
                continue
            sn, f = ch.pick(cands)
            sd = node.sd(sn)
            v = values.Gen(ch, budget=ch.size(3, 8), only_ctor=True).struct(sd)
            if f.disc is not None and v['$which'] != f.name:
                del v[v['$which']]
                v['$which'] = f.name
            v[f.name] = None
            kw = node.mod.kwargs(sd, v)
            if f.type.kind == 'struct':
                kw[values.pykw(f)] = obj
                v[f.name] = m.ver
            else:
                ms = [x for x in usable if x.name == m.name]
                items = [(obj, m)]
                for _ in range(ch.rand(4)):
                    x = ch.pick(ms)
                    items.append((load(node, x), x))
                ch.shuffle(items)
                kw[values.pykw(f)] = [o for o, _ in items]
                v[f.name] = [x.ver for _, x in items]
                if len(set(vnum(ctx, x.ver) for _, x in items)) > 1:
                    run.probe('list-of-mixed-versions')
            o = node.mod.cls(sd)(**kw)
            n = Msg(sn, None, Ver(sd, v), 'combined')
            expect(node, o, n, 'built')
            send(node, o, sn, n.ver, 'combined')
        else:
            # take a part out of it
            parts = []
            for f in node.sd(m.name).fields:
                if f.kind != 'slot' or f.disc is not None and f.name != adapt(m.ver, None, node.sd(m.name))['$which']:
                    continue
                try:
                    fw = m.ver.sd.field(f.name)
                except KeyError:
                    continue
                x = m.ver.v.get(f.name)
                if x is None:
                    continue
                if f.type.kind == 'struct':
                    parts.append((getattr(obj, f.pyname), f.type.target.name, asver(x, fw.type.target)))
                elif f.type.kind == 'list' and f.type.elem.kind == 'struct' and x:
                    i = ch.rand(len(x))
                    parts.append((getattr(obj, f.pyname)[i], f.type.elem.target.name,
                                  asver(x[i], fw.type.elem.target)))
            if not parts:
                continue
            o, pn, pv = ch.pick(parts)
            n = Msg(pn, None, pv, 'extracted')
            expect(node, o, n, 'extracted')
            if ch.rand(2):
                o = o.compact()
                expect(node, o, n, 'extracted and compacted')
            send(node, o, pn, pv, 'extracted')
    # in the end, every message means to every version what it should
    for m in wire:
        for ver in range(NV):
            nodes[0].version = ver
            if nodes[0].sd(m.name) is not None:
                load(nodes[0], m)


def asver(x, sd):
    return x if isinstance(x, Ver) else Ver(sd, x)


def vnum(ctx, ver):
    for i in range(NV):
        if ctx.schemas['evo%d' % (i + 1)].structs.get(ver.sd.name) is ver.sd:
            return i
    return -1
