"""C16: histories of copying, dumping, embedding, extracting, storing."""
import io
import pickle

from dst.scenarios.common import *


def setup(platform):
    return Ctx(platform)


CANARY = b'CANARY#!' * 3


class Item(object):
    __slots__ = ('name', 'v', 'obj', 'how')

    def __init__(self, name, v, obj, how):
        self.name, self.v, self.obj, self.how = name, v, obj, how


def children(ctx, it):
    """(path, struct name, value, getter) of the non-null struct children and struct-list items"""
    sd = ctx.sd(it.name)
    res = []
    for f in sd.fields:
        if f.disc is not None and f.name != it.v['$which']:
            continue
        if f.kind == 'slot' and f.type.kind == 'struct' and it.v[f.name] is not None:
            res.append((f.name, f.type.target.name, it.v[f.name], lambda o, a=f.pyname: getattr(o, a)))
        if f.kind == 'slot' and f.type.kind == 'list' and f.type.elem.kind == 'struct' and it.v[f.name]:
            for i, x in enumerate(it.v[f.name][:3]):
                res.append(('%s[%d]' % (f.name, i), f.type.elem.target.name, x,
                            lambda o, a=f.pyname, i=i: getattr(o, a)[i]))
    return res


def containers(ctx, name):
    """(container struct, field, is list) that can hold a struct of this type through the constructor"""
    res = []
    for sn in ('Named', 'Tree', 'Lists', 'Shape', 'Outer', 'Outer.Inner', 'Rec', 'Envelope'):
        sd = ctx.sd(sn)
        for f in sd.fields:
            if f.kind != 'slot':
                continue
            if f.type.kind == 'struct' and f.type.target.name == name:
                res.append((sn, f, False))
            if f.type.kind == 'list' and f.type.elem.kind == 'struct' and f.type.elem.target.name == name:
                res.append((sn, f, True))
    return res


def size(v):
    if isinstance(v, dict):
        return 1 + sum(size(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return 1 + sum(size(x) for x in v)
    if isinstance(v, (bytes, str)):
        return 1 + len(v) // 16
    return 1


def run(run, ctx):
    import capnpy
    ch = run.ch
    mod = ctx.mod(run)
    pool = []
    srcs = []      # (segment, bytes at the beginning)

    def add(name, v, obj, how):
        pool.append(Item(name, v, obj, how))
        srcs.append((obj._seg, obj._seg.buf))
        return pool[-1]

    def verify(it, what):
        check_value(run, mod, it.obj, ctx.sd(it.name), it.v, what, full=ch.rand(4) == 3)

    for _ in range(1 + ch.rand(2)):
        name = ch.pick(SMALL + ['Rec', 'Tree'])
        v = gen_value(run, ctx, name, big=ch.rand(8) == 7)
        if ch.rand(2):
            obj = mod.build(ctx.sd(name), v)
            how = 'built'
        else:
            pol, lay = layout(run)
            msg = rc.encode(ctx.sd(name), v, pol, lay)
            if ch.rand(2) and len(lay.segs) == 1:
                # followed and surrounded by foreign data in the same buffer
                obj = capnpy.load(io.BytesIO(msg), mod.cls(ctx.sd(name)))
            else:
                obj = capnpy.loads(msg, mod.cls(ctx.sd(name)))
            how = 'loaded'
        it = add(name, v, obj, how)
        verify(it, how)
    for step in range(1 + ch.size(4, 8, 16)):
        it = ch.pick(pool)
        if size(it.v) > 400:
            continue
        sd = ctx.sd(it.name)
        cls = mod.cls(sd)
        op = ch.rand(10)
        run.log(step, op, it.name, it.how)
        run.state('op', op, it.name, it.how)
        if op in (0, 1):
            data = capnpy.dumps(it.obj, fastpath=(op == 0)) if ch.rand(2) else it.obj.dumps() if op == 0 else \
                it.obj.dumps(fastpath=False)
            what = '%s dump of a %s %s' % ('fast' if op == 0 else 'slow', it.how, it.name)
            rd = ref_check(run, data, sd, it.v, what)
            run.check(rd.uncovered() == 0, 'foreign-bytes', lambda: '%s contains %d words of something else' % (what, rd.uncovered()))
            n = add(it.name, it.v, capnpy.loads(data, cls), 'redumped')
            verify(n, what)
        elif op == 2:
            f = io.BytesIO()
            n0 = 1 + ch.rand(3)
            for _ in range(n0):
                it.obj.dump(f) if ch.rand(2) else capnpy.dump(it.obj, f)
            f.seek(0)
            objs = list(capnpy.load_all(f, cls))
            run.check(len(objs) == n0, 'lost-message', 'file of %d messages has %d' % (n0, len(objs)))
            for o in objs:
                check_value(run, mod, o, sd, it.v, 'dump to a file')
            add(it.name, it.v, objs[-1], 'file')
        elif op == 3:
            c = it.obj.compact()
            what = 'compact() of a %s %s' % (it.how, it.name)
            run.check(type(c) is type(it.obj), 'wrong-type', '%s is a %s' % (what, type(c).__name__))
            n = add(it.name, it.v, c, 'compacted')
            verify(n, what)
            # holds only that object: a message made of the buffer is fully used
            buf = c._seg.buf
            words = used_words(run, ctx, c, sd, it.v, what)
            run.check(len(buf) == words, 'foreign-bytes', lambda: '%s keeps %d bytes, the object takes %d' % (what, len(buf), words))
        elif op == 4:
            proto = ch.rand(pickle.HIGHEST_PROTOCOL + 1)
            o = pickle.loads(pickle.dumps(it.obj, proto))
            run.check(type(o) is type(it.obj), 'wrong-type', 'pickle changed the type')
            verify(add(it.name, it.v, o, 'pickled'), 'pickled %s' % it.name)
        elif op == 5:
            o = cls._raw_loads(it.obj._raw_dumps())
            verify(add(it.name, it.v, o, 'raw'), 'raw-dumped %s' % it.name)
        elif op in (6, 7):
            cs = containers(ctx, it.name)
            if not cs:
                continue
            sn, f, islist = ch.pick(cs)
            csd = ctx.sd(sn)
            g = values.Gen(ch, budget=ch.size(3, 8), only_ctor=True)
            cv = g.struct(csd)
            if f.disc is not None and cv['$which'] != f.name:
                del cv[cv['$which']]
                cv['$which'] = f.name
            items = None
            if islist:
                same_type = [p for p in pool if p.name == it.name and size(p.v) <= 200] or [it]
                items = [it] + [ch.pick(same_type) for _ in range(ch.rand(3))]
                ch.shuffle(items)
                cv[f.name] = [x.v for x in items]
            else:
                cv[f.name] = it.v
            kw = build_kwargs(mod, csd, cv, f, items, it)
            o = mod.cls(csd)(**kw)
            what = '%s containing %s' % (sn, [x.how for x in items] if items else it.how)
            n = add(sn, cv, o, 'embedding')
            verify(n, what)
            rd = ref_check(run, capnpy.dumps(o), csd, cv, 'dump of ' + what)
            run.check(rd.uncovered() == 0, 'foreign-bytes', lambda: 'dump of %s has %d foreign words' % (what, rd.uncovered()))
        else:
            ch_ = children(ctx, it)
            if not ch_:
                continue
            path, cn, cvv, get = ch.pick(ch_)
            o = get(it.obj)
            n = add(cn, cvv, o, 'extracted')
            verify(n, 'extracted %s.%s' % (it.name, path))
    # nothing that exists was changed
    for seg, buf in srcs:
        run.check(seg.buf == buf, 'source-modified', 'the bytes of a source changed')
    for it in pool:
        verify(it, '%s %s at the end' % (it.how, it.name))


def build_kwargs(mod, csd, cv, f, items, it):
    kw = {}
    for g in csd.fields:
        if g.disc is not None and g.name != cv['$which']:
            continue
        if not values.ctor_ok(g) or (g.disc is None and g.kind == 'slot' and g.type.kind == 'void'):
            continue
        if g is f:
            kw[values.pykw(g)] = [x.obj for x in items] if items is not None else it.obj
        else:
            kw[values.pykw(g)] = mod.arg(csd, g, cv[g.name])
    return kw


def used_words(run, ctx, c, sd, v, what):
    import capnpy
    import struct
    # wrap the buffer as a message: root pointer word (as compact() leaves it) + object
    buf = c._seg.buf
    data = struct.pack('<II', 0, len(buf) // 8) + buf
    rd = ref_check(run, data, sd, v, what + ' (its buffer)')
    return 8 * (len(buf) // 8 - rd.uncovered())
