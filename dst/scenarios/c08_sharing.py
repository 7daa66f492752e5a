"""C08: several readers, and callbacks inside operations, share messages."""
import io
import pickle

from dst.scenarios.common import *
from dst.scenarios import textform
from dst.scenarios.c16_copies import children, containers, size
from dst.scenarios.c17_keys import key_of, KEYS
from dst.sim import Sim

RICH = ['Rec', 'Tree', 'Lists', 'Shape', 'Outer', 'Texts', 'Scalars', 'Named', 'Point', 'Envelope']
KEYED = ['KInts', 'KMix', 'KUni', 'KNest', 'KNull', 'KOne', 'KChain', 'Point']


def setup(platform):
    return Ctx(platform, ('rich', 'keyed', 'anyp'))


class Shared(object):
    """a struct that every task can see"""

    def __init__(self, schema, mod, sd, v, obj, msg):
        self.schema, self.mod, self.sd, self.v, self.obj, self.msg = schema, mod, sd, v, obj, msg
        self.name = sd.name


class Eq(object):
    """compares itself with what it gets; the comparison runs other code"""

    def __init__(self, w, v):
        self.w, self.v = w, v

    def __eq__(self, other):
        self.w.callback()
        return self.v == other

    def __ne__(self, other):
        self.w.callback()
        return self.v != other

    __hash__ = None


class File(object):
    """a file; writing and reading runs other code"""

    def __init__(self, w, data=b''):
        self.w, self.f = w, io.BytesIO(data)

    def write(self, data):
        self.w.callback()
        return self.f.write(data)

    def read(self, n=-1):
        self.w.callback()
        return self.f.read(n)

    def readline(self):
        self.w.callback()
        return self.f.readline()


class World(object):
    def __init__(self, run, ctx):
        self.run, self.ctx = run, ctx
        self.sim = None
        self.pool = []
        self.segs = []
        self.depth = 0          # per task: see callback()
        self.left = 40
        self.nops = 0

    # ---- where other code runs in the middle of an operation
    def callback(self):
        if self.sim is not None:
            self.sim.pause()
        task = self.sim.current if self.sim is not None else None
        d = self.depths.get(task, 0)
        if self.left <= 0 or d >= 2 or self.run.ch.rand(3):
            return
        self.left -= 1
        self.depths[task] = d + 1
        self.run.fault('reentrant-call')
        try:
            self.op()
        finally:
            self.depths[task] = d

    def pause(self):
        if self.sim is not None:
            self.sim.pause()

    # ---- operations
    def op(self):
        ch = self.run.ch
        s = ch.pick(self.pool)
        k = ch.pick(['read', 'read', 'text', 'dump', 'compact', 'pickle', 'iterate', 'raw', 'embed', 'build', 'eq', 'eq',
                     'file', 'load', 'list', 'any', 'field'])
        self.nops += 1
        self.run.state('op', k, s.name, len([t for t in self.depths if self.depths[t]]), self.run.platform == 'pure')
        getattr(self, 'op_' + k)(s)

    def data_check(self, s, data, what):
        import capnpy
        if s.schema == 'anyp':
            self.obj_check(s, capnpy.loads(data, s.mod.cls(s.sd)), what)
        else:
            ref_check(self.run, data, s.sd, s.v, what)

    def obj_check(self, s, obj, what, full=False):
        if s.schema == 'anyp':
            same_any(self.run, {'rich': self.ctx.mods['rich'][0]}, read_full(self.run, s.mod, obj, s.sd, what, full),
                     s.v, what)
        else:
            check_value(self.run, s.mod, obj, s.sd, s.v, what, full)

    def op_read(self, s):
        self.obj_check(s, s.obj, 'reading a %s' % s.name, self.run.ch.rand(3) == 0)

    def op_field(self, s):
        f = self.run.ch.pick(s.sd.fields) if s.sd.fields else None
        if f is None or (f.disc is not None and f.name != s.v['$which']):
            return
        if s.schema == 'anyp':
            return self.op_any(s)
        try:
            got = s.mod.read_field(s.obj, f, True)
        except values.Mismatch as e:
            raise Violation('inconsistent-read', '%s.%s: %s' % (s.name, f.name, e))
        self.run.check(values.same(got, s.v[f.name]), 'wrong-value', lambda: '%s.%s: %s' % (
            s.name, f.name, values.diff(got, s.v[f.name])))

    def op_text(self, s):
        text = s.obj.shortrepr()
        if s.schema != 'anyp':
            textform.check_text(self.run, text, s.sd, s.v, 'shortrepr() of a %s' % s.name)

    def op_dump(self, s):
        import capnpy
        data = capnpy.dumps(s.obj, fastpath=bool(self.run.ch.rand(2)))
        self.data_check(s, data, 'dump of a %s' % s.name)

    def op_compact(self, s):
        c = s.obj.compact()
        self.pause()
        self.obj_check(s, c, 'compacted %s' % s.name)

    def op_pickle(self, s):
        f = File(self)
        pickle.Pickler(f, self.run.ch.rand(pickle.HIGHEST_PROTOCOL + 1)).dump(s.obj)
        self.pause()
        f.f.seek(0)
        o = pickle.load(f)
        self.obj_check(s, o, 'pickled %s' % s.name)

    def op_raw(self, s):
        o = s.mod.cls(s.sd)._raw_loads(s.obj._raw_dumps())
        self.obj_check(s, o, 'raw dump of a %s' % s.name)

    def op_embed(self, s):
        import capnpy
        cs = containers(self.ctx, s.name) if s.schema == 'rich' else []
        if not cs:
            return self.op_compact(s)
        sn, f, islist = self.run.ch.pick(cs)
        csd = self.ctx.sd(sn)
        cv = rc.default_struct(csd)
        if f.disc is not None and cv['$which'] != f.name:
            del cv[cv['$which']]
            cv['$which'] = f.name
        n = 1 + self.run.ch.rand(3)
        cv[f.name] = [s.v] * n if islist else s.v
        arg = [s.obj] * n if islist else s.obj
        o = s.mod.cls(csd)(**{values.pykw(f): arg})
        self.pause()
        ref_check(self.run, capnpy.dumps(o), csd, cv, 'a %s with a shared %s' % (sn, s.name))

    def op_build(self, s):
        import capnpy
        name = self.run.ch.pick(['Point', 'Named', 'Texts', 'Tree', 'Lists'])
        v = gen_value(self.run, self.ctx, name, budget=6)
        sd = self.ctx.sd(name)
        mod = self.ctx.mods['rich'][0]
        o = mod.build(sd, v)
        self.pause()
        ref_check(self.run, capnpy.dumps(o), sd, v, 'a new %s' % name)

    def op_eq(self, s):
        run = self.run
        if s.schema != 'keyed':
            return self.op_read(s)
        key = key_of(s.name, s.v)
        h = hash(s.obj)
        run.check(s.obj == key, 'wrong-comparison', lambda: '%s is not equal to its key %r' % (s.name, key))
        self.pause()
        run.check(hash(s.obj) == h == hash(key), 'wrong-hash', lambda: 'hash of a %s with the key %r' % (s.name, key))
        run.check(s.obj == tuple(Eq(self, x) for x in key), 'wrong-comparison', '%s is not equal to its key' % s.name)
        i = run.ch.rand(len(key))
        wrong = key[:i] + (Eq(self, object()),) + key[i + 1:]
        run.check(not (s.obj == wrong), 'wrong-comparison', '%s is equal to another key' % s.name)
        o = run.ch.pick(self.pool)
        if o.name == s.name and o.schema == 'keyed':
            same = key_of(o.name, o.v) == key
            run.check(bool(s.obj == o.obj) == same, 'wrong-comparison', lambda: '%r == %r' % (s.v, o.v))

    def op_file(self, s):
        import capnpy
        f = File(self)
        n = 1 + self.run.ch.rand(3)
        for _ in range(n):
            capnpy.dump(s.obj, f)
        data = f.f.getvalue()
        run = self.run
        run.check(len(data) % n == 0, 'wrong-output', '%d equal messages take %d bytes' % (n, len(data)))
        for i in range(n):
            self.data_check(s, data[len(data) // n * i:len(data) // n * (i + 1)], 'a %s in a file' % s.name)

    def op_load(self, s):
        import capnpy
        n = 1 + self.run.ch.rand(3)
        k = self.run.ch.rand(3)
        cls = s.mod.cls(s.sd)
        if k == 0:
            objs = list(capnpy.load_all(File(self, s.msg * n), cls))
        elif k == 1:
            f = File(self, s.msg * n)
            objs = [capnpy.load(f, cls) for _ in range(n)]
        else:
            objs = [capnpy.loads(s.msg, cls) for _ in range(n)]
        self.run.check(len(objs) == n, 'lost-message', '%d of %d messages loaded' % (len(objs), n))
        for o in objs:
            self.obj_check(s, o, 'a %s loaded again' % s.name)

    def lists(self, s):
        res = []
        for f in s.sd.fields:
            if s.schema != 'anyp' and f.kind == 'slot' and f.type.kind == 'list' and (f.disc is None or f.name == s.v['$which']) and s.v[f.name]:
                res.append(f)
        return res

    def op_iterate(self, s):
        """an iteration in which others run between the items"""
        fs = self.lists(s)
        if not fs:
            return self.op_field(s)
        f = self.run.ch.pick(fs)
        e = f.type.elem
        lst = s.lists.get(f.name) if self.run.ch.rand(2) else None
        if lst is None:
            lst = getattr(s.obj, values.pyattr(f))
            s.lists.setdefault(f.name, lst)
        got = []
        for x in lst:
            self.callback()
            got.append(s.mod.from_py(e, x))
            if len(got) > len(s.v[f.name]):
                break
        self.run.check(values.same(got, s.v[f.name]), 'wrong-value', lambda: 'iterating %s.%s: %s' % (
            s.name, f.name, values.diff(got, s.v[f.name])))

    def op_list(self, s):
        fs = self.lists(s)
        if not fs:
            return self.op_field(s)
        run = self.run
        f = run.ch.pick(fs)
        e = f.type.elem
        want = s.v[f.name]
        lst = s.lists.setdefault(f.name, getattr(s.obj, values.pyattr(f)))
        i = run.ch.rand(len(want))
        run.check(len(lst) == len(want), 'wrong-value', 'length of %s.%s' % (s.name, f.name))
        run.check(values.same(s.mod.from_py(e, lst[i]), want[i]), 'wrong-value', lambda: '%s.%s[%d]' % (s.name, f.name, i))
        sl = [s.mod.from_py(e, x) for x in lst[i:]]
        run.check(values.same(sl, want[i:]), 'wrong-value', lambda: '%s.%s[%d:]' % (s.name, f.name, i))
        if e.kind in ('int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', 'text', 'data', 'utext') \
                and None not in want:
            run.check(lst == want, 'wrong-comparison', lambda: '%s.%s is not equal to its items' % (s.name, f.name))
            run.check(lst == [Eq(self, x) for x in want], 'wrong-comparison', lambda: '%s.%s is not equal to its items' % (
                s.name, f.name))
            run.check(lst == getattr(s.obj, values.pyattr(f)), 'wrong-comparison', 'a list is not equal to itself')

            def keyf(x):
                self.callback()
                return x
            run.check(sorted(lst, key=keyf) == sorted(want), 'wrong-value', lambda: 'sorted %s.%s' % (s.name, f.name))

    def op_any(self, s):
        if s.schema != 'anyp':
            s2 = [x for x in self.pool if x.schema == 'anyp']
            if not s2:
                return self.op_read(s)
            s = s2[0]
        self.obj_check(s, s.obj, 'any-pointers', True)


def run(run, ctx):
    import capnpy
    ch = run.ch
    w = World(run, ctx)
    w.depths = {}
    for _ in range(1 + ch.rand(3)):
        schema = ch.pick(['rich', 'rich', 'keyed', 'anyp'])
        mod = ctx.mod(run, schema)
        if schema == 'anyp':
            name = 'Any'
            v = gen_value(run, ctx, name, schema, budget=8, only_ctor=False, anytypes=any_types(ctx))
        else:
            name = ch.pick(RICH if schema == 'rich' else KEYED)
            v = gen_value(run, ctx, name, schema, budget=ch.size(8, 24))
        if schema == 'anyp':
            pol, lay = layout(run)
            msg = rc.encode(ctx.sd(name, schema), v, pol, lay)
        else:
            msg = message(run, ctx, mod, name, v, schema)
        sd = ctx.sd(name, schema)
        obj = capnpy.loads(msg, mod.cls(sd))
        w.segs.append((obj._seg, bytes(bytearray(obj._seg.buf))))
        s = Shared(schema, mod, sd, v, obj, msg)
        s.lists = {}
        w.pool.append(s)
        if schema == 'rich':
            for path, cn, cv, get in children(ctx, s)[:4]:
                if ch.rand(2):
                    c = Shared(schema, mod, ctx.sd(cn), cv, get(obj), None)
                    c.msg = capnpy.dumps(c.obj)
                    c.lists = {}
                    w.pool.append(c)
    ntasks = ch.rand(4)
    if ntasks == 0:
        for _ in range(1 + ch.rand(6)):
            w.op()
            run.steps += 1
    else:
        sim = w.sim = Sim(run)
        if run.platform == 'pure':
            sim.trace_code([SUT, os.path.dirname(ctx.mods['rich'][0].module.__file__)],
                           maxgap=ch.pick([12, 60, 250]), budget=300)
        else:
            sim.trace_code([os.path.dirname(ctx.mods['rich'][0].module.__file__)], maxgap=ch.pick([4, 12, 60]), budget=200)

        def reader():
            for _ in range(1 + ch.rand(4)):
                w.op()
                sim.pause()
        for i in range(1 + ntasks):
            sim.spawn('reader%d' % i, reader)
        sim.run_tasks()
        run.probe('threads')
        if sim.switches:
            run.probe('pre-empted')
        w.sim = None
    run.log('ops', w.nops, [s.name for s in w.pool])
    for seg, buf in w.segs:
        run.check(seg.buf == buf, 'message-modified', 'the bytes of a shared message changed')
    w.left = 0
    for s in w.pool:
        if s.schema == 'anyp':
            w.op_any(s)
        else:
            w.op_read(s)
