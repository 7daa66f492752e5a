"""C09: views outlive what they came from; the last one releases the memory."""
import gc
import io
import pickle
import sys
import weakref

from dst.scenarios.common import *
from dst.sim import Sim, Pipe, SimSocket, SimRaw

NAMES = ['Rec', 'Tree', 'Lists', 'Lists', 'Shape', 'Outer', 'Texts', 'Named', 'Envelope', 'Any', 'Any']
SIZES = {}


def setup(platform):
    return Ctx(platform, ('rich', 'anyp'))


class View(object):
    """something obtained from a message, and what it must be"""
    __slots__ = ('kind', 't', 'obj', 'v', 'what', 'left')

    def __init__(self, kind, t, obj, v, what):
        self.kind, self.t, self.obj, self.v, self.what = kind, t, obj, v, what
        self.left = None


class Source(object):
    """where messages come from"""

    def __init__(self):
        self.parts = []          # everything that can be closed or dropped


class World(object):
    def __init__(self, run, ctx, mod, anymod):
        self.run, self.ctx, self.mod, self.anymod = run, ctx, mod, anymod
        self.views = []
        self.sources = []
        self.bufs = []           # (buffer, references to it when it was only referenced by its segment)
        self.segs = []
        self.reuse = []          # mutable buffers of the application

    # ---- messages
    def load(self):
        import capnpy
        from capnpy.buffered import BufferedSocket
        run, ch = self.run, self.run.ch
        name = ch.pick(NAMES)
        if name == 'Any':
            schema, mod = 'anyp', self.anymod
            v = gen_value(run, self.ctx, name, schema, budget=8, only_ctor=False, anytypes=any_types(self.ctx))
        else:
            schema, mod = 'rich', self.mod
            v = gen_value(run, self.ctx, name, budget=ch.size(8, 24), big=ch.rand(6) == 5)
        sd = self.ctx.sd(name, schema)
        cls = mod.cls(sd)
        msg = peer_bytes(run, self.ctx, name, v, schema)
        how = ch.pick(['loads', 'file', 'socket', 'all', 'duck', 'mutable', 'built'])
        if how == 'built' and schema != 'anyp':
            obj = mod.build(sd, v)
        elif how == 'mutable':
            # a buffer that the application uses again: refused, or copied
            b = bytearray(msg)
            try:
                obj = capnpy.loads(memoryview(b) if ch.rand(2) else b, cls)
            except (TypeError, ValueError, AttributeError):
                run.probe('mutable-refused')
                obj = capnpy.loads(bytes(b), cls)
            self.reuse.append(b)
        elif how == 'file':
            f = io.BytesIO(msg + b'rest')
            obj = capnpy.load(f, cls)
            self.sources.append([f, f.close])
        elif how == 'all':
            f = io.BytesIO(msg + msg)
            g = capnpy.load_all(f, cls)
            obj = next(g)
            self.sources.append([g, g.close, f, f.close])
        elif how == 'socket':
            sim = Sim(run)
            p = Pipe(sim)
            p.feed(msg + b'rest')
            p.finish()
            s = SimSocket(sim, rx=p)
            f = BufferedSocket(s, 1 + ch.rand(300))
            obj = capnpy.load(f, cls)
            self.sources.append([f, f.close, lambda f=f: f.read(), s, lambda s=s: s.close()])
        elif how == 'duck':
            # a file which fills and returns slices of its own reusable buffer
            f = Recycler(msg)
            try:
                obj = capnpy.load(f, cls)
            except TypeError:
                run.probe('mutable-refused')
                obj = capnpy.loads(msg, cls)
            self.reuse.append(f.data)
        else:
            obj = capnpy.loads(msg, cls)
        run.log('load', name, how)
        seg = obj._seg
        if sys.implementation.name == 'cpython':
            buf = seg.buf
            if type(buf) is bytes and len(buf) > 1:
                # one for us, one for the segment (and whoever made the message)
                self.bufs.append(buf)
        if self.run.platform in ('pure', 'pypy'):
            self.segs.append(weakref.ref(seg))
        return View('struct', sd, obj, v, '%s from %s' % (name, how))

    # ---- views
    def add(self, kind, t, obj, v, what):
        if len(self.views) < 40:
            self.views.append(View(kind, t, obj, v, what))

    def typed(self, t, x, v, what):
        if v is None or x is None:
            return
        if t.kind == 'struct':
            self.add('struct', t.target, x, v, what)
        elif t.kind == 'list':
            self.add('list', t.elem, x, v, what)
        elif t.kind in ('text', 'data', 'utext'):
            self.add('value', t, x, v, what)
        elif t.kind == 'any' and isinstance(v, tuple):
            self.add('any', v[0], x, v[1], what)

    def derive(self, view):
        ch = self.run.ch
        if view.kind == 'struct':
            sd, v = view.t, view.v
            fs = [f for f in sd.fields if f.disc is None or f.name == v.get('$which')]
            if not fs:
                return
            f = ch.pick(fs)
            what = '%s.%s' % (view.what, f.name)
            if len(what) > 100:
                what = '...' + what[-90:]
            x = getattr(view.obj, values.pyattr(f))
            if f.kind == 'group':
                if not f.nullable:
                    self.add('struct', f.group, x, v[f.name], what)
            else:
                self.typed(f.type, x, v[f.name], what)
        elif view.kind == 'list':
            if view.v:
                k = ch.rand(3)
                i = ch.rand(len(view.v))
                if k == 0:
                    self.typed(view.t, view.obj[i], view.v[i], view.what + '[%d]' % i)
                elif k == 1:
                    sl = view.obj[i:]
                    self.typed(view.t, sl[0], view.v[i], view.what + '[%d:]' % i)
                else:
                    it = iter(view.obj)
                    self.views.append(View('iter', view.t, it, list(view.v), view.what + ' (iterator)'))
        elif view.kind == 'any':
            at = view.t
            a = view.obj
            if at.kind == 'struct':
                self.add('struct', at.target, a.as_struct(self.mod.cls(at.target)), view.v, view.what + ' as struct')
            elif at.kind == 'list':
                self.add('list', at.elem, a.as_list(self.mod.item_spec(at.elem)), view.v, view.what + ' as list')
            else:
                x = a.as_text_bytes() if at.kind == 'text' else a.as_data() if at.kind == 'data' else a.as_text_unicode()
                self.add('value', at, x, view.v, view.what + ' as text')
        elif view.kind == 'iter':
            if view.v:
                x = next(view.obj)
                self.typed(view.t, x, view.v.pop(0), view.what)

    def copy(self, view):
        import capnpy
        ch = self.run.ch
        if view.kind != 'struct' or getattr(view.t, 'is_group', False):
            return
        k = ch.rand(3)
        if k == 0:
            o = view.obj.compact()
        elif k == 1:
            o = pickle.loads(pickle.dumps(view.obj, 2))
        else:
            o = capnpy.loads(capnpy.dumps(view.obj), type(view.obj))
        self.add('struct', view.t, o, view.v, view.what + ' (copy)')

    def check(self, view):
        run = self.run
        if view.kind == 'struct':
            mod = self.anymod if view.t.name == 'Any' or getattr(values.owner(view.t), 'name', '') == 'Any' else self.mod
            got = read_full(run, mod, view.obj, view.t, view.what, run.ch.rand(3) == 0)
            same_any(run, {'rich': self.mod}, got, view.v, view.what)
        elif view.kind == 'list':
            mod = self.anymod if view.t.kind == 'struct' and view.t.target.name == 'Any' else self.mod
            try:
                got = mod.read_list(view.t, view.obj, run.ch.rand(3) == 0)
            except values.Mismatch as e:
                raise Violation('inconsistent-read', '%s: %s' % (view.what, e))
            run.check(values.same(got, view.v), 'wrong-value', lambda: '%s: %s' % (view.what, values.diff(got, view.v)))
        elif view.kind == 'any':
            try:
                got = self.mod.read_any(view.obj, view.t)
            except values.Mismatch as e:
                raise Violation('inconsistent-read', '%s: %s' % (view.what, e))
            run.check(values.same(got, view.v), 'wrong-value', lambda: '%s: %s' % (view.what, values.diff(got, view.v)))
        elif view.kind == 'value':
            got = self.mod.from_py(view.t, view.obj)
            run.check(values.same(got, view.v), 'wrong-value', lambda: '%s: %s' % (view.what, values.diff(got, view.v)))

    # ---- the world around them
    def churn(self):
        """use memory of the sizes that may just have been freed"""
        ch = self.run.ch
        keep = []
        for _ in range(1 + ch.rand(4)):
            n = ch.pick([16, 40, 64, 100, 200, 500, 1000])
            for k in range(6):
                keep.append(bytes([0xa5]) * (n + k))
                keep.append(bytearray([0x5a]) * (n + k))
        self.garbage = keep if ch.rand(2) else None

    def overwrite(self):
        for b in self.reuse:
            b[:] = b'\xee' * len(b)
        if self.reuse:
            self.run.fault('source-buffer-reused')

    def close(self):
        ch = self.run.ch
        if not self.sources:
            return
        s = self.sources[ch.rand(len(self.sources))]
        x = s.pop()
        if callable(x):
            try:
                x()
            except OSError:
                pass
            self.run.fault('source-closed')
        else:
            self.run.fault('source-dropped')
        if not s:
            self.sources.remove(s)


class Recycler(object):
    """unbuffered file whose reads return windows on one buffer"""

    def __init__(self, data):
        self.data = bytearray(data)
        self.pos = 0

    def read(self, n=-1):
        if n < 0:
            n = len(self.data) - self.pos
        r = memoryview(self.data)[self.pos:self.pos + n]
        self.pos += n
        return r

    def readline(self):
        raise NotImplementedError


def scene(run, ctx, w):
    ch = run.ch
    for _ in range(1 + ch.rand(3)):
        w.views.append(w.load())
    for step in range(2 + ch.size(6, 14, 30)):
        k = ch.weighted([(6, 'derive'), (4, 'drop'), (2, 'check'), (2, 'close'), (1, 'gc'), (2, 'churn'), (1, 'overwrite'),
                         (1, 'copy'), (1, 'load')])
        if k == 'load':
            if len(w.bufs) < 5:
                w.views.append(w.load())
        elif k == 'gc':
            gc.collect(ch.rand(3))
        elif k == 'churn':
            w.churn()
        elif k == 'overwrite':
            w.overwrite()
        elif k == 'close':
            w.close()
        elif w.views:
            i = ch.rand(len(w.views))
            view = w.views[i]
            run.state(k, view.kind, view.t.kind if hasattr(view.t, 'kind') else view.t.name, len(w.views) > 3)
            if k == 'derive':
                w.derive(view)
            elif k == 'copy':
                w.copy(view)
            elif k == 'check':
                w.check(view)
            else:
                del w.views[i]
                run.fault('view-dropped')
    w.overwrite()
    w.churn()
    while w.views:
        i = ch.rand(len(w.views))
        view = w.views.pop(i)
        w.check(view)
        if view.kind == 'iter':
            try:
                rest = [w.mod.from_py(view.t, x) for x in view.obj] if view.t.kind not in ('any',) else view.v
            except values.Mismatch as e:
                raise Violation('inconsistent-read', str(e))
            run.check(values.same(rest, view.v), 'wrong-value', lambda: '%s: %s' % (view.what, values.diff(rest, view.v)))
        del view
        if ch.rand(3) == 0:
            w.churn()
    w.sources[:] = []


def run(run, ctx):
    mod, anymod = ctx.mod(run), ctx.mod(run, 'anyp')
    w = World(run, ctx, mod, anymod)
    scene(run, ctx, w)
    run.steps += 1
    gc.collect()
    if run.platform == 'pypy':
        gc.collect()
    for i in range(len(w.bufs)):
        n = sys.getrefcount(w.bufs[i])
        run.check(n <= 2, 'leak', lambda: 'buffer %d of %d bytes has %d references left' % (i, len(w.bufs[i]), n - 2))
    if w.bufs:
        run.probe('released')
    for i, r in enumerate(w.segs):
        run.check(r() is None, 'leak', 'segment %d is still alive' % i)
