"""C10: constructors whose arguments change, raise or call back while the message is being built."""
import gc
import os

from dst.scenarios.common import *
from dst.sim import Sim

NAMES = ['Lists', 'Lists', 'Lists', 'Tree', 'Scalars', 'Texts', 'Named', 'Point', 'Shape', 'Outer', 'Rec', 'Envelope']


values.Gen.maxlist = 300     # every item may call back


class Boom(Exception):
    pass


def setup(platform):
    ctx = Ctx(platform, ('rich',))
    m = ctx.mods['rich'][0].module
    ctx.canary = {}
    return ctx


class World(object):
    """Everything that can change while the constructor runs."""

    def __init__(self, run, ctx, mod, threads):
        self.run, self.ctx, self.mod, self.threads = run, ctx, mod, threads
        self.seqs = []           # (sequence, set of everything that ever was in it, maker of new items)
        self.depth = 0
        self.left = 12
        self.armed = False
        self.changed = set()     # ids of the sequences that were modified
        self.raised = False
        self.others = []         # messages that exist: (object, sd, value)

    def callback(self):
        """code of the application, called in the middle of a construction"""
        if not self.armed or self.left <= 0 or self.depth >= 2:
            return
        ch = self.run.ch
        if ch.rand(3):
            return
        self.left -= 1
        self.depth += 1
        try:
            self.act()
        finally:
            self.depth -= 1

    def act(self, may_raise=True):
        ch = self.run.ch
        k = ch.weighted([(6, 'mutate'), (2, 'build'), (2, 'use'), (1, 'gc')] + [(1, 'raise')] * may_raise)
        if k == 'mutate':
            if self.seqs:
                self.mutate(ch.pick(self.seqs))
        elif k == 'build':
            self.build()
        elif k == 'use':
            self.use()
        elif k == 'raise':
            self.raised = True
            self.run.fault('callback-raises')
            raise Boom()
        else:
            gc.collect(0)

    def mutate(self, s):
        ch = self.run.ch
        seq, seen, make = s
        data = seq.items if isinstance(seq, Seq) else seq
        op = ch.rand(7)
        self.changed.add(id(seq))
        self.run.fault('input-mutated')
        if op == 0:
            for _ in range(1 + ch.size(3, 40)):
                data.append(self.fresh(seen, make))
        elif op == 1:
            if list.__len__(data):
                data.pop()
        elif op == 2:
            del data[:]
        elif op == 3:
            if list.__len__(data):
                data.pop(0)
        elif op == 4:
            data.insert(0, self.fresh(seen, make))
        elif op == 5:
            if list.__len__(data):
                data[ch.rand(list.__len__(data))] = self.fresh(seen, make)
        else:
            data.reverse()

    def fresh(self, seen, make):
        arg, model = make()
        seen.append(model)
        return arg

    def build(self):
        """build another message meanwhile"""
        import capnpy
        run, ctx = self.run, self.ctx
        name = run.ch.pick(['Point', 'Named', 'Texts', 'Scalars', 'Tree'])
        v = gen_value(run, ctx, name, budget=4)
        sd = ctx.sd(name)
        data = capnpy.dumps(self.mod.build(sd, v))
        ref_check(run, data, sd, v, 'a message built meanwhile')

    def use(self):
        import capnpy
        if not self.others:
            return
        run = self.run
        o, sd, v = run.ch.pick(self.others)
        k = run.ch.rand(4)
        if k == 0:
            ref_check(run, capnpy.dumps(o), sd, v, 'a message dumped meanwhile')
        elif k == 1:
            ref_check(run, o.compact().dumps(), sd, v, 'a message compacted meanwhile')
        elif k == 2:
            o.shortrepr()
        else:
            check_value(run, self.mod, o, sd, v, 'a message read meanwhile')


class Num(object):
    """a number whose conversion runs code"""

    def __init__(self, world, v):
        self.world, self.v = world, v

    def __index__(self):
        self.world.callback()
        return self.v

    def __int__(self):
        self.world.callback()
        return self.v

    def __float__(self):
        self.world.callback()
        return float(self.v)

    def __bool__(self):
        self.world.callback()
        return bool(self.v)

    # fields with a default are stored xored with it
    def __xor__(self, other):
        self.world.callback()
        return self.v ^ other

    def __rxor__(self, other):
        self.world.callback()
        return other ^ self.v


class UText(object):
    def __init__(self, world, v):
        self.world, self.v = world, v

    def encode(self, *a):
        self.world.callback()
        return self.v.encode(*a)


class Seq(object):
    """a sequence whose length and iteration run code"""

    def __init__(self, world, items):
        self.world, self.items = world, items

    def __len__(self):
        n = len(self.items)
        self.world.callback()
        return n

    def __iter__(self):
        i = 0
        while i < len(self.items):
            x = self.items[i]
            self.world.callback()
            yield x
            i += 1

    def __getitem__(self, i):
        self.world.callback()
        return self.items[i]


class SubList(list):
    world = None

    def __len__(self):
        n = list.__len__(self)
        if self.world is not None:
            self.world.callback()
        return n


def scalar(w, t, v):
    ch = w.run.ch
    if t.kind in rc.PRIM or t.kind == 'enum':
        return Num(w, v) if ch.rand(2) else v
    if t.kind == 'utext' and v is not None and ch.rand(2):
        return UText(w, v)
    if t.kind in ('text', 'data') and v is not None and w.threads and ch.rand(8) == 7:
        # not bytes: refused, or copied as it is at some moment
        b = bytearray(v)
        w.blobs.append(b)
        return b
    return v


def argument(w, t, v):
    """argument for the constructor, with the model value v; registers what can change"""
    ch = w.run.ch
    mod = w.mod
    if v is None:
        return None
    k = t.kind
    if k == 'struct':
        return mod.build(t.target, v)
    if k != 'list':
        return scalar(w, t, v)
    items = [argument(w, t.elem, x) for x in v]
    kind = ch.rand(5)
    if kind == 0:
        return tuple(items)
    if kind == 1:
        seq = Seq(w, items)
    elif kind == 2:
        seq = SubList(items)
        seq.world = w
    else:
        seq = items

    def make():
        g = values.Gen(ch, budget=3, only_ctor=True)
        m = g.struct(t.elem.target) if t.elem.kind == 'struct' else g.value(t.elem)
        if m is None and t.elem.kind == 'list':
            m = []
        was = w.armed
        return argument_quiet(w, t.elem, m), m
    w.seqs.append((seq, list(v), make))
    w.orig.append((seq, items))
    return seq


def argument_quiet(w, t, v):
    """a new item: built without running callbacks"""
    armed, w.armed = w.armed, False
    if w.sim:
        w.sim.nopreempt += 1
    try:
        return w.mod.conv(t, v)
    finally:
        w.armed = armed
        if w.sim:
            w.sim.nopreempt -= 1


def field_arg(w, sd, f, v):
    ch = w.run.ch
    if f.kind == 'group':
        if f.nullable or f.group.disc_count:
            return w.mod.arg(sd, f, v)
        fs = [g for g in f.group.fields if not (g.kind == 'slot' and g.type.kind == 'void')]
        if any(g.kind == 'group' for g in fs):
            return w.mod.arg(sd, f, v)
        items = tuple(argument(w, g.type, v[g.name]) for g in fs)
        return items
    return argument(w, f.type, v)


def run(run, ctx):
    import capnpy
    ch = run.ch
    mod = ctx.mod(run)
    threads = run.platform == 'pure' and ch.rand(2) == 1
    w = World(run, ctx, mod, threads)
    w.orig = []
    w.sim = sim = Sim(run) if threads else None
    w.blobs = []
    for _ in range(1 + ch.rand(2)):
        name = ch.pick(['Tree', 'Named', 'Point', 'Lists'])
        v = gen_value(run, ctx, name, budget=6)
        w.others.append((capnpy.loads(sut_bytes(run, mod, ctx.sd(name), v), mod.cls(ctx.sd(name))), ctx.sd(name), v))
    name = ch.pick(NAMES)
    sd = ctx.sd(name)
    v = gen_value(run, ctx, name, budget=ch.size(8, 20, 35), big=ch.rand(6) == 5)
    kw = {}
    for f in sd.fields:
        if f.disc is not None and f.name != v['$which']:
            continue
        if not values.ctor_ok(f) or (f.disc is None and f.kind == 'slot' and f.type.kind == 'void'):
            continue
        kw[values.pykw(f)] = field_arg(w, sd, f, v[f.name])
    run.log(name, 'threads' if threads else 'callbacks', len(w.seqs))
    cls = mod.cls(sd)
    result = []

    def construct():
        w.armed = True
        try:
            result.append(('ok', cls(**kw)))
        except Exception as e:
            # the application's own exceptions come out as they are
            result.append(('error', type(e).__name__))
        finally:
            w.armed = False

    def others():
        for _ in range(1 + ch.rand(6)):
            sim.pause()
            if w.blobs and ch.rand(3) == 0:
                b = ch.pick(w.blobs)
                w.changed.add('blob')
                run.fault('input-mutated')
                if ch.rand(2):
                    b.extend(b'zz' * (1 + ch.rand(20)))
                else:
                    del b[:1 + ch.rand(5)]
                continue
            w.act(may_raise=False)
    if threads:
        sim.trace_code([SUT], maxgap=ch.pick([12, 60, 250]), budget=300)
        sim.spawn('builder', construct)
        for i in range(1 + ch.rand(2)):
            sim.spawn('other%d' % i, others)
        sim.run_tasks()
    else:
        construct()
    run.steps += 1
    how, obj = result[0]
    run.log(how, obj if how == 'error' else '', len(w.changed), w.raised)
    run.state(name, how, obj if how == 'error' else None, len(w.changed), w.raised, threads)
    if how == 'ok':
        run.check(not w.raised, 'exception-swallowed', 'an exception raised during the construction got lost')
        data = capnpy.dumps(obj)
        try:
            got, rd = rc.decode(data, sd, True)
        except (rc.RefError, UnicodeDecodeError) as e:
            raise Violation('malformed-output', '%s built from changing inputs: %s' % (name, e))
        compare(run, w, sd, v, got, name, kw)
        check = read_full(run, mod, obj, sd, name)
        run.check(values.same(check, got), 'wrong-value', lambda: 'reads differently from its dump: %s' % values.diff(
            check, got))
        if w.changed:
            run.probe('built-while-changing')
        else:
            run.probe('built')
    else:
        run.check(obj != 'SystemError', 'internal-error', 'SystemError from the constructor')
        run.check(w.changed or w.raised or w.blobs, 'spurious-error', lambda: '%s: %s, with inputs that do not change' % (
            name, obj))
        run.probe('refused')
    # the constructor itself never changes what it was given, and nothing else is affected
    for o, osd, ov in w.others:
        check_value(run, mod, o, osd, ov, 'an unrelated message')
    v2 = gen_value(run, ctx, 'Named', budget=5)
    ref_check(run, capnpy.dumps(mod.build(ctx.sd('Named'), v2)), ctx.sd('Named'), v2, 'a message built afterwards')
    clean = w.mod.build(sd, v) if sd.fields else None
    if clean is not None:
        ref_check(run, capnpy.dumps(clean), sd, v, 'the same message built again')


def compare(run, w, sd, want, got, path, kw):
    by = {id(s): seen for s, seen, _ in w.seqs}
    for f in sd.fields:
        if f.name not in want:
            continue
        p = path + '.' + f.name
        arg = kw.get(values.pykw(f))
        if f.kind == 'group' and not f.nullable and isinstance(arg, tuple) and not f.group.disc_count:
            # items of the tuple in order
            fs = [g for g in f.group.fields if not (g.kind == 'slot' and g.type.kind == 'void')]
            if len(fs) == len(arg) and not any(g.kind == 'group' for g in fs):
                for g, a in zip(fs, arg):
                    compare_one(run, w, by, g.type, want[f.name][g.name], got[f.name][g.name], p + '.' + g.name, a)
                continue
        if f.kind == 'slot':
            compare_one(run, w, by, f.type, want[f.name], got[f.name], p, arg)
        else:
            run.check(values.same(got[f.name], want[f.name]), 'wrong-value', lambda: values.diff(
                got[f.name], want[f.name], p))


def compare_one(run, w, by, t, want, got, p, arg):
    if isinstance(arg, bytearray):
        run.check(isinstance(got, bytes), 'wrong-value', '%s is %r' % (p, got))
        if 'blob' not in w.changed:
            run.check(got == want, 'wrong-value', '%s is %r' % (p, got))
        return
    if t.kind != 'list' or arg is None or not touched(w, arg):
        run.check(values.same(got, want), 'wrong-value', lambda: values.diff(got, want, p))
        return
    run.check(isinstance(got, list), 'wrong-value', lambda: '%s is %r' % (p, got))
    if id(arg) in by:
        seen = by[id(arg)]
    else:
        seen = list(want)
        run.check(len(got) == len(want), 'wrong-value', lambda: '%s has %d items' % (p, len(got)))
    if t.elem.kind == 'list':
        # items are lists, which may have changed themselves
        allowed = [y for _, ss, _ in w.seqs for y in ss] + [y for x in seen for y in (x or [])]
        for x in got:
            for y in (x or []):
                run.check(any(values.same(y, a) for a in allowed), 'item-from-nowhere', lambda: '%s has an item %r' % (
                    p, y))
        return
    for x in got:
        run.check(any(values.same(x, s) for s in seen), 'item-from-nowhere', lambda: '%s has an item %r that never was '
                  'in the input' % (p, x))


def touched(w, arg):
    if id(arg) in w.changed:
        return True
    items = arg.items if isinstance(arg, Seq) else arg
    try:
        return any(isinstance(x, (list, tuple, Seq)) and touched(w, x) for x in items)
    except TypeError:
        return False
