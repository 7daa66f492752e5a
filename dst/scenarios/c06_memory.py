"""C06: every operation, while the allocator fails at the k-th request (once, for a while, or from then on)."""
import gc
import io
import os
import pickle
import sys

from dst.scenarios.common import *


def setup(platform):
    ctx = Ctx(platform, ('rich', 'anyp', 'keyed'))
    import _testcapi
    ctx.on, ctx.off = _testcapi.set_nomemory, _testcapi.remove_mem_hooks
    gc.disable()
    return ctx


def canon(mod, sd, x):
    """the meaning of a result"""
    if isinstance(x, (bytes, str, int, bool, float, dict)) or x is None:
        return x
    if isinstance(x, (list, tuple)):
        return [canon(mod, sd, y) for y in x]
    try:
        v = mod.read(x, sd)
    except values.Mismatch as e:
        raise Violation('inconsistent-read', str(e))
    return strip(v)


def strip(v):
    if isinstance(v, dict):
        return {k: strip(x) for k, x in v.items()}
    if isinstance(v, tuple):
        return 'ANY'
    return v


DEBUG = os.environ.get('VERIF_DEBUG')


class Sink(object):
    # BytesIO closes itself when it runs out of memory
    def __init__(self):
        self.parts = []

    def write(self, b):
        self.parts.append(bytes(b))


def run(run, ctx):
    import capnpy
    ch = run.ch
    schema = ch.pick(['rich', 'rich', 'rich', 'anyp', 'keyed'])
    mods = {n: ctx.mods[n][0 if run.platform == 'pure' else 1 - ch.rand(2)] for n in ctx.mods} if ctx.compiled else \
        {n: ctx.mods[n][ch.rand(2)] for n in ctx.mods}
    mod = mods[schema]
    big = ch.rand(2) == 1
    if schema == 'rich':
        name = ch.pick(SMALL[:-1] + ['Envelope', 'Lists', 'Texts', 'Tree'])
    elif schema == 'anyp':
        name = 'Any'
    else:
        name = ch.pick(sorted(n for n in ctx.schemas['keyed'].structs if ctx.schemas['keyed'].structs[n].key))
    sd = ctx.sd(name, schema)
    cls = mod.cls(sd)
    v = gen_value(run, ctx, name, schema, big=big, budget=ch.size(8, 25),
                  anytypes=any_types(ctx) if schema == 'anyp' else ())
    if schema == 'anyp' or ch.rand(3) == 0:
        msg = peer_bytes(run, ctx, name, v, schema)
    else:
        msg = capnpy.dumps(mod.build(sd, v))
    obj = capnpy.loads(msg, cls)
    before = bytes(bytearray(obj._seg.buf))
    f = io.BytesIO(msg)
    stream = io.BytesIO(msg * 3)
    item_name, kwargs = None, None
    ops = ['loads', 'load', 'load_all', 'dumps', 'dumps-slow', 'compact', 'pickle', 'unpickle', 'raw', 'read', 'repr',
           'write']
    if schema != 'anyp':
        kwargs = mod.kwargs(sd, v)
        ops += ['build', 'build', 'build', 'build-dump']
    if sd.key:
        ops += ['hash', 'eq']
        twin = capnpy.loads(capnpy.dumps(obj), cls)
    if schema == 'rich' and name in ('Tree', 'Point', 'Named', 'Rec', 'Shape', 'Outer'):
        ops += ['embed', 'embed-list']
        R = mod.module
    op = ch.pick(ops)
    pick = pickle.dumps(obj, 2)
    raw = obj._raw_dumps()
    rsd = sd
    if op == 'loads':
        fn = lambda: capnpy.loads(msg, cls)
    elif op == 'load':
        def fn():
            f.seek(0)
            return capnpy.load(f, cls)
    elif op == 'load_all':
        def fn():
            stream.seek(0)
            return list(capnpy.load_all(stream, cls))
    elif op == 'dumps':
        fn = lambda: capnpy.dumps(obj)
    elif op == 'dumps-slow':
        fn = lambda: capnpy.dumps(obj, fastpath=False)
    elif op == 'compact':
        fn = lambda: obj.compact()
    elif op == 'pickle':
        fn = lambda: pickle.dumps(obj, 2)
    elif op == 'unpickle':
        fn = lambda: pickle.loads(pick)
    elif op == 'raw':
        fn = lambda: cls._raw_loads(obj._raw_dumps())
    elif op == 'read':
        fn = lambda: strip(mod.read(obj, sd))
    elif op == 'repr':
        fn = lambda: obj.shortrepr()
    elif op == 'write':
        def fn():
            sink = Sink()
            capnpy.dump(obj, sink)
            return b''.join(sink.parts)
    elif op == 'build':
        fn = lambda: cls(**kwargs)
    elif op == 'build-dump':
        fn = lambda: capnpy.dumps(cls(**kwargs))
    elif op == 'hash':
        fn = lambda: hash(obj)
    elif op == 'eq':
        fn = lambda: (obj == twin, obj != twin)
    elif op == 'embed':
        kw = {'Tree': ('Tree', 'left'), 'Point': ('Named', 'at'), 'Named': ('Lists', None), 'Rec': ('Envelope', 'rec'),
              'Shape': ('Rec', 'shape'), 'Outer': ('Rec', 'outer')}[name]
        rsd = ctx.sd(kw[0])
        if kw[1] is None:
            fn = lambda: R.Lists(nameds=[obj])
        else:
            fn = lambda: getattr(R, kw[0])(**{kw[1]: obj})
    else:
        kw = {'Tree': ('Tree', 'children'), 'Point': ('Lists', 'points'), 'Named': ('Lists', 'nameds'),
              'Shape': ('Lists', 'shapes'), 'Rec': ('Envelope', 'batch'), 'Outer': (None, None)}[name]
        if kw[0] is None:
            return
        rsd = ctx.sd(kw[0])
        n = 1 + ch.rand(4)
        fn = lambda: getattr(R, kw[0])(**{kw[1]: [obj] * n})

    def quiet():
        # what only the first calls allocate does not count
        x = fn()
        return x
    quiet()
    want = canon(mod, rsd, quiet())
    width = ch.pick([1, 1, 0, 2, 10])
    sparse = ch.rand(4)
    run.log(op, name, width)
    on, off = ctx.on, ctx.off
    k = 1 + (ch.rand(40) if sparse == 3 else 0)
    clean = 0
    fails = 0
    attempts = 0
    live = []
    while clean < 4 and attempts < 220:
        attempts += 1
        res = exc = None
        on(k, k + width if width else 0)
        try:
            res = fn()
        except BaseException as e:
            exc = e
        finally:
            off()
        run.steps += 1
        if exc is not None:
            t = type(exc)
            if t is not MemoryError:
                tb = exc.__traceback__
                while tb.tb_next is not None:
                    tb = tb.tb_next
                why = '%s: %s (%s:%d)' % (t.__name__, str(exc)[:200], tb.tb_frame.f_code.co_filename.split('/')[-1], tb.tb_lineno)
                tb = None
            exc = None
            fails += 1
            clean = 0
            if t is not MemoryError:
                # (in pure Python mode it is CPython that sometimes forgets the exception)
                if t is SystemError and ctx.compiled or not issubclass(t, Exception):
                    raise Violation('internal-error', '%s %s: %s at allocation %d' % (op, name, why, k))
                run.probe('other-exception')
                if DEBUG:
                    run.log(why)
            run.faults['failed-allocation'] = run.faults.get('failed-allocation', 0) + 1
        else:
            clean += 1
            got = canon(mod, rsd, res)
            run.check(values.same(got, want), 'wrong-result', lambda: '%s %s, with allocation %d failing, gives: %s' % (
                op, name, k, values.diff(got, want)))
            if len(live) < 20:
                live.append(res)
        res = None
        if attempts % 16 == 0 or exc is not None and attempts % 4 == 0:
            check_after(run, ctx, mod, rsd, fn, want, op, name, k, obj, before)
        k += 1 if k < 50 else 1 + ch.rand(1 + k // 12)
    check_after(run, ctx, mod, rsd, fn, want, op, name, k, obj, before)
    run.check(values.same(strip(mod.read(obj, sd)), strip(v)), 'wrong-value', lambda: 'after %s: %s' % (
        op, values.diff(strip(mod.read(obj, sd)), strip(v))))
    for x in live:
        run.check(values.same(canon(mod, rsd, x), want), 'wrong-result', '%s %s: an earlier result changed' % (op, name))
    b = 1
    while b < fails:
        b *= 2
    run.state(op, name, width, b)
    run.probe('swept-' + op)


def check_after(run, ctx, mod, rsd, fn, want, op, name, k, obj, before):
    got = canon(mod, rsd, fn())
    run.check(values.same(got, want), 'later-operation-wrong', lambda: '%s %s, after allocation %d failed: %s' % (
        op, name, k, values.diff(got, want)))
    run.check(obj._seg.buf == before, 'message-modified', lambda: '%s %s: the bytes of the message changed' % (op, name))
