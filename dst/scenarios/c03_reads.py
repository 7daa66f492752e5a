"""C03: any interleaving of reads on a buffered source against a plain byte string, with failing transports."""
import io

from dst import sim as S
from dst.scenarios.common import *


def setup(platform):
    return Ctx(platform)


class Timeout(OSError):
    pass


ERRORS = [lambda: Timeout('timed out'), lambda: InterruptedError(4, 'interrupted'),
          lambda: BlockingIOError(11, 'would block'), lambda: KeyError('boom')]


def content(run, ctx, mod):
    """bytes of the stream and the messages in it: {offset: (name, value, length)}"""
    ch = run.ch
    parts, msgs, pos = [], {}, 0
    for _ in range(1 + ch.size(3, 6, 12)):
        k = ch.rand(4)
        if k == 3:
            name = ch.pick(SMALL[:7])
            v = gen_value(run, ctx, name)
            m = message(run, ctx, mod, name, v)
            msgs[pos] = (name, v, len(m))
            parts.append(m)
        elif k == 2:
            r = ch.sub()
            parts.append(bytes(bytearray(r.choice(b'ab\0\xff') for _ in range(ch.size(8, 40, 9000)))))
        else:
            r = ch.sub()
            parts.append(b''.join(bytes(bytearray(r.choice(b'xyz ') for _ in range(r.randrange(7)))) + b'\n'
                                  for _ in range(ch.size(3, 6))))
        pos += len(parts[-1])
    return b''.join(parts), msgs


def run(run, ctx):
    import capnpy
    from capnpy.buffered import BufferedSocket, BufferedStream, StringBuffer
    from capnpy.filelike import as_filelike
    ch = run.ch
    mod = ctx.mod(run)
    data, msgs = content(run, ctx, mod)
    sm = S.Sim(run)
    a, b = S.connection(sm)
    rng = ch.rand(3)
    a.tx.feed(data)
    a.tx.finish()
    armed = [0, None]

    def faults(op):
        if armed[0] > 0:
            armed[0] -= 1
            if armed[0] == 0:
                e = ch.pick(ERRORS)()
                armed[1] = e
                run.fault('recv-' + type(e).__name__)
                return e
    b.faults = faults
    kind = ch.rand(6)
    live = True
    if kind in (0, 1):
        bs = ch.pick([8192, 1, 2, 5, 16, 64])
        src = BufferedSocket(b, bs)
    elif kind in (2, 3):
        class Stream(BufferedStream):
            def _readchunk(self):
                return b.recv(1 + ch.rand(ch.pick([4, 20, 300])))
        src = Stream()
    elif kind == 4:
        src = StringBuffer(data)
        live = False
    else:
        # an ordinary buffered file, through the adapter that the compiled library uses internally
        src = as_filelike(io.BufferedReader(S.SimRaw(b), ch.pick([1, 16, 8192])))
        live = False
    src_name = type(src).__name__
    pos = 0
    n = len(data)
    run.log('content', n, sorted((k, v[2]) for k, v in msgs.items()), kind)
    nops = 2 + ch.size(6, 14, 30)
    skip = ch.rand(8)
    for i in range(nops):
        op = ch.rand(8)
        fault = live and ch.rand(3) == 2 and op != 6
        armed[0] = (1 + ch.rand(4)) if fault else 0
        armed[1] = None
        m = msgs.get(pos)
        if m is not None and op == 6:
            obj = capnpy.load(src, mod.cls(ctx.sd(m[0])))
            check_value(run, mod, obj, ctx.sd(m[0]), m[1], 'message at %d' % pos)
            pos += m[2]
            run.log(i, 'load', m[2])
            run.state(src_name, 'load')
            continue
        nxt = min([k for k in msgs if k > pos] or [n])
        for attempt in range(20):
            e = None
            if attempt and fault:
                armed[0] = ch.rand(3)     # fail again, sometimes
            try:
                if op <= 2 or op in (6, 7):
                    size = ch.pick([1, 0, 2, 3, 7, 8, 100, 9000]) if op != 7 else max(0, nxt - pos)
                    want = data[pos:pos + size]
                    what = ('read', size)
                    got = src.read(size)
                elif op in (3, 4):
                    j = data.find(b'\n', pos)
                    want = data[pos:] if j < 0 else data[pos:j + 1]
                    what = ('readline',)
                    got = src.readline()
                else:
                    if i < nops - 3 and skip:
                        op = 0
                        continue
                    want = data[pos:]
                    what = ('read', -1)
                    got = src.read(-1) if ch.rand(2) else src.read()
                break
            except Exception as x:
                if x is not armed[1]:
                    raise
                e = x
                run.log(i, what, 'failed', type(x).__name__)
                run.state(src_name, what[0], 'failed', attempt)
                # a different operation may be tried after the failure
                if ch.rand(3) == 2:
                    op = ch.rand(5)
                armed[0] = 0
        else:
            continue
        armed[0] = 0
        if e is None:
            run.check(isinstance(got, bytes), 'wrong-type', lambda: '%r returned %s' % (what, type(got).__name__))
            run.check(got == want, 'wrong-bytes', lambda: '%r at offset %d of %d: got %r (%d bytes), expected %r (%d bytes)'
                      % (what, pos, n, got[:60], len(got), want[:60], len(want)))
            pos += len(want)
            run.log(i, what, len(got))
            run.state(src_name, what, len(got) if len(got) < 10 else 'many', pos == n)
    # everything that is left, then end of stream for good
    armed[0] = 0
    got = src.read(-1)
    run.check(got == data[pos:], 'wrong-bytes', lambda: 'the rest: %d bytes instead of %d' % (len(got), n - pos))
    for i in range(4):
        k = ch.rand(3)
        got = src.read(1 + ch.rand(20)) if k == 0 else src.readline() if k == 1 else src.read(-1)
        run.check(got == b'', 'data-after-eof', lambda: repr(got[:50]))
    try:
        capnpy.load(src, mod.cls(ctx.sd('Point')))
    except EOFError:
        pass
    else:
        run.fail('data-after-eof', 'load after end of stream returned a message')
