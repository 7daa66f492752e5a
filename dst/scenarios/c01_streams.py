"""C01: sequences of messages and other records over a fragmenting, delaying stream."""
import io
import struct

from dst import sim as S
from dst.scenarios.common import *


def setup(platform):
    return Ctx(platform)


def make_source(run, sm, sock, ch, data):
    """a source of one of the documented kinds, over the socket or the whole bytes"""
    from capnpy.buffered import BufferedSocket, BufferedStream, StringBuffer
    k = ch.rand(8)
    if k in (0, 1, 2):
        bs = ch.pick([8192, 1, 2, 3, 7, 8, 16, 64, 4096])
        run.log('source BufferedSocket', bs)
        return BufferedSocket(sock, bs)
    if k == 3:
        class Stream(BufferedStream):
            def _readchunk(self):
                return sock.recv(1 + ch.rand(300))
        run.log('source BufferedStream subclass')
        return Stream()
    if k == 4:
        run.log('source BufferedReader')
        return io.BufferedReader(S.SimRaw(sock), ch.pick([8192, 1, 16, 100]))
    if k == 5:
        run.log('source DuckFile')
        return S.DuckFile(sock)
    if k == 6:
        run.log('source BytesIO')
        return io.BytesIO(data)
    run.log('source StringBuffer')
    return StringBuffer(data)


def records(run, ctx, mod, n, plain=False):
    """list of (kind, expected, bytes)"""
    ch = run.ch
    recs = []
    for _ in range(n):
        k = 0 if plain else ch.rand(6)
        if k < 4:
            name = ch.pick(SMALL)
            v = gen_value(run, ctx, name, big=ch.rand(6) == 5)
            recs.append(('msg', (name, v), message(run, ctx, mod, name, v)))
        elif k == 4:
            r = ch.sub()
            line = bytes(bytearray(r.choice(b'abc\0\xff ') for _ in range(ch.size(10, 50, 400)))) + b'\n'
            recs.append(('line', line, line))
        else:
            r = ch.sub()
            blob = bytes(bytearray(r.getrandbits(8) for _ in range(ch.size(10, 50, 400))))
            recs.append(('blob', blob, struct.pack('<I', len(blob)) + blob))
    return recs


def run(run, ctx):
    import capnpy
    ch = run.ch
    mod = ctx.mod(run)
    mode = ch.rand(4)
    recs = records(run, ctx, mod, 1 + ch.size(2, 4, 9), plain=(mode == 1))
    data = b''.join(r[2] for r in recs)
    run.log('stream', [(r[0], len(r[2])) for r in recs])
    sm = S.Sim(run)
    a, b = S.connection(sm)
    # the sender sends records in one or several batches, over time
    pos = 0
    t = 0
    while pos < len(data):
        n = len(data) - pos if ch.rand(2) == 0 else 1 + ch.rand(len(data) - pos)
        chunk = data[pos:pos + n]
        sm.at(t, lambda c=chunk: a.sendall(c))
        t += ch.rand(30)
        pos += n
    sm.at(t + 60, a.close)
    src = make_source(run, sm, b, ch, data)
    if mode == 1:
        # messages only, through load_all; interleaved with the network
        i = 0
        T = {}
        name0 = None
        names = [r[1][0] for r in recs]
        if len(set(names)) == 1:
            for obj in capnpy.load_all(src, mod.cls(ctx.sd(names[0]))):
                run.check(i < len(recs), 'extra-message', 'load_all yields more than the %d sent' % len(recs))
                check_value(run, mod, obj, ctx.sd(names[0]), recs[i][1][1], 'message %d' % i)
                i += 1
            run.check(i == len(recs), 'lost-message', '%d of %d messages' % (i, len(recs)))
            run.probe('load_all')
            run.state('all', i)
            return
    held = []
    for i, (kind, want, raw) in enumerate(recs):
        if kind == 'msg':
            name, v = want
            obj = capnpy.load(src, mod.cls(ctx.sd(name)))
            check_value(run, mod, obj, ctx.sd(name), v, 'message %d' % i, full=(ch.rand(3) == 0))
            held.append((i, obj, name, v))
            run.log('loaded', i, name)
        elif kind == 'line':
            got = src.readline()
            run.check(got == want, 'wrong-line', lambda: 'record %d: %r vs %r' % (i, got, want))
        else:
            hdr = src.read(4)
            run.check(hdr == raw[:4], 'wrong-bytes', lambda: 'length of record %d: %r vs %r' % (i, hdr, raw[:4]))
            got = src.read(len(want))
            run.check(got == want, 'wrong-bytes', lambda: 'record %d: %r vs %r' % (i, got[:80], want[:80]))
        run.state('rec', kind, len(raw) % 16, type(src).__name__)
    # end of stream
    try:
        capnpy.load(src, mod.cls(ctx.sd('Point')))
    except EOFError:
        pass
    else:
        run.fail('extra-message', 'load after the last record returned an object')
    for i, obj, name, v in held:
        check_value(run, mod, obj, ctx.sd(name), v, 'message %d, later' % i)
    for i, (kind, want, raw) in enumerate(recs):
        if kind == 'msg':
            obj = capnpy.loads(raw, mod.cls(ctx.sd(want[0])))
            check_value(run, mod, obj, ctx.sd(want[0]), want[1], 'loads of message %d' % i)
