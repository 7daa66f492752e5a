"""C02: streams and append-only files that end anywhere."""
import io
import struct

from dst import sim as S
from dst.scenarios.common import *
from dst.scenarios import c01_streams as st


def setup(platform):
    return Ctx(platform)


class PeerReset(ConnectionResetError):
    pass


def build_messages(run, ctx, mod, n, name=None):
    ch = run.ch
    res = []
    for _ in range(n):
        nm = name or ch.pick(SMALL)
        v = gen_value(run, ctx, nm)
        res.append((nm, v, message(run, ctx, mod, nm, v)))
    return res


def run(run, ctx):
    ch = run.ch
    mod = ctx.mod(run)
    k = ch.rand(6)
    if k <= 2:
        stream_cut(run, ctx, mod)
    elif k == 3:
        torn_log(run, ctx, mod)
    else:
        bytes_cut(run, ctx, mod)


def cut_point(run, lens):
    """a byte offset: mostly inside headers or near boundaries, sometimes anywhere"""
    ch = run.ch
    total = sum(lens)
    k = ch.rand(4)
    if k == 0:
        return ch.rand(total + 1)
    b = sum(lens[:ch.rand(len(lens) + 1)])
    if k == 1:
        return b
    return max(0, min(total, b - 24 + ch.rand(49)))


def complete(lens, cut):
    n = pos = 0
    while n < len(lens) and pos + lens[n] <= cut:
        pos += lens[n]
        n += 1
    return n, pos == cut


def stream_cut(run, ctx, mod):
    import capnpy
    ch = run.ch
    one = ch.rand(2) == 1
    msgs = build_messages(run, ctx, mod, 1 + ch.size(2, 5), ch.pick(SMALL) if one else None)
    lens = [len(m[2]) for m in msgs]
    data = b''.join(m[2] for m in msgs)
    cut = cut_point(run, lens)
    n, clean = complete(lens, cut)
    broken = ch.rand(3) == 2
    err = PeerReset(104, 'connection reset by the simulator') if broken else None
    sm = S.Sim(run)
    a, b = S.connection(sm)
    a.tx.feed(data[:cut])
    a.tx.finish(err)
    run.fault('reset' if broken else ('close-at-boundary' if clean else 'close-inside-message'))
    src = st.make_source(run, sm, b, ch, data[:cut])
    live = isinstance(src, (io.BytesIO,)) is False and type(src).__name__ != 'StringBuffer'
    if not live:
        err = None
    run.log('cut', lens, cut, n, clean, broken and live)
    run.state('cut', n, clean, broken and live, type(src).__name__, min(cut - sum(lens[:n]), 40))

    def check_end(e, i):
        """e: the exception that ended the reading"""
        run.check(i == n, 'lost-message', lambda: 'only %d of the %d complete messages were delivered, then %r' % (i, n, e))
        if err is not None:
            run.check(e is err, 'error-not-passed-on', lambda: 'the transport raised %r, the caller got %r' % (err, e))
        elif clean:
            run.check(isinstance(e, EOFError), 'unclean-end', lambda: 'cut on a boundary, but %r' % (e,))
        else:
            run.check(e is not None and not isinstance(e, EOFError), 'clean-end-inside-message',
                      lambda: 'cut %d bytes into message %d of %r, reported as end of stream' % (
                          cut - sum(lens[:n]), n, lens))
    if one and ch.rand(2):
        i = 0
        e = EOFError()
        it = capnpy.load_all(src, mod.cls(ctx.sd(msgs[0][0])))
        while True:
            try:
                obj = next(it)
            except StopIteration:
                break
            except Exception as x:
                e = x
                break
            run.check(i < n, 'partial-message', lambda: 'message %d of %d complete ones was delivered' % (i + 1, n))
            check_value(run, mod, obj, ctx.sd(msgs[i][0]), msgs[i][1], 'message %d' % i)
            i += 1
        check_end(e, i)
        # after the generator is finished it stays finished
        try:
            next(it)
        except StopIteration:
            pass
        else:
            run.fail('extra-message', 'load_all yields after its end')
        return
    i = 0
    while True:
        name = msgs[min(i, len(msgs) - 1)][0]
        try:
            obj = capnpy.load(src, mod.cls(ctx.sd(name)))
        except Exception as x:
            e = x
            break
        run.check(i < n, 'partial-message', lambda: 'message %d of %d complete ones was delivered' % (i + 1, n))
        check_value(run, mod, obj, ctx.sd(name), msgs[i][1], 'message %d' % i)
        i += 1
    check_end(e, i)


def torn_log(run, ctx, mod):
    """a writer appends messages to a file and crashes; after the restart it cuts the torn tail and goes on"""
    import capnpy
    ch = run.ch
    name = ch.pick(SMALL)
    log = S.SimLog(run)
    written = []          # (value, end offset)
    inc = 1 + ch.rand(3)
    for life in range(inc):
        for _ in range(ch.size(3, 6)):
            v = gen_value(run, ctx, name)
            obj = mod.build(ctx.sd(name), v)
            if ch.rand(2):
                capnpy.dump(obj, log)
            else:
                log.write(message(run, ctx, mod, name, v))
            written.append((v, len(log.data)))
            if ch.rand(3) == 2:
                log.sync()
        if ch.rand(5) == 4:
            log.sync()
        keep = log.crash()
        # restart: read what survived
        want = [w for w in written if w[1] <= keep]
        clean = keep == (want[-1][1] if want else 0)
        f = io.BytesIO(bytes(log.data)) if ch.rand(2) else io.BufferedReader(io.BytesIO(bytes(log.data)), 16)
        got = 0
        exc = None
        it = capnpy.load_all(f, mod.cls(ctx.sd(name)))
        while True:
            try:
                obj = next(it)
            except StopIteration:
                break
            except Exception as x:
                exc = x
                break
            run.check(got < len(want), 'partial-message', 'a torn record was delivered')
            check_value(run, mod, obj, ctx.sd(name), want[got][0], 'record %d after restart' % got)
            got += 1
        run.check(got == len(want), 'lost-message', lambda: '%d of %d complete records, then %r' % (got, len(want), exc))
        run.check((exc is None) == clean, 'torn-tail-unnoticed' if not clean else 'unclean-end',
                  lambda: 'clean=%r but the reader ended with %r' % (clean, exc))
        run.state('torn', life, len(want), clean, keep % 8)
        end = want[-1][1] if want else 0
        del log.data[end:]
        log.durable = end
        written = want


def bytes_cut(run, ctx, mod):
    """loads() of a truncated or over-long string"""
    import capnpy
    from capnpy.buffered import BufferedSocket
    ch = run.ch
    (name, v, msg), = build_messages(run, ctx, mod, 1)
    cls = mod.cls(ctx.sd(name))
    other = msg[:]
    cuts = set([0, len(msg) - 1])
    for _ in range(6):
        cuts.add(ch.rand(len(msg)))
    for d in (1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16):
        if d < len(msg):
            cuts.add(d if ch.rand(2) else len(msg) - d)
    for cut in sorted(cuts):
        run.fault('truncate')
        try:
            capnpy.loads(msg[:cut], cls)
        except Exception as e:
            run.log('cut', cut, 'raised')
            if cut:
                run.check(not isinstance(e, EOFError), 'clean-end-inside-message', lambda: 'loads of %d of %d bytes raised %r' % (cut, len(msg), e))
        else:
            run.fail('truncated-accepted', 'loads accepted %d of %d bytes' % (cut, len(msg)))
    for extra in (b'\0', b'\0' * 8, msg, b'\xff' * (1 + ch.rand(9))):
        run.fault('over-long')
        try:
            capnpy.loads(msg + extra, cls)
        except Exception:
            pass
        else:
            run.fail('over-long-accepted', 'loads accepted %d extra bytes' % len(extra))
    # a header that announces more than there is: also by multiples of 2**29 words (2**32 bytes) and of 2**32 segments
    nseg = struct.unpack('<I', msg[:4])[0] + 1
    for _ in range(3):
        i = ch.rand(nseg + 1)
        old = struct.unpack('<I', msg[4 * i:4 * i + 4])[0]
        if i == 0:
            new = ch.pick([0xffffffff, 0x7fffffff, 0x80000000, 0xfffffffe, old + (1 << 16)])
            if new <= old:
                continue
        else:
            new = old + ch.pick([1, 2, 1 << 29, 1 << 30, 1 << 31, 3 << 29, 7 << 29, 1 << 28, 255])
            if new > 0xffffffff:
                continue
        run.fault('forged-count')
        bad = msg[:4 * i] + struct.pack('<I', new) + msg[4 * i + 4:]
        src = ch.pick(['loads', 'socket', 'file']) if i else 'loads'
        try:
            if src == 'loads':
                capnpy.loads(bad, cls)
            elif src == 'socket':
                sm = S.Sim(run)
                a, b = S.connection(sm)
                a.tx.feed(bad)
                a.tx.finish()
                capnpy.load(BufferedSocket(b), cls)
            else:
                capnpy.load(io.BytesIO(bad), cls)
        except EOFError as e:
            run.fail('clean-end-inside-message', 'a message of %d bytes whose header announces more: %r' % (len(msg), e))
        except Exception:
            pass
        else:
            run.fail('truncated-accepted', 'header word %d forged from %d to %d, accepted from %s' % (i, old, new, src))
    run.state('bytes', name, len(msg) // 8)
    check_value(run, mod, capnpy.loads(msg, cls), ctx.sd(name), v, 'whole message')
