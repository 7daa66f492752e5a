"""C04: several cooperative writers over one buffered socket; sends stall, fail, and are retried."""
from dst import sim as S
from dst.scenarios.common import *


def setup(platform):
    return Ctx(platform)


class SendError(OSError):
    pass


ERRORS = [lambda: SendError('timed out'), lambda: InterruptedError(4, 'interrupted'),
          lambda: BlockingIOError(11, 'would block'), lambda: KeyError('boom'), lambda: GeneratorExit()]


class SharedFile(object):
    """A file that writers share and that lets others run at every write."""

    def __init__(self, sim):
        self.sim, self.parts = sim, []

    def write(self, data):
        self.sim.pause()
        self.parts.append((self.sim.current.name if self.sim.current else 'main', bytes(data)))
        self.sim.pause()
        return len(data)


def run(run, ctx):
    import capnpy
    from capnpy.buffered import BufferedSocket
    ch = run.ch
    mod = ctx.mod(run)
    sm = S.Sim(run)
    a, b = S.connection(sm)
    order = []                # what was written, in order: (writer, data, is message)
    st = {'flushing': 0, 'dead': False, 'sent': 0, 'written': 0}
    seams = ch.rand(2) == 1
    # one writer and one thread that flushes, pre-empted anywhere in the library
    traced = ch.rand(3) == 2
    if traced:
        seams = False
        if run.platform == 'pure':
            sm.trace_code([SUT], maxgap=ch.pick([6, 30, 120]), budget=150)

    if seams:
        class Sock(BufferedSocket):
            def write(self, data):
                sm.pause()
                order.append((sm.current.name if sm.current else 'main', bytes(data)))
                return BufferedSocket.write(self, data)
        f = Sock(a)
    else:
        f = BufferedSocket(a)

    def written():
        return b''.join(x[1] for x in order)

    def check_wire(when):
        w = bytes(a.wire)
        run.check(written().startswith(w), 'wire-differs', lambda: 'after %s the wire has %r..., written so far %r...' % (
            when, w[-60:], written()[:len(w)][-60:]))

    def on_send(sock, data):
        run.check(st['flushing'] > 0, 'sent-without-flush', '%d bytes handed to the socket outside of flush()' % len(data))
        n = len(a.wire)
        k = ch.rand(6)
        if k == 0 or not data:
            sock._accept(data)
        elif k in (1, 2, 3):
            # the send buffer of the connection is full: some bytes go now, the rest as the peer reads
            run.fault('send-stall')
            pos = 0
            while pos < len(data):
                m = 1 + ch.rand(len(data) - pos)
                sock._accept(data[pos:pos + m])
                pos += m
                if pos < len(data):
                    sm.sleep(1 + ch.rand(20))
        elif k == 4:
            run.fault('send-fails')
            if ch.rand(2):
                sm.sleep(1 + ch.rand(20))
            raise ch.pick(ERRORS)()
        else:
            if ch.rand(4) == 3:
                # the connection dies in the middle: nothing more can be said about later flushes
                run.fault('connection-lost-mid-send')
                sock._accept(data[:ch.rand(len(data))])
                st['dead'] = True
                raise ConnectionResetError(104, 'connection reset')
            sm.sleep(1 + ch.rand(30))
            sock._accept(data)
        run.check(bytes(a.wire[n:]) == data or st['dead'], 'harness', 'socket accepted something else')
    a.on_send = on_send

    def flush():
        if st['flushing'] or st['dead']:
            return
        st['flushing'] += 1
        before = st['written'] if traced else len(written())
        wired = len(a.wire)
        try:
            f.flush()
        except (OSError, KeyError, GeneratorExit) as e:
            run.log('flush failed', type(e).__name__)
            run.state('flush-failed', type(e).__name__, len(order) > 0, before < len(written()))
            run.check(st['dead'] or len(a.wire) == wired, 'harness', 'failed flush sent something')
        else:
            run.log('flush', before, len(a.wire))
            run.state('flush', before < len(written()), before == wired)
            run.check(len(a.wire) >= before, 'flush-incomplete', lambda: 'flush() returned with %d of the %d bytes written before it handed over' % (len(a.wire), before))
        finally:
            st['flushing'] -= 1
        check_wire('flush')

    def put(name, data, how=None):
        if how is None:
            if not seams:
                order.append((name, bytes(data)))
            if ch.rand(3) == 2:
                # a buffer which the application uses again
                run.fault('written-buffer-reused')
                buf = bytearray(data)
                f.write(buf if ch.rand(2) else memoryview(buf))
                for i in range(len(buf)):
                    buf[i] ^= 0x55
            else:
                f.write(data)
            st['written'] = len(written())

    nw = 1 if traced else 1 + ch.rand(4)
    msgs = []
    plans = []
    for w in range(nw):
        plan = []
        flushes = ch.rand(4) > 0     # else data piles up
        for _ in range(1 + ch.size(3, 6, 12, 80)):
            k = ch.rand(6 if flushes else 4)
            if k <= 1:
                nm = ch.pick(SMALL[:8])
                v = gen_value(run, ctx, nm)
                plan.append(('dump', nm, v, mod.build(ctx.sd(nm), v), ch.rand(3)))
            elif k == 2:
                plan.append(('write', ch.sub().randbytes(ch.size(10, 100, 20000, 150000))))
            elif k == 3:
                plan.append(('write', b'%d.%d\n' % (w, len(plan))))
            else:
                plan.append(('flush',))
        plans.append(plan)
    messages_only = ch.rand(3) == 2
    shared = SharedFile(sm)
    smsgs = {}

    def writer(w):
        name = 'w%d' % w

        def go():
            for step in plans[w]:
                sm.pause()
                if ch.rand(3) == 2:
                    sm.sleep(ch.rand(15))
                if st['dead']:
                    return
                if step[0] == 'flush':
                    flush()
                elif step[0] == 'write':
                    if messages_only:
                        continue
                    put(name, step[1])
                    run.log(name, 'write', len(step[1]))
                else:
                    _, nm, v, obj, how = step
                    data = capnpy.dumps(obj)
                    n = len(order)
                    if not seams:
                        order.append((name, data))
                    if how == 0:
                        obj.dump(f)
                    elif how == 1:
                        capnpy.dump(obj, f)
                    else:
                        capnpy.dump(obj, f, True)
                    st['written'] = len(written())
                    run.log(name, 'dump', len(data))
                    msgs.append((name, nm, v))
                    smsgs.setdefault(name, []).append(data)
                    capnpy.dump(obj, shared) if ch.rand(2) else obj.dump(shared)
                check_wire(step[0])
        return go

    for w in range(nw):
        sm.spawn('w%d' % w, writer(w))
    if traced:
        def flusher():
            for _ in range(1 + ch.rand(12)):
                sm.pause()
                flush()
        sm.spawn('flusher', flusher)
    # the same connection is read at the same time
    back = b''.join(b'%d\n' % i for i in range(ch.rand(30)))
    b.sendall(back)
    b.close()
    got = []

    def reader():
        while True:
            line = f.readline() if ch.rand(2) else f.read(1 + ch.rand(7))
            if not line:
                return
            got.append(line)
    if ch.rand(2):
        sm.spawn('reader', reader)
    else:
        got.append(back)
    sm.run_tasks()
    run.check(b''.join(got) == back, 'read-side-disturbed', 'the other direction of the connection')
    if not st['dead']:
        for _ in range(40):
            if len(a.wire) == len(written()):
                break
            flush()
            if st['dead']:
                break
        else:
            run.fail('not-delivered', '%d of %d bytes on the wire after 40 flushes' % (len(a.wire), len(written())))
    check_wire('the end')
    if st['dead']:
        return
    # one more flush has nothing to send
    n = len(a.wire)
    flush()
    run.check(len(a.wire) == n or st['dead'], 'sent-twice', 'a flush with nothing written sent %d bytes' % (len(a.wire) - n))
    sm.drain()
    run.check(bytes(b.rx.arrived) == written(), 'not-delivered', 'the peer got something else')
    parts = shared.parts
    if messages_only and not st['dead']:
        # the peer sees whole messages, those of one writer in its order
        data = written()
        src = capnpy.buffered.StringBuffer(data)
        left = {}
        for who, nm, v in msgs:
            left.setdefault(who, []).append((nm, v))
        for who, d in order:
            nm, v = left[who].pop(0)
            obj = capnpy.load(src, mod.cls(ctx.sd(nm)))
            check_value(run, mod, obj, ctx.sd(nm), v, 'message of %s' % who)
        run.check(src.tell() == len(data), 'interleaved', 'bytes left over')
    # the shared file: whole messages, each writer's in its order
    buf, owner = b'', None
    for who, part in parts:
        run.check(not buf or who == owner, 'interleaved', 'data of %s inside a message of %s' % (who, owner))
        buf, owner = buf + part, who
        todo = smsgs.get(who, [])
        while todo and buf and buf.startswith(todo[0]):
            buf = buf[len(todo.pop(0)):]
        run.check(not buf or (todo and todo[0].startswith(buf)), 'interleaved', 'what %s wrote is not its messages' % who)
    run.check(not any(smsgs.values()), 'interleaved', 'messages are missing from the shared file')
