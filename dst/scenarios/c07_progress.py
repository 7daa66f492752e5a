"""C07: conversations.  Peers only wait for each other, never for bytes that nobody is going to send."""
import io

from dst import sim as S
from dst.scenarios.common import *


def setup(platform):
    return Ctx(platform)


class Guard(object):
    """Around a SimSocket: knows how many bytes the operation in progress needs; complains about a recv() beyond."""

    def __init__(self, run, sock):
        self.run, self.sock = run, sock
        self.delivered = 0
        self.need = None
        self.calls = 0
        self.eof_calls = 0

    def recv(self, n, flags=0):
        self.calls += 1
        if self.need is not None and self.delivered >= self.need:
            self.run.fail('reads-beyond', 'recv(%d) although all the %d bytes of what is being read have been received' % (n, self.need))
        d = self.sock.recv(n)
        self.delivered += len(d)
        if not d:
            self.eof_calls += 1
            if self.eof_calls > 3:
                self.run.fail('eof-not-bounded', '%d calls to recv() after the end of stream in one operation' % self.eof_calls)
        return d

    def sendall(self, data):
        return self.sock.sendall(data)

    def close(self):
        self.sock.close()


class End(object):
    """One end of a connection as a peer sees it."""

    def __init__(self, run, sim, sock, ch):
        from capnpy.buffered import BufferedSocket, BufferedStream
        self.run, self.sim = run, sim
        self.g = Guard(run, sock)
        g = self.g
        k = ch.rand(6)
        if k <= 2:
            self.src = BufferedSocket(g, ch.pick([8192, 1, 3, 8, 16, 61, 512]))
        elif k == 3:
            class Stream(BufferedStream):
                def _readchunk(self):
                    return g.recv(ch.pick([8192, 1, 7, 24]))
            self.src = Stream()
        elif k == 4:
            self.src = io.BufferedReader(S.SimRaw(g), ch.pick([8192, 1, 16, 100]))
        else:
            self.src = S.DuckFile(g)
        self.kind = type(self.src).__name__
        self.out = BufferedSocket(g)
        self.consumed = 0

    def load(self, cls, lens):
        """lens: queue of the lengths of the units on this direction, filled by the sender"""
        import capnpy
        g = self.g
        g.calls = g.eof_calls = 0
        g.need = None

        class Need(object):
            # the sender announces lengths out of band; they may not be there yet when the load begins
            def __ge__(s, other):
                return bool(lens) and self.consumed + lens[0] >= other

            def __le__(s, other):
                return bool(lens) and self.consumed + lens[0] <= other

            def __int__(s):
                return self.consumed + (lens[0] if lens else 0)
        g.need = Need()
        # delivered >= need  <=>  need <= delivered
        try:
            obj = capnpy.load(self.src, cls)
        finally:
            g.need = None
        self.consumed += lens.pop(0)
        return obj


def run(run, ctx):
    k = run.ch.rand(4)
    if k == 3:
        return eof(run, ctx)
    return conversation(run, ctx)


def conversation(run, ctx):
    import capnpy
    ch = run.ch
    mod = ctx.mod(run)
    sm = S.Sim(run)
    names = ['Point', 'Named', 'Texts', 'Tree', 'Lists', 'Shape', 'Rec', 'Outer']
    nclients = 1 + ch.rand(3)
    hops = ch.rand(3)                      # relays between client and server
    multi = ch.rand(2) == 1                # messages of several segments, as other libraries write them
    slow = ch.rand(3) == 2

    def encode(name, v, obj=None):
        if multi and ch.rand(2):
            return peer_bytes(run, ctx, name, v)
        obj = mod.build(ctx.sd(name), v) if obj is None else obj
        return capnpy.dumps(obj)

    def link():
        a, b = S.connection(sm, maxdelay=ch.pick([5, 50, 400]))
        ea, eb = End(run, sm, a, ch), End(run, sm, b, ch)
        ea.tx, eb.tx = eb_rx, ea_rx = [], []
        ea.rx, eb.rx = ea_rx, eb_rx
        return ea, eb

    def send(e, data):
        # several messages may be buffered before a flush
        e.tx.append(len(data))
        e.out.write(data)

    def nap():
        if slow and ch.rand(3) == 2:
            run.fault('slow-node')
            sm.sleep(1 + ch.rand(300))
    stats = {'req': 0}
    budget = [0]

    def client(ci, end, batches):
        def go():
            for batch in batches:
                for name, v in batch:
                    send(end, encode(name, v))
                    if ch.rand(3) == 2:
                        end.out.flush()
                        nap()
                end.out.flush()
                for name, v in batch:
                    obj = end.load(mod.cls(ctx.sd(name)), end.rx)
                    check_value(run, mod, obj, ctx.sd(name), v, 'reply to client %d' % ci)
                    stats['req'] += 1
                    run.log('c%d' % ci, 'reply', name)
                    nap()
            end.g.close()
        return go

    def echo(end, types, nxt=None):
        """server (or relay, when nxt is the end towards the next hop)"""
        def go():
            i = 0
            while True:
                name = types[i % len(types)]
                i += 1
                try:
                    obj = end.load(mod.cls(ctx.sd(name)), end.rx)
                except EOFError:
                    if nxt:
                        nxt.g.close()
                    end.g.close()
                    return
                nap()
                if nxt is None:
                    # the answer carries what was understood
                    v = mod.read(obj, ctx.sd(name))
                    how = ch.rand(3)
                    if how == 0:
                        send(end, capnpy.dumps(obj))
                    elif how == 1:
                        send(end, encode(name, v))
                    else:
                        d = len(capnpy.dumps(obj))
                        end.tx.append(d)
                        capnpy.dump(obj, end.out)
                    if not end.rx or ch.rand(2):
                        end.out.flush()
                else:
                    send(nxt, capnpy.dumps(obj, fastpath=bool(ch.rand(2))))
                    nxt.out.flush()
                    r = nxt.load(mod.cls(ctx.sd(name)), nxt.rx)
                    send(end, capnpy.dumps(r))
                    end.out.flush()
        return go

    total = 0
    for ci in range(nclients):
        nb = 1 + ch.rand(3)
        batches = []
        for _ in range(nb):
            batch = []
            for _ in range(1 + ch.size(2, 5)):
                nm = ch.pick(names)
                batch.append((nm, gen_value(run, ctx, nm, big=ch.rand(12) == 11)))
            batches.append(batch)
        types = [x[0] for bt in batches for x in bt]
        total += len(types)
        near, far = link()
        sm.spawn('c%d' % ci, client(ci, near, batches))
        kinds = [near.kind, far.kind]
        for h in range(hops if ch.rand(2) else 0):
            n2, f2 = link()
            sm.spawn('c%d.relay%d' % (ci, h), echo(far, types, n2))
            far = f2
            kinds.append(f2.kind)
        sm.spawn('c%d.server' % ci, echo(far, types))
        run.state('conv', tuple(kinds), len(batches), multi, slow)
    try:
        sm.run_tasks()
    except S.Deadlock as e:
        run.fail('stuck', 'everything sent has been delivered, but: %s (%d of %d replies)' % (e, stats['req'], total))
    run.check(stats['req'] == total, 'lost-reply', '%d of %d' % (stats['req'], total))
    run.probe('conversations')


def eof(run, ctx):
    """reads at the end of a stream end after a bounded number of transport calls"""
    import capnpy
    ch = run.ch
    mod = ctx.mod(run)
    sm = S.Sim(run)
    a, b = S.connection(sm)
    name = ch.pick(SMALL[:6])
    v = gen_value(run, ctx, name)
    msg = message(run, ctx, mod, name, v)
    cut = ch.rand(len(msg) + 1) if ch.rand(3) else len(msg)
    a.tx.feed(msg[:cut])
    a.tx.finish()
    e = End(run, sm, b, ch)
    run.fault('close')
    run.log('eof', e.kind, len(msg), cut)
    run.state('eof', e.kind, cut == len(msg), min(cut, 20))
    cls = mod.cls(ctx.sd(name))
    for i in range(1 + ch.rand(5)):
        e.g.eof_calls = 0
        k = ch.rand(4)
        try:
            if k == 0 or i == 0:
                obj = capnpy.load(e.src, cls)
                if i == 0:
                    check_value(run, mod, obj, ctx.sd(name), v, 'message before the end')
                else:
                    run.fail('extra-message', 'a message after the end')
            elif k == 1:
                e.src.read(ch.pick([1, 10, 100000]))
            elif k == 2:
                e.src.readline()
            else:
                e.src.read(-1)
        except (EOFError, ValueError):
            pass
        run.log(i, k, e.g.calls, e.g.eof_calls)
