"""The simulator: virtual clock, event queue, tasks (real threads, exactly one of which runs at any moment, handed
over by the seeded scheduler), pre-emption at bytecode granularity, network, append-only disk."""
import heapq
import io
import sys
import threading

from dst.core import Violation, HarnessError


def _opcodes():
    # CPython 3.12 traces opcodes only if some frame asked for it before the trace function was set.  Not the frame of
    # a task: the interpreter would call its missing trace function
    sys._getframe().f_trace_opcodes = True


_opcodes()


class Deadlock(Exception):
    """Nothing can happen any more but somebody still waits."""


class Killed(BaseException):
    pass


class SimTimeout(OSError):
    """socket.timeout is an OSError subclass as well"""


class Task(object):
    def __init__(self, sim, name, fn, daemon):
        self.sim, self.name, self.fn, self.daemon = sim, name, fn, daemon
        self.sem = threading.Semaphore(0)
        self.pred = None
        self.deadline = None
        self.done = False
        self.exc = None
        self.result = None
        self.thread = threading.Thread(target=self._main)
        self.thread.daemon = True
        self.started = False

    def _main(self):
        self.sem.acquire()
        try:
            if self.sim.dead:
                return
            if self.sim.tracer:
                self.sim.tracer.install(self)
            try:
                self.result = self.fn()
            finally:
                if self.sim.tracer:
                    sys.settrace(None)
        except Killed:
            pass
        except BaseException as e:
            self.exc = e
        finally:
            self.done = True
            self.sim.main_sem.release()


class Tracer(object):
    """Pre-empts the running task after a drawn number of opcodes executed inside the code under test."""

    def __init__(self, sim, prefixes, maxgap=60, budget=400):
        self.sim, self.prefixes, self.maxgap = sim, prefixes, maxgap
        self.budget = budget        # pre-emptions per run
        self.count = 0
        self.ok = {}
        self.opcodes = 0
        self.reset()

    def reset(self):
        ch = self.sim.run.ch
        self.count = 1 + (ch.rand(self.maxgap) if ch.rand(4) else ch.rand(8))

    def install(self, task):
        sys.settrace(self.glob)

    def glob(self, frame, event, arg):
        fn = frame.f_code.co_filename
        ok = self.ok.get(fn)
        if ok is None:
            ok = self.ok[fn] = any(fn.startswith(p) for p in self.prefixes)
        if not ok:
            return None
        frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == 'opcode' or event == 'line':
            self.opcodes += 1
            self.count -= 1
            if self.count <= 0 and self.budget > 0:
                sim = self.sim
                cur = sim.current
                if cur is not None and not sim.dead and sim.nopreempt == 0:
                    self.budget -= 1
                    self.reset()
                    if sim.others_runnable(cur):
                        sim.run.state('pre', frame.f_code.co_name, frame.f_lasti)
                        sim.switches += 1
                        sim.switch()
                else:
                    self.count = 20
        return self.local


class Sim(object):
    def __init__(self, run):
        self.run = run
        self.ch = run.ch
        self.now = 0
        self.heap = []
        self.seq = 0
        self.tasks = []
        self.current = None
        self.main_sem = threading.Semaphore(0)
        self.dead = False
        self.tracer = None
        self.nopreempt = 0
        self.switches = 0
        self.maxsteps = 200000
        self.after_step = None

    # ---- clock
    def at(self, delay, fn):
        self.seq += 1
        heapq.heappush(self.heap, (self.now + delay, self.seq, fn))

    def step_event(self):
        t, _, fn = heapq.heappop(self.heap)
        if t > self.now:
            self.now = t
            self.run.simtime = t
        fn()
        self.run.steps += 1
        if self.run.steps > self.maxsteps:
            raise Violation('no-progress', 'more than %d simulator steps' % self.maxsteps)
        if self.after_step:
            self.after_step()

    def drain(self):
        while self.heap:
            self.step_event()

    def wait(self, pred):
        """Wait until pred() holds; time passes."""
        t = self.current
        if t is None:
            while not pred():
                if not self.heap:
                    raise Deadlock()
                self.step_event()
            return
        if pred():
            return
        t.pred = pred
        self.switch()
        t.pred = None

    def sleep(self, d):
        end = self.now + d
        self.at(d, lambda: None)
        self.wait(lambda: self.now >= end)

    # ---- tasks
    def spawn(self, name, fn, daemon=False):
        t = Task(self, name, fn, daemon)
        self.tasks.append(t)
        return t

    def switch(self):
        """Called by the running task: give the baton back, wait for it."""
        t = self.current
        self.current = None
        self.main_sem.release()
        t.sem.acquire()
        if self.dead:
            raise Killed()

    def pause(self):
        """A seam: the scheduler may run somebody else here."""
        if self.current is not None and not self.dead and self.nopreempt == 0:
            if self.others_runnable(self.current):
                self.switches += 1
                self.switch()

    def runnable(self, t):
        return not t.done and (t.pred is None or t.pred())

    def others_runnable(self, cur):
        for t in self.tasks:
            if t is not cur and not t.done and (t.pred is None or t.pred()):
                return True
        return False

    def go(self, t):
        self.current = t
        if not t.started:
            t.started = True
            t.thread.start()
        t.sem.release()
        self.main_sem.acquire()
        self.current = None

    def run_tasks(self):
        """Run until all non-daemon tasks have finished.  Raises Deadlock, or the exception of a task."""
        try:
            n = 0
            while True:
                live = [t for t in self.tasks if not t.done]
                if not [t for t in live if not t.daemon]:
                    return
                ready = [t for t in live if t.pred is None or t.pred()]
                # an event may happen before any ready task runs on
                if self.heap and (not ready or self.heap[0][0] <= self.now or self.ch.rand(4) == 3):
                    self.step_event()
                    continue
                if not ready:
                    raise Deadlock('waiting: %s' % ', '.join(t.name for t in live if not t.daemon))
                t = ready[self.ch.rand(len(ready))]
                n += 1
                if n > self.maxsteps:
                    raise Violation('no-progress', 'more than %d task switches' % self.maxsteps)
                self.run.steps += 1
                self.go(t)
                if t.exc is not None:
                    raise t.exc
        finally:
            self.shutdown()

    def shutdown(self):
        self.dead = True
        for t in self.tasks:
            if t.started and not t.done:
                t.sem.release()
                self.main_sem.acquire()
        for t in self.tasks:
            if t.started:
                t.thread.join(5)
        self.current = None

    def trace_code(self, prefixes, **kw):
        self.tracer = Tracer(self, prefixes, **kw)


# ------------------------------------------------------------------------------------------------------------
# network

class Pipe(object):
    """One direction of a connection: a reliable ordered byte stream that arrives in pieces over time."""

    def __init__(self, sim, name='pipe', maxdelay=50):
        self.sim, self.name, self.maxdelay = sim, name, maxdelay
        self.arrived = bytearray()
        self.eof = False
        self.error = None         # exception to raise once the arrived bytes have been read
        self.last = 0             # time of the last scheduled arrival
        self.sent = 0
        self.total = 0            # bytes arrived so far

    def feed(self, data, style=None):
        """the network accepts data, will deliver it in pieces"""
        ch = self.sim.ch
        self.sent += len(data)
        pos = 0
        style = ch.rand(4) if style is None else style
        while pos < len(data):
            left = len(data) - pos
            if style == 0:
                n = left
            elif style == 1:
                n = min(left, 1 + ch.rand(8))
                if left > 400:
                    n = min(left, 1 + ch.rand(left // 20))
            else:
                n = min(left, 1 + ch.rand(left))
            self._sched(bytes(data[pos:pos + n]))
            pos += n

    def _sched(self, piece):
        ch = self.sim.ch
        d = ch.rand(self.maxdelay) if ch.rand(3) else 0
        t = max(self.last, self.sim.now + d)
        self.last = t
        self.sim.at(t - self.sim.now, lambda: self._arrive(piece))

    def _arrive(self, piece):
        self.arrived += piece
        self.total += len(piece)

    def finish(self, error=None):
        """orderly shutdown (or, with error, a broken connection) after what was fed so far"""
        t = max(self.last, self.sim.now)

        def fin():
            if error is not None:
                self.error = error
            else:
                self.eof = True
        self.sim.at(t - self.sim.now, fin)

    def ready(self):
        return bool(self.arrived) or self.eof or self.error is not None


class Interrupt(Exception):
    """transport exceptions that the harness injects: InterruptedError & friends"""


class SimSocket(object):
    """Duck-typed socket over two pipes.  recv may return less than asked for, may fail before consuming anything."""

    def __init__(self, sim, rx=None, tx=None, name='s'):
        self.sim, self.rx, self.tx, self.name = sim, rx, tx, name
        self.faults = None          # callable(op) -> exception or None
        self.recvs = 0
        self.recv_waits = 0
        self.wire = bytearray()     # everything accepted for sending
        self.closed = False
        self.on_send = None
        self.broken = None
        self.max_recv = None
        self.short = True
        self.eof_reads = 0

    def recv(self, n, flags=0):
        if self.closed:
            raise OSError('recv on a closed socket')
        if n < 0:
            raise ValueError('negative buffersize in recv')
        self.recvs += 1
        if self.faults is not None:
            e = self.faults('recv')
            if e is not None:
                raise e
        if n == 0:
            return b''
        if not self.rx.ready():
            self.recv_waits += 1
            self.sim.wait(self.rx.ready)
        else:
            self.sim.pause()
        if self.rx.arrived:
            k = min(n, len(self.rx.arrived))
            if self.short and k > 1 and self.sim.ch.rand(3) == 2:
                k = 1 + self.sim.ch.rand(k)
            out = bytes(self.rx.arrived[:k])
            del self.rx.arrived[:k]
            return out
        if self.rx.error is not None:
            raise self.rx.error
        self.eof_reads += 1
        if self.eof_reads > 1000:
            raise Violation('eof-spin', 'more than 1000 reads after end of stream')
        return b''

    def recv_into(self, buf, nbytes=0, flags=0):
        data = self.recv(nbytes or len(buf))
        buf[:len(data)] = data
        return len(data)

    def sendall(self, data, flags=0):
        if self.closed:
            raise OSError('sendall on a closed socket')
        data = bytes(data)
        if self.faults is not None:
            e = self.faults('sendall')
            if e is not None:
                raise e
        if self.on_send is not None:
            self.on_send(self, data)
            return
        self._accept(data)

    def send(self, data, flags=0):
        if self.closed:
            raise OSError('send on a closed socket')
        data = bytes(data)
        if self.faults is not None:
            e = self.faults('send')
            if e is not None:
                raise e
        if not data:
            return 0
        k = 1 + self.sim.ch.rand(len(data))
        self._accept(data[:k])
        return k

    def _accept(self, data):
        self.wire += data
        if self.tx is not None:
            self.tx.feed(data)

    def close(self):
        self.closed = True
        if self.tx is not None:
            self.tx.finish()

    def fileno(self):
        return -1

    def settimeout(self, t):
        pass

    def gettimeout(self):
        return None

    def setblocking(self, b):
        pass

    def shutdown(self, how):
        if self.tx is not None and how in (1, 2):
            self.tx.finish()


def connection(sim, maxdelay=50):
    a, b = Pipe(sim, 'a>b', maxdelay), Pipe(sim, 'b>a', maxdelay)
    return SimSocket(sim, rx=b, tx=a, name='A'), SimSocket(sim, rx=a, tx=b, name='B')


class SimRaw(io.RawIOBase):
    """Raw unbuffered file over a socket (for io.BufferedReader)."""

    def __init__(self, sock):
        io.RawIOBase.__init__(self)
        self.sock = sock

    def readable(self):
        return True

    def readinto(self, b):
        data = self.sock.recv(len(b))
        b[:len(data)] = data
        return len(data)


class DuckFile(object):
    """A plain Python file-like object with exact-size reads (read, readline), over a socket: one that loops."""

    def __init__(self, sock):
        self.sock = sock
        self.left = b''

    def read(self, size=-1):
        if size is None or size < 0:
            parts = [self.left]
            self.left = b''
            while True:
                d = self.sock.recv(4096)
                if not d:
                    return b''.join(parts)
                parts.append(d)
        # never asks for more than size: unbuffered
        while len(self.left) < size:
            d = self.sock.recv(size - len(self.left))
            if not d:
                break
            self.left += d
        out, self.left = self.left[:size], self.left[size:]
        return out

    def readline(self):
        while True:
            j = self.left.find(b'\n')
            if j >= 0:
                out, self.left = self.left[:j + 1], self.left[j + 1:]
                return out
            d = self.sock.recv(1)
            if not d:
                out, self.left = self.left, b''
                return out
            self.left += d


class SimLog(object):
    """Append-only file: writes are buffered in the 'page cache', sync makes them durable, a crash keeps the durable
    prefix plus a torn part of the rest."""

    def __init__(self, run):
        self.run = run
        self.data = bytearray()
        self.durable = 0

    def write(self, b):
        self.data += b
        return len(b)

    def flush(self):
        pass

    def sync(self):
        self.durable = len(self.data)

    def crash(self):
        ch = self.run.ch
        lost = len(self.data) - self.durable
        keep = self.durable + ch.rand(lost + 1)
        self.run.fault('torn-append' if keep not in (self.durable, len(self.data)) else 'crash-at-sync')
        del self.data[keep:]
        self.durable = keep
        return keep
