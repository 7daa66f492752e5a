"""C18: `capnpy decode` over files left by writers that crashed, on disks and terminals that fail."""
import builtins
import io
import os
import shutil
import sys
import tempfile

from dst.scenarios.common import *
from dst.scenarios.textform import check_text
from dst.sim import Sim


class File(io.RawIOBase):
    """The disk under the file: short reads, an error at a drawn read."""

    def __init__(self, run, data, bad):
        self.run, self.data, self.pos, self.bad = run, data, 0, bad
        self.reads = 0

    def readable(self):
        return True

    def readinto(self, b):
        self.reads += 1
        if self.bad is not None and self.pos >= self.bad:
            self.run.fault('read-error')
            raise OSError(5, 'Input/output error')
        n = min(len(b), len(self.data) - self.pos)
        if self.bad is not None:
            n = min(n, self.bad - self.pos)
        if n > 1 and self.run.ch.rand(4) == 3:
            n = 1 + self.run.ch.rand(n)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class Terminal(object):
    encoding = 'utf-8'
    errors = 'strict'

    def __init__(self, run, limit):
        self.run, self.limit = run, limit
        self.parts = []
        self.n = 0

    def write(self, s):
        if self.limit is not None and self.n + len(s) > self.limit:
            self.run.fault('broken-pipe')
            raise BrokenPipeError(32, 'Broken pipe')
        self.n += len(s)
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


class Null(object):
    encoding = 'utf-8'

    def write(self, s):
        return len(s)

    def flush(self):
        pass


def setup(platform):
    ctx = Ctx(platform, ('rich', 'keyed'))
    import capnpy.__main__ as m
    ctx.main = m
    return ctx


def run(run, ctx):
    ch = run.ch
    schema = ch.weighted([(4, 'rich'), (1, 'keyed')])
    mod = ctx.mods[schema][0]
    if schema == 'rich':
        names = SMALL[:-1] + ['Envelope']
    else:
        names = sorted(n for n in ctx.schemas['keyed'].structs if '.' not in n and ctx.schemas['keyed'].structs[n].key)
    name = ch.pick(names)
    sd = ctx.sd(name, schema)
    n = ch.size(3, 6, 12)
    want, ends, data = [], [], bytearray()
    for _ in range(n):
        v = gen_value(run, ctx, name, schema, budget=ch.size(5, 12, 25), big=ch.rand(6) == 5)
        if ch.rand(3) == 2 and sd.fields:
            m = sut_bytes(run, mod, sd, v)
        else:
            m = peer_bytes(run, ctx, name, v, schema)
        data += m
        want.append(v)
        ends.append(len(data))
    data = bytes(data)
    kind = ch.weighted([(3, 'whole'), (4, 'cut'), (2, 'cut-header'), (1, 'cut-boundary')]) if n else 'whole'
    if kind == 'cut':
        data = data[:ch.rand(len(data))]
    elif kind == 'cut-header':
        data = data[:min(len(data), ([0] + ends)[ch.rand(n)] + 1 + ch.rand(24))]
    elif kind == 'cut-boundary':
        data = data[:([0] + ends)[ch.rand(n + 1)]]
    if kind != 'whole':
        run.fault('writer-crashed')
    bad = ch.rand(len(data) + 1) if ch.rand(6) == 5 else None
    limit = ch.rand(4000) if ch.rand(8) == 7 else None
    complete = sum(1 for e in ends if e <= len(data))
    run.log('decode', schema, name, n, kind, len(data), complete, bad, limit)
    run.state(name, kind, complete, len(data) in [0] + ends, bad is not None, limit is not None)
    d = tempfile.mkdtemp(prefix='verif-c18-')
    try:
        path = os.path.join(d, 'messages.bin')
        with io.open(path, 'wb') as f:
            f.write(data)
        out, exc, opened = decode(run, ctx, path, data, bad, limit, schema, name)
    finally:
        shutil.rmtree(d)
    if bad is not None and not opened:
        bad = None                      # the tool did not go through the disk that fails
    run.log('end', exc, out)
    reached = complete if bad is None else sum(1 for e in ends if e <= bad)
    lines = out.split('\n')
    last = lines.pop()
    if limit is None:
        run.check(last == '', 'partial-line', lambda: 'the output ends with %r' % last[:100])
    run.check(len(lines) <= complete, 'too-many-lines', lambda: '%d lines for %d complete messages: %r' % (
        len(lines), complete, lines[complete:][:2]))
    for i, line in enumerate(lines):
        check_text(run, line, sd, want[i], 'line %d' % i)
    if limit is not None and exc == 'BrokenPipeError':
        return
    if bad is None:
        run.check(exc is None, 'abnormal-end', lambda: '%s after %d of %d messages (%s)' % (exc, len(lines), complete, kind))
        run.check(len(lines) == complete, 'missing-lines', lambda: '%d lines for %d complete messages (%s)' % (
            len(lines), complete, kind))
        run.probe('decoded-' + kind)
    else:
        # the disk failed: what was readable is printed, and the failure is reported
        run.check(len(lines) >= reached, 'missing-lines', lambda: '%d lines for %d readable messages' % (len(lines), reached))
        run.check(exc is not None, 'error-swallowed', 'a read error ended the decoding silently')
        run.probe('read-error-reported')


def decode(run, ctx, path, data, bad, limit, schema, name):
    term = Terminal(run, limit)
    opened = []
    real = builtins.open
    real_io = io.open

    def fake(file, *a, **kw):
        if str(file) == path:
            opened.append(1)
            return io.BufferedReader(File(run, data, bad), 1 + run.ch.rand(40) if run.ch.rand(2) else 8192)
        return real(file, *a, **kw)
    old = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = term, Null()
    builtins.open = io.open = fake
    exc = None
    try:
        ctx.main.main(['decode', path, schema, name, '--no-pyx'])
    except (Exception, SystemExit) as e:
        exc = type(e).__name__
    finally:
        sys.stdout, sys.stderr = old
        builtins.open, io.open = real, real_io
    run.steps += 1
    return ''.join(term.parts), exc, bool(opened)
