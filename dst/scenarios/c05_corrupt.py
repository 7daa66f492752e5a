"""C05: messages corrupted in transit or forged, then used in every way."""
import io
import os
import pickle
import resource
import struct
import sys

from dst.scenarios.common import *

BUDGET = 250


def setup(platform):
    ctx = Ctx(platform, ('rich', 'anyp', 'keyed'))
    ctx.canary = None
    sys.setrecursionlimit(400 if platform in ('pure', 'pypy') else 1000)
    return ctx


# ---- corruption -------------------------------------------------------------------------------------------

def pick_off(ch, w, nwords, starts):
    """an offset for a pointer stored at word w, such that interesting words are hit"""
    k = ch.rand(8)
    if k == 0:
        t = w                       # itself
    elif k == 1:
        t = 0
    elif k == 2:
        t = nwords - ch.rand(3)     # at the end, or just before
    elif k == 3:
        t = -1 - ch.rand(6)         # before the beginning
    elif k == 4:
        return ch.pick([-(1 << 29), (1 << 29) - 1, -1, 0, 1, nwords, -nwords, -2])
    elif k == 5 and starts:
        t = ch.pick(starts)
    else:
        t = ch.rand(nwords + 1)
    return t - w - 1


COUNTS = [0, 1, 2, 3, 7, 8, 63, 64, 1000, (1 << 29) - 1, (1 << 28), (1 << 26), 1 << 20, 4096]
SIZES = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 3), (0, 0xffff), (0xffff, 0), (0xffff, 0xffff), (0x7fff, 1), (3, 0), (0, 2)]


def forged(ch, w, nwords, nsegs, starts):
    k = ch.rand(8)
    off = pick_off(ch, w, nwords, starts)
    if k in (0, 1):
        d, p = ch.pick(SIZES)
        return rc.p_struct(off, d, p)
    if k in (2, 3, 4):
        c = ch.pick(COUNTS) if ch.rand(3) else ch.rand(max(1, nwords * 2))
        return rc.p_list(off, ch.rand(8), c)
    if k == 5:
        # a tag word of a composite list
        c = ch.pick([0, 1, 2, 5, 1000, (1 << 29) - 1, 1 << 29, (1 << 30) - 1, (1 << 30) - 3, 1 << 20])
        d, p = ch.pick(SIZES)
        return rc.p_struct(c, d, p)
    if k == 6:
        return rc.p_far(ch.rand(2), ch.pick([w, 0, 1, nwords, nwords - 1, (1 << 29) - 1, ch.rand(nwords + 1)]) & 0x1fffffff,
                        ch.pick([0, nsegs - 1, nsegs, 0xffffffff, 0x7fffffff, ch.rand(nsegs)]))
    return 3 | ch.rand(1 << 30) << 2


def pointer_words(seg):
    """words that look like pointers"""
    res = []
    n = len(seg) // 8
    for w in range(n):
        p = struct.unpack_from('<Q', seg, w * 8)[0]
        if p and p & 3 != 3:
            off = (p >> 2) & 0x3fffffff
            if off >= 1 << 29:
                off -= 1 << 30
            if p & 3 == 2 or -n <= off <= n:
                res.append(w)
    return res


def corrupt(run, segs):
    ch = run.ch
    segs = [bytearray(s) for s in segs]
    starts = []
    for _ in range(1 + ch.size(1, 3, 8)):
        i = ch.rand(len(segs))
        seg = segs[i]
        n = len(seg) // 8
        if not n:
            continue
        k = ch.rand(9)
        pw = pointer_words(seg)
        w = ch.pick(pw) if pw and ch.rand(4) else ch.rand(n)
        if k == 0:
            b = ch.rand(64)
            seg[w * 8 + b // 8] ^= 1 << (b % 8)
            run.fault('bit-flip')
        elif k == 1:
            seg[w * 8 + ch.rand(8)] = ch.rand(256)
            run.fault('byte-garbage')
        elif k in (2, 3, 4, 5):
            struct.pack_into('<Q', seg, w * 8, forged(ch, w, n, len(segs), pw))
            run.fault('forged-pointer')
        elif k == 6:
            w2 = ch.rand(n)
            seg[w * 8:w * 8 + 8] = seg[w2 * 8:w2 * 8 + 8]
            run.fault('word-copied')
        elif k == 7:
            cut = ch.rand(n)
            del seg[cut * 8:]
            run.fault('segment-truncated')
        else:
            for _ in range(1 + ch.rand(4)):
                struct.pack_into('<Q', seg, ch.rand(n) * 8, ch.rand(1 << 62) << 2 | ch.rand(4))
            run.fault('random-words')
    return [bytes(s) for s in segs]


# ---- forged from scratch ----------------------------------------------------------------------------------

def attack(run, ctx):
    """one segment whose root is taken as a Tree (1 data word, 4 pointers: label, left, right, children)"""
    ch = run.ch
    k = ch.rand(11)
    P = struct.Struct('<Q').pack
    run.fault('attack-%d' % k)
    if k == 0:
        # a chain of nodes: each one is only a pointer to the next
        n = ch.pick([300, 3000, 20000, 150000] if not ch.rand(2) else [300, 3000])
        body = [P(rc.p_struct(0, 0, 4))]
        for i in range(n):
            body.append(P(0) + P(rc.p_struct(2, 0, 4)) + P(0) + P(0))
        body.append(P(0) * 4)
    elif k == 1:
        # the same, in the shape that looks compact
        n = ch.pick([300, 3000, 20000, 150000] if not ch.rand(2) else [300, 3000])
        body = [P(rc.p_struct(0, 0, 2))]
        for i in range(n):
            body.append(P(0) + P(rc.p_struct(0, 0, 2)))
        body.append(P(0) * 2)
    elif k == 2:
        # every node points twice to the next one
        n = ch.pick([5, 20, 64, 200])
        body = [P(rc.p_struct(0, 0, 3))]
        for i in range(n):
            body.append(P(0) + P(rc.p_struct(1, 0, 3)) + P(rc.p_struct(0, 0, 3)))
        body.append(P(0) * 3)
    elif k == 3:
        # cycles
        body = [P(rc.p_struct(0, 1, 4)), P(7), P(0), P(rc.p_struct(-3, 1, 4)),
                P(rc.p_struct(-4, 1, 4)) if ch.rand(2) else P(0), P(0)]
    elif k == 4:
        # a list of lists (children) that contains itself
        c = 1 + ch.rand(3)
        body = [P(rc.p_struct(0, 0, 4)), P(0) * 3, P(rc.p_list(0, 7, 4 * c)), P(rc.p_struct(c, 0, 4))]
        for i in range(c):
            w = 6 + 4 * i
            body.append(P(0) * 3 + P(rc.p_list(5 - (w + 3) - 1, 7, 4 * c)))
    elif k == 5:
        # composite list whose tag disagrees with the number of words
        words = ch.rand(6)
        cnt = ch.pick([words + 1, 1000, (1 << 29) - 1, 1 << 29, (1 << 30) - 1, 2])
        d, p = ch.pick(SIZES)
        body = [P(rc.p_struct(0, 0, 4)), P(0) * 3, P(rc.p_list(0, 7, words)), P(rc.p_struct(cnt, d, p))]
        body.append(b''.join(P(forged(ch, 6 + i, 12, 1, [1])) if ch.rand(2) else P(0) for i in range(words + ch.rand(3))))
    elif k == 6:
        # far pointers to each other
        body = [P(rc.p_far(0, ch.rand(3), 0)), P(rc.p_far(ch.rand(2), ch.rand(4), 0)),
                P(rc.p_far(ch.rand(2), ch.rand(4), 0)), P(rc.p_struct(0, 0, 4)), P(rc.p_far(0, 1, 0)) * 4]
        if ch.rand(2):
            body = [P(rc.p_struct(0, 0, 4)), P(rc.p_far(0, 2, 0)), P(rc.p_far(0, 2, 0)), P(rc.p_far(0, 3, 0)),
                    P(rc.p_far(1, 1, 0))]
        segs = [b''.join(body)]
        if ch.rand(3):
            segs.append(segs[0])
        return segs
    elif k == 7:
        # forged counts: no data behind them
        tag = ch.rand(7)
        body = [P(rc.p_struct(0, 0, 4)), P(rc.p_list(ch.pick([3, 0, -2]), tag, ch.pick(COUNTS))), P(0), P(0),
                P(rc.p_list(ch.pick([0, -5]), ch.pick([6, tag]), ch.pick(COUNTS)))]
    elif k == 8:
        # a pointer list with pointers to one object
        n = 1 + ch.rand(40)
        m = 1 + ch.rand(40)
        body = [P(rc.p_struct(0, 0, 4)), P(0) * 3, P(rc.p_list(0, 6, n))]
        for i in range(n):
            body.append(P(rc.p_list(n - i - 1, 6, m)))
        for i in range(m):
            body.append(P(rc.p_list(m - i - 1, ch.pick([2, 5, 6]), 64)))
        body.append(P(0) * 64)
    elif k == 10:
        # one or two nodes, all whose pointers are drawn among the nodes
        n = 1 + ch.rand(2)
        body = [P(rc.p_struct(0, 1, 4))]
        for i in range(n):
            body.append(P(ch.rand(3)))
            for j in range(4):
                w = 1 + 5 * i + 1 + j
                body.append(P(0) if ch.rand(2) else P(rc.p_struct(5 * ch.rand(n) + 1 - w - 1, 1, 4)))
    else:
        # pure noise
        r = ch.sub()
        body = [P(rc.p_struct(0, 1, 4))]
        for i in range(1 + ch.rand(30)):
            body.append(P(r.getrandbits(64)) if r.randrange(3) else P(forged(ch, i + 1, 30, 1, [1, 2])))
    return [b''.join(body)]


# ---- use --------------------------------------------------------------------------------------------------

class Walk(object):
    """reads everything within a budget; the outcome is a list of lines"""

    def __init__(self, run, ctx, mods, seed):
        self.run, self.ctx, self.mods = run, ctx, mods
        self.left = BUDGET
        self.out = []
        import random
        self.r = random.Random(seed)
        self.objs = []

    def do(self, what, fn):
        try:
            x = fn()
        except SystemError as e:
            raise Violation('internal-error', '%s: %r' % (what, e))
        except Exception as e:
            self.out.append('%s !' % what)
            return None, False
        return x, True

    def val(self, what, x):
        if isinstance(x, float):
            x = struct.pack('<d', x)
        if isinstance(x, (bytes, str)) and len(x) > 40:
            x = x[:40], len(x)
        self.out.append('%s=%r' % (what, x))

    def struct(self, obj, sd, path, depth):
        if self.left <= 0 or depth > 25:
            return
        self.left -= 1
        self.objs.append((obj, sd))
        if sd.disc_count:
            w, ok = self.do(path + '.which', obj.which)
            if ok:
                self.val(path + '.which', int(w))
        for f in sd.fields:
            self.left -= 0.1
            p = path + '.' + f.name
            x, ok = self.do(p, lambda: getattr(obj, values.pyattr(f)))
            if not ok:
                continue
            if f.kind == 'group':
                if f.nullable:
                    if x is not None and f.group.fields[1].kind == 'slot':
                        self.value(f.group.fields[1].type, x, p, depth)
                else:
                    self.struct(x, f.group, p, depth)
                continue
            if f.type.is_ptr():
                h, ok = self.do(p + '.has', getattr(obj, 'has_' + f.pyname))
                if ok:
                    self.val(p + '.has', bool(h))
                if f.type.kind != 'any' and self.r.randrange(4) == 0:
                    self.do(p + '.get', getattr(obj, 'get_' + f.pyname))
            self.value(f.type, x, p, depth)

    def value(self, t, x, path, depth):
        if x is None:
            self.out.append(path + '=None')
            return
        k = t.kind
        if k == 'struct':
            self.struct(x, t.target, path, depth + 1)
        elif k == 'list':
            self.list(t, x, path, depth + 1)
        elif k == 'any':
            self.any(x, path, depth + 1)
        elif k == 'enum':
            self.val(path, int(x) & 0xffff)
        else:
            self.val(path, x)

    def list(self, t, lst, path, depth):
        if self.left <= 0:
            return
        self.left -= 1
        n, ok = self.do(path + '.len', lambda: len(lst))
        if not ok:
            for i in (0, 1, -1, 5):
                self.do(path, lambda: lst[i])
            return
        self.val(path + '.len', n)
        idx = set([0, 1, 2, n - 1, n // 2, -1, self.r.randrange(n + 1)])
        for i in sorted(idx):
            x, ok = self.do('%s[%d]' % (path, i), lambda: lst[i])
            if ok:
                self.value(t.elem, x, '%s[%d]' % (path, i), depth)
        if n < 200:
            self.do(path + '.list', lambda: list(lst))
            self.do(path + '.slice', lambda: lst[1:])

    def any(self, a, path, depth):
        for q in ('is_struct', 'is_list', 'is_text'):
            x, ok = self.do(path + q, getattr(a, q))
            if ok:
                self.val(path + q, bool(x))
        for q in ('as_text_bytes', 'as_data', 'as_text_unicode'):
            x, ok = self.do(path + q, getattr(a, q))
            if ok:
                self.val(path + q, x)
        rich = self.mods['rich']
        for n in ('Tree', 'Point', 'Lists', 'Shape'):
            sd = self.ctx.sd(n)
            x, ok = self.do(path + n, lambda: a.as_struct(rich.cls(sd)))
            if ok and x is not None:
                self.struct(x, sd, path + n, depth)
        for at in any_types(self.ctx):
            if at.kind == 'list' and self.r.randrange(3) == 0:
                x, ok = self.do(path + 'list', lambda: a.as_list(rich.item_spec(at.elem)))
                if ok and x is not None:
                    self.list(at, x, path + 'list', depth)
        self.do(path + 'dumps', lambda: self.limited(a.dumps()))

    def limited(self, data):
        return data


COPYING = ('dumps', 'compact', 'pickle', 'embed', 'raw')
MEMORY = 1200 if os.environ.get('VERIF_VARIANT') == 'asan' else 400       # MB


def rss():
    return resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024


def canary(run, ctx, mod):
    """an unrelated operation: must give what it always gives"""
    import capnpy
    r = mod.module
    o = r.Named(id=77, name=b'hello', at=r.Point(x=1, y=-2))
    t = r.Tree(value=5, label=b'x' * 20, left=r.Tree(value=1), children=[r.Tree(value=i) for i in range(3)])
    got = (capnpy.dumps(o), capnpy.dumps(t, fastpath=False), hash(o.at) == hash((1, -2)), o.at == (1, -2),
           [c.value for c in capnpy.loads(capnpy.dumps(t), r.Tree).children], o.shortrepr())
    want = ctx.canary
    if want is None:
        want = ctx.canary = got
        sd = ctx.sd('Named')
        v, _ = rc.decode(got[0], sd, True)
        run.check(v == {'id': 77, 'name': b'hello', 'at': {'x': 1, 'y': -2}}, 'wrong-value', 'canary: %r' % (v,))
    run.check(got == want, 'later-operation-wrong', lambda: 'after the corrupted message: %r, before: %r' % (got, want))


def run(run, ctx):
    import capnpy
    ch = run.ch
    which = ch.rand(2)
    mods = {n: ctx.mods[n][which] for n in ctx.mods}
    if ctx.canary is None:
        canary(run, ctx, mods['rich'])
    rss0 = rss()
    if ch.rand(4) == 3:
        schema, name = 'rich', ch.pick(['Tree', 'Tree', 'Rec', 'Lists', 'Shape', 'Outer', 'KChain'])
        if name == 'KChain':
            schema = 'keyed'
        segs = attack(run, ctx)
    else:
        r = ch.rand(6)
        if r == 5:
            schema, name = 'anyp', 'Any'
            v = gen_value(run, ctx, 'Any', 'anyp', only_ctor=False, anytypes=any_types(ctx))
        elif r == 4:
            schema = 'keyed'
            name = ch.pick(sorted(n for n in ctx.schemas['keyed'].structs if ctx.schemas['keyed'].structs[n].key))
            v = gen_value(run, ctx, name, 'keyed', only_ctor=False)
        else:
            schema = 'rich'
            name = ch.pick(SMALL[:-1] + ['Tree', 'Lists', 'Shape', 'Envelope'])
            v = gen_value(run, ctx, name, only_ctor=False)
        pol, lay = layout(run)
        segs = rc.unframe(rc.encode(ctx.sd(name, schema), v, pol, lay))
        segs = corrupt(run, segs)
    mod = mods[schema]
    sd = ctx.sd(name, schema)
    cls = mod.cls(sd)
    data = rc.frame(segs)
    if ch.rand(12) == 11:
        b = bytearray(data)
        for _ in range(1 + ch.rand(2)):
            b[ch.rand(min(len(b), 8 + 4 * len(segs)))] = ch.pick([0, 1, 2, 0x7f, 0x80, 0xff])
        data = bytes(b)
        run.fault('forged-header')
    run.log(name, len(data), len(segs))
    limit = 4 * len(data) + (16 << 20)

    def attempt(what, fn):
        """the outcome is a value or an ordinary exception"""
        run.steps += 1
        r = rss() if what.startswith(COPYING) else None
        try:
            x = fn()
        except SystemError as e:
            raise Violation('internal-error', '%s: %r' % (what, e))
        except Exception as e:
            run.log(what, '!')
            run.state(what, type(e).__name__, name)
            return None, False
        finally:
            if r is not None:
                r = rss() - r
                run.check(r < MEMORY, 'unbounded-memory', lambda: '%s used %d MB' % (what, r))
        run.state(what, 'ok', name)
        return x, True

    def load(b):
        if ch.rand(3) == 0:
            return lambda: capnpy.load(io.BytesIO(b), cls)
        return lambda: capnpy.loads(b, cls)
    obj, ok = attempt('load', load(data))
    if ok and obj is None:
        # a message whose root pointer is null: what a relay would do with it
        fast = bool(ch.rand(2))
        out, sent = attempt('dumps None', lambda: capnpy.dumps(obj, fastpath=fast))
        run.check(not sent, 'bad-result', lambda: 'dumps(None) gives %r' % out)
    if not ok or obj is None:
        canary(run, ctx, mods['rich'])
        return
    seg = obj._seg
    before = bytes(bytearray(seg.buf))
    # the same message elsewhere in memory must read the same: nothing comes from outside of it
    data2 = bytes(bytearray(data))
    twin, _ = attempt('load', lambda: capnpy.loads(data2, cls))
    if twin is not None:
        hash(twin._seg.buf)
        hold = [twin._seg.buf] * 1000
    wseed = ch.rand(1 << 30)
    w = Walk(run, ctx, mods, wseed)
    w.struct(obj, sd, name, 0)
    if twin is not None:
        w2 = Walk(run, ctx, mods, wseed)
        w2.struct(twin, sd, name, 0)
        run.check(w.out == w2.out, 'reads-outside', lambda: 'two copies of one message read differently: %s' % (
            next(((a, b) for a, b in zip(w.out, w2.out) if a != b), (len(w.out), len(w2.out))),))
    for line in w.out:
        run.log(line)
    for step in range(1 + ch.size(3, 6, 10)):
        o, osd = ch.pick(w.objs)
        op = ch.rand(11)
        isgroup = osd.is_group
        what = '%s %s' % (('dumps', 'dumps-slow', 'compact', 'pickle', 'embed', 'print', 'hash', 'equals', 'list-equals',
                           'raw', 'embed-list')[op], osd.name)
        out = None
        if op in (0, 1, 2, 3, 9) and not isgroup:
            if op == 0:
                out, ok = attempt(what, lambda: capnpy.dumps(o))
            elif op == 1:
                out, ok = attempt(what, lambda: o.dumps(fastpath=False))
            elif op == 2:
                out, ok = attempt(what, lambda: o.compact())
            elif op == 3:
                out, ok = attempt(what, lambda: pickle.loads(pickle.dumps(o, 2)))
            else:
                out, ok = attempt(what, lambda: type(o)._raw_loads(o._raw_dumps()))
            if ok and out is not None:
                raw = out if isinstance(out, bytes) else out._seg.buf
                run.check(len(raw) <= limit, 'unbounded-memory', lambda: '%s gives %d bytes' % (what, len(raw)))
                if op in (0, 1):
                    out, ok = attempt('reload', lambda: capnpy.loads(out, type(o)))
                if ok and out is not None and len(w.objs) < 400:
                    w3 = Walk(run, ctx, mods, wseed)
                    w3.struct(out, osd, 'copy', 3)
                    for line in w3.out:
                        run.log(line)
                    w.objs.extend(w3.objs[:20])
        elif op in (4, 10) and not isgroup and osd.name in ('Tree', 'Point', 'Named', 'Rec', 'Shape', 'Outer', 'Texts') \
                and schema != 'keyed':
            R = mods['rich'].module
            if op == 4:
                kw = {'Tree': ('Tree', 'left'), 'Point': ('Named', 'at'), 'Named': (None, None), 'Rec': ('Envelope', 'rec'),
                      'Shape': ('Rec', 'shape'), 'Outer': ('Rec', 'outer'), 'Texts': ('Rec', 'texts')}[osd.name]
                if kw[0] is None:
                    continue
                out, ok = attempt(what, lambda: getattr(R, kw[0])(**{kw[1]: o}))
                csd = ctx.sd(kw[0])
            else:
                kw = {'Tree': ('Tree', 'children'), 'Point': ('Lists', 'points'), 'Named': ('Lists', 'nameds'),
                      'Shape': ('Lists', 'shapes'), 'Rec': ('Envelope', 'batch')}.get(osd.name)
                if kw is None:
                    continue
                others = [x for x, s in w.objs if s is osd][:4]
                out, ok = attempt(what, lambda: getattr(R, kw[0])(**{kw[1]: [o] + others}))
                csd = ctx.sd(kw[0])
            if ok:
                run.check(len(out._seg.buf) <= limit * 5, 'unbounded-memory',
                          lambda: '%s gives %d bytes' % (what, len(out._seg.buf)))
                w3 = Walk(run, ctx, mods, wseed)
                w3.struct(out, csd, 'embedded', 3)
                for line in w3.out:
                    run.log(line)
        elif op == 5:
            if tame(o, osd):
                fn = (lambda: o.shortrepr(), lambda: repr(o), lambda: str(o))[ch.rand(3)] if not isgroup else o.shortrepr
                attempt(what, fn)
        elif op == 6:
            h, ok = attempt(what, lambda: hash(o))
        elif op == 7:
            others = [x for x, s in w.objs if s is osd][:6]
            p = ch.pick(others)
            r1, ok = attempt(what, lambda: (o == p, o != p, p == o))
            if ok:
                run.log(r1)
                if r1[0]:
                    h1, ok1 = attempt('hash', lambda: hash(o))
                    h2, ok2 = attempt('hash', lambda: hash(p))
                    if ok1 and ok2:
                        run.check(h1 == h2, 'hash-differs', '%s: equal objects, different hashes' % what)
        elif op == 8:
            ls = [f for f in osd.fields if f.kind == 'slot' and f.type.kind == 'list' and f.disc is None]
            if ls:
                f = ch.pick(ls)
                a, ok1 = attempt(what, lambda: getattr(o, f.pyname))
                if a is not None:
                    c = twin_list(a, mod, f, w, o, osd)
                    sub = rc.S('tmp', 0, 0)
                    if tame_list(a, f.type) and tame_list(c, f.type):
                        attempt(what, lambda: (a == c, a != c))
                        attempt(what, lambda: a == [1, 2])
                        attempt(what, lambda: a.shortrepr())
    run.check(seg.buf == before, 'message-modified', 'the bytes of the message changed')
    if ctx.platform != 'pypy':
        # PyPy allocates the lists of items in advance, even if reading the first item fails
        grown = rss() - rss0
        run.check(grown < MEMORY, 'unbounded-memory', 'the run grew by %d MB' % grown)
    canary(run, ctx, mods['rich'])


def twin_list(a, mod, f, w, o, osd):
    for x, s in w.objs:
        if s is osd and x is not o:
            try:
                c = getattr(x, f.pyname)
            except Exception:
                continue
            if c is not None:
                return c
    return a


def tame_list(lst, t):
    left = [5000]

    def go(x, e):
        if x is None:
            return
        n = len(x)
        for i in range(n):
            left[0] -= 1
            if left[0] < 0:
                raise Untame()
            y = x[i]
            if e.elem.kind == 'list':
                go(y, e.elem)
            elif e.elem.kind == 'struct':
                left[0] -= 50
    try:
        go(lst, t)
    except Untame:
        return False
    except Exception:
        pass
    return True
