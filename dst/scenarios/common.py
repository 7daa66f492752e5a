"""Things the scenarios share: loaded schema modules, message factories, peers."""
import importlib
import os
import sys

from dst import refcodec as rc
from dst import values
from dst.core import Violation, Discard, HarnessError

ANN = {0xcb6c062c1b3cf586: 'key', 0x9cc3dea2b1b5e7dd: 'nullable', 0xbdb63a67441ed493: 'options',
       0xb02c044a1e63b88d: 'group'}
SUT = os.environ.get('VERIF_SUT', '')


class Ctx(object):
    def __init__(self, platform, schemas=('rich',)):
        self.platform = platform
        self.compiled = platform in ('cy', 'asan')
        self.schemas = {}
        self.mods = {}
        for name in schemas:
            p = importlib.import_module(name + '_p')
            d = os.path.dirname(os.path.abspath(p.__file__))
            with open(os.path.join(d, name + '.cgr'), 'rb') as f:
                s = rc.SchemaSet(f.read(), ANN)
            self.schemas[name] = s
            self.mods[name] = [values.Mod(p, s)]
            if self.compiled:
                x = importlib.import_module(name + '_x')
                self.mods[name].append(values.Mod(x, s))
            else:
                self.mods[name].append(self.mods[name][0])

    def mod(self, run, name='rich'):
        """the module flavour for this run (same draw on every platform)"""
        return self.mods[name][run.ch.rand(2)]

    def sd(self, name, schema='rich'):
        return self.schemas[schema].structs[name]


SMALL = ['Point', 'Scalars', 'Texts', 'Named', 'Tree', 'Shape', 'Outer', 'Lists', 'Rec', 'Empty']


def gen_value(run, ctx, name, schema='rich', budget=None, big=False, only_ctor=True, anytypes=()):
    ch = run.ch
    g = values.Gen(ch, budget=ch.size(6, 20, 45) if budget is None else budget, big=big, only_ctor=only_ctor,
                   anytypes=anytypes)
    return g.struct(ctx.sd(name, schema))


def layout(run, maxsegs=5, resize=True):
    """random (policy, layout); 0s give the compact single-segment one"""
    ch = run.ch
    if ch.rand(3) == 0:
        return rc.Policy(), rc.Layout()
    return (rc.Policy(ch, resize=resize and ch.rand(2) == 1),
            rc.Layout(ch, maxsegs=1 + (ch.size(maxsegs, maxsegs, maxsegs, maxsegs * 10) if maxsegs > 2 else ch.rand(maxsegs)) if ch.rand(2) else 1, gaps=ch.rand(2) == 1, shuffle=ch.rand(2) == 1,
                      samefar=ch.rand(3) == 2))


def peer_bytes(run, ctx, name, v, schema='rich', **kw):
    pol, lay = layout(run, **kw)
    msg = rc.encode(ctx.sd(name, schema), v, pol, lay)
    run.state('layout', len(lay.segs), lay.fars > 0, lay.doubles > 0, lay.gaps, lay.shuffle, pol.resize)
    if lay.fars:
        run.probe('far-pointers')
    if lay.doubles:
        run.probe('double-far-pointers')
    return msg


def sut_bytes(run, mod, sd, v):
    import capnpy
    obj = mod.build(sd, v)
    return capnpy.dumps(obj, fastpath=bool(run.ch.rand(2)))


def message(run, ctx, mod, name, v, schema='rich'):
    """bytes of a message with value v, written by a reference peer or by the code under test"""
    if run.ch.rand(3) == 2:
        return sut_bytes(run, mod, ctx.sd(name, schema), v)
    return peer_bytes(run, ctx, name, v, schema)


def check_value(run, mod, obj, sd, v, what, full=False):
    try:
        got = mod.read(obj, sd, full)
    except values.Mismatch as e:
        raise Violation('inconsistent-read', '%s: %s' % (what, e))
    if not values.same(got, v):
        raise Violation('wrong-value', '%s: %s' % (what, values.diff(got, v)))
    return got


def frames(run, sizes):
    pass


def any_types(ctx):
    """types that any-pointers are pointed at"""
    T = rc.T
    r = ctx.schemas['rich']
    res = [T('text'), T('data'), T('utext'), T('list', T('int32')), T('list', T('text')), T('list', T('uint8')),
           T('list', T('bool')), T('list', T('float64')), T('list', T('list', T('int16'))),
           T('list', T('enum', target=r.enums['Color']))]
    for n in ('Point', 'Tree', 'Lists', 'Shape', 'Outer', 'Texts'):
        res.append(T('struct', target=r.structs[n]))
    res.append(T('list', T('struct', target=r.structs['Named'])))
    return res


def same_any(run, mods, got, want, what, full=True):
    """compare, descending into any-pointers"""
    rich = mods['rich']
    if isinstance(want, tuple):
        if not (isinstance(got, tuple) and got[0] == 'ANY'):
            raise Violation('wrong-value', '%s: any-pointer read as %r' % (what, got))
        at, v = want
        try:
            g = rich.read_any(got[1], at, full)
        except values.Mismatch as e:
            raise Violation('inconsistent-read', '%s: %s' % (what, e))
        if not values.same(g, v):
            raise Violation('wrong-value', '%s: %s' % (what, values.diff(g, v)))
        run.probe('any-' + at.kind)
        return
    if isinstance(want, dict) and isinstance(got, dict) and set(got) == set(want):
        for k in want:
            same_any(run, mods, got[k], want[k], what + '.' + k, full)
        return
    if not values.same(got, want):
        raise Violation('wrong-value', '%s: %s' % (what, values.diff(got, want)))


def read_full(run, mod, obj, sd, what, full=True):
    try:
        return mod.read(obj, sd, full)
    except values.Mismatch as e:
        raise Violation('inconsistent-read', '%s: %s' % (what, e))


def ref_check(run, data, sd, v, what, strict=True, single=True, any_free=True):
    """data (bytes of a message written by the library) must be well-formed and mean v"""
    try:
        got, rd = rc.decode(data, sd, strict)
    except rc.RefError as e:
        raise Violation('malformed-output', '%s: %s' % (what, e))
    except UnicodeDecodeError as e:
        raise Violation('malformed-output', '%s: %s' % (what, e))
    if single and len(rd.segs) != 1:
        raise Violation('malformed-output', '%s: %d segments' % (what, len(rd.segs)))
    if any_free and not values.same(got, v):
        raise Violation('wrong-output', '%s: %s' % (what, values.diff(got, v)))
    return rd


class Untame(Exception):
    pass


def tame(obj, sd, maxdepth=1500):
    """does printing it end soon?  (only what is reachable without an error counts: printing stops at an error)"""
    left = [4000]

    def st(o, s, depth):
        left[0] -= 1
        if left[0] < 0:
            raise Untame()
        if depth > maxdepth:
            raise RecursionError()
        w = o.which() if s.disc_count else None
        for f in s.fields:
            if f.disc is not None and int(w) != f.disc:
                continue
            x = getattr(o, values.pyattr(f))
            if f.kind == 'group':
                if not f.nullable:
                    st(x, f.group, depth)
                continue
            val(f.type, x, depth)

    def val(t, x, depth):
        if x is None:
            return
        if t.kind == 'struct':
            st(x, t.target, depth + 1)
        elif t.kind == 'list':
            n = len(x)
            for i in range(n):
                left[0] -= 0.2
                if left[0] < 0:
                    raise Untame()
                val(t.elem, x[i], depth + 1)
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(10000)
    try:
        st(obj, sd, 0)
    except Untame:
        return False
    except Exception:
        pass
    finally:
        sys.setrecursionlimit(old)
    return True
