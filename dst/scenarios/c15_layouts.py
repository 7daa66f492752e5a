"""C15: messages of conforming peers, any layout, read through every accessor."""
from dst.scenarios.common import *
from dst.scenarios.textform import check_text


def setup(platform):
    return Ctx(platform, ('rich', 'anyp'))


def run(run, ctx):
    import capnpy
    ch = run.ch
    which = ch.rand(2)
    mods = {'rich': ctx.mods['rich'][which], 'anyp': ctx.mods['anyp'][which]}
    if ch.rand(3) == 2:
        schema, name = 'anyp', 'Any'
        mod = mods['anyp']
        v = gen_value(run, ctx, 'Any', 'anyp', only_ctor=False, anytypes=any_types(ctx))
    else:
        schema = 'rich'
        name = ch.pick(SMALL + ['Rec', 'Lists', 'Envelope', 'Shape'])
        mod = mods['rich']
        v = gen_value(run, ctx, name, only_ctor=False, big=ch.rand(8) == 7)
    sd = ctx.sd(name, schema)
    pol, lay = layout(run, maxsegs=8)
    msg = rc.encode(sd, v, pol, lay)
    run.state('layout', name, len(lay.segs), min(lay.fars, 6), min(lay.doubles, 4), lay.gaps, lay.shuffle, pol.resize)
    run.log(name, len(msg), len(lay.segs), lay.fars, lay.doubles)
    obj = capnpy.loads(msg, mod.cls(sd))
    seg_before = obj._seg.buf
    got = read_full(run, mod, obj, sd, name)
    same_any(run, mods, got, v, name)
    # copies made from it
    k = ch.rand(4)
    if k == 0:
        c = obj.compact()
        what = 'compact()'
    elif k == 1:
        c = capnpy.loads(capnpy.dumps(obj), mod.cls(sd))
        what = 'dumps/loads'
    elif k == 2:
        c = capnpy.loads(capnpy.dumps(obj, fastpath=False), mod.cls(sd))
        what = 'slow dumps/loads'
    else:
        c = None
    if c is not None:
        got = read_full(run, mod, c, sd, what)
        same_any(run, mods, got, v, what)
    run.check(obj._seg.buf == seg_before, 'source-modified', 'reading changed the message')
    # the same value in the canonical layout reads the same, query by query
    if ch.rand(2):
        obj2 = capnpy.loads(rc.encode(sd, v), mod.cls(sd))
        got2 = read_full(run, mod, obj2, sd, 'canonical')
        same_any(run, mods, got2, v, 'canonical')
        if schema == 'rich':
            r1, r2 = obj.shortrepr(), obj2.shortrepr()
            run.check(r1 == r2 or pol.resize, 'layout-visible', lambda: 'shortrepr: %r vs %r' % (r1, r2))
            check_text(run, r1, sd, v, 'shortrepr()')
            check_text(run, r2, sd, v, 'shortrepr() of the canonical layout')
