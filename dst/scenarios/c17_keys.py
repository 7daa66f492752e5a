"""C17: tables keyed by records, fed by a network that loses, duplicates, reorders and re-encodes."""
import io
import pickle

from dst import sim as S
from dst.scenarios.common import *

KEYS = {
    'Point': ('x', 'y'),
    'KInts': ('a', 'b', 'c', 'd', 'e', 'f', 'g', 'h'),
    'KMix': ('id', 'name', 'color', 'flag'),
    'KUni': ('name', 'n'),
    'KNest': ('p', 'tag', 'raw', 'real'),
    'KNull': ('opt', 'two'),
    'KOne': ('name',),
    'KChain': ('id', 'next'),
}
LISTS = {'texts': 'Keyed', 'nums': 'Keyed', 'lists': 'Keyed'}


def setup(platform):
    return Ctx(platform, ('keyed', 'rich'))


def key_of(name, v):
    """the tuple of the key fields, as Python sees it"""
    res = []
    for f in KEYS[name]:
        x = v[f]
        if isinstance(x, dict):
            x = key_of('KChain' if f == 'next' else 'Point', x)
        res.append(x)
    return tuple(res)


def variant(run, ctx, sd, v):
    """the same record with one field changed (in the key or not)"""
    ch = run.ch
    g = values.Gen(ch, budget=8, only_ctor=True)
    f = ch.pick(sd.fields)
    w = dict(v)
    k = ch.rand(5)
    if k == 0 and f.kind == 'slot' and f.type.is_ptr():
        w[f.name] = None
    elif k == 1 and f.kind == 'slot' and f.type.kind in ('text', 'data'):
        w[f.name] = (v[f.name] or b'') + b'x'
    elif k == 2 and isinstance(v[f.name], int) and not isinstance(v[f.name], bool) and f.kind == 'slot' and f.type.kind in values.RANGE:
        lo, hi = values.RANGE[f.type.kind]
        w[f.name] = ch.pick([lo, hi, 0, max(lo, -1), max(lo, -2), hi - 1, min(hi, (1 << 61) - 1), min(hi, 1 << 61), min(hi, 1 << 31)])
    else:
        w[f.name] = g.field(f)
    return w


def encode(run, ctx, mod, sd, v, prev):
    """an instance of the record, produced one way or the other"""
    import capnpy
    ch = run.ch
    cls = mod.cls(sd)
    k = ch.rand(9)
    if k == 0:
        return 'ctor', mod.build(sd, v)
    if k in (1, 2, 3):
        pol, lay = layout(run)
        return 'peer', capnpy.loads(rc.encode(sd, v, pol, lay), cls)
    if k == 4 and sd.name + 's' and 'mixes' and sd.name in ('KMix', 'KOne'):
        # inside a list of a bigger message
        ks = ctx.sd('Keyed', 'keyed')
        kv = rc.default_struct(ks)
        fn = 'mixes' if sd.name == 'KMix' else 'ones'
        g = values.Gen(ch, budget=6, only_ctor=True)
        items = [g.struct(sd) for _ in range(ch.rand(3))]
        at = ch.rand(len(items) + 1)
        items.insert(at, v)
        kv[fn] = items
        pol, lay = layout(run)
        o = capnpy.loads(rc.encode(ks, kv, pol, lay), mod.cls(ks))
        return 'item', getattr(o, fn)[at]
    if prev is None:
        o = mod.build(sd, v)
    else:
        o = prev
    if k == 5:
        return 'compact', o.compact()
    if k == 6:
        return 'dumps', capnpy.loads(capnpy.dumps(o, fastpath=bool(ch.rand(2))), cls)
    if k == 7:
        return 'pickle', pickle.loads(pickle.dumps(o, 2))
    return 'raw', cls._raw_loads(o._raw_dumps())


def compare(run, a, ka, b, kb, what):
    want = ka == kb
    run.check((a == b) is want, 'wrong-equality', lambda: '%s: == is %r for keys %r and %r' % (what, a == b, ka, kb))
    run.check((a != b) is (not want), 'wrong-equality', lambda: '%s: != is %r for keys %r and %r' % (what, a != b, ka, kb))
    run.check((a == kb) is want, 'wrong-equality', lambda: '%s: comparing with the tuple %r, key %r' % (what, kb, ka))
    run.check((kb == a) is want, 'wrong-equality', lambda: '%s: comparing the tuple %r with it, key %r' % (what, kb, ka))
    run.check((a != kb) is (not want), 'wrong-equality', lambda: '%s: != with the tuple %r, key %r' % (what, kb, ka))
    if want:
        run.check(hash(a) == hash(b), 'wrong-hash', lambda: '%s: equal records, different hashes: %r' % (what, ka))
    run.state('cmp', want, len(ka))


def run(run, ctx):
    if run.ch.rand(4) == 3:
        return lists(run, ctx)
    return table(run, ctx)


def table(run, ctx):
    import capnpy
    ch = run.ch
    mods = ctx.mods['keyed']
    name = ch.pick(sorted(KEYS))
    sd = ctx.sd(name, 'keyed')
    # records: a few bases and variants of them
    recs = []
    for _ in range(1 + ch.rand(3)):
        recs.append(values.Gen(ch, budget=ch.size(4, 10), only_ctor=True).struct(sd))
    for _ in range(1 + ch.size(3, 8)):
        recs.append(variant(run, ctx, sd, ch.pick(recs)))
    sm = S.Sim(run)
    mod = mods[ch.rand(2)]
    seen = {}                   # the table under test: record -> id of the first record with that key
    model = {}
    order = []
    log = []
    acked = set()
    st = {'first': 0}
    memo = {}

    def deliver(i):
        v = recs[i]
        how, obj = encode(run, ctx, mod, sd, v, memo.get(i))
        if ch.rand(2):
            memo[i] = obj
        k = key_of(name, v)
        run.log('deliver', i, how)
        run.state('deliver', name, how, k in model)
        run.check(hash(obj) == hash(k), 'wrong-hash', lambda: '%s %s: hash differs from the one of its key %r' % (how, name, k))
        run.check(obj == k and k == obj and not obj != k, 'wrong-equality', lambda: '%s %s is not equal to its key %r' % (how, name, k))
        dup = obj in seen
        run.check(dup == (k in model), 'duplicate-not-recognised' if not dup else 'false-duplicate',
                  lambda: '%s %s with key %r: in the table: %r, should be: %r' % (how, name, k, dup, k in model))
        run.check((k in seen) == (k in model), 'duplicate-not-recognised', lambda: 'lookup by the tuple %r' % (k,))
        if dup:
            run.check(seen[obj] == model[k], 'wrong-entry', lambda: 'the table has %r for %r, should be %r' % (seen[obj], k, model[k]))
        else:
            seen[obj] = model[k] = i
            log.append(obj.dumps())
            st['first'] += 1
        for _ in range(min(2, len(order))):
            j, o = ch.pick(order)
            compare(run, obj, k, o, key_of(name, recs[j]), '%s %s' % (how, name))
        order.append((i, obj))
        acked.add(i)

    def send(i, attempt):
        if i in acked or attempt > 12:
            return
        k = ch.rand(6) if attempt < 6 else 0
        if k == 5:
            run.fault('loss')
        else:
            n = 1
            if k == 4:
                run.fault('duplicate')
                n = 2
            for _ in range(n):
                d = ch.rand(40)
                sm.at(d, lambda: deliver(i))
        sm.at(50 + ch.rand(30), lambda: send(i, attempt + 1))

    def crash():
        run.fault('crash-restart')
        again = {}
        f = io.BytesIO(b''.join(log))
        ids = sorted(model.values(), key=lambda i: i)
        back = list(capnpy.load_all(f, mod.cls(sd)))
        run.check(len(back) == len(model), 'lost-record', 'the restarted table has %d records instead of %d' % (len(back), len(model)))
        for o in back:
            run.check(o in seen, 'duplicate-not-recognised', 'a reloaded record is not equal to the stored one')
            again[o] = seen[o]
        run.check(len(again) == len(model), 'false-duplicate', 'reloading merged records')
        seen.clear()
        seen.update(again)

    for i in range(len(recs)):
        sm.at(ch.rand(60), lambda i=i: send(i, 0))
    for _ in range(ch.rand(3)):
        sm.at(ch.rand(200), crash)
    sm.drain()
    run.check(len(acked) == len(recs), 'harness', 'undelivered')
    run.check(len(seen) == len(model) == len(set(map(lambda v: key_of(name, v), recs))) == st['first'], 'duplicate-not-recognised',
              lambda: '%d entries for %d distinct keys' % (len(seen), len(model)))
    s = set(o for _, o in order)
    run.check(len(s) == len(model), 'duplicate-not-recognised', 'set of all deliveries')
    run.check(s == set(model) or len(s & set(model)) == len(model), 'wrong-hash', 'set of records against the set of their keys')


def lists(run, ctx):
    import capnpy
    ch = run.ch
    if ch.rand(2):
        schema, sn = 'keyed', 'Keyed'
    else:
        schema, sn = 'rich', 'Lists'
    sd = ctx.sd(sn, schema)
    mod = ctx.mods[schema][ch.rand(2)]

    def comparable(t):
        while t.kind == 'list':
            t = t.elem
        return t.kind not in ('struct', 'any', 'void', 'bool')
    fs = [f for f in sd.fields if f.kind == 'slot' and f.type.kind == 'list' and comparable(f.type)]
    f = ch.pick(fs)
    g = values.Gen(ch, budget=20, only_ctor=True)
    base = g.list(f.type.elem)
    vals = [base]
    for _ in range(1 + ch.rand(4)):
        w = list(ch.pick(vals))
        k = ch.rand(5)
        if k == 0 and w:
            del w[ch.rand(len(w))]
        elif k == 1:
            w.insert(ch.rand(len(w) + 1), (g.list(f.type.elem.elem) if f.type.elem.kind == 'list' else g.value(f.type.elem)))
        elif k == 2 and w:
            i = ch.rand(len(w))
            w[i] = g.list(f.type.elem.elem) if f.type.elem.kind == 'list' else g.value(f.type.elem)
        elif k == 3:
            w.reverse()
        vals.append(w)
    objs = []
    roots = []
    for w in vals + [base]:
        v = rc.default_struct(sd)
        v[f.name] = w
        # surround it with other things
        other = ch.pick(sd.fields)
        if other is not f and other.kind == 'slot' and values.ctor_ok(other):
            v[other.name] = g.field(other)
        how = ch.rand(4)
        if how == 0:
            root = mod.build(sd, v)
        elif how == 1:
            root = mod.build(sd, v).compact()
        else:
            pol, lay = layout(run)
            root = capnpy.loads(rc.encode(sd, v, pol, lay), mod.cls(sd))
        objs.append((w, getattr(root, f.pyname), how))
    run.log('lists', sn, f.name, [len(w) for w in vals])

    def py(x):
        return [py(y) if isinstance(y, list) else y for y in x]
    for i, (w, o, how) in enumerate(objs):
        for w2, o2, how2 in objs[i:]:
            want = w == w2
            run.check((o == o2) is want and (o2 == o) is want, 'wrong-list-equality',
                      lambda: '%s.%s: == is %r for %r (%d) and %r (%d)' % (sn, f.name, o == o2, w[:6], how, w2[:6], how2))
            run.check((o != o2) is (not want), 'wrong-list-equality', lambda: '!= of %r and %r' % (w[:6], w2[:6]))
            run.check((o == py(w2)) is want, 'wrong-list-equality', lambda: '%s.%s with a Python list: %r vs %r' % (sn, f.name, w[:6], w2[:6]))
            run.check((py(w2) == o) is want, 'wrong-list-equality', lambda: 'Python list with %s.%s: %r vs %r' % (sn, f.name, w[:6], w2[:6]))
            if want:
                hs = []
                for x in (o, o2):
                    try:
                        hs.append(hash(x))
                    except TypeError:
                        hs.append(None)
                run.check(hs[0] == hs[1], 'wrong-hash', lambda: 'equal lists %r have the hashes %r' % (w[:6], hs))
            run.state('list', f.name, how, how2, want)
