"""Reads the textual form of a message back, by the schema."""
import re

from dst import refcodec as rc
from dst import values
from dst.core import Violation

TOKEN = re.compile(r'\s*(?:([()\[\],=])|("(?:[^"\\\n]|\\.)*")|([^\s()\[\],="]+))', re.S)
SIMPLE = {'n': '\n', 't': '\t', 'r': '\r', 'v': '\v', 'f': '\f', 'a': '\a', 'b': '\b', '\\': '\\', '"': '"', "'": "'"}
ESC = re.compile(r'\\(x[0-9a-fA-F]{2}|[0-7]{1,3}|.)', re.S)


class BadText(Exception):
    pass


def lex(s):
    pos = 0
    res = []
    n = len(s.rstrip())
    while pos < n:
        m = TOKEN.match(s, pos)
        if not m:
            raise BadText('unexpected %r' % s[pos:pos + 40])
        res.append((m.lastindex, m.group(m.lastindex)))
        pos = m.end()
    return res


def unescape(s, binary):
    def sub(m):
        e = m.group(1)
        if e[0] == 'x':
            return chr(int(e[1:], 16))
        if e[0] in '01234567':
            return chr(int(e, 8))
        if e not in SIMPLE:
            raise BadText('escape \\%s' % e)
        return SIMPLE[e]
    t = ESC.sub(sub, s[1:-1])
    if binary:
        try:
            return t.encode('latin-1')
        except UnicodeEncodeError:
            raise BadText('binary data %r' % s)
    return t


class Reader(object):
    def __init__(self, text):
        self.toks = lex(text)
        self.i = 0

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else (0, '')

    def next(self, want=None):
        t = self.peek()
        self.i += 1
        if want is not None and t != (1, want):
            raise BadText('%r instead of %r' % (t[1], want))
        return t

    def struct(self, sd):
        self.next('(')
        got = {}
        byname = {f.name: f for f in sd.fields}
        while self.peek() != (1, ')'):
            if got:
                self.next(',')
            k, name = self.next()
            if k != 3 or name not in byname or name in got:
                raise BadText('field %r of %s' % (name, sd.name))
            self.next('=')
            got[name] = self.field(byname[name])
        self.next(')')
        v = {}
        if sd.disc_count:
            act = [f for f in sd.union_fields() if f.name in got]
            if len(act) > 1:
                raise BadText('several members of the union of %s' % sd.name)
            # a null first member is not shown
            v['$which'] = act[0].name if act else [f for f in sd.union_fields() if f.disc == 0][0].name
        for f in sd.fields:
            if f.disc is not None and f.name != v['$which']:
                continue
            if f.name in got:
                v[f.name] = got[f.name]
            elif f.kind == 'slot' and f.type.is_ptr():
                v[f.name] = None
            else:
                raise BadText('%s.%s is missing' % (sd.name, f.name))
        return v

    def field(self, f):
        if f.kind == 'group':
            v = self.struct(f.group)
            if f.nullable:
                a, b = f.group.fields
                return None if v[a.name] else v[b.name]
            return v
        return self.value(f.type)

    def value(self, t):
        k = t.kind
        if k == 'struct':
            return self.struct(t.target)
        if k == 'list':
            self.next('[')
            res = []
            while self.peek() != (1, ']'):
                if res:
                    self.next(',')
                res.append(self.value(t.elem))
            self.next(']')
            return res
        kind, tok = self.next()
        if k in ('text', 'utext', 'data'):
            if kind != 2:
                raise BadText('%r is not a string' % tok)
            if k == 'data':
                return unescape(tok, True)
            s = unescape(tok, False)
            return s if k == 'utext' else s.encode('utf-8')
        if kind != 3:
            raise BadText('%r is not a value' % tok)
        if k == 'any':
            return 'ANY'
        if k == 'void':
            if tok != 'void':
                raise BadText('%r is not void' % tok)
            return None
        if k == 'bool':
            if tok not in ('true', 'false'):
                raise BadText('%r is not a bool' % tok)
            return tok == 'true'
        if k == 'enum':
            names = [plain(m) for m in t.target.members]
            if plain(tok) in names:
                return names.index(plain(tok))
            return int(tok)
        try:
            return float(tok) if k in ('float32', 'float64') else int(tok)
        except ValueError:
            raise BadText('%r is not a number' % tok)


def plain(name):
    return name.replace('_', '').lower()


def parse(text, sd):
    r = Reader(text)
    v = r.struct(sd)
    if r.i != len(r.toks):
        raise BadText('extra text: %r' % (r.peek()[1],))
    return v


def same_text(sd, got, want, path):
    """want may be null where the text shows the default"""
    if sd.disc_count and got['$which'] != want['$which']:
        return '%s: member %s, expected %s' % (path, got['$which'], want['$which'])
    for f in sd.fields:
        if f.name in want:
            a, b = got[f.name], want[f.name]
            p = path + '.' + f.name
            if f.kind == 'group':
                if f.nullable:
                    d = None if values.same(a, b) else '%s: %r, expected %r' % (p, a, b)
                else:
                    d = same_text(f.group, a, b, p)
            else:
                d = same_value(f.type, a, b, p, f.disc is not None)
            if d:
                return d
    return None


def same_value(t, a, b, p, loose):
    k = t.kind
    if b is None and loose and t.is_ptr() and k != 'any':
        b = rc.default_struct(t.target) if k == 'struct' else {'text': b'', 'data': b'', 'utext': u'', 'list': []}[k]
        if a is None:
            return None
    if a is None or b is None:
        return None if a is None and b is None else '%s: %r, expected %r' % (p, a, b)
    if k == 'struct':
        return same_text(t.target, a, b, p)
    if k == 'list':
        if len(a) != len(b):
            return '%s: %d items, expected %d' % (p, len(a), len(b))
        for i in range(len(a)):
            d = same_value(t.elem, a[i], b[i], '%s[%d]' % (p, i), True)
            if d:
                return d
        return None
    if k == 'any':
        return None
    if k == 'float32' or k == 'float64':
        if float(a) == float(b):
            return None
    return None if values.same(a, b) else '%s: %r, expected %r' % (p, a, b)


def check_text(run, text, sd, v, what):
    try:
        got = parse(text, sd)
    except BadText as e:
        raise Violation('bad-text', '%s: %s in %s' % (what, e, text[:600]))
    d = same_text(sd, got, v, sd.name)
    if d:
        raise Violation('wrong-text', '%s: %s in %s' % (what, d, text[:600]))
