"""Decode the pgrx schema entries (the bytes cargo-pgrx turns into the extension's SQL)."""
import re

EXTERN = {1: 'create_or_replace', 2: 'immutable', 3: 'strict', 4: 'stable', 5: 'volatile', 6: 'raw',
          7: 'no_guard', 8: 'security_definer', 9: 'security_invoker', 10: 'parallel_safe',
          11: 'parallel_unsafe', 12: 'parallel_restricted', 13: 'should_panic', 14: 'schema',
          15: 'support', 16: 'name', 17: 'cost', 18: 'requires'}


class R:
    def __init__(self, b):
        self.b, self.p = b, 0

    def u8(self):
        v = self.b[self.p]
        self.p += 1
        return v

    def bool(self):
        v = self.u8()
        assert v in (0, 1), v
        return v == 1

    def u32(self):
        v = int.from_bytes(self.b[self.p:self.p + 4], 'little')
        self.p += 4
        return v

    def str(self):
        n = self.u32()
        assert self.p + n <= len(self.b)
        v = self.b[self.p:self.p + n].decode()
        self.p += n
        return v

    def ostr(self):
        return self.str() if self.bool() else None

    def mapping(self, arr=False):
        k = self.u8()
        if k == 1:
            return self.str()
        if k == 2:
            return self.mapping(True) + '[]'
        if k == 3:
            a, b, c, d = self.bool(), self.u32(), self.bool(), self.u32()
            return 'NUMERIC'
        if k == 4:
            return 'composite'
        if k == 5:
            return None
        raise ValueError(k)

    def argsql(self):
        k = self.u8()
        if k == 1:
            return self.mapping()
        e = self.u8()
        if e == 7:
            self.str()
        return None

    def retsql(self):
        k = self.u8()
        if k == 2:
            self.u8()
            return None
        k = self.u8()
        if k == 1:
            return self.mapping()
        if k == 2:
            return ('setof', self.mapping())
        return ('table', [self.mapping() for _ in range(self.u32())])

    def used(self):
        d = dict(src=self.str(), full=self.str(), composite=self.ostr(), variadic=self.bool(),
                 default=self.ostr(), optional=self.bool())
        if self.bool():
            d['ident'] = self.str()
            d['origin'] = self.u8()
        d['sql'] = self.argsql()
        d['ret'] = self.retsql()
        return d

    def posref(self):
        k = self.u8()
        return self.str()


def decode(b):
    r = R(b)
    n = r.u32()
    assert n + 4 == len(b), (n, len(b))
    k = r.u8()
    if k == 0:
        return dict(kind='sentinel')
    if k == 1:
        return dict(kind='schema', module=r.str(), name=r.str(), file=r.str(), line=r.u32())
    if k == 2:
        d = dict(kind='sql', sql=r.str(), module=r.str(), full=r.str(), file=r.str(), line=r.u32(), name=r.str(),
                 bootstrap=r.bool(), finalize=r.bool())
        d['requires'] = [r.posref() for _ in range(r.u32())]
        cr = []
        for _ in range(r.u32()):
            kk = r.u8()
            nm = r.str()
            if kk in (1, 2):
                r.str()
                r.argsql()
            cr.append((kk, nm))
        d['creates'] = cr
        return d
    if k == 3:
        d = dict(kind='function', name=r.str(), rust=r.str(), module=r.str(), full=r.str())
        d['args'] = [dict(pat=r.str(), **r.used()) for _ in range(r.u32())]
        rk = r.u8()
        if rk == 1:
            d['ret'] = None
        elif rk == 2:
            d['ret'] = r.used()
        elif rk == 3:
            d['ret'] = dict(setof=True, **r.used())
        elif rk == 4:
            d['ret'] = dict(table=[(r.ostr(), r.used()) for _ in range(r.u32())])
        else:
            d['ret'] = 'trigger'
        d['schema'] = r.ostr()
        d['file'] = r.str()
        d['line'] = r.u32()
        at = {}
        for _ in range(r.u32()):
            t = EXTERN[r.u8()]
            if t in ('should_panic', 'schema', 'name', 'cost'):
                at[t] = r.str()
            elif t == 'support':
                at[t] = r.posref()
            elif t == 'requires':
                at[t] = [r.posref() for _ in range(r.u32())]
            else:
                at[t] = True
        d['attrs'] = at
        d['search_path'] = [r.str() for _ in range(r.u32())] if r.bool() else None
        if r.bool():
            d['op'] = dict(name=r.ostr(), commutator=r.ostr(), negator=r.ostr(), restrict=r.ostr(), join=r.ostr(),
                           hashes=r.bool(), merges=r.bool())
        else:
            d['op'] = None
        d['cast'] = r.u8() if r.bool() else None
        d['sqlcfg'] = (r.bool(), r.ostr())
        assert r.p == len(b)
        return d
    if k == 4:
        return dict(kind='type', name=r.str(), file=r.str(), line=r.u32(), module=r.str(), full=r.str(),
                    ident=r.str(), infn=r.str(), outfn=r.str())
    if k == 5:
        return dict(kind='enum', name=r.str())
    if k in (6, 7):
        return dict(kind='ord' if k == 6 else 'hash', name=r.str())
    if k == 8:
        return dict(kind='aggregate')
    raise ValueError(k)


def strip_sql(s):
    s = re.sub(r'--[^\n]*', '', s)
    return re.sub(r'/\*.*?\*/', '', s, flags=re.S)


AGG = re.compile(r'CREATE\s+(?:OR\s+REPLACE\s+)?AGGREGATE\s+([\w.@"]+)\s*\(', re.I)


def _balanced(s, i):
    """s[i] == '(' -> index just after the matching ')'"""
    d = 0
    q = None
    while i < len(s):
        c = s[i]
        if q:
            if c == q:
                q = None
        elif c in '\'"':
            q = c
        elif c == '(':
            d += 1
        elif c == ')':
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise ValueError('unbalanced')


def _split(s):
    out, d, cur, q = [], 0, '', None
    for c in s:
        if q:
            if c == q:
                q = None
            cur += c
            continue
        if c in '\'"':
            q = c
        if c == '(':
            d += 1
        if c == ')':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def aggregates(sql):
    """every CREATE AGGREGATE of a piece of SQL: name, args, options (lower-cased keys)"""
    s = strip_sql(sql)
    out = []
    for m in AGG.finditer(s):
        a0 = m.end() - 1
        a1 = _balanced(s, a0)
        args = s[a0 + 1:a1 - 1]
        b0 = s.index('(', a1)
        b1 = _balanced(s, b0)
        opts = {}
        for o in _split(s[b0 + 1:b1 - 1]):
            k, _, v = o.partition('=')
            opts[k.strip().lower()] = v.strip()
        out.append(dict(name=m.group(1), args=' '.join(args.split()), opts=opts))
    return out
