"""Small intraprocedural helpers over the MIR facts."""
import re


def loc(pl):
    return pl if isinstance(pl, int) else pl[0]


def projs(pl):
    return () if isinstance(pl, int) else tuple(pl[1:])


def defs(f):
    """local -> [('s', block, rvalue, place) | ('c', block, terminator, place)] (assignments to the local or a part of it)"""
    d = f.get('_defs')
    if d is None:
        d = {}
        for bi, b in enumerate(f['blocks']):
            for s in b['s']:
                if s[0] == '=':
                    d.setdefault(loc(s[1]), []).append(('s', bi, s[2], s[1]))
            t = b['t']
            if t[0] == 'call' and t[3] is not None:
                d.setdefault(loc(t[3]), []).append(('c', bi, t, t[3]))
        f['_defs'] = d
    return d


def places(rv):
    """places an rvalue reads"""
    k = rv[0]
    out = []
    if k in ('ref', 'raw'):
        out.append(rv[2])
    elif k in ('discr', 'len', 'copyderef'):
        out.append(rv[1])
    else:
        def go(x):
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ('m', 'c') and (isinstance(x[1], int) or isinstance(x[1], list)):
                    out.append(x[1])
                    return
                for y in x:
                    go(y)
        go(rv[1:])
    return out


def walk_place(F, f, pl):
    """(k, projection, type id before it) along a place"""
    t = f['locals'][loc(pl)]
    for k, p in enumerate(projs(pl)):
        yield k, p, t
        if t is None:
            return
        ty = F.tys[t]
        if p == '*':
            t = ty.get('to', (ty.get('args') or [None])[0])
        elif p[0] == 'f':
            t = p[3]
        elif p[0] == 'd':
            pass
        else:
            t = ty.get('to')


def place_ty(F, f, pl):
    t = f['locals'][loc(pl)]
    for k, p, _ in walk_place(F, f, pl):
        pass
    t = f['locals'][loc(pl)]
    for p in projs(pl):
        ty = F.tys[t]
        if p == '*':
            t = ty.get('to', (ty.get('args') or [None])[0])
        elif p[0] == 'f':
            t = p[3]
        elif p[0] == 'd':
            pass
        else:
            t = ty.get('to')
        if t is None:
            return None
    return t


TRANSPARENT = re.compile(r'(::unwrap|::expect|::branch|::clone|::into|::from|::deref|::as_ref|::borrow|::unwrap_unchecked|::into_iter|::as_ptr|::cast|::as_slice)$')


def origins(F, f, op, transparent=TRANSPARENT, seen=None, out=None, path=()):
    """where the value of an operand comes from: set of ('arg', n, projs) / ('call', path, block) / ('const', repr) / ('other', kind)"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if op[0] == 'k':
        k = op[2]
        out.add(('const', str(k.get('bits', k.get('str', k.get('named', '?'))))))
        return out
    _orig_place(F, f, op[1], transparent, seen, out)
    return out


def _orig_place(F, f, pl, tr, seen, out):
    l = loc(pl)
    fp = tuple(p[1] for p in projs(pl) if p != '*' and p[0] == 'f')
    key = (l, fp)
    if key in seen:
        return
    seen.add(key)
    if 1 <= l <= f['argc']:
        out.add(('arg', l, fp))
    for d in defs(f).get(l, ()):
        wp = tuple(p[1] for p in projs(d[3]) if p != '*' and p[0] == 'f')
        if wp and fp and wp[:len(fp)] != fp[:len(wp)]:
            continue
        rest = fp[len(wp):]
        if d[0] == 'c':
            t = d[2]
            p = F.fns[t[1]]['path'] if isinstance(t[1], int) else str(t[1])
            if tr.search(p) and t[2]:
                for a in t[2][:1]:
                    if a[0] == 'k':
                        out.add(('const', '?'))
                    else:
                        _orig_place(F, f, a[1], tr, seen, out)
            else:
                out.add(('call', p, d[1]))
            continue
        rv = d[2]
        if rv[0] == 'agg':
            if rest and rv[1][0] in ('tuple', 'adt', 'closure'):
                idx = rest[0]
                if idx < len(rv[2]):
                    o = rv[2][idx]
                    if o[0] == 'k':
                        origins(F, f, o, tr, seen, out)
                    else:
                        _orig_place(F, f, ext(o[1], rest[1:]), tr, seen, out)
                continue
            out.add(('agg', str(rv[1][0]), d[1]))
            for o in rv[2]:
                if o[0] == 'k':
                    origins(F, f, o, tr, seen, out)
                else:
                    _orig_place(F, f, o[1], tr, seen, out)
            continue
        ps = places(rv)
        if not ps:
            if rv[0] == 'use' and rv[1][0] == 'k':
                origins(F, f, rv[1], tr, seen, out)
            else:
                out.add(('other', rv[0]))
        for p in ps:
            if rv[0] in ('use', 'ref', 'raw', 'cast'):
                _orig_place(F, f, ext(p, rest), tr, seen, out)
            else:
                out.add(('op', rv[0]))
                _orig_place(F, f, p, tr, seen, out)
        if rv[0] in ('bin', 'un'):
            for o in rv[2:]:
                if isinstance(o, list) and o and o[0] == 'k':
                    origins(F, f, o, tr, seen, out)


def ext(pl, idx):
    if not idx:
        return pl
    base = [pl] if isinstance(pl, int) else list(pl)
    return base + [['f', i, '', None] for i in idx]


def succ(t):
    from .absint import succs
    return succs(t)


def must_pass(f, good, start=0):
    """is there a path from start to a return that avoids every block in good? returns the avoiding return block or None"""
    seen, st = set(), [start]
    while st:
        b = st.pop()
        if b in seen or b in good:
            continue
        seen.add(b)
        t = f['blocks'][b]['t']
        if t[0] == 'ret':
            return b
        st.extend(succ(t))
    return None
