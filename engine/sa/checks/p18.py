"""P18: the bytes cached beside a value are always the bytes of that value."""
import re
from .. import flow

RULE = ('every SQL value wrapper pairs its data with cached bytes; (1) the data of a wrapper is written or mutably borrowed only in its DerefMut, which resets the cache on every path; '
        '(2) wherever a wrapper is put together with non-empty cached bytes, its data is read (try_ref) from these very bytes, or both parts are copied from one wrapper; '
        '(3) nothing else writes the cache of a wrapper')
ASSUMES = ['try_ref(bytes) represents bytes (P13)', 'bytes handed out as a Datum are not written through (PostgreSQL functions do not modify their arguments)']


def run(ctx):
    F = ctx.F
    wr, cd = {}, set()
    for i, t in enumerate(F.tys):
        if t.get('path', '').endswith('type_builder::CachedDatum'):
            cd.add(i)
    for i, t in enumerate(F.tys):
        if t.get('k') == 'adt' and t.get('ws') and t['ak'] == 'struct':
            fs = t['vars'][0]['f']
            for k, x in enumerate(fs):
                if x[1] in cd:
                    wr[i] = (t['path'], k)
    ctx.floor('wrapper_types', len({v[0] for v in wr.values()}), 135)
    nsites = nagg = ndm = 0
    for f in F.fns.values():
        if 'blocks' not in f:
            continue
        dm = f['path'].endswith('DerefMut>::deref_mut')
        selfw = None
        if dm:
            t = F.tys[f['locals'][1]]
            selfw = t.get('to')
            if selfw in wr:
                ndm += 1
                good = set()
                for bi, b in enumerate(f['blocks']):
                    for s in b['s']:
                        if s[0] == '=' and touches(F, f, s[1], wr, cache=True) and is_none(F, f, s[2], cd):
                            good.add(bi)
                bad = flow.must_pass(f, good)
                if bad is not None:
                    ctx.viol('deref_mut:' + wr[selfw][0], '%s hands out a mutable reference to the data of %s on a path that leaves the cached bytes in place (line %s)' % (f['path'], wr[selfw][0], f['blocks'][bad]['t'][-1]))
        for bi, b in enumerate(f['blocks']):
            for s in b['s']:
                if s[0] != '=':
                    continue
                rv = s[2]
                w = touches(F, f, s[1], wr)
                if w:
                    nsites += 1
                    if not (dm and selfw in wr) and not fresh(F, f, s[1]):
                        ctx.viol('write:%s:%s' % (f['path'], w), '%s writes into the data of %s without resetting its cached bytes (line %s)' % (f['path'], w, s[3]))
                w = touches(F, f, s[1], wr, cache=True)
                if w:
                    nsites += 1
                    if not is_none(F, f, rv, cd):
                        ctx.viol('cache:%s:%s' % (f['path'], w), '%s replaces the cached bytes of %s (line %s)' % (f['path'], w, s[3]))
                if rv[0] in ('ref', 'raw') and rv[1] not in (False, 'Not', 'not', 'const'):
                    w = touches(F, f, rv[2], wr)
                    if w:
                        nsites += 1
                        if not (dm and selfw in wr):
                            ctx.viol('borrow:%s:%s' % (f['path'], w), '%s borrows the data of %s mutably without resetting its cached bytes (line %s)' % (f['path'], w, s[3]))
                    w = touches(F, f, rv[2], wr, cache=True)
                    if w:
                        ctx.viol('cacheborrow:%s:%s' % (f['path'], w), '%s borrows the cached bytes of %s mutably (line %s)' % (f['path'], w, s[3]))
                if rv[0] == 'agg' and rv[1][0] == 'adt' and rv[1][1] in wr:
                    nagg += 1
                    check_agg(ctx, F, f, rv, wr[rv[1][1]], s[3])
            t = b['t']
            if t[0] == 'call' and t[3] is not None:
                w = touches(F, f, t[3], wr)
                if w and not (dm and selfw in wr):
                    ctx.viol('write:%s:%s' % (f['path'], w), '%s writes into the data of %s without resetting its cached bytes (line %s)' % (f['path'], w, t[-1]))
                w = touches(F, f, t[3], wr, cache=True)
                if w:
                    ctx.viol('cache:%s:%s' % (f['path'], w), '%s replaces the cached bytes of %s (line %s)' % (f['path'], w, t[-1]))
    ctx.floor('deref_mut_functions', ndm, 135)
    ctx.floor('wrapper_constructions', nagg, 500)
    ctx.count('accesses_to_wrapped_data', nsites)


def touches(F, f, pl, wr, cache=False):
    if isinstance(pl, int):
        return None
    for k, p, t in flow.walk_place(F, f, pl):
        if t in wr and p != '*' and p[0] == 'f':
            if (p[1] == wr[t][1]) == cache:
                return wr[t][0]
    return None


def fresh(F, f, pl):
    return False


def is_none(F, f, rv, cd):
    if rv[0] == 'agg' and rv[1][0] == 'adt' and rv[1][1] in cd:
        return rv[1][3] == 'None'
    if rv[0] == 'use':
        if rv[1][0] == 'k':
            return False
        ds = flow.defs(f).get(flow.loc(rv[1][1]), ())
        return bool(ds) and not flow.projs(rv[1][1]) and all(d[0] == 's' and is_none(F, f, d[2], cd) for d in ds)
    return False


DEREFS = re.compile(r'(::unwrap|::expect|::branch|::clone|::into|::deref|::as_ref|::borrow|::unwrap_unchecked|::into_inner)$')


def check_agg(ctx, F, f, rv, w, line):
    name, ci = w
    c = rv[2][ci]
    data = rv[2][1 - ci]
    cdty = None
    os = cached_bytes(F, f, c)
    if os == 'none':
        return
    key = 'construct:%s:%s' % (f['path'], name)
    do = flow.origins(F, f, data, DEREFS)
    if os is None:
        # both parts copied from one value?
        co = flow.origins(F, f, c, DEREFS)
        ca, da = {o[:2] for o in co if o[0] == 'arg'}, {o[:2] for o in do if o[0] == 'arg'}
        if co and do and ca == da and len(ca) == 1 and len(co) == 1 and len(do) == 1:
            return
        cc, dc = {o for o in co if o[0] == 'call'}, {o for o in do if o[0] == 'call'}
        if len(cc) == 1 and cc == dc and len(co) == len(do) == 1:
            return
        ctx.viol(key, '%s puts a %s together from data and cached bytes that are not known to belong together (line %s)' % (f['path'], name, line))
        return
    # data must be try_ref(bytes) with these bytes
    tr = [o for o in do if o[0] == 'call' and o[1].endswith('FlatSerializable<\'input>>::try_ref') or o[0] == 'call' and re.search(r'FlatSerializable<.*>::try_ref$', o[1])]
    if not tr or len(tr) != len([o for o in do if o[0] in ('call', 'arg')]):
        ctx.viol(key, '%s caches bytes for a %s whose data is not read from those bytes (line %s)' % (f['path'], name, line))
        return
    for o in tr:
        t = f['blocks'][o[2]]['t']
        a = flow.origins(F, f, t[2][0], DEREFS)
        b = {x for x in os}
        if ids(a) != ids(b):
            ctx.viol(key, '%s caches other bytes for a %s than the ones its data is read from (line %s)' % (f['path'], name, line))


def ids(os):
    return {o for o in os if o[0] in ('call', 'arg')}


def cached_bytes(F, f, c):
    """'none', the origins of the bytes, or None when the cache is copied from elsewhere"""
    if c[0] == 'k':
        return None
    ds = flow.defs(f).get(flow.loc(c[1]), ())
    if flow.projs(c[1]) or not ds:
        return None
    out, none = set(), 0
    for d in ds:
        if d[0] != 's':
            return None
        rv = d[2]
        if rv[0] == 'use' and rv[1][0] != 'k':
            r = cached_bytes(F, f, rv[1])
            if r is None:
                return None
            if r == 'none':
                none += 1
            else:
                out |= r
        elif rv[0] == 'agg' and rv[1][0] == 'adt':
            if rv[1][3] == 'None':
                none += 1
            else:
                out |= flow.origins(F, f, rv[2][0], DEREFS)
        else:
            return None
    return out if out else 'none'
