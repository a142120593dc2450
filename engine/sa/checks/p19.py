"""P19: an aggregate state that travels between processes arrives as it was sent."""
import re
from .. import aggtab, flush, own, wire
from ..absint import Interp, Budget, V, fieldv
from . import p06

RULE = ('For every type with a Serialize or Deserialize implementation instantiated for the state format (bincode), abstract interpretation of both: the n-th element '
        'read has the type of the n-th element written, ends up in the component it was computed from, and every component is written and read. For every pair of '
        'serialize and deserialize functions of an aggregate: the type read has the form of the type written; every component of the state flows into what is '
        'written (a buffer that is not written has, on every path, been found empty or been read into something that is), every component read flows into the restored state, and none into a component of the state other than the one it was computed from. Tuples are compared component by component.')
ASSUMES = ['serde\'s implementations for std types and bincode itself read back what they write',
           'derived implementations for enums number the variants alike (layout of text and tags: P13)']
# components that are not part of the form: (type, field)
SKIP = {
    ('CounterSummaryTransState', 'bounds'): 'recorded in each summary when the buffered points are merged',
    ('GaugeSummaryTransState', 'bounds'): 'recorded in each summary when the buffered points are merged',
    ('CounterSummaryTransState', 'point_buffer'): 'merged before (rule c)', ('GaugeSummaryTransState', 'point_buffer'): 'merged before (rule c)',
    ('TimeWeightTransState', 'point_buffer'): 'merged before (rule c)', ('Builder', 'buffer'): 'merged before (rule c)',
    ('UDDSketch', 'gamma'): 'function of alpha', ('UddSketch', 'gamma'): 'function of alpha',
    ('DatumHashBuilder', 'info'): 'function handle, looked up again',
}
# written as the name PostgreSQL's catalogs have for them and looked up again (their tables: P11)
CATALOG = {'PgTypId', 'PgCollationId', 'PgProcId'}
HEADER = ('header', 'padding')


def target(F, t):
    while F.tys[t]['k'] in ('ref', 'ptr'):
        t = F.tys[t]['to']
    return t


def tops(labs, o):
    """top-level fields (of any variant) of object o the labels speak of; None when they speak of the whole"""
    r = set()
    for l in labs:
        if l[0] == o:
            if not l[1]:
                return None
            r.add(l[1][0])
        elif l[0][0] == 'D':
            # memory behind a component of o
            x = l[0]
            while x[0] == 'D' and x[1] != o:
                x = x[1]
            if x[0] == 'D' and x[1] == o and x[2]:
                r.add(x[2][0])
    return r


class Forms:
    def __init__(s, F):
        s.F, s.S, s.D, s.V = F, {}, {}, {}
        for f in F.fns.values():
            p = f['path']
            if 'blocks' not in f or not f['ws']:
                continue
            if p.endswith('::serialize') and 'Serialize' in p and 'bincode::Serializer<' in f['name']:
                s.S[target(F, f['locals'][1])] = f
            elif p.endswith(('::visit_seq', '::visit_newtype_struct')) and 'bincode' in F.tstr(f['locals'][0]):
                s.V.setdefault(f['locals'][1], {})[p.split('::')[-1]] = f
            elif p.endswith('::deserialize') and 'Deserialize<' in p and 'Box<bincode' in F.tstr(f['locals'][0]):
                s.D.setdefault(F.tys[f['locals'][0]]['args'][0], []).append(f)
        s.w, s.r = {}, {}
        for t, f in s.S.items():
            s.w[t] = wire.serialized(F, f)
        for t, fs in s.D.items():
            if F.tys[t].get('ak') != 'enum' and len(fs) == 1:
                s.r[t] = wire.deserialized(F, fs[0], s.V)

    def same(s, a, b, d=0):
        """the form written for type a is the one read for type b"""
        F = s.F
        a, b = target(F, a), target(F, b)
        if a == b or F.tstr(a).replace("'_", '').replace('<>', '') == F.tstr(b).replace("'_", '').replace('<>', ''):
            return True
        ta, tb = F.tys[a], F.tys[b]
        if ta['k'] == 'tuple' and tb['k'] == 'tuple':
            return len(ta['args']) == len(tb['args']) and all(s.same(x, y, d + 1) for x, y in zip(ta['args'], tb['args']))
        la = [x for x in s.w[a]] if s.w.get(a) else None
        lb = s.r[b][0] if s.r.get(b) else None
        if la and len(la) == 1 and la[0][0] is None and la[0][2] == F.tstr(b):    # written as a plain str, u64, ...
            return True
        if d < 4:
            if la and lb and len(la) == len(lb) and all(x[0] is not None and s.same(x[0], y[0], d + 1) for x, y in zip(la, lb)):
                return True
            if lb and len(lb) == 1:
                return s.same(a, lb[0][0], d + 1)
            if la and len(la) == 1 and la[0][0] is not None:
                return s.same(la[0][0], b, d + 1)
        return False


def per_type(ctx, F, W, t):
    nm = F.tstr(t)
    ty = F.tys[t]
    w = W.w[t]
    if w is None or W.r[t] is None:
        ctx.viol('budget:' + nm, 'analysis of the serialization of %s exceeded its budget' % nm)
        return
    elems, rv, I, st = W.r[t]
    sh = p06.short(ty)
    fields = [f[0] for f in ty['vars'][0]['f']]
    o = ('P', '1')
    back = {}
    for k in range(len(fields)):
        for l in I.deep_labels(st, fieldv(rv, (0, k))):
            if l[0][0] == 'X':
                back.setdefault(l[0], set()).add((0, k))
                back.setdefault(l, set()).add((0, k))
    if len(w) != len(elems) and (len(w) > len(elems) or any(e[1] in back for e in elems[len(w):])):    # reading on only to reject surplus elements is fine
        ctx.viol('count:' + nm, '%s: %d elements are written and %d are read' % (nm, len(w), len(elems)))
        return
    wr = set()
    for i, (a, b) in enumerate(zip(w, elems)):
        ctx.count('elements')
        if a[0] is None or not W.same(a[0], b[0]):
            ctx.viol('type:%s:%d' % (nm, i), '%s: element %d is written as %s and read as %s' % (nm, i, a[2] if a[0] is None else F.tstr(a[0]), F.tstr(b[0])))
            continue
        if sh in CATALOG:
            continue
        A = tops(a[1], o)
        B = back.get(b[1], set())
        if A is None:
            continue
        wr |= A
        comps = [tops(labs, o) for labs in a[3] or ()]
        for k, A1 in enumerate(comps):
            if A1 is None or len(A1) != 1:
                continue
            ctx.count('elements')
            B1 = {x for l, bs in back.items() if l == (b[1], ((0, k),)) for x in bs if (sh, fields[x[1]]) not in SKIP}
            other = set().union(*(c for j, c in enumerate(comps) if j != k and c and len(c) == 1)) - A1
            if not A1 & B1 or B1 & other:
                ctx.viol('place:%s:%d.%d' % (nm, i, k), '%s: component %d of element %d is computed from %s and goes into %s' % (
                    nm, k, i, ', '.join(sorted(fields[x[1]] for x in A1)), ', '.join(sorted(fields[x[1]] for x in B1)) or 'nothing'))
        if len(A) == 1 and not A <= B or not A & B:
            ctx.viol('place:%s:%d' % (nm, i), '%s: element %d is computed from %s and restored into %s' % (
                nm, i, ', '.join(sorted(fields[x[1]] for x in A)) or 'nothing', ', '.join(sorted(fields[x[1]] for x in B)) or 'nothing'))
    for k, fn in enumerate(fields):
        if (sh, fn) in SKIP or fn in HEADER or 'PhantomData' in F.tstr(ty['vars'][0]['f'][k][1]):
            continue
        ctx.count('fields')
        if (0, k) not in wr and sh not in CATALOG and not any(tops(a[1], o) is None for a in w):
            ctx.viol('unwritten:%s:%s' % (nm, fn), '%s: `%s` is not written' % (nm, fn))
        if not any((0, k) in b for b in back.values()):
            ctx.viol('unread:%s:%s' % (nm, fn), '%s: `%s` is not restored from what was written' % (nm, fn))


class SerH(p06.H):
    def __init__(s, F, W):
        p06.H.__init__(s)
        s.F, s.W, s.sent, s.types, s.per = F, W, set(), set(), {}

    def call(s, I, rec, path, args, atys, dty, site, st, fid):
        p06.H.call(s, I, rec, path, args, atys, dty, site, st, fid)
        if rec is None or path != 'bincode::serialize_into':
            return None
        F, t = s.F, target(s.F, rec['targs'][-1])
        s.types.add(t)
        wr = set()
        for a in s.W.w.get(t) or ():
            x = tops(a[1], ('P', '1'))
            wr = None if x is None or wr is None else wr | x
        for o, p in I.targets(args[1]):
            base = I.load(st, (o, p))
            for lp, lt, names in p06.leaves(F, t):
                if not lp or wr is None or lp[0] in wr or not s.W.w.get(t):
                    v = base
                    for k in lp:
                        v = fieldv(v, k)
                    l = I.deep_labels(st, v)
                    s.sent |= l
                    s.per.setdefault(lp, set()).update(l)
        return None


class DeH(p06.H):
    def __init__(s):
        p06.H.__init__(s)
        s.types = set()

    def call(s, I, rec, path, args, atys, dty, site, st, fid):
        p06.H.call(s, I, rec, path, args, atys, dty, site, st, fid)
        if rec is not None and path == 'bincode::deserialize':
            s.types.add(rec['targs'][-1])
            return V(f={(0, 0): V(syms=frozenset([(('P', 'wire'), ())]))}, var=frozenset([0]))
        return None


def covered(labs, loc):
    return any(p06.covers(l, loc) or p06.covers(loc, l) for l in labs)


def run(ctx):
    F = ctx.F
    W = Forms(F)
    both = sorted(set(W.w) & set(W.r), key=F.tstr)
    for t in both:
        per_type(ctx, F, W, t)
    ctx.floor('types_written_and_read', len(both), 28)
    ctx.count('buffers', 0)
    pairs = {}
    for a in aggtab.table(F):
        if a['opts']['stype'].lower() != 'internal':
            continue
        for e in a['roles'].get('serialfunc', ()):
            for g in a['roles'].get('deserialfunc', ()):
                pairs.setdefault((e['path'], g['path']), []).append(a)
    ctx.floor('function_pairs', len(pairs), 15)
    for (sp, dp), al in sorted(pairs.items()):
        sf, df = F.fn(sp), F.fn(dp)
        if sf is None or df is None:
            ctx.viol('missing:%s/%s' % (sp, dp), 'no body for %s or %s' % (sp, dp))
            continue
        h, g = SerH(F, W), DeH()
        try:
            I = Interp(F, h)
            st, rv = I.call({}, sf, [own.internal_param(1, 1)] + [own.param(i) for i in range(2, sf['argc'] + 1)], ('top',))
            J = Interp(F, g)
            st2, rv2 = J.call({}, df, [own.param(i) if not p06_opt(F, df, i) else some(i) for i in range(1, df['argc'] + 1)], ('top',))
        except Budget as ex:
            ctx.viol('budget:' + sp, 'analysis of %s or %s exceeded its budget: %s' % (sp, dp, ex))
            continue
        if st is None or st2 is None:
            ctx.viol('noreturn:%s/%s' % (sp, dp), '%s or %s always raises an error' % (sp, dp))
            continue
        if not h.types or not g.types:
            ctx.viol('form:%s/%s' % (sp, dp), '%s or %s does not use the state format' % (sp, dp))
            continue
        for a in h.types:
            for b in g.types:
                if not W.same(a, b):
                    ctx.viol('form:%s/%s' % (sp, dp), '%s writes %s, %s reads %s' % (sp, F.tstr(a), dp, F.tstr(b)))
        n = 0
        for t in h.t.get(('P', '1'), ()):
            for lp, lt, names in p06.leaves(F, t):
                nn = '.'.join(x for _, x in names)
                if any(x in SKIP and 'buffer' not in x[1] for x in names) or any(x[1] in HEADER for x in names):
                    continue
                n += 1
                if not p06.cov(h.sent, (p06.STATE(1), lp)):
                    ctx.viol('lost:%s:%s' % (sp, nn), '%s (%s): `%s` of the state does not reach what is written' % (sp, al[0]['name'], nn))
        fl = flush.run(F, sf, [own.internal_param(1, 1)] + [own.param(i) for i in range(2, sf['argc'] + 1)], {1: h.t.get(('P', '1'), ())})
        if fl:
            for b in fl[0].bufs:
                ctx.count('buffers')
                if not fl[0].at or any(x[b] != 1 for x in fl[0].at):
                    ctx.viol('unflushed:' + sp, '%s (%s): there is a path on which the state is written while values wait in a buffer that is not written' % (sp, al[0]['name']))
        labs = J.deep_labels(st2, rv2)
        for t in g.types:
            for lp, lt, names in p06.leaves(F, t):
                nn = '.'.join(x for _, x in names)
                if any(x in SKIP for x in names) or any(x[1] in HEADER for x in names):
                    continue
                n += 1
                if not covered(labs, (('P', 'wire'), lp)) and not covered(g.used, (('P', 'wire'), lp)):
                    ctx.viol('ignored:%s:%s' % (dp, nn), '%s (%s): `%s` that was written does not reach the restored state' % (dp, al[0]['name'], nn))
        if h.types == g.types:
            crossed(ctx, F, J, st2, rv2, h, sp, dp, al)
        ctx.count('components', n)
        if len(ctx.samples) < 30:
            ctx.samples.append('%s / %s: %d components' % (sp, dp, n))


def crossed(ctx, F, J, st, rv, h, sp, dp, al):
    """nothing of the wire goes into a component other than one it was computed from"""
    if F.tys[F.fn(dp)['locals'][0]]['k'] == 'adt' and rv.f.get((1, 0)) is not None:
        rv = rv.f[(1, 0)]
    v = fieldv(fieldv(rv, (0, 0)), (1, 0))
    objs = [l for l in J.targets(v) if l[0][0] == 'H']
    if len(objs) != 1:
        return
    obj = J.load(st, objs[0])
    for t in h.t.get(('P', '1'), ()):
        for lp, lt, names in p06.leaves(F, t):
            if not lp or any(x in SKIP or x[1] in HEADER for x in names):
                continue
            x = obj
            for k in lp:
                x = fieldv(x, k)
            ctx.count('restored')
            for w in J.deep_labels(st, x):
                while w[0][0] == 'D':
                    w = (w[0][1], w[0][2])
                if w[0] != ('P', 'wire') or not w[1]:
                    continue
                src = [(q, L) for q, L in h.per.items() if q and (q[:len(w[1])] == w[1] or w[1][:len(q)] == q)]
                if src and not any(covered(L, (p06.STATE(1), lp[:1])) for q, L in src):
                    ctx.viol('crossed:%s:%s' % (dp, '.'.join(n for _, n in names)), '%s (%s): `%s` of the restored state is computed from element %s, into which %s puts something else' % (
                        dp, al[0]['name'], '.'.join(n for _, n in names), '.'.join(str(k[1]) if isinstance(k, tuple) else '' for k in w[1]), sp))


def p06_opt(F, f, i):
    t = F.tys[f['locals'][i]]
    return t['k'] == 'adt' and t['path'].endswith('option::Option')


def some(i):
    return V(f={(1, 0): V(syms=frozenset([(('P', str(i)), ((1, 0),))]))}, var=frozenset([1]))
