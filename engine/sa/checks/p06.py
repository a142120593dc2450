"""P06: combining and rolling up take every component of both inputs into account."""
import itertools
import re
from .. import aggtab, loops, own
from ..absint import Interp, Hooks, Budget, V, root, fieldv, locstr
from . import p03
from .p04 import covers, moved

RULE = ('For every combine function (both, first-only, second-only state present), every rollup/rolling transition (state present and absent) and every '
        'merge function of the workspace (two arguments of one struct type): inlining abstract interpretation of the MIR with label flow. (a) every '
        'leaf component of each input state flows into the result (or decides a branch, for merge functions); (b) a component that the '
        'transition functions accumulate into flows, from both inputs, into the same component of the result; (c) the result is not absent '
        'when an input is present. (d) in every function reached from a combine function or rollup transition, a loop that puts the elements it '
        'iterates over into a collection is left before the elements run out only with the length of the collection known to have reached its limit.')
ASSUMES = ['Components no transition function writes once the state exists are configuration; agreement of configurations is P07.',
           'Flow of labels over-approximates: that a component is used correctly (arithmetic) and on every data-dependent path is not decided.']
# lengths of the arrays of a stored value: the arrays carry them
SHAPE = re.compile(r'^(num_values|num_intervals|num_buckets|elements|buckets|\w+_len|\w+_bytes|padding)$')
MERGE = re.compile(r'^(combine|merge|append|push_summary|union|absorb|merge_in|merge_sketch)$')
# leaf components which need no flow, by type and name
SKIP = {
    ('MetricSummary', 'second'): 'the second point of the later summary cannot be the second point of the whole (the earlier one has a first point)',
    ('CounterSummaryBuilder', 'second'): 'as above', ('GaugeSummaryBuilder', 'second'): 'as above',
    ('CounterSummaryTransState', 'point_buffer'): 'flushed by the caller (P22)', ('CounterSummaryTransState', 'bounds'): 'recorded in each summary when points are flushed',
    ('GaugeSummaryTransState', 'point_buffer'): 'as above', ('GaugeSummaryTransState', 'bounds'): 'as above',
    ('TimeWeightTransState', 'point_buffer'): 'as above',
    ('dense::Storage', 'precision'): 'configuration, asserted equal', ('sparse::Storage', 'precision'): 'configuration, asserted equal',
    ('dense::Storage', 'index_shift'): 'function of the precision', ('dense::Storage', 'hash_mask'): 'function of the precision',
    ('sparse::Storage', 'num_compressed'): 'length of the compressed registers, recomputed',
    ('CountMinSketch', 'hashfuncs'): 'function of the configuration',
    ('sparse::Storage', 'to_merge'): 'asserted empty in the second operand, flushed in the first',
    ('SpaceSavingTransState', 'max_size'): 'configuration',  ('SpaceSavingTransState', 'freq_param'): 'configuration', ('SpaceSavingTransState', 'topn'): 'configuration', ('TimeWeightTransState', 'method'): 'configuration',
    ('HeartbeatTransState', 'interval_len'): 'configuration (P07)', ('UddSketch', 'alpha'): 'configuration (P07)', ('UddSketch', 'max_buckets'): 'configuration (P07)', ('UddSketchData', 'alpha'): 'configuration (P07)', ('UddSketchData', 'max_buckets'): 'configuration (P07)',
    ('SpaceSavingAggregate', 'type_oid'): 'repeated in the datum array', ('SpaceSavingAggregateData', 'type_oid'): 'repeated in the datum array',
    ('I64RangeWrapperData', 'has_left'): 'says whether left is there', ('I64RangeWrapper', 'has_left'): 'says whether left is there',
    ('I64RangeWrapperData', 'has_right'): 'says whether right is there', ('I64RangeWrapper', 'has_right'): 'says whether right is there',
    ('DatumHashBuilder', 'info'): 'function handle of the hasher', ('DatumHashBuilder', 'type_id'): 'identity of the hashed type (P07)', ('DatumHashBuilder', 'collation'): 'identity of the hashed type (P07)',
    ('RollupTransState', 'compact'): 'configuration', ('CompactStateAggTransState', 'integer_states'): 'configuration', ('NMostTransState', 'capacity'): 'configuration',
}
# components whose combined value legitimately stems from one input or from elsewhere
ONE = {('UDDSketch', 'alpha'), ('UDDSketch', 'gamma'), ('UDDSketch', 'compactions'),      # brought to the same compaction level first
       ('TDigest', 'max_size'), ('Timevector_TSTZ_F64Data', 'num_points'), ('Timevector_TSTZ_F64', 'num_points'),
       ('MetricSummary', 'first'), ('MetricSummary', 'last'), ('TimeWeightSummary', 'first'), ('TimeWeightSummary', 'last'), ('OwnedCompactStateAgg', 'last_state'), ('OwnedCompactStateAgg', 'first_state')}


def leaves(F, t, p=(), d=0, out=None, names=()):
    out = [] if out is None else out
    ty = F.tys[t]
    if 'PhantomData' in ty['s'] or 'CachedDatum' in ty['s']:
        pass
    elif ty['k'] == 'adt' and ty['path'].startswith('flat_serialize::'):
        out.append((p, t, names))
    elif ty['k'] == 'adt' and ty.get('ak') != 'enum' and 'vars' in ty and ty.get('ws') and d < 6:
        pg = [f[0] for f in ty['vars'][0]['f']][:3] == ['header', 'version', 'padding']
        for i, f in enumerate(ty['vars'][0]['f']):
            if not (pg and i < 3):
                leaves(F, f[1], p + ((0, i),), d + 1, out, names + ((short(ty), f[0]),))
    elif ty['k'] == 'adt' and ty.get('ak') == 'enum' and ty.get('ws') and d < 6 and any(v['f'] for v in ty.get('vars', ())):
        for vi, v in enumerate(ty['vars']):
            for i, f in enumerate(v['f']):
                leaves(F, f[1], p + ((vi, i),), d + 1, out, names + ((short(ty), '%s.%s' % (v['n'], f[0]) if 'n' in v else f[0]),))
    elif ty['k'] == 'tuple':
        for i, a in enumerate(ty['args']):
            leaves(F, a, p + ((0, i),), d + 1, out, names + (('', str(i)),))
    else:
        out.append((p, t, names))
    return out


def short(ty):
    p = ty['path'].split('::')
    return '::'.join(p[-2:]) if p[-1] == 'Storage' else p[-1]


def skip(names):
    return any(n in SKIP for n in names)


class H(Hooks):
    def __init__(s):
        s.t = {}
        s.used = set()
        s.upd = set()

    def call(s, I, rec, path, args, atys, dty, site, st, fid):
        if rec is not None and p03.OPEN.search(path) and 'Internal' in path and args:
            for x in args[0].syms | frozenset(y for l in args[0].ptr if l[0][0] == 'L' for y in I.load(st, l).syms):
                s.t.setdefault(root(x), set()).add(rec['targs'][0])

    def switch(s, I, v, t, site, st):
        s.used |= v.lab | v.syms

    def write(s, I, loc, val, site, st):
        s.upd.add(loc)


def absent():
    return V(f={(0, 0): V(var=frozenset([0]))})


def cov(labs, loc):
    return any(covers(l, loc) and (l[0] == loc[0] or l[0][0] == 'D') for l in labs)


STATE = lambda i: ('D', ('P', str(i)), ((0, 0), (1, 0)))


def config(ctx, F, aggs, T):
    """the leaves of T no transition function of these aggregates writes once the state exists"""
    upd, n = set(), 0
    for a in aggs:
        for role in ('sfunc', 'msfunc', 'minvfunc'):
            for e in a['roles'].get(role, ()):
                f = F.fn(e['path'])
                if f is None:
                    continue
                h = H()
                I = Interp(F, h, budget=200000)
                try:
                    I.call({}, f, [own.internal_param(1, 1)] + [own.param(i) for i in range(2, f['argc'] + 1)], ('top',))
                except Budget:
                    return None
                n += 1
                upd |= {l for l in h.upd if root(l) == ('P', '1')}
    return {lp for lp, lt, _ in leaves(F, T) if F.tys[lt]['k'] == 'prim' and not any(covers(u, (STATE(1), lp)) for u in upd)}


def run(ctx):
    F = ctx.F
    aggs = {}
    roll = {}
    for a in aggtab.table(F):
        if a['opts']['stype'].lower() != 'internal':
            continue
        for e in a['roles'].get('combinefunc', ()):
            aggs.setdefault(e['path'], []).append(a)
        if a['name'].split('.')[-1] in ('rollup', 'rolling'):
            for r in ('sfunc', 'msfunc'):
                for e in a['roles'].get(r, ()):
                    roll.setdefault(e['path'], []).append(a)
    ctx.floor('combine_functions', len(aggs), 22)
    ctx.floor('rollup_functions', len(roll), 15)
    nl = 0
    for path, al in sorted(aggs.items()):
        f = F.fn(path)
        if f is None:
            ctx.viol('missing:' + path, 'no body for %s' % path)
            continue
        nm = '%s (%s)' % (path, ', '.join(sorted({a['name'] for a in al}))[:80])
        cfg = {}
        for pres in ((1, 1), (0, 1), (1, 0)):
            h = H()
            I = Interp(F, h)
            try:
                st, rv = I.call({}, f, [own.internal_param(i + 1, 1) if p else absent() for i, p in enumerate(pres)] + [own.param(j) for j in range(3, f['argc'] + 1)], ('top',))
            except Budget as ex:
                ctx.viol('budget:' + path, 'analysis of %s exceeded its budget: %s' % (path, ex))
                continue
            tag = {(1, 1): 'both states', (0, 1): 'only the second state', (1, 0): 'only the first state'}[pres]
            if st is None:
                ctx.viol('noreturn:%s:%d%d' % ((path,) + pres), '%s always raises an error with %s present' % (nm, tag))
                continue
            if F.tys[f['locals'][0]]['path'].endswith('Option') and rv.var is not None and 1 not in rv.var:
                ctx.viol('absent:%s:%d%d' % ((path,) + pres), '%s returns no state although %s present' % (nm, tag + (' are' if pres == (1, 1) else ' is')))
                continue
            labs = I.deep_labels(st, rv)
            objs = [l[0] for l in I.targets_deep(rv)]
            for i, p in enumerate(pres):
                if not p:
                    continue
                for t in h.t.get(('P', str(i + 1)), ()):
                    ty = F.tys[t]
                    opt = ty['k'] == 'adt' and ty['path'].endswith('Option')
                    T = ty['args'][0] if opt else t
                    if T not in cfg:
                        cfg[T] = config(ctx, F, al, t)
                    for lp, lt, names in leaves(F, t):
                        if skip(names) and (pres == (1, 1) or names[-1][0] == 'DatumHashBuilder') or not names and not opt:
                            continue
                        loc = (STATE(i + 1), lp)
                        nl += 1
                        isconf = cfg[T] is None or lp in cfg[T]
                        n = '.'.join(x for _, x in names) or 'content'
                        if not cov(labs, loc) and not isconf:
                            ctx.viol('drop:%s:%d%d:%d:%s' % (path, pres[0], pres[1], i + 1, n), '%s: with %s present, `%s` of state %d does not reach the result' % (nm, tag, n, i + 1))
                        elif pres == (1, 1) and not isconf and F.tys[lt]['k'] == 'prim' and not any(x in ONE for x in names):
                            hl = set()
                            for o in objs:
                                v = I.load(st, (o, ()))
                                for k in lp:
                                    v = fieldv(v, k)
                                hl |= computed(v, names)
                            ctx.count('accumulated_components')
                            if not cov(hl, loc):
                                ctx.viol('mixed:%s:%d:%s' % (path, i + 1, n), '%s: `%s` of the combined state does not depend on `%s` of state %d' % (nm, n, n, i + 1))
    ctx.count('state_components', nl)
    # rollup
    nv = 0
    for path, al in sorted(roll.items()):
        f = F.fn(path)
        if f is None:
            ctx.viol('missing:' + path, 'no body for %s' % path)
            continue
        t = F.tys[f['locals'][2]]
        opt = t['k'] == 'adt' and t['path'].endswith('option::Option')
        vt = t['args'][0] if opt else f['locals'][2]
        for pres in (0, 1):
            h = H()
            I = Interp(F, h)
            a2 = V(f={(1, 0): V(syms=frozenset([(('P', '2'), ((1, 0),))]))}, var=frozenset([1])) if opt else own.param(2)
            try:
                st, rv = I.call({}, f, [own.internal_param(1, 1) if pres else absent(), a2] + [own.param(j) for j in range(3, f['argc'] + 1)], ('top',))
            except Budget as ex:
                ctx.viol('budget:' + path, 'analysis of %s exceeded its budget: %s' % (path, ex))
                continue
            if st is None:
                ctx.viol('noreturn:%s:%d' % (path, pres), '%s always raises an error with a value' % path)
                continue
            labs = I.deep_labels(st, rv)
            for o in list(st):
                if o[0] == 'D' and root((o, ())) == ('P', '1'):
                    moved(I, st, st[o], o, (), labs)
            for lp, lt, names in leaves(F, vt):
                n = '.'.join(x for _, x in names) or 'value'
                loc = (('P', '2'), ((1, 0),) + lp if opt else lp)
                if skip(names) or pres and names and names[-1][1].split('.')[-1] in ('capacity', 'freq_param', 'topn', 'num_compressed', 'compactions') or names and SHAPE.search(names[-1][1]):
                    continue
                nv += 1
                if not cov2(labs, loc) and not (F.tys[lt]['s'] not in ('f64', 'u64', 'i64') and 'Slice' not in F.tys[lt]['s'] and cov2(h.used, loc)):
                    ctx.viol('rolldrop:%s:%d:%s' % (path, pres, n), '%s (%s): `%s` of the rolled-up value does not reach the state (%s)' % (path, al[0]['name'], n, 'existing state' if pres else 'first value'), )
    ctx.count('value_components', nv)
    # loops that are left early
    seen, todo, ns = set(), [F.fn(p)['id'] for p in list(aggs) + list(roll) if F.fn(p)], 0
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        f = F.fns[i]
        if 'blocks' not in f:
            continue
        todo += [b['t'][1] for b in f['blocks'] if b['t'][0] == 'call' and isinstance(b['t'][1], int)]
        if f['ws'] and f['crate'] != 'flat_serialize':
            n, ex = loops.early_exits(F, f)
            ns += n
            for b, line in ex:
                ctx.viol('exit:' + f['path'], '%s stops taking elements before they run out, and not because the collection is full (line %s)' % (f['path'], line))
    ctx.floor('element_loops', ns, 25)
    # merge functions
    nm = 0
    for f in sorted(F.fns.values(), key=lambda f: f['name']):
        if not f['ws'] or 'blocks' not in f or f['kind'] != 'item' or f['argc'] < 2 or not MERGE.search(f['path'].split('::')[-1]):
            continue
        ts = [strip(F, f['locals'][i + 1]) for i in range(f['argc'])]
        if not all(F.tys[t]['k'] == 'adt' and F.tys[t].get('ws') and 'vars' in F.tys[t] for t, _ in ts[:2]):
            continue
        nm += 1
        for choice in itertools.product(*[range(n) for i in (0, 1) for _, n in enums(F, ts[i][0])]) if all(len(enums(F, ts[i][0])) <= 1 for i in (0, 1)) else [()]:
            merge_case(ctx, F, f, ts, choice)
    ctx.floor('merge_functions', nm, 10)


def computed(v, names):
    """what a component was computed from. A verbatim copy (an early return of one operand) does not count, except for recorded points and
    end times, which are picked from one operand"""
    if any(t in ('TSPoint', 'Tick') or n in ('first_time', 'last_time') for t, n in names):
        return v.lab or v.syms
    return v.lab


def flat_enum(ty):
    return ty['k'] == 'adt' and ty.get('ak') == 'enum' and not any(v['f'] for v in ty.get('vars', ()))


def enums(F, t, p=(), d=0):
    """enum-typed components with payload: [(path, number of variants)]"""
    ty = F.tys[t]
    if ty['k'] != 'adt' or not ty.get('ws') or d > 5 or 'vars' not in ty:
        return []
    if ty.get('ak') == 'enum':
        return [(p, len(ty['vars']))] if len(ty['vars']) > 1 and any(v['f'] for v in ty['vars']) else []
    return [x for i, f in enumerate(ty['vars'][0]['f']) for x in enums(F, f[1], p + ((0, i),), d + 1)]


def initial(o, fix):
    """the initial content of o with the enums of fix {path: variant} decided"""
    def at(p):
        f = {q[len(p)]: at(q[:len(p) + 1]) for q in fix if q[:len(p)] == p and len(q) > len(p)}
        return V(syms=frozenset([(o, p)]), f=f or None, var=frozenset([fix[p]]) if p in fix else None)
    return at(())


def merge_case(ctx, F, f, ts, choice):
    h = H()
    I = Interp(F, h)
    st0, args, fixes, k = {}, [], [], 0
    for i in range(f['argc']):
        fix = {}
        if i < 2 and choice:
            for p, n in enums(F, ts[i][0]):
                fix[p] = choice[k]
                k += 1
        fixes.append(fix)
        if ts[i][1] == 1 and fix:
            o = ('D', ('P', str(i + 1)), ())
            st0[o] = initial(o, fix)
            args.append(own.param(i + 1))
        else:
            args.append(initial(('P', str(i + 1)), fix) if fix else own.param(i + 1))
    ctx.count('merge_cases')
    try:
        st, rv = I.call(st0, f, args, ('top',))
    except Budget as ex:
        ctx.viol('budget:' + f['path'], 'analysis of %s exceeded its budget: %s' % (f['path'], ex))
        return
    if st is None:
        ctx.viol('noreturn:' + f['path'], '%s always raises an error' % f['path'])
        return

    def obj(i):
        return (('D', ('P', str(i)), ()), ()) if ts[i - 1][1] else (('P', str(i)), ())
    rt = f['locals'][0]
    if ts[0][1] and F.tys[f['locals'][1]]['m']:
        res, rt = I.load(st, obj(1)), ts[0][0]
    else:
        res = rv
        ty = F.tys[rt]
        if ty['k'] == 'adt' and ty['path'].endswith('Result'):
            res, rt = fieldv(rv, (0, 0)), ty['args'][0]
    alll = I.deep_labels(st, res)
    for i in (1, 2):
        o, p0 = obj(i)
        t = ts[i - 1][0]
        for lp, lt, names in leaves(F, t):
            if skip(names) or any(lp[:len(p)] == p and (lp[len(p)][0] if len(lp) > len(p) else None) != v for p, v in fixes[i - 1].items()):
                continue
            if choice and len(set(choice)) > 1 and any('VolKind' in x for x, _ in names):
                continue        # volume is missing unless both have one
            loc = (o, p0 + lp)
            n = '.'.join(x for _, x in names)
            ctx.count('merged_components')
            if not cov2(alll, loc):
                if F.tys[lt]['k'] != 'prim' and not flat_enum(F.tys[lt]) or not cov2(h.used, loc):
                    ctx.viol('drop:%s:%d:%s' % (f['path'], i, n), '%s: `%s` of operand %d (%s) neither reaches the result nor decides anything%s' %
                             (f['path'], n, i, F.tys[t]['s'], ' (operand variants %s)' % (choice,) if choice else ''))
            elif t == rt and F.tys[lt]['k'] == 'prim' and not any(x in ONE for x in names) and not choice:
                v = res
                for kk in lp:
                    v = fieldv(v, kk)
                if not cov2(computed(v, names) | (h.used if F.tys[lt]['s'] in ('bool', 'usize') else set()), loc):
                    ctx.viol('mixed:%s:%d:%s' % (f['path'], i, n), '%s: `%s` of the result does not depend on `%s` of operand %d' % (f['path'], n, n, i))


def cov2(labs, loc):
    return any(covers(l, loc) for l in labs)


def strip(F, t):
    d = 0
    while F.tys[t]['k'] == 'ref':
        t, d = F.tys[t]['to'], d + 1
    return t, d
