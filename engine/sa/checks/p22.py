"""P22: every row an aggregate is given, and everything it has accumulated, has its part in the result."""
import re
from .. import aggtab, flush, own
from ..absint import Interp, Budget, V, root
from . import p03, p06
from .p04 import covers, moved

RULE = ('For every aggregate with an internal state: label-flow abstract interpretation of the transition function with the state absent and present, and of the '
        'final and combine functions. (a) with a state present every argument that is not configuration reaches the state; with no state yet every argument, configuration '
        'included, reaches the state or decides a branch; (b) every component of the state reaches the result of the final function; (c) on every path through the final '
        'function a buffer of the state is found empty, emptied or read from end to end; on every path through the combine function it is that or kept in the buffer of the result. (d) in aggregates which keep every row or a sum over every row, on every path on which '
        'the arguments are not NULL they are added to a collection of the state or to a component of it.')
ASSUMES = ['Flow of labels over-approximates: that a row is used correctly (arithmetic) and on every data-dependent path is not decided',
           'configuration arguments are those listed in CONFIG; that they agree between rows is the caller\'s obligation']
# arguments (1 is the state) which configure the aggregate when the first row arrives
CONFIG = [(r'^asap::asap_trans$', {4}), (r'^(counter_agg::counter_agg_trans|gauge_agg::gauge_agg_trans)$', {4}), (r'^frequency::(freq|mcv)_agg_(bigint_|text_)?trans$', {2}),
          (r'^frequency::mcv_agg_with_skew_(bigint_|text_)?trans$', {2, 3}), (r'^heartbeat_agg::heartbeat_trans$', {3, 4, 5}), (r'^hyperloglog::hyperloglog_trans$', {2}),
          (r'^lttb::gp_lttb_trans$', {4, 5}), (r'^lttb::lttb_trans$', {4}), (r'^nmost::\w+::(min|max)_n_by_\w+_trans$', {4}), (r'^nmost::\w+::(min|max)_n_(?!by_)\w+_trans$', {3}),
          (r'^tdigest::tdigest_trans$', {2}), (r'^time_weighted_average::time_weight_trans$', {2}), (r'^uddsketch::uddsketch_trans$', {2, 3})]
# components a final function needs not look at: (type, field)
UNUSED = {('UDDSketch', 'gamma'): 'function of alpha', ('UddSketch', 'gamma'): 'function of alpha', ('RollupTransState', 'compact'): 'which of the two final functions is called says the same',
          ('LttbTrans', 'gap_interval'): 'unused without gap preservation', ('dense::Storage', 'index_shift'): 'function of the precision', ('dense::Storage', 'hash_mask'): 'function of the precision',
          ('DatumHashBuilder', 'info'): 'function handle', ('SpaceSavingTransState', 'max_size'): 'limit for further rows', ('SpaceSavingTransState', 'indices'): 'index of the entries',
          ('ASAPTransState', 'sorted'): 'whether sorting is needed', ('AsapTransState', 'sorted'): 'whether sorting is needed'}

# transition functions of aggregates which keep every row, or a sum over every row (the others may decide from the value that a row changes nothing)
RECORD = re.compile(r'^(asap::asap_trans|counter_agg::counter_agg_(summary_)?trans(_no_bounds)?|gauge_agg::gauge_agg_(summary_)?trans(_no_bounds)?|heartbeat_agg::heartbeat_trans|lttb::(gp_)?lttb_trans|'
                    r'state_aggregate::(state_agg|compact_state_agg)(_int_trans|::\w+_transition_fn_outer)|stats_agg::stats[12]d(_i64)?(_tf)?_trans|tdigest::tdigest_trans|'
                    r'time_vector::timevector_tstz_f64_trans|time_weighted_average::time_weight_trans|uddsketch::(percentile_agg|uddsketch)_trans|'
                    r'countminsketch::count_min_sketch::count_min_sketch_transition_fn_outer)$')
NAN = {'tdigest::tdigest_trans'}       # documented to leave out NaN
TOTALS = {(t, n) for t in ('UDDSketch', 'UddSketch') for n in ('num_values', 'values_sum')}     # components every row adds to
PUSH = re.compile(r'(Vec|VecDeque|HashSet|HashMap|BinaryHeap|BTreeMap)(::)?<.*>::(push|insert|push_back|extend\w*|append|resize)(::<.*>)?$')


class Rec(p06.H):
    """on which paths has an argument been put into the state"""
    def __init__(s, nan, totals):
        p06.H.__init__(s)
        s.nan, s.totals = nan, totals

    def mark(s, labs, st):
        for p in {root(l) for l in labs}:
            if p[0] == 'P' and p != ('P', '1'):
                st[('X', 'pushed', p)] = V(c=1)

    def call(s, I, rec, path, args, atys, dty, site, st, fid):
        p06.H.call(s, I, rec, path, args, atys, dty, site, st, fid)
        if PUSH.search(path) and len(args) > 1:
            s.mark({l for a in args[1:] for l in I.deep_labels(st, a)}, st)
        # what happens to a NaN is not looked at where it is left out by definition
        if s.nan and path.endswith('::is_nan') and args:
            return st, V(c=0)
        return None

    def unary(s, I, op, v, st):
        if op == 'Not' and isinstance(v.c, int) and v.c in (0, 1):
            return V(c=1 - v.c, lab=v.lab)
        return None

    def stored(s, I, loc, val, weak, site, st):
        if root(loc) == ('P', '1') and loc[0][0] == 'D':
            for t in s.totals:
                if covers(loc, t):
                    st[('X', 'total', t)] = V(c=1)
            s.mark(I.deep_labels(st, val), st)
        return val


def recorded(ctx, F, path, f, a, args, conf, T):
    tot = {(p06.STATE(1), lp): names[-1][1] for t in T for lp, lt, names in p06.leaves(F, t) if names and names[-1] in TOTALS}
    h = Rec(path in NAN, tot)
    I = Interp(F, h)
    init = {('X', 'pushed', ('P', str(i))): V(c=0) for i in range(2, f['argc'] + 1)}
    init.update({('X', 'total', t): V(c=0) for t in tot})
    st, rv = I.call(init, f, args, ('top',))
    for t, n in tot.items() if st is not None else ():
        ctx.count('totals')
        if st[('X', 'total', t)].c != 1:
            ctx.viol('total:%s:%s' % (path, n), '%s (%s): there is a path on which a row is not added to `%s`' % (path, a['name'], n))
    for i in range(2, f['argc'] + 1):
        if i in conf or 'FunctionCallInfo' in F.tstr(f['locals'][i]) or st is None:
            continue
        ctx.count('recorded_arguments')
        if st[('X', 'pushed', ('P', str(i)))].c != 1:
            ctx.viol('skipped:%s:%d' % (path, i), '%s (%s): there is a path on which argument %d of a row is not NULL and is not recorded in the state' % (path, a['name'], i))


def opt(F, t):
    ty = F.tys[t]
    return ty['args'][0] if ty['k'] == 'adt' and ty['path'].endswith('option::Option') else None


def some(i):
    return V(f={(1, 0): V(syms=frozenset([(('P', str(i)), ((1, 0),))]))}, var=frozenset([1]))


def run(ctx):
    F = ctx.F
    trans, final, comb = {}, {}, {}
    for a in aggtab.table(F):
        if a['opts']['stype'].lower() != 'internal':
            continue
        if a['name'].split('.')[-1] not in ('rollup', 'rolling'):      # those: P06
            for r in ('sfunc', 'msfunc'):
                for e in a['roles'].get(r, ()):
                    trans.setdefault(e['path'], []).append(a)
        for e in a['roles'].get('combinefunc', ()):
            comb.setdefault(e['path'], []).append(a)
        for r in ('finalfunc', 'mfinalfunc'):
            for e in a['roles'].get(r, ()):
                final.setdefault(e['path'], []).append(a)
    ctx.floor('transition_functions', len(trans), 45)
    ctx.floor('final_functions', len(final), 34)
    nrec = 0
    for path, al in sorted(trans.items()):
        f = F.fn(path)
        if f is None:
            ctx.viol('missing:' + path, 'no body for %s' % path)
            continue
        conf = set().union(*[c for r, c in CONFIG if re.search(r, path)])
        for pres in (0, 1):
            h = p06.H()
            I = Interp(F, h)
            args = [own.internal_param(1, 1) if pres else p06.absent()]
            for i in range(2, f['argc'] + 1):
                args.append(some(i) if opt(F, f['locals'][i]) is not None else own.param(i))
            try:
                st, rv = I.call({}, f, args, ('top',))
            except Budget as ex:
                ctx.viol('budget:' + path, 'analysis of %s exceeded its budget: %s' % (path, ex))
                continue
            tag = 'when a state exists' if pres else 'for the first row'
            if st is None:
                ctx.viol('noreturn:%s:%d' % (path, pres), '%s (%s) raises an error %s' % (path, al[0]['name'], tag))
                continue
            labs = I.deep_labels(st, rv)
            for o in list(st):
                if o[0] == 'D' and root((o, ())) == ('P', '1'):
                    moved(I, st, st[o], o, (), labs)
            if pres and RECORD.search(path):
                nrec += 1
                try:
                    recorded(ctx, F, path, f, al[0], args, conf, h.t.get(('P', '1'), ()))
                except Budget as ex:
                    ctx.viol('budget:' + path, 'analysis of %s exceeded its budget: %s' % (path, ex))
            for i in range(2, f['argc'] + 1):
                t = f['locals'][i]
                it = opt(F, t)
                if 'FunctionCallInfo' in F.tstr(t) or pres and i in conf:
                    continue
                p = ((1, 0),) if it is not None else ()
                for lp, lt, names in p06.leaves(F, it if it is not None else t):
                    if names and p06.SHAPE.search(names[-1][1]) or any(x in p06.SKIP for x in names):
                        continue
                    ctx.count('argument_components')
                    loc = (('P', str(i)), p + lp)
                    if any(covers(l, loc) or covers(loc, l) for l in labs):
                        continue
                    nm = '.'.join(x for _, x in names)
                    if p06.cov2(h.used, loc) and (not pres and i in conf or nm and nm.split('.')[-1] in ('is_present', 'element_type', '0', 'precision', 'collation')):
                        continue
                    ctx.viol('ignored:%s:%d:%d:%s' % (path, pres, i, nm), '%s (%s): argument %d%s does not reach the state %s' % (
                        path, al[0]['name'], i, ' (%s)' % nm if nm else '', tag))
    ctx.floor('recording_functions', nrec, 20)
    ctx.count('buffers', 0)
    for path, al in sorted(comb.items()):
        f = F.fn(path)
        if f is None:
            continue
        for pres in ((1, 1), (0, 1), (1, 0)):
            h = p06.H()
            args = [own.internal_param(i + 1, 1) if p else p06.absent() for i, p in enumerate(pres)] + [own.param(j) for j in range(3, f['argc'] + 1)]
            try:
                Interp(F, h).call({}, f, args, ('top',))
                fl = flush.run(F, f, args, {i + 1: h.t.get(('P', str(i + 1)), ()) for i, p in enumerate(pres) if p})
            except Budget as ex:
                ctx.viol('budget:' + path, 'analysis of %s exceeded its budget: %s' % (path, ex))
                continue
            if not fl:
                continue
            H, I, st, rv = fl
            for b in H.bufs:
                ctx.count('buffers')
                kept = set()
                for o in {l[0] for l in I.targets_deep(rv)}:
                    v = I.load(st, (o, b[1]))
                    kept |= I.deep_labels(st, v)
                if I.load(st, (flush.key(b), ())).c != 1 and not any(covers(l, b) for l in kept):
                    ctx.viol('dropped:%s:%d%d' % ((path,) + pres), '%s (%s): there is a path on which values that wait in a buffer of state %s are left behind' % (path, al[0]['name'], b[0][1][1]))
    for path, al in sorted(final.items()):
        f = F.fn(path)
        if f is None:
            ctx.viol('missing:' + path, 'no body for %s' % path)
            continue
        h = p06.H()
        I = Interp(F, h)
        args = [own.internal_param(1, 1)] + [own.param(i) for i in range(2, f['argc'] + 1)]
        try:
            st, rv = I.call({}, f, args, ('top',))
            fl = flush.run(F, f, args, {1: h.t.get(('P', '1'), ())})
        except Budget as ex:
            ctx.viol('budget:' + path, 'analysis of %s exceeded its budget: %s' % (path, ex))
            continue
        if st is None:
            ctx.viol('noreturn:' + path, '%s (%s) always raises an error' % (path, al[0]['name']))
            continue
        if not h.t.get(('P', '1')):
            ctx.viol('unopened:' + path, '%s (%s) never looks at the state' % (path, al[0]['name']))
            continue
        if rv.var is not None and 1 not in rv.var and opt(F, f['locals'][0]) is not None:
            ctx.viol('null:' + path, '%s (%s) returns NULL although there is a state' % (path, al[0]['name']))
            continue
        labs = I.deep_labels(st, rv)
        n = 0
        for t in h.t[('P', '1')]:
            for lp, lt, names in p06.leaves(F, t):
                nm = '.'.join(x for _, x in names) or 'content'
                if any(x in UNUSED or x in flush.BUFFERS for x in names):
                    continue
                n += 1
                loc = (p06.STATE(1), lp)
                if not p06.cov(labs, loc) and not p06.cov2(h.used, loc):
                    ctx.viol('lost:%s:%s' % (path, nm), '%s (%s): `%s` of the state does not reach the result' % (path, al[0]['name'], nm))
        ctx.count('state_components', n)
        if fl:
            for b in fl[0].bufs:
                ctx.count('buffers')
                if fl[2] is None or fl[1].load(fl[2], (flush.key(b), ())).c != 1:
                    ctx.viol('unflushed:' + path, '%s (%s): there is a path on which the result is computed while values wait in a buffer of the state' % (path, al[0]['name']))
        if len(ctx.samples) < 30:
            ctx.samples.append('%s (%s): %d components' % (path, al[0]['name'], n))
