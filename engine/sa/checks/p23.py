"""P23: every argument of every function counts."""
import itertools, multiprocessing, re
from .. import aggtab, own
from ..absint import Interp, Hooks, Budget, V, root
from .p20 import OPAQUE, PIPELINE, p06_opt, wrapper
from ..core import callee_ids

RULE = ('Label-flow abstract interpretation of every SQL function that is not a support function of an aggregate or type, and of every pipeline element with parameters, once with all optional arguments '
        'given, once with each of them alone NULL, once with each alone given, once with all NULL: the value (not the mere presence) of every argument given reaches the result or the condition of some branch, '
        'unless the result is always NULL then.')
ASSUMES = ['Flow of labels over-approximates: that an argument is used correctly, or on every path, is not decided.']
# arguments that say which type the caller expects, in so many words
WITNESS = re.compile(r'^nmost::(max|min)_by_\w+::(max|min)_n_by_\w+_to_values$')
# (function, argument): why it does not count, and which argument must be NULL for that
UNUSED = [(r'^(counter_agg::counter_agg|gauge_agg::)_?interpolated_(delta|rate)$', 3, 5, 'without a next aggregate there is nothing to interpolate at the end of the interval'),
          (r'^state_aggregate::duration_in', 2, 1, 'no time was spent in any state of no aggregate'),
          (r'_extrapolated_(delta|rate)$', 2, None, 'there is one method only, checked when the accessor is made'),
          (r'lambda::trace_lambda$', None, None, 'debugging aid: what it shows is collected by a closure')]
SKIP = re.compile(r'_(in|out)$')


class H(Hooks):
    def __init__(s):
        s.ctl = set()

    def switch(s, I, v, t, site, st):
        s.ctl |= I.deep_labels(st, v) | v.lab | v.syms


def unit(F, t):
    """nothing but a header"""
    ty = F.tys[wrapper(F, t)]
    if 'FunctionCallInfo' in ty['s'] or ty['s'] in ('()', 'pgrx::Internal'):
        return True
    if ty['k'] != 'adt' or not ty.get('vars') or len(ty['vars']) != 1:
        return False
    fs = ty['vars'][0]['f']
    if ty['path'].startswith('accessors::') and fs:
        d = F.tys[fs[0][1]]
        return d['k'] == 'adt' and d['path'].endswith('Data') and all(x[0] in ('header', 'version', 'padding', '__phantom', 'phantom') or 'PhantomData' in F.tstr(x[1]) for x in d['vars'][0]['f'])
    return not fs


def work(job):
    F, path, argv = G['F'], job[0], job[1]
    f = F.fn(path) if not isinstance(path, int) else F.fns[path]
    h = H()
    I = Interp(F, h, budget=60000)
    I.opaque_re = OPAQUE
    args = []
    for i in range(1, f['argc'] + 1):
        if i in argv:
            args.append(V(var=frozenset([0])) if argv[i] == 0 else V(f={(1, 0): V(syms=frozenset([(('P', str(i)), ((1, 0),))]))}, var=frozenset([1])))
        else:
            args.append(own.param(i))
    try:
        st, rv = I.call({}, f, args, ('top',))
    except Budget:
        return job, 'budget', None
    if st is None:
        return job, 'noret', None
    if rv.var == frozenset([0]) and p06_opt(F, f['locals'][0]) is not None:
        return job, 'null', None
    labs = I.deep_labels(st, rv) | rv.syms | rv.lab | h.ctl
    used = {int(root(l)[1]) for l in labs if root(l)[0] == 'P'}
    return job, 'ok', used


def elements(ctx, F, p):
    """parameters of each kind of pipeline element"""
    t = wrapper(F, p['locals'][2])
    n = 0
    for k, var in enumerate(F.tys[t]['vars']):
        fs = [(j, x) for j, x in enumerate(var['f']) if 'PhantomData' not in F.tstr(x[1])]
        f = {(k, j): V(syms=frozenset([(('P', '2'), ((k, j),))])) for j, _ in fs}
        h = H()
        I = Interp(F, h, budget=60000)
        I.opaque_re = re.compile(r'ExpressionExecutor.*::exec')
        try:
            st, rv = I.call({('E', 2): V(f=f, var=frozenset([k]))}, p, [own.param(1), V(ptr=frozenset([(('E', 2), ())]))], ('top',))
        except Budget:
            ctx.viol('budget:%s:%s' % (PIPELINE, var['n']), 'analysis of pipeline element %s exceeded its budget' % var['n'])
            continue
        labs = (I.deep_labels(st, rv) | rv.syms | rv.lab | h.ctl) if st is not None else ()
        for want, what in [((('P', '1'), ()), 'the timevector')] + [((('P', '2'), ((k, j),)), '`%s`' % x[0]) for j, x in fs]:
            n += 1
            if not any(l[0] == want[0] and l[1][:len(want[1])] == want[1] or root(l) == want[0] and not want[1] for l in labs):
                ctx.viol('element:%s:%s' % (var['n'], what), '%s: %s neither reaches the result of pipeline element %s nor decides anything' % (PIPELINE, what, var['n']))
    ctx.floor('element_parameters', n, 15)


G = {}


def run(ctx):
    F = ctx.F
    G['F'] = F
    sup = {e['path'] for a in aggtab.table(F) for es in a['roles'].values() for e in es}
    todo = [e['path'] for e in F.sqlfns if e['path'] not in sup and not SKIP.search(e['path'])]
    p = F.fn(PIPELINE)
    el = sorted({t[1] for _, t in callee_ids(p) if isinstance(t[1], int) and F.fns[t[1]].get('ws') and F.fns[t[1]].get('argc', 0) > 1 and 'blocks' in F.fns[t[1]]}) if p else []
    ctx.floor('pipeline_elements', len(el), 6)
    if p is None:
        ctx.viol('missing:pipeline', 'no body for %s' % PIPELINE)
    else:
        elements(ctx, F, p)
    jobs = []
    for path in todo + el:
        f = F.fn(path) if not isinstance(path, int) else F.fns[path]
        if f is None or not f['argc'] or any(own.is_internal(F, t) or own.opt_internal(F, t) for t in f['locals'][1:f['argc'] + 1]):
            continue
        opts = [i for i in range(1, f['argc'] + 1) if p06_opt(F, f['locals'][i]) is not None]
        alts = {tuple((i, 1) for i in opts)}
        for o in opts:
            alts.add(tuple((i, 0 if i == o else 1) for i in opts))
            alts.add(tuple((i, 1 if i == o else 0) for i in opts))
        alts.add(tuple((i, 0) for i in opts))
        jobs += [(path, dict(a)) for a in alts]
    with multiprocessing.get_context('fork').Pool(8) as pool:
        res = pool.map(work, jobs, chunksize=4)
    n = {}
    for (path, argv), what, used in res:
        f = F.fn(path) if not isinstance(path, int) else F.fns[path]
        name = f['path']
        if what == 'budget':
            ctx.viol('budget:' + name, 'analysis of %s exceeded its budget' % name)
        if what != 'ok':
            continue
        for i in range(1, f['argc'] + 1):
            t = p06_opt(F, f['locals'][i])
            if argv.get(i) == 0 or unit(F, f['locals'][i] if t is None else t) or (t is not None and WITNESS.search(name)):
                continue
            n.setdefault(name, set()).add(i)
            if any(re.search(r, name) and a in (None, i) and (k is None or argv.get(k) == 0) for r, a, k, _ in UNUSED):
                continue
            if i not in used:
                w = [str(k) for k in sorted(argv) if argv[k] == 0]
                ctx.viol('unused:%s:%d:%s' % (name, i, ','.join(w)), '%s: argument %d (%s) neither reaches the result nor decides anything%s' % (
                    name, i, F.tstr(f['locals'][i]), ', when argument %s is NULL' % ', '.join(w) if w else ''))
    ctx.count('cases', len(jobs))
    ctx.floor('functions', len(n), 380)
    ctx.floor('arguments', sum(map(len, n.values())), 600)
