"""P05: a NULL input leaves the aggregate state as it was."""
from .. import aggtab, own
from ..absint import Interp, Hooks, Budget, V, root, locstr, objstr

RULE = ('For every distinct transition, moving-transition and inverse function with an internal state and every nullable value argument: inlining abstract '
        'interpretation of its MIR with that argument NULL and everything else arbitrary. (a) with a present state the function returns that very state and '
        'at exit every location of the state provably holds its initial content; (b) with an absent state it returns an absent state, or one that '
        'was built from no row value; (c) it does not always raise an error. An argument that is not nullable in the function is rejected by the call wrapper or skipped by STRICT.')
ASSUMES = ['Parameters that configure the aggregate or may be absent by definition are not "aggregated values": see EXEMPT in the check.']
# (aggregate function path suffix, argument) where NULL is a meaningful value of the row
EXEMPT = {
    ('candlestick_agg', 4): 'volume is optional per row',
    ('counter_agg', 4): 'bounds: NULL means unbounded',
    ('gauge_agg', 4): 'bounds: NULL means unbounded',
    ('timevector', 3): 'a time vector records NULL values as such (P17)',
}
ROLES = ('sfunc', 'msfunc', 'minvfunc')


def changed(v, o, p=()):
    """paths at which v is not provably the initial content of (o, p)"""
    out = []
    if v.lab or v.ptr or v.c is not None or any(s != (o, p) for s in v.syms):
        out.append((o, p))
    elif not v.syms and not v.f and v.var is None:
        out.append((o, p))
    for k, x in (v.f or {}).items():
        out += changed(x, o, p + (k,))
    return out


def result_object(I, st, rv):
    """the objects the returned Option<Internal>/Internal may point to, or None when it may be something else"""
    out = set()

    def walk(v, d=0):
        if v.var == frozenset([0]) and not v.f:
            return
        for l in I.targets_deep_syms(v):
            out.add(l[0])
        if v.syms:
            for s in v.syms:
                out.add(('S', s))
        for k, x in (v.f or {}).items():
            walk(x, d + 1)
    walk(rv)
    return out


def run(ctx):
    F = ctx.F
    todo = {}
    for a in aggtab.table(F):
        if a['opts']['stype'].lower() != 'internal':
            continue
        for role in ROLES:
            for e in a['roles'].get(role, ()):
                todo.setdefault(e['path'], (e, set()))[1].add((a['name'], role))
    ctx.floor('transition_functions', len(todo), 81)
    nn = 0
    for path, (e, names) in sorted(todo.items()):
        f = F.fn(path)
        nm = '%s (%s)' % (path, ', '.join(sorted('%s of %s' % (r, n) for n, r in names))[:120])
        if f is None:
            ctx.viol('missing:' + path, 'no body for %s' % nm)
            continue
        if e['attrs'].get('strict'):
            ctx.count('strict_functions')
            nn += f['argc'] - 2
            continue
        for i in range(2, f['argc'] + 1):
            t = F.tys[f['locals'][i]]
            if 'FunctionCallInfo' in t['s']:
                continue
            if not (t['k'] == 'adt' and t['path'].endswith('option::Option')):
                ctx.count('arguments_rejected_when_null')
                continue
            if all((n.split('.')[-1], i) in EXEMPT for n, _ in names):
                ctx.count('exempt_arguments')
                continue
            ctx.count('null_arguments')
            nn += 1
            for present in (1, 0):
                args = [own.internal_param(1, present) if present else V(f={(0, 0): V(var=frozenset([0]))})] + [own.param(j) for j in range(2, f['argc'] + 1)]
                args[i - 1] = V(var=frozenset([0]))
                I = Interp(F, Hooks(), budget=200000)
                try:
                    st, rv = I.call({}, f, args, ('top',))
                except Budget as ex:
                    ctx.viol('budget:' + path, 'analysis of %s exceeded its budget: %s' % (path, ex))
                    continue
                ctx.count('paths_interpreted', I.steps)
                if st is None:
                    ctx.count('always_rejected')     # raises an error
                    if present or not any(r == 'minvfunc' for _, r in names):
                        ctx.viol('rejects:%s:%d' % (path, i), '%s: a row whose argument %d is NULL always raises an error' % (nm, i))
                    continue
                if present:
                    for o in list(st):
                        if o[0] == 'D' and root((o, ())) == ('P', '1'):
                            for l in changed(st[o], o)[:1]:
                                ctx.viol('changes:%s:%d' % (path, i), '%s: a row whose argument %d is NULL can change the state at %s' % (nm, i, locstr(l)))
                    objs = {objstr(o[1][0]) if o[0] == 'S' else objstr(o) for o in result_object(I, st, rv)}
                    if rv.var is None or 0 in rv.var and F.tys[f['locals'][0]]['path'].endswith('Option'):
                        ctx.viol('dropped:%s:%d' % (path, i), '%s: a row whose argument %d is NULL can make the state absent' % (nm, i))
                    elif any(o != '$1' for o in objs):
                        ctx.viol('other:%s:%d' % (path, i), '%s: a row whose argument %d is NULL can replace the state (%s)' % (nm, i, ', '.join(sorted(objs))[:100]))
                else:
                    objs = set()
                    own.heap(I, st, rv, f['locals'][0], objs)
                    labs = set()
                    for o in objs:
                        if o in st:
                            labs |= I.deep_labels(st, st[o])
                    if objs:
                        ctx.count('empty_states_built')
                    bad = sorted({root(l)[1] for l in labs if root(l)[0] == 'P'} - {'1', str(f['argc'])})
                    if bad:
                        ctx.viol('built:%s:%d' % (path, i), '%s: with no state yet, a row whose argument %d is NULL builds a state from row argument(s) %s' % (nm, i, ', '.join(bad)))
    ctx.floor('arguments_whose_null_is_ignored', nn, 66)
