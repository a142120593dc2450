"""P01: combining never changes, and never keeps references into, the second partial state."""
from .. import aggtab, own
from ..absint import Interp, Hooks, Budget, V, root, locstr

RULE = ('For every distinct combine function named by a CREATE AGGREGATE of the extension: inlining abstract interpretation of '
        'its monomorphic MIR with symbolic memory per argument. Obligations: (a) no store, mutable call or drop reaches an '
        'object of the second argument; (b) no pointer/Datum/owned storage reachable (by type) from the returned state or from '
        'the first state lies in the second argument\'s memory, and the second argument itself is never returned.')
ASSUMES = ['Functions outside the workspace are modelled by their signatures: they write only through &mut/*mut arguments and return '
           'pointers only where the return type can hold one.',
           'A Cow in a hyperloglog counter held in an aggregate state is owned (the borrow checker rejects a borrowed one: the state type is \'static).',
           'CachedDatum (the borrowed bytes kept next to a decoded value) is not part of the state; it is covered by P18.']
SKIP = ('CachedDatum<', "std::borrow::Cow<'_, [u8]>")


class H(Hooks):
    def __init__(s):
        s.w = []

    def write(s, I, loc, val, site, st):
        if root(loc) == ('P', '2') and loc[0] != ('P', '2'):
            s.w.append((locstr(loc), I.stack[-1][0] if I.stack else site[0], site))

    def drop(s, I, locs, t, site, st):
        pass


def run(ctx):
    F = ctx.F
    done = {}
    n = 0
    for a in aggtab.table(F):
        c = a['roles'].get('combinefunc')
        if c is None:
            continue
        n += 1
        if len(c) != 1:
            ctx.viol('unresolved:%s' % a['opts']['combinefunc'], 'combine function %s of aggregate %s resolves to %d functions' % (a['opts']['combinefunc'], a['name'], len(c)))
            continue
        done.setdefault(c[0]['path'], (c[0], []))[1].append(a['name'])
    ctx.floor('aggregates_with_combine', n, 60)
    ctx.floor('combine_functions', len(done), 22)
    oblig = 0
    for path, (e, names) in sorted(done.items()):
        f = F.fn(path)
        if f is None or f['argc'] < 2:
            ctx.viol('missing:' + path, 'no body for combine function %s' % path)
            continue
        h = H()
        I = Interp(F, h, budget=200000)
        I.behind_all = True
        try:
            st, rv = I.call({}, f, [own.param(i + 1) for i in range(f['argc'])], ('top',))
        except Budget as ex:
            ctx.viol('budget:' + path, 'analysis of %s exceeded its budget: %s' % (path, ex))
            continue
        ctx.count('functions_followed', len(I.fns_seen))
        ctx.count('blocks_interpreted', I.steps)
        oblig += 2
        for l, fn, site in h.w:
            ctx.viol('write:%s:%s' % (path, fn['path']),
                     '%s (combine function of %s) can modify its second argument: %s is written in %s (%s:%s)' % (path, '/'.join(names), l, fn['path'], fn['file'], site[2]))
        if st is None:
            continue
        bad = own.retained(I, st, rv, f['locals'][0], ('P', '2'), SKIP)
        # what the first state holds afterwards
        for o in list(st):
            if o[0] == 'D' and root((o, ())) == ('P', '1') and root((o, ())) != ('P', '2'):
                v = st[o]
                bad += [('state1:' + locstr((o, ())), locstr(l), '') for l in I.targets_deep_syms(v) if root(l) == ('P', '2')]
        for p, l, t in bad:
            if any(s in t for s in SKIP):
                continue
            ctx.viol('keep:%s' % path, '%s (combine function of %s) returns a state that still refers to its second argument: result%s -> %s : %s (%s)' % (path, '/'.join(names), p, l, t, f['file']))
        ctx.samples.append('%s: %d functions, %d blocks, no write/alias into argument 2' % (path, len(I.fns_seen), I.steps))
    ctx.cov['obligations'] = oblig
