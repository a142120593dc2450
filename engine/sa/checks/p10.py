"""P10: whatever goes wrong surfaces as an SQL error, not as a crash of the server."""
import os, re, tomllib
from .. import flow
from ..absint import succs

RULE = ('(1) no function of the workspace that may unwind has an ABI that cannot (rustc plans an abort there), and none is declared with such an ABI; (2) every function PostgreSQL can '
        'call runs inside the pgrx panic guard; (3) nothing aborts, exits or raises FATAL/PANIC, and no profile sets panic=abort; (4) no Drop of the workspace can panic; '
        '(5) the global allocator panics when memory runs out, on every path that would return NULL; (6) recursion: every cycle of the call graph through workspace code is a known one with a bound, '
        'and the recursive lambda parser is only entered behind a check of the text against a constant limit; (7) no unchecked conversion or access (std *_unchecked)')
ASSUMES = ['pgrx turns panics and PostgreSQL errors into each other inside its guard', 'memory used within the limits of (5) and (6) fits the configured stack',
           'recursion through trait objects is not followed']

# recursive groups with a bound on their depth: (path pattern, what bounds it)
BOUNDED = [
    (r'::cached_datum_or_flatten$', 'called again only after the cache was filled'),
    (r'^tdigest::TDigest::new$', 'called again with max_size = number of centroids, where it does not recurse'),
    (r'^asap::fft::', 'transform -> bluestein -> transform of a power-of-two length'),
    (r'^<?time_vector::pipeline::lambda::', 'follows the structure of a lambda expression, see the entry check'),
]
LAMBDA = r'time_vector::pipeline::lambda::'
ENDS = re.compile(r'^(std::process::(abort|exit)|(std|core)::intrinsics::abort|libc::.*\b(abort|exit|_exit|kill|raise|quick_exit)|.*pg_sys::(proc_exit|ExitOnAnyError|ExceptionalCondition)|std::alloc::handle_alloc_error|alloc::alloc::handle_alloc_error)$')
UNCHECKED = re.compile(r'^(std|core|alloc)::.*(::[a-z0-9_]+_unchecked(_mut)?|hint::assert_unchecked|::get_unchecked_mut)(::<.*>)?$')


def calls(f):
    for bi, b in enumerate(f.get('blocks', ())):
        if b['t'][0] == 'call':
            yield bi, b['t']


def run(ctx):
    F = ctx.F

    def nm(t):
        return F.fns[t[1]]['path'] if isinstance(t[1], int) and t[1] in F.fns else str(t[1])

    ws = [f for f in F.fns.values() if f.get('ws') and 'blocks' in f]
    ctx.count('functions', len(ws))
    # 1
    ncalls = nabi = 0
    for f in ws:
        nou = 'unwind: false' in str(f.get('abi'))
        nabi += nou
        for bi, b in enumerate(f['blocks']):
            t = b['t']
            ncalls += t[0] == 'call'
            if 'abi' in [x for x in t[1:] if isinstance(x, str)] and t[0] in ('call', 'assert', 'drop'):
                if t[0] == 'call' and nm(t).endswith('register_pg_guard_panic_hook'):
                    continue
                ctx.viol('nounwind:' + f['path'], '%s cannot unwind (ABI %s), but %s at line %s may raise an error: the server aborts' % (f['path'], f['abi'], nm(t) if t[0] == 'call' else 'a check', t[-1]))
    for x in F.foreign:
        if 'unwind: true' not in x['abi']:
            ctx.viol('foreign:' + x['path'], '%s (%s:%s) is declared with ABI %s: an error raised by it cannot unwind' % (x['path'], x['file'], x['line'], x['abi']))
    ctx.floor('non_unwinding_functions', nabi, 900)
    ctx.floor('calls', ncalls, 30000)
    ctx.count('foreign_declarations', len(F.foreign))
    # 2
    foreign = {x['path'].split('::')[-1] for x in F.foreign} | {'_ts_toolkit_encode_timestamptz', '_ts_toolkit_decode_timestamptz'}
    ng = 0
    for f in ws:
        if 'unwind: true' not in str(f.get('abi')):
            continue
        name = f['path'].split('::')[-1]
        cs = [nm(t) for _, t in calls(f)]
        if any(x.endswith('pgrx_extern_c_guard') for x in cs):
            ng += 1
            for x in cs:
                if not x.startswith('pgrx::') and not x.startswith('std::') and not x.startswith('core::'):
                    ctx.viol('unguarded:' + f['path'], '%s, which PostgreSQL calls, calls %s outside the panic guard' % (f['path'], x))
        elif not (name.startswith('_ts_toolkit_') and name in foreign):
            ctx.viol('unguarded:' + f['path'], '%s has a C ABI but does not run inside the panic guard: a Rust panic would unwind into PostgreSQL' % f['path'])
    ctx.floor('guarded_entry_points', ng, 900)
    # 3
    for f in ws:
        for bi, t in calls(f):
            n = nm(t)
            if ENDS.search(n):
                ctx.viol('ends:%s:%s' % (f['path'], n), '%s calls %s (line %s), which ends the server process' % (f['path'], n, t[-1]))
        for b in f['blocks']:
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and len(s[2][1]) > 3 and s[2][1][3] in ('FATAL', 'PANIC'):
                    ty = F.tys[s[2][1][1]]
                    if ty.get('path', '').endswith('PgLogLevel'):
                        ctx.viol('fatal:' + f['path'], '%s raises %s (line %s)' % (f['path'], s[2][1][3], s[-1]))
    np = 0
    for root, dirs, files in os.walk(ctx.repo):
        dirs[:] = [d for d in dirs if d not in ('target', '.git', 'node_modules')]
        for fn in files:
            if fn == 'Cargo.toml' or root.endswith('.cargo'):
                try:
                    d = tomllib.load(open(os.path.join(root, fn), 'rb'))
                except Exception:
                    continue
                np += 1
                for p, v in d.get('profile', {}).items():
                    if isinstance(v, dict) and v.get('panic') == 'abort':
                        ctx.viol('profile:' + p, 'profile %s in %s sets panic = "abort"' % (p, os.path.relpath(os.path.join(root, fn), ctx.repo)))
                if 'panic=abort' in str(d):
                    ctx.viol('rustflags', '%s passes panic=abort' % os.path.relpath(os.path.join(root, fn), ctx.repo))
    ctx.floor('cargo_files', np, 10)
    # 4
    nd = 0
    for f in ws:
        if f['path'].endswith('Drop>::drop'):
            nd += 1
            w = may_panic(F, f, nm)
            if w:
                ctx.viol('drop:' + f['path'], '%s may panic (%s); it also runs while another error unwinds, where that aborts the server' % (f['path'], w))
    ctx.count('drop_implementations', nd)
    # 5
    na = 0
    shims = {nm(t) for p in ('__rust_alloc', '__rust_alloc_zeroed', '__rust_realloc') for f in ws if f['path'].endswith('::_::' + p) for _, t in calls(f)}
    for m in ('alloc', 'alloc_zeroed', 'realloc'):
        c = [f for f in ws if f['path'].endswith('GlobalAlloc>::' + m) and f['path'] in shims]
        if not c:
            ctx.viol('allocator:' + m, 'the extension does not install its own global allocator for %s: when memory runs out Rust aborts the server' % m)
        for f in c:
            na += 1
            r = null_checked(F, f, nm)
            if r is not None:
                ctx.viol('allocator:' + m, '%s can return NULL (return in block %s is reached without a null test that panics): Rust aborts the server when memory runs out' % (f['path'], r))
    ctx.count('allocator_functions', na)
    # 6
    ctx.count('recursive_groups', recursion(ctx, F, nm))
    ne = 0
    for f in ws:
        for bi, t in calls(f):
            n = nm(t)
            if 'ExpressionParser as pest::Parser' in n and n.endswith('::parse'):
                ne += 1
                bad = guarded(F, f, bi, nm, set())
                if bad:
                    ctx.viol('lambda-entry:' + bad, '%s parses a lambda expression (line %s) without having checked the text against a limit: deep nesting overflows the stack and crashes the server' % (bad, t[-1]))
    ctx.floor('lambda_parser_entries', ne, 1)
    # 7
    nu = 0
    for f in ws:
        for bi, t in calls(f):
            n = nm(t)
            if UNCHECKED.search(n) and 'from_size_align' not in n:
                ctx.viol('unchecked:%s:%s' % (f['path'], n.split('::')[-1]), '%s calls %s (line %s): on values that come from text input or storage this is undefined behaviour instead of an error' % (f['path'], n, t[-1]))
    ctx.samples.extend([f['path'] for f in ws if f['path'].endswith('GlobalAlloc>::alloc')])


def may_panic(F, f, nm, seen=None, depth=0):
    seen = set() if seen is None else seen
    if f['id'] in seen or depth > 40:
        return None
    seen.add(f['id'])
    for b in f.get('blocks', ()):
        t = b['t']
        if t[0] == 'assert':
            return 'a check in %s at line %s' % (f['path'], t[-1])
        if t[0] == 'call':
            n = nm(t)
            if n.startswith('core::panicking::') or 'unwrap_failed' in n or 'expect_failed' in n:
                return '%s panics at line %s' % (f['path'], t[-1])
            if isinstance(t[1], int) and t[1] in F.fns and 'precondition_check' not in n and 'dealloc' not in n:
                r = may_panic(F, F.fns[t[1]], nm, seen, depth + 1)
                if r:
                    return r
    return None


def reach_ret(f, b):
    return flow.must_pass(f, set(), b) is not None


def null_checked(F, f, nm, depth=0):
    """None, or a return block reached without a null test whose null side never returns (directly or in a helper)"""
    good = set()
    for bi, b in enumerate(f['blocks']):
        t = b['t']
        if t[0] == 'call' and isinstance(t[1], int) and t[1] in F.fns:
            g = F.fns[t[1]]
            if g.get('ws') and 'blocks' in g and depth < 4 and null_checked(F, g, nm, depth + 1) is None:
                good.add(bi)
            if nm(t).endswith('::is_null'):
                # the switch that follows
                x = t[4]
                sw = f['blocks'][x]['t'] if x is not None and x >= 0 else None
                if sw and sw[0] == 'sw' and any(not reach_ret(f, s) for s in succs(sw)):
                    good.add(bi)
    return flow.must_pass(f, good)


def recursion(ctx, F, nm):
    adj = {}
    for f in F.fns.values():
        o = set()
        for b in f.get('blocks', ()):
            t = b['t']
            if t[0] == 'call' and isinstance(t[1], int):
                o.add(t[1])
        adj[f['id']] = o
    n = 0
    for c in sccs(adj):
        if len(c) == 1 and c[0] not in adj.get(c[0], ()):
            continue
        w = sorted({F.fns[x]['path'] for x in c if F.fns[x].get('ws')})
        if not w:
            continue
        n += 1
        if not any(re.search(p, x) for p, _ in BOUNDED for x in w):
            ctx.viol('recursion:' + w[0], '%s calls itself%s with no known bound on the depth: a large input overflows the stack and crashes the server' % (w[0], ' (through %s)' % ', '.join(w[1:4]) if len(w) > 1 else ''))
    return n


def sccs(adj):
    """Tarjan, iterative"""
    idx, low, on, st, out, n = {}, {}, set(), [], [], 0
    for r in adj:
        if r in idx:
            continue
        work = [(r, iter(adj.get(r, ())))]
        idx[r] = low[r] = n
        n += 1
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            adv = False
            for x in it:
                if x not in idx:
                    idx[x] = low[x] = n
                    n += 1
                    st.append(x)
                    on.add(x)
                    work.append((x, iter(adj.get(x, ()))))
                    adv = True
                    break
                if x in on:
                    low[v] = min(low[v], idx[x])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                c = []
                while True:
                    x = st.pop()
                    on.discard(x)
                    c.append(x)
                    if x == v:
                        break
                out.append(c)
    return out


def limits(F, g, nm, depth=0):
    """does the function compare something with a constant limit and diverge on one side"""
    d = flow.defs(g)
    for bi, b in enumerate(g['blocks']):
        t = b['t']
        if t[0] == 'sw' and t[1][0] in ('m', 'c') and isinstance(t[1][1], int):
            for k in d.get(t[1][1], ()):
                if k[0] == 's' and k[2][0] == 'bin' and k[2][1] in ('Gt', 'Ge', 'Lt', 'Le'):
                    lim = [int(o[2]['bits']) for o in k[2][2:] if isinstance(o, list) and o[0] == 'k' and str(o[2].get('bits', '')).isdigit()]
                    if any(2 <= x <= 10000 for x in lim) and any(not reach_ret(g, s) for s in succs(t)):
                        return True
        if t[0] == 'call' and isinstance(t[1], int) and depth < 3:
            h = F.fns.get(t[1])
            if h and h.get('ws') and 'blocks' in h and h is not g and limits(F, h, nm, depth + 1):
                return True
    return False


def guarded(F, f, bi, nm, seen):
    """None if every path to block bi of f has passed a limit check, in f or in all its callers"""
    good = set()
    for i, t in calls(f):
        g = F.fns.get(t[1]) if isinstance(t[1], int) else None
        if i != bi and g and g.get('ws') and 'blocks' in g and takes_str(F, t, f) and not reaches(F, g, f) and limits(F, g, nm):
            good.add(i)
    # a path from the start to bi avoiding good
    st, vis = [0], set()
    hit = False
    while st:
        b = st.pop()
        if b in vis or b in good:
            continue
        if b == bi:
            hit = True
            break
        vis.add(b)
        st.extend(succs(f['blocks'][b]['t']))
    if not hit:
        return None
    if f['id'] in seen:
        return None
    seen.add(f['id'])
    cs = [(g, i) for g in F.fns.values() for i, t in calls(g) if t[1] == f['id']]
    if not cs:
        return f['path']
    for g, i in cs:
        r = guarded(F, g, i, nm, seen)
        if r:
            return r
    return None


def takes_str(F, t, f):
    for a in t[2]:
        ty = None
        if a[0] == 'k':
            ty = a[1]
        else:
            ty = flow.place_ty(F, f, a[1])
        if ty is not None and re.search(r'&.*\bstr\b|String|\[u8\]', F.tys[ty]['s']):
            return True
    return False


def reaches(F, g, f):
    seen, st = set(), [g['id']]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == f['id']:
            return True
        h = F.fns.get(x)
        if h and h.get('ws'):
            for _, t in calls(h):
                if isinstance(t[1], int):
                    st.append(t[1])
    return False
