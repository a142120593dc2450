"""P09: functions declared immutable depend on nothing but their arguments."""
import re
from .. import flow

RULE = ('for every SQL function declared IMMUTABLE or STABLE: nothing reachable from its Rust function (calls, function values, closures, drops, virtual calls by trait) reads the clock, random numbers, the '
        'environment, files, threads or process identity, calls SPI or a PostgreSQL function of weaker volatility (provolatile of PostgreSQL\'s own catalog), reads a session '
        'setting, reads or writes mutable global state of the workspace, or lets the iteration order of a randomly seeded hash table through (without sorting); PARALLEL SAFE functions use no mutable global state')
ASSUMES = ['provolatile in postgres.bki of the installed PostgreSQL', 'PostgreSQL C functions other than the listed ones depend on their arguments and the catalog only']

DENY = [
    (re.compile(r'^std::time::(Instant|SystemTime)::now|^std::time::(Instant|SystemTime)::elapsed|GetCurrentTimestamp|GetCurrentTransactionStartTimestamp|GetCurrentStatementStartTimestamp|GetSQLCurrent\w+|::gettimeofday|::clock_gettime|timeofday|::time::now'), 'the clock'),
    (re.compile(r'^(rand|rand_core|rand_chacha|fastrand|getrandom)::.*(thread_rng|from_entropy|from_os_rng|random|getrandom|ThreadRng|OsRng|::rng\b)|pg_prng_\w+|pg_strong_random|pg_global_prng_state|libc::.*::rand\b'), 'random numbers'),
    (re.compile(r'^std::(env::(var|vars|args|var_os|current_dir)|fs::|net::|process::(id|Command)|thread::(current|spawn|scope))|::getenv$|::getpid$'), 'the environment of the process'),
    (re.compile(r'pgrx::spi::Spi|pgrx::spi::|pg_sys::SPI_\w+'), 'other tables (SPI)'),
    (re.compile(r'pg_sys::(GetConfigOption\w*|GetUserId|GetSessionUserId|GetCurrentTransactionId\w*|GetTopTransactionId\w*|GetActiveSnapshot|GetLatestSnapshot|table_open\w*|relation_open\w*|heap_\w+|systable_\w+)$'), 'session or transaction state'),
]
STATIC_OK = re.compile(r'pg_sys::(CurrentMemoryContext|TopMemoryContext|PortalContext|CurTransactionContext|TopTransactionContext|ErrorContext|MessageContext|CacheMemoryContext|PG_exception_stack|error_context_stack|SPI_\w+|InterruptPending|CritSectionCount|assert_enabled)$')
ITER = re.compile(r'^(<(&\S+ )?std::collections::Hash(Map|Set)<.* as std::iter::IntoIterator>::into_iter|std::collections::Hash(Map|Set)::<.*>::(iter|iter_mut|drain|keys|values|values_mut|into_keys|into_values|retain|extract_if)|std::collections::hash_(map|set)::.*::(iter|iter_mut|drain|keys|values|values_mut|into_keys|into_values|retain|extract_if))$|^std::collections::Hash(Map|Set)::<.*>::(iter|iter_mut|drain|keys|values|values_mut|into_keys|into_values|retain|extract_if)$')
SORT = re.compile(r'(::sort(_unstable)?(_by|_by_key|_by_cached_key)?|BTreeMap|BTreeSet|BinaryHeap)')
MUTABLE = re.compile(r'\b(UnsafeCell|Cell|RefCell|Mutex|RwLock|Atomic[A-Z]\w*)\b')


def volatility(bki='/usr/share/postgresql/16/postgres.bki'):
    out = {}
    try:
        for l in open(bki, errors='replace'):
            if not l.startswith('insert ( '):
                continue
            w = re.findall(r"'(?:[^']|'')*'|\S+", l)
            if len(w) == 33 and w[16] in 'isv' and w[4] == '11' and w[6] == '12':
                src = w[27].strip("'")
                # several SQL functions may share a C function: the strongest promise counts
                out[src] = min(out.get(src, 'v'), w[16], key='isv'.index)
    except OSError:
        pass
    return out


def consts(x, out):
    if isinstance(x, list):
        if len(x) == 3 and x[0] == 'k' and isinstance(x[2], dict):
            out.append(x)
        else:
            for y in x:
                if isinstance(y, list):
                    consts(y, out)


def run(ctx):
    F = ctx.F
    vol = volatility()
    ctx.floor('postgres_functions_with_volatility', len(vol), 2000)

    def nm(t):
        return F.fns[t[1]]['path'] if isinstance(t[1], int) and t[1] in F.fns else str(t[1])

    impls = {}
    for f in F.fns.values():
        m = re.match(r'^<.* as ([\w:]+)(?:<.*>)?>::(\w+)$', f['path'])
        if m and 'blocks' in f:
            impls.setdefault((m.group(1), m.group(2)), []).append(f['id'])
    adj, src = {}, {}
    callers, exported = {}, {}
    for f in F.fns.values():
        if f.get('ws'):
            if 'blocks' in f and 'unwind: true' in str(f.get('abi')):
                exported.setdefault(f['path'].split('::')[-1], f['id'])
            for b in f.get('blocks', ()):
                if b['t'][0] == 'call' and isinstance(b['t'][1], int):
                    callers.setdefault(b['t'][1], []).append(f)
    nstat = niter = 0
    foreign = {x['path'] for x in F.foreign}
    rnd = {i for i, t in enumerate(F.tys) if re.search(r'RandomState', t['s'])}
    for f in F.fns.values():
        o, s = set(), []
        ws = f.get('ws')
        if f['kind'] == 'virtual':
            m = re.match(r'^<?(?:dyn )?([\w:]+?)(?:<.*>)?>?::(\w+)$', f['path'])
            if m:
                o.update(impls.get((m.group(1), m.group(2)), ()))
        if 'blocks' not in f and f['path'].split('::')[-1] in exported and not f['path'].startswith('pgrx'):
            o.add(exported[f['path'].split('::')[-1]])
        cs = []
        for b in f.get('blocks', ()):
            t = b['t']
            if t[0] == 'call' and isinstance(t[1], int):
                o.add(t[1])
                n = nm(t)
                c = classify(n, vol, foreign)
                if c:
                    s.append((c, n.split('::')[-1], t[-1]))
                if ws and n.startswith('std::thread::LocalKey::<'):
                    s.append(('mutable global state', 'thread-local value', t[-1]))
                if ws and ITER.search(n):
                    g = F.fns[t[1]]
                    if has_random(F, g, f, t):
                        niter += 1
                        if not ordered(F, f, nm) and not order_free(F, f, n, t) and not (callers.get(f['id']) and all(ordered(F, h, nm) for h in callers[f['id']])):
                            s.append(('the order of a randomly seeded hash table', n.split('::')[-1], t[-1]))
            elif t[0] == 'drop':
                o.update(x for x in t[3:5] if isinstance(x, int) and x in F.fns and F.fns[x]['kind'] == 'DropGlue')
            for st in b['s']:
                if st[0] == '=' and st[2][0] == 'tls' and ws:
                    s.append(('mutable global state', str(st[2][1])[:60], st[-1]))
                consts(st, cs)
            consts(t, cs)
        for k in cs:
            d = k[2]
            if 'fn' in d and isinstance(d['fn'], int):
                o.add(d['fn'])
                g = F.fns.get(d['fn'])
                c = g and classify(g['path'], vol, foreign)
                if c:
                    s.append((c, g['path'].split('::')[-1], '?'))
            elif 'static' in d:
                nstat += 1
                n = d['static']
                if 'pg_sys::' in n:
                    if not STATIC_OK.search(n) and ws:
                        s.append(('a session setting', n.split('::')[-1], '?'))
                elif ws:
                    ts = F.tys[k[1]]['s']
                    if ts.startswith('*mut') or MUTABLE.search(ts):
                        s.append(('mutable global state', n, '?'))
        adj[f['id']] = o
        if s:
            src[f['id']] = s
    ctx.count('static_references', nstat)
    ctx.count('hash_iterations', niter)
    n = nreach = npar = 0
    for e in F.sqlfns:
        a = e['attrs']
        level = 'immutable' if a.get('immutable') else 'stable' if a.get('stable') else None
        par = a.get('parallel_safe')
        if not level and not par:
            continue
        f = F.fn(e['path'])
        if f is None:
            continue
        n += 1
        npar += bool(par)
        seen, st = set(), [f['id']]
        while st:
            x = st.pop()
            if x in seen or x not in F.fns:
                continue
            seen.add(x)
            g = F.fns[x]
            if re.match(r'^pgrx::pg_sys::(?!panic|elog|ffi|submodules)', g['path']):
                continue
            for c, what, line in src.get(x, ()):
                if level == 'stable' and c in ('a session setting', 'a PostgreSQL function that is only stable', 'other tables (SPI)', 'session or transaction state'):
                    continue
                if not level and c != 'mutable global state':
                    continue
                ctx.viol('%s:%s' % (what, e['path']), '%s is declared %s but depends on %s: %s, used in %s (line %s)' % (e['path'], level.upper() if level else 'PARALLEL SAFE', c, what, g['path'], line))
            st.extend(adj[x])
        nreach += len(seen)
    ctx.floor('functions_with_declared_volatility', n, 930)
    ctx.count('parallel_safe_functions', npar)
    ctx.count('functions_reached', nreach)
    # SQL-language functions
    ns = 0
    for t in F.sqltexts:
        for m in re.finditer(r'CREATE\s+(?:OR\s+REPLACE\s+)?FUNCTION\s+([\w."]+)\s*\((.*?)\$(\w*)\$(.*?)\$\3\$([^;]*);', t['sql'], re.S | re.I):
            opts = m.group(2) + ' ' + m.group(5)
            body = m.group(4)
            ns += 1
            if re.search(r'\bIMMUTABLE\b', opts, re.I):
                w = re.search(r'\b(now|clock_timestamp|statement_timestamp|transaction_timestamp|random|timeofday|current_setting|current_timestamp|current_date|localtime\w*|pg_sleep|nextval)\b', body, re.I)
                if w:
                    ctx.viol('sql:%s:%s' % (m.group(1), w.group(1)), 'SQL function %s is IMMUTABLE but uses %s' % (m.group(1), w.group(1)))
    ctx.count('sql_language_functions', ns)


def classify(n, vol, foreign):
    for rx, what in DENY:
        if rx.search(n):
            return what
    last = n.split('::')[-1]
    if ('pg_sys::' in n or n in foreign) and vol.get(last) in ('s', 'v'):
        return 'a PostgreSQL function that is only stable' if vol[last] == 's' else 'a volatile PostgreSQL function'
    if n.endswith('pg_sys::timestamptz_to_str') or re.search(r'pg_sys::(EncodeDateTime|EncodeDateOnly|DecodeDateTime|DetermineTimeZoneOffset)$', n):
        return 'a PostgreSQL function that is only stable'
    return None


def has_random(F, g, f, t):
    for x in g.get('targs') or ():
        if isinstance(x, int) and 'RandomState' in F.tys[x]['s']:
            return True
    if t[2] and t[2][0][0] != 'k':
        ty = flow.place_ty(F, f, t[2][0][1])
        while ty is not None and F.tys[ty].get('k') in ('ref', 'ptr'):
            ty = F.tys[ty].get('to')
        if ty is not None:
            s = F.tys[ty]['s']
            if re.search(r'Hash(Map|Set)<', s):
                tail = s.rstrip('>').split(',')
                # the hasher is printed only when it is not the default
                return 'Hasher' not in s and 'HashBuilder' not in s
    return False


def ordered(F, f, nm, depth=0):
    """does the function, or one it calls in the workspace, sort what was collected"""
    for b in f.get('blocks', ()):
        t = b['t']
        if t[0] == 'call':
            if SORT.search(nm(t)):
                return True
            g = F.fns.get(t[1]) if isinstance(t[1], int) else None
            if depth < 2 and g and g.get('ws') and ordered(F, g, nm, depth + 1):
                return True
    return False


def order_free(F, f, n, t):
    """iter_mut over the bucket map of uddsketch looks for the one predecessor of a key: at most one entry matches, whatever the order"""
    if not n.endswith('::iter_mut'):
        return False
    ty = flow.place_ty(F, f, t[2][0][1]) if t[2][0][0] != 'k' else None
    while ty is not None and F.tys[ty].get('k') in ('ref', 'ptr'):
        ty = F.tys[ty].get('to')
    return ty is not None and 'SketchHashKey' in F.tys[ty]['s']
