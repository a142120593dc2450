"""Facts of /repo's current working tree, cached by the content of its sources."""
import fcntl, hashlib, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SKIP = {'target', '.git', 'docs', 'node_modules'}


def source_hash(repo):
    h = hashlib.sha256()
    roots = [(repo, False), (os.path.join(HERE, 'driver', 'src'), True)]
    n = 0
    for base, _ in roots:
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in SKIP)
            for f in sorted(fs):
                p = os.path.join(d, f)
                if not os.path.isfile(p):
                    continue
                h.update(os.path.relpath(p, base).encode() + b'\0')
                h.update(hashlib.sha256(open(p, 'rb').read()).digest())
                n += f.endswith('.rs')
    for f in ('facts.sh', 'sync_tree.py'):
        h.update(open(os.path.join(HERE, f), 'rb').read())
    return h.hexdigest()[:24], n


def get(repo):
    cache = os.environ.get('VERIF_CACHE') or os.path.join(VERIF, '.cache')
    os.makedirs(cache, exist_ok=True)
    hsh, n = source_hash(repo)
    out = os.path.join(cache, 'facts-%s.json' % hsh)
    t = time.time()
    lock = open(os.path.join(cache, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    if not os.path.exists(out):
        r = subprocess.run(['bash', os.path.join(HERE, 'facts.sh'), os.path.join(cache, 'build'), repo],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-6000:])
            sys.stderr.write('\nerror: no facts could be extracted from %s\n' % repo)
            sys.exit(2)
        # keep at most a handful of fact files
        old = sorted((os.path.join(cache, f) for f in os.listdir(cache) if f.startswith('facts-')), key=os.path.getmtime)
        for f in old[:-6]:
            os.remove(f)
        os.replace(os.path.join(cache, 'build', 'timescaledb_toolkit.json'), out + '.tmp')
        os.replace(out + '.tmp', out)
    lock.close()
    return out, hsh, n, time.time() - t
