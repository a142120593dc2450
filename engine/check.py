#!/usr/bin/env python3
"""Decide one property of /repo's current tree by static analysis.
usage: check.py PROPERTY [quick|thorough]"""
import importlib, json, os, sys, time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import facts_cache  # noqa: E402


class Ctx:
    def __init__(self, F, prop, tier, repo, known):
        self.F, self.prop, self.tier, self.repo = F, prop, tier, repo
        self.viols = []
        self.known_hit = []
        self.known = known
        self.cov = {}
        self.assumptions = []
        self.samples = []

    def viol(self, key, msg, **detail):
        """key: stable identification of the violating construct (no line numbers)"""
        if any(v['key'] == key for v in self.viols + self.known_hit):
            return
        d = dict(key=key, msg=msg)
        d.update(detail)
        if key in self.known:
            self.known_hit.append(d)
        else:
            self.viols.append(d)

    def floor(self, name, n, least):
        """an instance count that was confirmed by hand on the reference tree"""
        self.cov[name] = n
        if n < least:
            self.viol('floor:' + name, 'only %d instances of "%s" were found, at least %d are expected: the rule would pass vacuously' % (n, name, least))

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n


def known_findings(prop):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('known: property=%s ' % prop):
                rest = line[len('known: property=%s ' % prop):].strip()
                key, _, what = rest.partition(' -- ')
                assert key.startswith('key=')
                out[key[4:].strip()] = what.strip()
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    repo = os.environ.get('VERIF_REPO', '/repo')
    t0 = time.time()
    path, hsh, nsrc, tf = facts_cache.get(repo)
    from sa.core import Facts
    F = Facts(path)
    mod = importlib.import_module('sa.checks.' + prop.lower())
    known = known_findings(prop)
    ctx = Ctx(F, prop, tier, repo, known)
    mod.run(ctx)
    cov = dict(explanation=mod.RULE)
    cov.update(dict(source_files=nsrc, functions_in_facts=len(F.fns), facts_hash=hsh))
    cov.update(ctx.cov)
    if ctx.samples:
        cov['samples'] = ctx.samples[:12]
    if ctx.known_hit:
        cov['known_findings_seen'] = [k['key'] for k in ctx.known_hit]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov,
              wall_s=round(time.time() - t0, 2), violations=len(ctx.viols), assumptions=ctx.assumptions + list(getattr(mod, 'ASSUMES', [])))
    ed = os.path.join(VERIF, 'evidence')
    os.makedirs(ed, exist_ok=True)
    rp = os.path.join(ed, prop + '.violations.json')
    if ctx.viols:
        json.dump(ctx.viols, open(rp, 'w'), indent=1, default=str)
    elif os.path.exists(rp):
        os.remove(rp)
    json.dump(ev, open(os.path.join(ed, prop + '.json'), 'w'), indent=1, default=str)
    for k in ctx.known_hit:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, k['key'], known[k['key']] or k['msg']))
    for v in ctx.viols:
        print('%s: %s' % (v['key'], v['msg']))
    print('%s: facts %.1fs, total %.1fs; %s' % (prop, tf, time.time() - t0, ', '.join('%s=%s' % (k, v) for k, v in ctx.cov.items() if isinstance(v, int))))
    if ctx.viols:
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        sys.exit(1)


if __name__ == '__main__':
    main()
