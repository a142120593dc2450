import json, os, re, sys
from . import schema


class Facts:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = {f['id']: f for f in d['fns']}
        self.tys = d['tys']
        self.statics = d['statics']
        self.foreign = d['foreign']
        self.roots = d['roots']
        self.by_path = {}
        for f in d['fns']:
            self.by_path.setdefault(f['path'], []).append(f)
        self.entities = []
        for s in self.statics:
            if s['bytes']:
                e = schema.decode(bytes.fromhex(s['bytes']))
                self.entities.append(e)
        self.sqlfns = [e for e in self.entities if e['kind'] == 'function']
        self.sqltexts = [e for e in self.entities if e['kind'] == 'sql']
        self.types = [e for e in self.entities if e['kind'] == 'type']
        for e in self.sqlfns:
            p = e['full'].split('::', 1)[1]
            e['path'] = p
        self._aggs = None

    # ---- types
    def ty(self, i):
        return self.tys[i]

    def tstr(self, i):
        return self.tys[i]['s']

    # ---- functions
    def fn(self, path):
        """the single item instance with this def path"""
        c = [f for f in self.by_path.get(path, []) if f['kind'] == 'item']
        if len(c) != 1:
            return None
        return c[0]

    def sqlfn(self, name):
        return [e for e in self.sqlfns if e['name'] == name]

    def aggs(self):
        if self._aggs is None:
            out = []
            for t in self.sqltexts:
                for a in schema.aggregates(t['sql']):
                    a['block'] = t['name']
                    a['module'] = t['module']
                    a['file'] = t['file']
                    out.append(a)
            self._aggs = out
        return self._aggs


def callee_ids(f):
    """(block, callee, args, dest, target, unwind, line) of every call terminator"""
    for bi, b in enumerate(f.get('blocks', ())):
        t = b['t']
        if t[0] == 'call':
            yield bi, t
