"""The aggregates the extension creates, resolved to Rust functions."""
import re

ROLES = ('sfunc', 'finalfunc', 'combinefunc', 'serialfunc', 'deserialfunc', 'msfunc', 'minvfunc', 'mfinalfunc')

PGT = {'timestamptz': 'timestamp with time zone', 'int': 'int', 'integer': 'int', 'int4': 'int', 'bigint': 'bigint', 'int8': 'bigint'}


def sqlname(e):
    s = e['schema'] or e['attrs'].get('schema')
    return s, e['name']


def resolve(F, ref):
    """all SQL functions whose name is ref (schema-qualified or not)"""
    ref = ref.strip().strip('"')
    sch = None
    if '.' in ref:
        sch, ref = ref.rsplit('.', 1)
    c = [e for e in F.sqlfns if e['name'].lower() == ref.lower()]
    if sch:
        c2 = [e for e in c if modschema(F, e) == sch]
        if c2:
            return c2
    return c


def modschema(F, e):
    if e['schema']:
        return e['schema']
    if 'schema' in e['attrs']:
        return e['attrs']['schema']
    best = None
    for s in F.entities:
        if s['kind'] == 'schema':
            if e['module'] == s['module'] or e['module'].startswith(s['module'] + '::'):
                if best is None or len(s['module']) > len(best['module']):
                    best = s
    return best['name'] if best else None


def table(F):
    out = []
    for a in F.aggs():
        r = {}
        for role in ROLES:
            if role in a['opts']:
                c = resolve(F, a['opts'][role])
                r[role] = c
        out.append(dict(name=a['name'], args=a['args'], roles=r, opts=a['opts'], block=a['block'], file=a['file']))
    return out
