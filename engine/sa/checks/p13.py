"""P13: the stored form of every type is what released versions wrote, and what is written is what is read."""
import json, os
from .. import layout

RULE = ('for every SQL type the extension defines: the sequence of fields with their types and offsets, enum tags, repr discriminants, slice-length expressions and '
        'version constants, read off the MIR of its flat reader and writer and recursively of everything it contains, equals the recorded stored form; reader and '
        'writer process the same sequence; the field and variant names its Serialize hands to the RON serializer equal the recorded ones')
ASSUMES = ['engine/data/layout.json records the form of the reference tree, i.e. what existing databases hold',
           'RON text is read by the serde-derived counterpart of the writer (hand-written pairs are P19)']


def diff(path, a, b, out):
    """structural difference; a field whose Rust name alone changed is not one"""
    if type(a) is not type(b):
        out.append((path, 'is %s, was %s' % (short(b), short(a))))
        return
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a:
                out.append((path + '/' + str(k), 'is new: %s' % short(b[k])))
            elif k not in b:
                out.append((path + '/' + str(k), 'is gone, it was %s' % short(a[k])))
            elif k in ('fields', 'mem'):
                fdiff(path, a[k], b[k], out)
            elif k == 'values':
                vals(path, a[k], b[k], out)
            elif k == 'arms':
                arms(path, a[k], b[k], out)
            elif k == 'name':
                pass
            else:
                diff(path + '/' + str(k), a[k], b[k], out)
    elif isinstance(a, list):
        if len(a) != len(b):
            out.append((path, 'is %s, was %s' % (short(b), short(a))))
            return
        for i, (x, y) in enumerate(zip(a, b)):
            diff('%s/%d' % (path, i), x, y, out)
    elif a != b:
        out.append((path, 'is %s, was %s' % (short(b), short(a))))


def fdiff(path, a, b, out):
    an, bn = [x[0] for x in a], [x[0] for x in b]
    for i in range(max(len(a), len(b))):
        if i >= len(b):
            out.append((path + '/' + an[i], 'is no longer stored'))
            continue
        if i >= len(a):
            out.append((path + '/' + bn[i], 'is stored in addition'))
            continue
        if an[i] != bn[i] and (an[i] in bn or bn[i] in an):
            out.append((path + '/' + an[i], 'position %d holds %s instead of %s' % (i, bn[i], an[i])))
            continue
        diff(path + '/' + an[i], a[i][1:], b[i][1:], out)


def vals(path, a, b, out):
    for n, v in a.items():
        if n in b:
            if b[n] != v:
                out.append((path + '/' + n, 'is stored as %s, was %s' % (b[n], v)))
        elif v not in b.values():
            out.append((path + '/' + n, 'value %s is gone' % v))


def arms(path, a, b, out):
    bn = {x['name']: v for v, x in b.items()}
    for v, x in a.items():
        if v not in b:
            out.append(('%s/%s' % (path, x['name']), 'tag %s is not read any more%s' % (v, ', the variant now has tag %s' % bn[x['name']] if x['name'] in bn else '')))
            continue
        if b[v]['name'] != x['name'] and x['name'] in bn:
            out.append(('%s/%s' % (path, x['name']), 'tag %s now means %s' % (v, b[v]['name'])))
            continue
        fdiff('%s/%s' % (path, x['name']), x['fields'], b[v]['fields'], out)


def short(x):
    s = json.dumps(x)
    return s if len(s) < 90 else s[:87] + '...'


def run(ctx):
    L = layout.Layout(ctx.F)
    cur = dict(stored=L.stored(), text=L.text())
    base = json.load(open(os.path.join(os.path.dirname(__file__), '..', '..', 'data', 'layout.json')))
    for s, p in sorted(L.problems):
        ctx.viol('reader-writer:%s:%s' % (s, p[:60]), '%s: %s' % (s, p))
    nf = 0
    for t, a in base['stored'].items():
        b = cur['stored'].get(t)
        if b is None:
            ctx.viol('layout:%s' % t, 'the stored type %s is gone or has no flat reader and writer' % t)
            continue
        out = []
        diff('', json.loads(json.dumps(a['form'])), json.loads(json.dumps(b['form'])), out)
        for p, m in out:
            ctx.viol('layout:%s%s' % (t, p), 'stored form of %s: %s %s' % (t, p.strip('/'), m))
        for v in b['versions']:
            if a['versions'] and v not in a['versions']:
                ctx.viol('version:%s:%s' % (t, v), '%s is written with version %s; released versions write %s' % (t, v, ', '.join(a['versions'])))
        nf += count(b['form'])
    known = [frozen(v) for k, v in cur['text'].items() if k not in base['text']]
    for t, a in base['text'].items():
        b = cur['text'].get(t)
        if b is None:
            if frozen(a) not in known and t in serialized(ctx.F):
                ctx.viol('text:%s' % t, '%s is no longer written to text with its recorded names' % t)
            continue
        for v in a:
            if v not in b:
                ctx.viol('text:%s:%s' % (t, v), 'variant %s of %s is not written to text under that name any more' % (v or '(none)', t))
            else:
                for n in set(a[v]) ^ set(b[v]):
                    ctx.viol('text:%s:%s:%s' % (t, v, n), '%s: "%s" is %s in the text form' % (t, n, 'missing' if n in a[v] else 'new'))
    ctx.floor('stored_types', len(cur['stored']), 135)
    ctx.floor('stored_fields', nf, 800)
    ctx.floor('text_types', len(cur['text']), 150)
    ctx.samples.append({k: cur['stored'][k] for k in list(cur['stored'])[:3]})


def serialized(F):
    return {layout.norm(t['s']) for t in F.tys if t.get('k') == 'adt' and t.get('ws')}


def frozen(v):
    return json.dumps(v, sort_keys=True)


def count(x):
    if isinstance(x, dict):
        return sum(count(v) for v in x.values())
    if isinstance(x, list):
        if len(x) >= 3 and isinstance(x[0], str) and x[1] in ('one', 'slice'):
            return 1 + count(x[2])
        return sum(count(v) for v in x)
    return 0
