"""Names that only the library itself uses say nothing about what it does.  Rules speak of private fields and helpers by the
names they had when the rules were written (names.json); a field or helper that was merely renamed gets its old name back here,
before anything is analysed: a name of that time that is gone, and a new one of the same class with the same type or signature
(in the same order, when there are several)."""
import json, os, collections
HERE = os.path.dirname(os.path.abspath(__file__))
FILE = os.path.join(HERE, 'names.json')
NS = 'eprosima::'

def plain(t): return t.replace('const ', '').replace('volatile ', '').strip()

def fields_of(J):
    out = {}
    for r in J['records']:
        if r['qn'].startswith(NS) and not r.get('lambda') and '<' not in r['qn']: out[r['qn']] = [[f['n'], f['t']] for f in r['fields']]
    return out

def helpers_of(J):
    """(scope, name) -> signatures, of what is not offered to users"""
    out = collections.defaultdict(set)
    open_ = set()
    for f in sorted(J['functions'], key=lambda f: (f.get('file') or '', f.get('line') or 0)):
        if f.get('lambda') or not f['qn'].startswith(NS) or f['kind'] not in ('method', 'function', 'func', 'free') or f['name'].startswith('operator') or f.get('virtual'): continue
        q = f['qn']
        scope = f.get('cls') or NS + 'free'
        if '<' in scope: continue
        if f.get('cls') and f.get('access') == 'public': open_.add((scope, f['name'])); continue
        if not f.get('cls') and '::generator::' not in q and '::detail::' not in q: continue
        if not f.get('cls'): scope = q.split('<')[0].rsplit('::', 1)[0]
        out[(scope, f['name'])].add((len(f['params']), bool(f.get('const')), bool(f.get('static')), f['rt'] if not f.get('tmpl') else '*', '*' if f.get('tmpl') else ', '.join(p['t'] for p in f['params'])))
    return {k: sorted(v) for k, v in out.items() if k not in open_}

def record(J):
    h = collections.defaultdict(list)
    for (s, n), v in helpers_of(J).items(): h[s].append([n, [list(x) for x in v]])
    json.dump({'fields': fields_of(J), 'helpers': h}, open(FILE, 'w'), indent=0, sort_keys=True)

def pair(gone, new):
    """[(name, type)] gone and new, in order -> {new: gone}"""
    m = {}
    kinds = []
    for _, t in gone + new:
        if t not in kinds: kinds.append(t)
    for t in kinds:
        a, b = [n for n, u in gone if u == t], [n for n, u in new if u == t]
        if len(a) == len(b): m.update(zip(b, a))
    return m

def canon(J):
    if not os.path.exists(FILE): return J
    B = json.load(open(FILE))
    ren = {}
    for q, now in fields_of(J).items():
        was = B['fields'].get(q)
        if not was: continue
        a, b = {n for n, _ in was}, {n for n, _ in now}
        gone, new = [(n, t) for n, t in was if n not in b], [(n, t) for n, t in now if n not in a]
        if not gone or not new: continue
        for n, o in pair(gone, new).items(): ren[(q, n)] = o
    fren = {}
    H = collections.defaultdict(dict)
    for (s, n), v in helpers_of(J).items(): H[s][n] = v
    for s, now in H.items():
        was = {n: sorted(tuple(x) for x in v) for n, v in B['helpers'].get(s, ())}
        gone, new = [(n, was[n]) for n in was if n not in now], [(n, sorted(now[n])) for n in now if n not in was]
        for n, o in pair(gone, new).items(): fren[(s, n)] = o
    if not ren and not fren: return J
    ids = {}
    for f in J['functions']:
        scope = f.get('cls') or f['qn'].split('<')[0].rsplit('::', 1)[0]
        o = fren.get((scope, f['name']))
        if o: ids[f['id']] = (f['name'], o)
    # a class that is derived or copied names the field by the class that declares it
    def walk(x):
        if isinstance(x, list):
            for y in x: walk(y)
        elif isinstance(x, dict):
            if x.get('k') == 'mem' and (x.get('rec'), x.get('f')) in ren: x['f'] = ren[(x['rec'], x['f'])]
            if x.get('id') in ids and x.get('name') == ids[x['id']][0]:
                n, o = ids[x['id']]
                x['name'] = o
                if x.get('qn'):
                    h, sep, t = x['qn'].partition('<') if '<' in x['qn'].split('::' + n)[-1] or x['qn'].split('<')[0].endswith('::' + n) else (x['qn'], '', '')
                    if h.endswith(n): x['qn'] = h[:-len(n)] + o + sep + t
            for v in x.values():
                if isinstance(v, (dict, list)): walk(v)
    walk(J)
    for f in J['functions']:
        for i in f.get('inits') or ():
            if i.get('f') and (f.get('cls'), i['f']) in ren: i['f'] = ren[(f['cls'], i['f'])]
    for r in J['records']:
        for d in r['fields']:
            if (r['qn'], d['n']) in ren: d['n'] = ren[(r['qn'], d['n'])]
    return J
