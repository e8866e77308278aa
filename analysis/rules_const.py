"""P10: what is offered for reading changes nothing"""
import re
from core import *
from rules_layout import TY, INST
from rules_access import MUTATORS
from sym import ptr_roots

TYPES = ('DynamicType', 'AliasType', 'StructType', 'UnionType', 'ArrayType', 'SequenceType', 'MapType', 'PairType', 'TStringType', 'PrimitiveType', 'EnumeratedType', 'EnumerationType',
         'AggregationType', 'CollectionType', 'MutableCollectionType', 'Member', 'Instanceable', 'SequenceInstance', 'MapInstance', 'idl::Module', 'idl::generator')
READERS = ('ReadableDynamicDataRef',)
DATA = ('DynamicData', 'WritableDynamicDataRef')

def roots(p):
    """(root, deep): what a place or pointer belongs to"""
    if p[0] in ('fld', 'elem', 'mapat', 'hold', 'shr', 'Ptr', 'res', 'addr', 'rget'): return roots(p[1])
    if p[0] == 'at': return roots(p[2])
    if p[0] in ('pite', 'ite'): return roots(p[2]) | roots(p[3])
    if p[0] in ('lin', 'after'):
        r = set()
        for x in ptr_roots(p): r |= roots(x) if x != p else set()
        return r
    if p[0] == 'call': return roots(p[2]) if len(p) > 2 and isinstance(p[2], tuple) and p[2] else set()
    if p[0] == 'vc' and p[1] in ('get_instance_at', 'find', 'resize', 'push') and len(p) > 3: return roots(p[3])
    return {p}

def written(e):
    """the places an event writes or releases"""
    if e.kind == 'vcall' and e.name in MUTATORS: return e.a[1:3] if e.name == 'move_instance' else e.a[1:2]
    if e.kind in ('store', 'mut', 'memset', 'memcpy', 'delete', 'pnew', 'dtor'): return e.a[:1]
    if e.kind == 'setlabel': return e.a[1:2]
    if e.kind in ('call', 'vcall') and e.name in ('push_instance', 'resize_instance', 'insert_instance'): return e.a[1:2]
    return ()

def const_param(p):
    if p['t'].strip().endswith('&') and '*' in p['t'] and not p['t'].strip()[:-1].rstrip().endswith('*const'): return False      # a pointer of the caller that may be moved on
    t = p['t'].replace('*const', '*').strip()
    if t.endswith('*'): return t.startswith('const ')
    if t.endswith('&') and not t.endswith('&&'): return t.startswith('const ')
    return False

def apart(C):
    """functions decided on their own: they take everything read-only"""
    if not hasattr(C, '_apart'):
        C._apart = tuple(sorted(q for q in C.P.qn if q.startswith(NSP + 'idl::generator::') or re.match(re.escape(NSP) + r'DynamicData::operator[-+*/%&|^<>~!]', q)
            or (q.startswith(NSP + 'idl::Module::') and all(f.get('const') for f in C.P.qn[q]))))
    return C._apart

def constant(C, rule, f, cls):
    S = C.run(f, cls, opaque=apart(C))
    names = {}
    if f.get('const') and not f.get('static'): names[THIS] = 'the object itself'
    for i, p in enumerate(f['params']):
        if const_param(p): names[A(i)] = 'the argument %s' % (p['n'] or i + 1)
    for r, what in names.items():
        # a reference to writable data may be constant itself, what it refers to is not
        deep = not (r == THIS and f.get('cls', '').replace(NSP, '') == 'WritableDynamicDataRef')
        bad = None
        for e in S.events:
            for x in written(e):
                if r in roots(x) and e.g != FALSE:
                    if not deep and x != THIS and mentions(x, lambda z: z == INST): continue
                    bad = bad or e
        C.ob(rule, S, bad is None, '%s changes nothing of %s' % (f['name'], what), bad.line if bad else None, unsure=bad is not None and (murky_ev(bad) or mentions(written(bad)[0], lambda z: z[0] in ('call', 'fold'))))

def P10(C):
    C.static('P10')
    rule = 'reads-only'
    done = set()
    for q in sorted(C.P.qn):
        for f in C.P.qn[q]:
            if f.get('body') is None or f.get('implicit') or f.get('lambda') or not q.startswith(NSP): continue
            if '/include/xtypes/' not in f['file']: continue
            if not ((f.get('const') and not f.get('static')) or any(const_param(p) for p in f['params'])): continue
            if f.get('access') not in (None, '', 'none', 'public') and not f.get('virtual'): continue     # helpers are followed from where they are used
            if (f['file'], f['line'], q) in done: continue
            done.add((f['file'], f['line'], q))
            try: constant(C, rule, f, f.get('cls'))
            except RecursionError: pass
