"""P20 visiting the tree of a type or a value, P25 iterators"""
from core import *
import rules_value as V
from rules_value import M, LAB, label, chosen, prim_classes, enum_classes, string_classes

NODE = A(0)
Q = NSP

def node_field(t, name):
    """a field of a node that is built here (None: not a node built here)"""
    if t[0] != 'obj': return None
    for p in t[2:]:
        if isinstance(p, tuple) and len(p) == 2 and p[0].rstrip('_') == name: return p[1]
    return None

def parts(cls, inst):
    """the parts of a type or value: [(count or None, its type, its place, its position, its member)]"""
    f = (lambda n: F(NODE, n)) if inst else (lambda n: F(NODE, n + '_'))
    here = F(NODE, 'instance')
    m = elem(M, I0)
    content = D(F(THIS, 'content_'))
    store = lambda s: add(F(D(here), 'memory_'), mul(I0, F(D(here), 'block_size_')))
    if cls == 'StructType' or cls == 'UnionType' and not inst:
        return [(size(M), D(F(m, 'type_')), add(here, F(m, 'offset_')), I0, addr(m))]
    if cls == 'UnionType':
        L = label(here)
        m = elem(M, chosen(L))
        return [(None, D(F(m, 'type_')), add(here, F(m, 'offset_')), L, addr(m))]
    if cls == 'PairType':
        own, up = f('from_member'), f('parent')
        held = F(D(up), 'from_member' if inst else 'from_member_')
        who = ite(neg(eq(own, n0)), own, ite(neg(eq(up, n0)), held, n0))
        one, two = D(F(THIS, 'first_')), D(F(THIS, 'second_'))
        return [(None, one, here, n0, who), (None, two, add(here, vc('memory_size', one)), n1, who)]
    if not inst: return [(None, content, None, n0, n0)]
    if cls == 'ArrayType': return [(F(THIS, 'dimension_'), content, add(here, mul(I0, vc('memory_size', content))), I0, n0)]
    if cls in ('SequenceType', 'MapType'): return [(F(D(here), 'size_'), content, store(None), I0, n0)]
    return []

def visited_once(C, rule, S, f):
    vis = C.effs(S, 'visit')
    own = [x for x in vis if x.a[0] == A(1)]
    uns = bool(S.unknown) or any(murky_ev(x.e) for x in vis)
    good = len(own) == 1 and not own[0].n and implies(S.normal, own[0].g)
    C.ob(rule, S, good, 'the visitor is called once for the node itself', own[0].e.line if own else None, unsure=uns or not own and bool(vis))
    for x in own: C.ob(rule, S, x.a[1] == NODE, 'the visitor receives the node itself', x.e.line, unsure=murky(x.a[1]))
    return own

def matches(x, want, inst):
    """what is wrong with the node a part is visited with: [] when nothing"""
    n, T, place, pos, mem = want
    node = x.a[1]
    out = []
    if node[0] != 'obj': return None
    deep = F(NODE, 'deep' if inst else 'deep_')
    for name, w in (('parent', addr(NODE)), ('type', T), ('deep', add(deep, n1)), ('from_index', pos), ('from_member', mem)) + ((('instance', place),) if inst else ()):
        t = node_field(node, name)
        if t is None: return None
        if not (t == w or same(t, w, x.g)): out.append((name, t))
    return out

WHAT = {'parent': 'the parent', 'type': 'the type', 'deep': 'the depth', 'from_index': 'the position', 'from_member': 'the member', 'instance': 'the place'}

def traversal(C):
    for inst in (False, True):
        op = 'for_each_instance' if inst else 'for_each_type'
        rule = 'visit-values' if inst else 'visit-types'
        for cls in ('StructType', 'UnionType', 'ArrayType', 'SequenceType', 'MapType', 'PairType'):
            f = C.method(cls, op)
            S = C.run(f, Q + cls)
            own = visited_once(C, rule, S, f)
            calls = C.effs(S, 'vcall', {op})
            uns = bool(S.unknown) or any(murky_ev(x.e) or murky_node(x.g) for x in calls)
            want = parts(cls, inst)
            last = -1
            free = list(calls)
            for k, w in enumerate(want):
                n = () if w[0] is None else (w[0],)
                name = ('first', 'second')[k] if cls == 'PairType' else 'parts'
                hit = [x for x in free if x.a[0] == w[1] and x.n == n]
                if cls == 'UnionType' and inst:     # whichever way the selected member is found
                    hit = [x for x in free if not x.n]
                    C.ob(rule, S, implies(S.normal, has(LAB, label(F(NODE, 'instance')))), 'a union without selected member is refused', unsure=murky_node(S.normal))
                C.ob(rule, S, len(hit) == 1 and implies(S.normal, hit[0].g), 'every part is visited once (%s)' % name, hit[0].e.line if hit else None, unsure=uns or any(x.n and len(x.n) != len(n) for x in free))
                for x in hit:
                    free.remove(x)
                    bad = matches(x, w, inst)
                    if cls == 'UnionType' and inst and x.a[0] != w[1]: bad = [('type', x.a[0])]
                    for fld_, what in WHAT.items():
                        if fld_ == 'instance' and not inst: continue
                        b = [t for n_, t in bad or () if n_ == fld_]
                        C.ob(rule, S, bad is not None and not b, '%s a part (%s) is visited with belongs to it' % (what, name), x.e.line, unsure=bad is None or any(murky(t) for t in b))
                    C.ob(rule, S, x.a[2] == A(1), 'the parts are shown to the same visitor', x.e.line, unsure=murky(x.a[2]))
                    C.ob(rule, S, x.rev in ((), None) or not any(x.rev), 'parts are visited in their order', x.e.line)
                    if own: C.ob(rule, S, own[0].e.seq < x.e.seq, 'a node is visited before its parts', x.e.line)
                    C.ob(rule, S, last < x.e.seq, 'parts are visited in their order', x.e.line)
                    last = x.e.seq
            C.ob(rule, S, not free, 'nothing that is not a part is visited', free[0].e.line if free else None, unsure=uns or len(free) == len(calls))
        for cls in prim_classes(C) + string_classes(C):
            f = C.method(cls[len(NSP):], op)
            S = C.run(f, cls)
            visited_once(C, rule, S, f)
            rest = C.effs(S, 'vcall', {op})
            C.ob(rule, S, not rest, 'a plain value has no parts', unsure=any(murky_ev(x.e) for x in rest))
        f = C.method('AliasType', op)
        S = C.run(f, Q + 'AliasType')
        vis, calls = C.effs(S, 'visit'), C.effs(S, 'vcall', {op})
        T = D(F(THIS, 'aliased_'))
        uns = bool(S.unknown) or any(murky_ev(x.e) or murky_node(x.g) for x in calls + vis)
        C.ob(rule, S, not vis, 'an alias adds no node of its own', unsure=uns)
        good = len(calls) == 1 and not calls[0].n and calls[0].g == TRUE and ref_type(calls[0].a[0]) in (T, ('rget', THIS), ('res', T), RES(T))
        C.ob(rule, S, good or len(calls) == 1 and calls[0].a[0] == T and calls[0].g == TRUE, 'an alias is visited as the type it names', unsure=uns or not calls)
        for x in calls:
            C.ob(rule, S, x.a[2] == A(1), 'the parts are shown to the same visitor', x.e.line, unsure=murky(x.a[2]))
            if x.a[1] == NODE: C.ob(rule, S, not inst, 'the value of an alias is shown with the type it names', x.e.line); continue
            sfx = '' if inst else '_'
            up, deep = F(NODE, 'parent' + sfx), F(NODE, 'deep' + sfx)
            wants = {'parent': [up], 'type': [x.a[0]], 'deep': [deep, add(F(D(up), 'deep' + sfx), n1)], 'from_index': [F(NODE, 'from_index' + sfx)], 'from_member': [F(NODE, 'from_member' + sfx)]}
            if inst: wants['instance'] = [F(NODE, 'instance')]
            for fld_, ws in wants.items():
                t = node_field(x.a[1], fld_)
                C.ob(rule, S, t in ws, 'an alias keeps %s of the node it is visited with' % WHAT[fld_], x.e.line, unsure=t is None or murky(t))

def nodes(C):
    """what a node tells, and where a visit starts"""
    rule = 'nodes'
    IN = F(THIS, 'internal_')
    def get(cls, name): return C.run(C.fn(cls + '::' + name), Q + cls)
    for cls, f in (('DynamicType::TypeNode', lambda n: F(THIS, n + '_')), ('ReadableDynamicDataRef::ReadableNode', lambda n: F(IN, n))):
        decides(C, rule, get(cls, 'has_parent'), neg(eq(f('parent'), n0)), 'a node knows whether it has a parent')
        for n, what in (('type', 'the type'), ('deep', 'the depth'), ('from_index', 'the position'), ('from_member', 'the member')):
            S = get(cls, n)
            for g, v, st in S.rets: C.ob(rule, S, v is not None and same(v, f(n), g), '%s of a node is the one it was made with' % what, unsure=v is None or murky(v))
    S = get('DynamicType::TypeNode', 'parent')
    returns(C, rule, S, D(F(THIS, 'parent_')), 'the parent of a node is the one it was made with')
    S = get('ReadableDynamicDataRef::ReadableNode', 'parent')
    for g, d in ret_fields(S, 'internal_'): C.ob(rule, S, d['internal_'] in (D(F(IN, 'parent')), addr(D(F(IN, 'parent')))), 'the parent of a node is the one it was made with', unsure=murky(d['internal_']))
    has_ = neg(eq(F(IN, 'parent'), n0))
    C.ob(rule, S, implies(has_, S.normal), 'the parent can be asked where there is one', unsure=murky_node(S.normal))
    for cls in ('ReadableDynamicDataRef::ReadableNode', 'WritableDynamicDataRef::WritableNode'):
        S = C.run(C.fn(cls + '::data'), Q + cls)
        returned_ref(C, rule, S, RES(F(IN, 'type')), F(IN, 'instance'), 'the data of a node is the value visited')
    for q, op, inst in (('ReadableDynamicDataRef::for_each', 'for_each_instance', True), ('WritableDynamicDataRef::for_each', 'for_each_instance', True), ('DynamicType::for_each', 'for_each_type', False)):
        for f in C.fns(q):
            S = C.run(f)
            calls = C.effs(S, 'vcall', {op})
            uns = bool(S.unknown) or any(murky_ev(x.e) for x in calls)
            C.ob(rule, S, len(calls) == 1 and not calls[0].n, 'a visit starts once', unsure=uns or not calls)
            sfx = '' if inst else '_'
            root = D(F(THIS, 'type_')) if inst else THIS
            for x in calls:
                C.ob(rule, S, x.a[0] == root, 'a visit starts at the type itself', x.e.line, unsure=murky(x.a[0]))
                wants = {'parent': n0, 'type': root, 'deep': n0, 'from_index': n0, 'from_member': n0}
                if inst: wants['instance'] = F(THIS, 'instance_')
                for fld_, w in wants.items():
                    t = node_field(x.a[1], fld_)
                    C.ob(rule, S, t == w, 'a visit starts with %s of the root' % WHAT[fld_], x.e.line, unsure=t is None or murky(t))
                if not inst: C.ob(rule, S, x.a[2] == A(0), 'the nodes are shown to the visitor given', x.e.line, unsure=murky(x.a[2]))
            for g, v, st in S.rets:
                for gl, t in leaves(v, g):
                    if gl == FALSE: continue
                    C.ob(rule, S, t == ('b', TRUE) or t[0] == 'excval', 'a visit that was not stopped tells so', unsure=t not in (('b', FALSE),) )
    for f in C.J['functions']:
        if not (f.get('lambda') and f['name'] == 'operator()' and f['file'].endswith('DynamicData.hpp') and len(f['params']) == 1 and 'InstanceNode' in f['params'][0]['t']): continue
        S = C.run(f, f.get('cls'))
        vis = C.effs(S, 'visit')
        uns = bool(S.unknown)
        C.ob(rule, S, len(vis) == 1 and vis[0].g == TRUE and not vis[0].n, 'each node is shown once', vis[0].e.line if vis else None, unsure=uns or not vis)
        for x in vis:
            t = node_field(x.a[1], 'internal')
            C.ob(rule, S, t in (A(0), addr(A(0))), 'the node shown is the one visited', x.e.line, unsure=t is None or murky(t))

def has(m, k):
    from rules_members import has as h
    return h(m, k)

def P20(C):
    traversal(C)
    nodes(C)

# ------------------------------------------------------------------ P25
TY = D(F(THIS, 'type_'))
INST, IX = F(THIS, 'instance_'), F(THIS, 'index_')
MS = F(TY, 'members_')

def fields_are(C, rule, S, want, what, on_return=True):
    rows = ret_fields(S, *want) if on_return else [(S.normal, {n: final(S, F(THIS, n)) for n in want})]
    C.ob(rule, S, bool(rows), what, unsure=True)
    for g, d in rows:
        for n, w in want.items():
            ok = same(d[n], w, g) or ref_type(d[n]) == ref_type(w[0] if isinstance(w, list) else w)
            C.ob(rule, S, ok, what + {'type_': ' (its type)', 'instance_': ' (its value)', 'index_': ' (its position)'}[n], unsure=murky(d[n]))

def P25(C):
    rule = 'range'
    kind = KINDOF(TY)
    sz = vc('get_instance_size', TY, INST)
    for q in ('ReadableDynamicDataRef', 'WritableDynamicDataRef'):
        for k in ('SEQUENCE_TYPE', 'ARRAY_TYPE', 'MAP_TYPE', 'STRING_TYPE'):
            pre = {kind: num(C.K[k])}
            for name, pos in (('begin', n0), ('end', sz)):
                for f in C.fns(q + '::' + name):
                    S = C.run(f, preset=pre)
                    fields_are(C, rule, S, {'type_': F(THIS, 'type_'), 'instance_': INST, 'index_': pos}, 'a range %ss at the %s of the value' % (name, 'beginning' if name == 'begin' else 'end'))
                    C.ob(rule, S, S.normal == TRUE, 'every collection can be iterated', unsure=murky_node(S.normal))
        for f in C.fns(q + '::items'):
            S = C.run(f, preset={kind: num(C.K['STRUCTURE_TYPE'])})
            fields_are(C, rule, S, {'type_': F(THIS, 'type_'), 'instance_': INST, 'index_': n0}, 'the members iterated are those of the value')
        cls = q + '::MemberIterator'
        for name, pos in (('begin', n0), ('end', size(MS))):
            S = C.run(C.fn(cls + '::' + name), Q + cls, preset={kind: num(C.K['STRUCTURE_TYPE'])})
            fields_are(C, rule, S, {'type_': F(THIS, 'type_'), 'instance_': INST, 'index_': pos}, 'the range of members %ss at the %s' % (name, 'first' if name == 'begin' else 'end'))
            C.ob(rule, S, S.normal == TRUE, 'the members of every structure can be iterated', unsure=murky_node(S.normal))
        rule = 'step'
        for cls in (q + '::Iterator', q + '::MemberIterator'):
            for f in C.P.qn.get(Q + cls + '::operator++', []):
                S = C.run(f, Q + cls)
                a = final(S, IX)
                C.ob(rule, S, a == add(IX, n1), 'a step goes to the next position', unsure=murky(a))
                C.ob(rule, S, final(S, INST) == INST and final(S, F(THIS, 'type_')) == F(THIS, 'type_'), 'a step stays in the same value', unsure=murky(final(S, INST)))
                if f['params']: fields_are(C, rule, S, {'type_': F(THIS, 'type_'), 'instance_': INST, 'index_': IX}, 'a step taken afterwards hands back the former position')
                else:
                    for g, v, st in S.rets: C.ob(rule, S, v == THIS, 'a step hands back the iterator itself', unsure=v is None or murky(v))
            short = cls.split('::')[-1]
            for f in C.P.qn.get(Q + cls + '::' + short, []):
                if f.get('body') is None or f.get('implicit') or len(f['params']) != 1 or 'Iterator' not in f['params'][0]['t']: continue
                S = C.run(f, Q + cls)
                fields_are(C, rule, S, {n: F(A(0), n) for n in ('type_', 'instance_', 'index_')}, 'a copy of an iterator is at the same position', False)
            for f in C.P.qn.get(Q + cls + '::operator=', []):
                if f.get('body') is None or f.get('implicit'): continue
                S = C.run(f, Q + cls, assume=NOT_SELF())
                fields_are(C, rule, S, {n: F(A(0), n) for n in ('type_', 'instance_', 'index_')}, 'an iterator assigned is at the same position', False)
            for f in C.P.qn.get(Q + cls + '::operator==', []) + C.P.qn.get(Q + cls + '::operator!=', []):
                if f.get('body') is None: continue
                S = C.run(f, Q + cls)
                t = truth(S)
                if f['name'].endswith('!='): t = neg(t)
                here = eq(INST, F(A(0), 'instance_'))
                at = eq(IX, F(A(0), 'index_'))
                C.ob(rule, S, implies(conj(here, t), at) and implies(conj(here, at), t), 'iterators of a value are equal when at the same position', unsure=murky_node(t))
        rule = 'item'
        S = C.run(C.fn(q + '::Iterator::operator*'), Q + q + '::Iterator')
        returned_ref(C, rule, S, RES(D(F(TY, 'content_'))), vc('get_instance_at', TY, INST, IX), 'the item is the element at the position')
        S = C.run(C.fn(q + '::MemberIterator::operator*'), Q + q + '::MemberIterator')
        m = elem(MS, IX)
        inside = lt(IX, size(MS))
        C.ob(rule, S, implies(inside, S.normal), 'every member can be reached', unsure=murky_node(S.normal))
        for g, d in ret_fields(S, 'member_', 'instance_'):
            gg = conj(g, inside)
            C.ob(rule, S, same(d['member_'], [m, addr(m)], gg), 'the item is the member at the position', unsure=murky(d['member_']))
            C.ob(rule, S, same(d['instance_'], add(INST, F(m, 'offset_')), gg), 'the value of the item is where the member is', unsure=murky(d['instance_']))
        cls = q + '::MemberPair'
        mem = F(THIS, 'member_')
        for f in C.fns(cls + '::data'):
            S = C.run(f, Q + cls)
            returned_ref(C, rule, S, RES(D(F(mem, 'type_'))), INST, 'the data of a member is its value')
        for f in C.P.qn.get(Q + cls + '::' + 'MemberPair', []):
            if f.get('body') is None or f.get('implicit'): continue
            S = C.run(f, Q + cls)
            a, b = final(S, INST), final(S, mem)
            C.ob(rule, S, a == A(1) and b in (A(0), addr(A(0))), 'an item holds the member and value given', unsure=murky(a) or murky(b))
        for n, w in (('member', [mem, D(mem)]), ('kind', KINDOF(D(F(mem, 'type_'))))):
            for f in C.P.qn.get(Q + cls + '::' + n, []):
                S = C.run(f, Q + cls)
                for g, v, st in S.rets: C.ob(rule, S, same(v, w, g), 'the %s of an item is that of its member' % n, unsure=murky(v))
        rule = 'range'
