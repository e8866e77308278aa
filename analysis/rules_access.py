"""P07 typed access, P08 refusals of bad indexes, keys and bounds, P09 refused operations leave values and types unchanged"""
from core import *
from rules_value import *
from rules_compat import CTYPE, PRIMS, uncvt
from rules_layout import TY, INST, INDEXED, SIZEOF, by_position

STRINGS = {'STRING_TYPE': 'basic_string<char,', 'WSTRING_TYPE': 'basic_string<wchar_t', 'STRING16_TYPE': 'basic_string<char16_t'}
PLAIN = tuple(PRIMS) + ('ENUMERATION_TYPE', 'STRUCTURE_TYPE', 'UNION_TYPE', 'ARRAY_TYPE', 'SEQUENCE_TYPE', 'STRING_TYPE', 'WSTRING_TYPE', 'STRING16_TYPE', 'MAP_TYPE', 'PAIR_TYPE')
COLLECTIONS = ('ARRAY_TYPE', 'SEQUENCE_TYPE', 'STRING_TYPE', 'WSTRING_TYPE', 'STRING16_TYPE', 'MAP_TYPE')
AGGREGATIONS = ('STRUCTURE_TYPE', 'UNION_TYPE')
CONTENT = D(F(TY, 'content_'))
EQUALS = 0

def PK(C):
    """the kinds the primitive types of C++ have (decided by P11)"""
    m = {KINDOF(('prim', t)): num(C.K[k]) for k, ts in CTYPE.items() for t in ts}
    for c in ('char', 'wchar_t', 'char16_t'): m[KINDOF(('prim', 'std::basic_string<%s, std::char_traits<%s>, std::allocator<%s>>' % (c, c, c)))] = num(C.K['NO_TYPE'])
    return m

OPQ = tuple(NSP + x for x in ('SequenceType::push_instance', 'SequenceType::resize_instance', 'MapType::insert_instance'))

def targ(q):
    """the template argument of a function name"""
    a = q[q.index('<') + 1:q.rindex('>')]
    return a[:-len(', void')] if a.endswith(', void') else a

def kind_for(t):
    for k, ts in CTYPE.items():
        if t in ts: return k
    for k, s in STRINGS.items():
        if s in t: return k

def typed(C, pat):
    """the instantiations of a member template of the two reference classes"""
    out = [(q, f) for q in sorted(C.P.qn) for p in pat if q.startswith(NSP + p) for f in C.P.qn[q] if f.get('body') is not None]
    if not out: raise Missing(' / '.join(pat))
    return out

def unless_thrown(S):
    return S.normal

def equiv(C, rule, S, want, what, got=None, key=None):
    g = S.normal if got is None else got
    return C.ob(rule, S, implies(g, want) and implies(want, g), what, unsure=murky_node(g), key=key)

def written(C, rule, S, src, what):
    """destroys the value, then copies src in (unless src is the value itself)"""
    sameplace = eq(src, INST)
    ev = [x for x in C.effs(S, 'vcall', {'destroy_instance', 'copy_instance'})]
    d = [x for x in ev if x.name == 'destroy_instance' and x.a == (TY, INST)]
    c = [x for x in ev if x.name == 'copy_instance' and x.a == (TY, INST, src)]
    need = conj(S.normal, neg(sameplace))
    gd, gc = disj(*[x.g for x in d]), disj(*[x.g for x in c])
    ok = implies(need, gd) and implies(need, gc) and bool(d) and bool(c) and max(S.events.index(x.e) for x in d) < min(S.events.index(x.e) for x in c)
    ok = ok and implies(conj(gd, S.normal), neg(sameplace)) and len(ev) == len(d) + len(c)
    C.ob(rule, S, ok and S.normal != FALSE, what, unsure=any(murky_ev(x.e) for x in ev))

# ------------------------------------------------------------------ P07
def access(C):
    rule = 'typed-access'
    msz = vc('memory_size', TY)
    for q, f in typed(C, ('ReadableDynamicDataRef::value<', 'WritableDynamicDataRef::value<', 'ReadableDynamicDataRef::operator ', 'WritableDynamicDataRef::operator=<', 'DynamicData::operator=<')):
        t = targ(q)
        me = kind_for(t)
        if me is None: continue
        write = len(f['params']) == 1
        sz = SIZEOF.get(t, 32)
        for k in PLAIN:
            S = C.run(f, preset={**PK(C), KINDOF(TY): num(C.K[k])})
            if k == 'ENUMERATION_TYPE':
                C.ob(rule, S, implies(S.normal, eq(msz, num(sz))), 'an enumeration is only accessed as a number of its width', unsure=murky_node(S.normal))
                if write:
                    vals = F(TY, 'values_')
                    inside = implies(S.normal, neg(all_(size(vals), neg(eq(F(elem(vals, I0), 'second'), A(0))), 0)))
                    other = any(a[0] in ('first', 'vc', 'call', 'opq') or a[0] == 'eq' and mentions(a, lambda z: z[0] in ('fiv', 'out', 'call')) for a in B.support(S.normal))
                    isvc = any(mentions(a, lambda z: z[0] == 'vc' and z[1] == 'is_allowed_value' and z[2] == TY and z[3] == A(0)) for a in B.support(S.normal))
                    if me in ('UINT_8_TYPE', 'UINT_16_TYPE', 'UINT_32_TYPE'):
                        C.ob(rule, S, isvc or inside, 'an enumeration only takes values of its enumerators', unsure=murky_node(S.normal) or other)
                        written(C, rule, S, addr_of(A(0)), 'a number written replaces the value')
                elif me in ('UINT_8_TYPE', 'UINT_16_TYPE', 'UINT_32_TYPE'):
                    equiv(C, rule, S, eq(msz, num(sz)), 'an enumeration of that width can be read')
                    returns(C, rule, S, ('at', t, INST), 'the value read is the one stored')
            elif k == me:
                C.ob(rule, S, S.normal == TRUE, 'access as the matching type is allowed', unsure=murky_node(S.normal))
                if write: written(C, rule, S, addr_of(A(0)), 'a value written replaces the old one')
                else: C.ob(rule, S, all(v in (('at', t, INST), ('copyof', ('at', t, INST))) or (v[0] in ('at', 'copyof', 'ctor', 'b') and mentions(v if v[0] != 'b' else ('x',) + tuple(B.support(v[1])), lambda z: z[0] == 'at' and z[2] == INST and z[1] == t)) for _, v, _ in S.rets) and bool(S.rets), 'the value read is the one stored', unsure=murky(S.ret))
            else:
                C.ob(rule, S, S.normal == FALSE, 'access to a %s as the type of a %s is refused' % (k, me), unsure=murky_node(S.normal))
    for cls, nm in (('WritableDynamicDataRef', 'operator='), ('DynamicData', 'operator=')):
        for f in C.fns('%s::%s' % (cls, nm), lambda f: 'basic_string' in f['params'][0]['t']):
            me = kind_for(f['params'][0]['t'])
            for k in PLAIN:
                if k == 'ENUMERATION_TYPE': continue
                S = C.run(f, preset={**PK(C), KINDOF(TY): num(C.K[k])})
                if k == me: written(C, rule, S, addr_of(A(0)), 'a string written replaces the old one')
                else: C.ob(rule, S, S.normal == FALSE, 'writing the string of a %s to a %s is refused' % (me, k), unsure=murky_node(S.normal))
    # sequences and vectors
    for q, f in typed(C, ('WritableDynamicDataRef::push<',)):
        me = kind_for(targ(q))
        for k in PLAIN:
            if k != 'SEQUENCE_TYPE':
                S = C.run(f, preset={**PK(C), KINDOF(TY): num(C.K[k])}, opaque=OPQ)
                C.ob(rule, S, S.normal == FALSE, 'pushing into a %s is refused' % k, unsure=murky_node(S.normal))
            S = C.run(f, preset={**PK(C), KINDOF(TY): num(C.K['SEQUENCE_TYPE']), KINDOF(CONTENT): num(C.K[k])}, opaque=OPQ)
            if k == me:
                C.ob(rule, S, S.normal != FALSE, 'pushing an element of the matching type is allowed', unsure=murky_node(S.normal))
                calls = [e for e in S.events if e.kind in ('call', 'vcall') and e.name.endswith('push_instance')]
                C.ob(rule, S, len(calls) == 1 and calls[0].a[0] == TY and tuple(calls[0].a[1:3]) == (INST, addr_of(A(0))), 'the value given is pushed into the sequence', unsure=not calls and not C.silent(S))
            else: C.ob(rule, S, S.normal == FALSE, 'pushing the type of a %s into a sequence of %s is refused' % (me, k), unsure=murky_node(S.normal))
    for q, f in typed(C, ('ReadableDynamicDataRef::as_vector<',)):
        me = kind_for(targ(q))
        for k in PLAIN:
            if k not in COLLECTIONS:
                S = C.run(f, preset={**PK(C), KINDOF(TY): num(C.K[k])})
                C.ob(rule, S, S.normal == FALSE, 'a %s is not a vector' % k, unsure=murky_node(S.normal))
            S = C.run(f, preset={**PK(C), KINDOF(TY): num(C.K['SEQUENCE_TYPE']), KINDOF(CONTENT): num(C.K[k])})
            if k == me:
                C.ob(rule, S, S.normal == TRUE, 'elements of the matching type can be taken as a vector', unsure=murky_node(S.normal))
                n = vc('get_instance_size', TY, INST); p = vc('get_instance_at', TY, INST, n0)
                sz = 32 if me in STRINGS else SIZEOF[targ(q)]
                vals = [(gl, x) for g, v, _ in S.rets for gl, x in leaves(v, g)]
                ok = all((x[0] == 'empty' and implies(g, eq(n, n0))) or (x[0] == 'mk' and x[2] == p and x[3] in (add(p, mul(num(sz), n)), add(p, n))) for g, x in vals)
                C.ob(rule, S, ok and bool(vals), 'the vector has all elements in order', unsure=any(murky(x) or x[0] not in ('mk', 'empty') for _, x in vals))
            else: C.ob(rule, S, S.normal == FALSE, 'elements of kind %s are not taken as those of a %s' % (k, me), unsure=murky_node(S.normal))
    # number conversions
    for q, f in typed(C, ('ReadableDynamicDataRef::cast<', 'ReadableDynamicDataRef::_cast<')):
        t = targ(q)
        if kind_for(t) in STRINGS: continue
        for k in PLAIN:
            if k in PRIMS:
                S = C.run(f, preset={**PK(C), KINDOF(TY): num(C.K[k])})
                vals = [uncvt(x) for g, v, _ in S.rets for gl, x in leaves(v, g)]
                C.ob(rule, S, S.normal == TRUE and bool(vals) and all(v[0] == 'at' and v[1] in CTYPE[k] and v[2] == INST for v in vals), 'a %s is converted from its stored value' % k, unsure=any(murky(v) for v in vals))
            elif k == 'ENUMERATION_TYPE':
                for n, ct in ((1, 'unsigned char'), (2, 'unsigned short'), (4, 'unsigned int')):
                    S = C.run(f, preset={**PK(C), KINDOF(TY): num(C.K[k])}, assume=conj(eq(msz, num(n)), *[neg(eq(msz, num(m))) for m in (1, 2, 4) if m != n]))
                    vals = [uncvt(x) for g, v, _ in S.rets for gl, x in leaves(v, conj(g, eq(msz, num(n)))) if gl != FALSE]
                    C.ob(rule, S, bool(vals) and all(v[0] == 'at' and v[1] == ct and v[2] == INST for v in vals), 'an enumeration of %d bytes is converted from its stored value' % n, unsure=any(murky(v) for v in vals))
            else:
                S = C.run(f, preset={**PK(C), KINDOF(TY): num(C.K[k])})
                C.ob(rule, S, S.normal == FALSE, 'converting a %s to a number is refused' % k, unsure=murky_node(S.normal))
    # operations for one kind only
    only = []
    b = 'ReadableDynamicDataRef::'; w = 'WritableDynamicDataRef::'
    for q, ks in ((b + 'd', ('UNION_TYPE',)), (b + 'current_case', ('UNION_TYPE',)), (w + 'd', ('UNION_TYPE',)), (w + 'resize', ('SEQUENCE_TYPE',)), (w + 'push', ('SEQUENCE_TYPE',)),
                  (b + 'at', ('MAP_TYPE',)), (w + 'at', ('MAP_TYPE',)), (w + 'insert', ('MAP_TYPE',)), (w + 'has_key', ('MAP_TYPE',)),
                  (b + 'begin', COLLECTIONS), (b + 'end', COLLECTIONS), (w + 'begin', COLLECTIONS), (w + 'end', COLLECTIONS), (b + 'bounds', COLLECTIONS),
                  (b + 'items', AGGREGATIONS), (w + 'items', AGGREGATIONS), (w + 'citems', AGGREGATIONS), (b + 'size', COLLECTIONS + AGGREGATIONS + ('PAIR_TYPE',))):
        fs = C.fns(q)
        if not fs: raise Missing(q)
        for f in fs:
            for k in PLAIN:
                S = C.run(f, preset={KINDOF(TY): num(C.K[k])}, opaque=OPQ)
                if k in ks: C.ob(rule, S, S.normal != FALSE, 'the operation is available for a %s' % k, unsure=murky_node(S.normal))
                elif k == 'PAIR_TYPE' and ks == AGGREGATIONS: pass
                else: C.ob(rule, S, S.normal == FALSE, 'the operation is refused for a %s' % k, unsure=murky_node(S.normal))
    for f in C.fns(w + 'operator[]', lambda f: 'DynamicDataRef' in f['params'][0]['t']):
        for k in PLAIN:
            S = C.run(f, preset={KINDOF(TY): num(C.K[k])}, opaque=OPQ)
            if k == 'MAP_TYPE': C.ob(rule, S, S.normal != FALSE, 'a map is accessed by key', unsure=murky_node(S.normal))
            else: C.ob(rule, S, S.normal == FALSE, 'a %s is not accessed by key' % k, unsure=murky_node(S.normal))
    for q in (b + 'operator[]', w + 'operator[]', w + 'get_member'):
        for f in C.fns(q, lambda f: 'DynamicDataRef' not in f['params'][0]['t']):
            for k in PLAIN:
                S = C.run(f, preset={KINDOF(TY): num(C.K[k])})
                if k in AGGREGATIONS: C.ob(rule, S, S.normal != FALSE, 'a %s is accessed by name' % k, unsure=murky_node(S.normal))
                else: C.ob(rule, S, S.normal == FALSE, 'a %s is not accessed by name' % k, unsure=murky_node(S.normal))

def addr_of(x): return ('addr', x)
def P07(C): access(C)

# ------------------------------------------------------------------ P08
def bounds(C):
    rule = 'refusals'
    n = vc('get_instance_size', TY, INST)
    i = A(0)
    def whole(S):
        for v, tb, g, line in S.narrow:
            if mentions(v, lambda z: z == i):
                fits = le(v, num(2 ** (abs(tb) - (tb < 0)) - 1))
                small = [fits] + ([disj(lt(v, n), lt(v, size(F(TY, 'members_'))), lt(v, num(2)))] if abs(tb) >= 32 else [])
                C.ob(rule, S, any(implies(g, x) for x in small), 'the position or size given is used as a whole, not shortened', line=line, key='narrow', unsure=murky_node(g))
    for f in by_position(C):
        for k in PLAIN:
            pre = {KINDOF(TY): num(C.K[k])}
            S = C.run(f, preset=pre)
            whole(S)
            if k in INDEXED: equiv(C, rule, S, lt(i, n), 'an element is accessed exactly when its index is below the size')
            elif k == 'STRUCTURE_TYPE': equiv(C, rule, S, lt(i, size(F(TY, 'members_'))), 'a member is accessed exactly when its index is below their number')
            elif k == 'PAIR_TYPE': equiv(C, rule, S, lt(i, num(2)), 'a pair has two parts')
            else: C.ob(rule, S, S.normal == FALSE, 'a %s is not accessed by position' % k, unsure=murky_node(S.normal))
    has = lambda m, k: B.atom(('has', m, k))
    ids = F(TY, 'indexes_')
    nf = 0
    for c in ('Readable', 'Writable'):
        for q in ('operator[]', 'get_member'):
            for f in C.fns(c + 'DynamicDataRef::' + q, lambda f: 'DynamicDataRef' not in f['params'][0]['t']):
                nf += 1
                S = C.run(f, preset={KINDOF(TY): num(C.K['STRUCTURE_TYPE'])})
                equiv(C, rule, S, has(ids, A(0)), 'a member is accessed exactly when the name is one of a member')
                S = C.run(f, preset={KINDOF(TY): num(C.K['UNION_TYPE'])})
                C.ob(rule, S, S.normal != FALSE and implies(S.normal, has(ids, A(0))), 'only named members of a union are accessed', unsure=murky_node(S.normal))
    if nf < 5: raise Missing('access by name')
    for q in ('Readable', 'Writable'):
        for f in C.fns(q + 'DynamicDataRef::at'):
            S = C.run(f, preset={KINDOF(TY): num(C.K['MAP_TYPE'])})
            key = F(A(0), 'instance_'); kt = D(F(A(0), 'type_')); want = D(F(CONTENT, 'first_'))
            there = neg(eq(vc('get_instance_at', TY, INST, key), n0))
            same_t = disj(eq(vc('is_compatible', want, kt), num(EQUALS)))
            equiv(C, rule, S, conj(there, same_t), 'a map value is accessed exactly when its key is of the key type and present')
    # functions of map references that take keys or pairs
    w = 'WritableDynamicDataRef::'
    keyed = [(f, D(F(CONTENT, 'first_'))) for f in C.fns(w + 'operator[]', lambda f: 'DynamicDataRef' in f['params'][0]['t']) + C.fns(w + 'has_key')] + [(f, CONTENT) for f in C.fns(w + 'insert')]
    if len(keyed) < 3: raise Missing('map operations')
    for f, want in keyed:
        S = C.run(f, preset={KINDOF(TY): num(C.K['MAP_TYPE'])}, opaque=OPQ + (NSP + 'MapType::has_key',))
        kt = D(F(A(0), 'type_'))
        C.ob(rule, S, S.normal != FALSE and implies(S.normal, eq(vc('is_compatible', want, kt), num(EQUALS))), 'keys and entries of a different type are refused', unsure=murky_node(S.normal))
    for f in C.fns(w + 'push', lambda f: 'DynamicDataRef' in f['params'][0]['t']):
        S = C.run(f, preset={KINDOF(TY): num(C.K['SEQUENCE_TYPE'])}, opaque=OPQ)
        C.ob(rule, S, S.normal != FALSE and implies(S.normal, eq(vc('is_compatible', CONTENT, D(F(A(0), 'type_'))), num(EQUALS))), 'elements of a different type are refused', unsure=murky_node(S.normal))
        pushed(C, rule, S, F(A(0), 'instance_'))
    for q, f in typed(C, (w + 'push<',)):
        S = C.run(f, preset={**PK(C), KINDOF(TY): num(C.K['SEQUENCE_TYPE']), KINDOF(CONTENT): num(C.K[kind_for(targ(q))])}, opaque=OPQ)
        pushed(C, rule, S, addr_of(A(0)))
    # bounds
    for cls, q in (('SequenceType', 'push_instance'), ('MapType', 'insert_instance')):
        f = C.method(cls, q)
        bd, sz = F(THIS, 'bounds_'), F(D(A(0)), 'size_')
        full = conj(neg(eq(bd, n0)), le(bd, sz))
        S = C.run(f, NSP + cls, assume=full, opaque=(NSP + 'MapInstance::find_place',))
        zero = [x for g, v, _ in S.rets for gl, x in leaves(v, conj(g, full)) if gl != FALSE]
        C.ob(rule, S, all(x == n0 for x in zero) and (bool(zero) or S.normal == FALSE), 'nothing is added to a full collection', unsure=any(murky(x) for x in zero))
        changed = [x for x in C.effs(S) if changes(x.e) and conj(x.g, full) != FALSE]
        C.ob(rule, S, not changed, 'a full collection is left as it is', unsure=any(murky_ev(x.e) for x in changed))
    for f in C.fns(w + 'resize'):
        S = C.run(f, preset={KINDOF(TY): num(C.K['SEQUENCE_TYPE'])}, opaque=OPQ)
        whole(S)
        b = F(TY, 'bounds_')
        fits, countable = disj(eq(b, n0), le(A(0), b)), le(A(0), num(2 ** 32 - 1))
        C.ob(rule, S, implies(S.normal, fits), 'a sequence is not resized beyond its bound', unsure=murky_node(S.normal))
        C.ob(rule, S, implies(conj(fits, countable, le(b, num(2 ** 32 - 1))), S.normal), 'a sequence is resized when its bound allows it', unsure=murky_node(S.normal))
        calls = [e for e in S.events if e.kind == 'call' and e.name == 'resize_instance']
        C.ob(rule, S, bool(calls) and all(e.a == (TY, INST, A(0)) for e in calls) and implies(S.normal, disj(*[e.g for e in calls])), 'the size asked for is set', unsure=not calls and not C.silent(S))
    S = C.run(C.method('SequenceType', 'get_instance_at', 2), NSP + 'SequenceType')
    equiv(C, rule, S, lt(A(1), F(D(A(0)), 'size_')), 'a sequence element is located exactly when its index is below the size')
    for f in C.fns('AggregationType::member'):
        S = C.run(f, NSP + 'StructType')
        if 'basic_string' in f['params'][0]['t']:
            equiv(C, rule, S, has(F(THIS, 'indexes_'), A(0)), 'a member is found exactly when there is one of that name')
            returns(C, rule, S, elem(M, ('mapat', F(THIS, 'indexes_'), A(0))), 'the member found is the one of that name')
        else:
            equiv(C, rule, S, lt(A(0), size(M)), 'a member is found exactly when its index is below their number')
            returns(C, rule, S, elem(M, A(0)), 'the member found is the one at that position')
    S = C.run(C.method('AggregationType', 'has_member', 1), NSP + 'StructType')
    decides(C, rule, S, has(F(THIS, 'indexes_'), A(0)), 'a member exists exactly when its name is recorded')
    # what sizes are reported
    f = C.fn('ReadableDynamicDataRef::size')
    for k in COLLECTIONS: returns(C, rule, C.run(f, preset={KINDOF(TY): num(C.K[k])}), n, 'the size is the number of elements')
    for k in AGGREGATIONS: returns(C, rule, C.run(f, preset={KINDOF(TY): num(C.K[k])}), size(F(TY, 'members_')), 'the size is the number of members')
    returns(C, rule, C.run(f, preset={KINDOF(TY): num(C.K['PAIR_TYPE'])}), num(2), 'the size of a pair is two')
    f = C.fn('ReadableDynamicDataRef::bounds')
    for k in COLLECTIONS: returns(C, rule, C.run(f, preset={KINDOF(TY): num(C.K[k])}), {n, F(TY, 'dimension_')} if k == 'ARRAY_TYPE' else F(TY, 'bounds_'), 'the bound reported is that of the type')
    for cls, want in (('ArrayType', F(THIS, 'dimension_')), ('SequenceType', F(D(A(0)), 'size_')), ('MapType', F(D(A(0)), 'size_'))):
        returns(C, rule, C.run(C.method(cls, 'get_instance_size', 1), NSP + cls), want, 'the size is the number of elements')
    for cls in string_classes(C):
        S = C.run(C.method(cls, 'get_instance_size', 1), cls)
        v = S.ret
        C.ob(rule, S, v is not None and v[0] == 'size' and v[1][0] == 'at' and v[1][2] == A(0), 'the size of a string is its length', unsure=v is None or murky(v))

def pushed(C, rule, S, src):
    calls = [e for e in S.events if e.kind == 'call' and e.name == 'push_instance']
    t = ('call', 'push_instance', TY, INST, src)
    C.ob(rule, S, any(e.a == (TY, INST, src) for e in calls), 'the element given is the one added', unsure=not calls and not C.silent(S))
    nul = null_results(S.normal, {'push_instance'})
    C.ob(rule, S, any(implies(S.normal, neg(B.atom(a))) for a in nul), 'an element that does not fit is reported', unsure=not calls and not C.silent(S))

def null_results(g, names):
    """atoms saying that the result of one of these calls is null"""
    out = []
    for a in B.support(g):
        if a[0] != 'eq': continue
        x = a[1]
        while x[0] == 'after': x = x[2]
        if x[0] == 'call' and x[1] in names: out.append(a)
    return out

def registered(g):
    """the members a union's labels name exist (kept by add_case_member, see P16)"""
    for a in B.support(g):
        if a[0] == 'has' and mentions(a[1], lambda z: z[0] == 'fld' and z[2] == 'indexes_') and mentions(a[2], lambda z: z[0] == 'fld' and z[2] == 'labels_'): g = B.restrict(g, B.atom(a))
    return g

MUTATORS = {'construct_instance', 'destroy_instance', 'copy_instance', 'copy_instance_from_type', 'move_instance'}
def changes(e):
    """does the event change something that outlives the function?"""
    if e.kind == 'vcall': return e.name in MUTATORS
    if e.kind in ('store', 'mut'): return bool(e.a) and outlives(e.a[0])
    if e.kind in ('memset', 'memcpy'): return bool(e.a) and outlives(e.a[0]) and e.name != 'memcmp'
    return e.kind in ('delete', 'setlabel', 'mapat_insert') or (e.kind == 'call' and e.name in ('push_instance', 'resize_instance', 'insert_instance'))

def outlives(p):
    while True:
        if p[0] in ('fld', 'at') and len(p) > 2: p = p[1] if p[0] == 'fld' else p[2]
        elif p[0] == 'elem' or p[0] == 'mapat': p = p[1]
        elif p[0] in ('loc', 'tmp', 'addr', 'new', 'mkshared', 'exc'):
            if p[0] == 'addr': p = p[1]; continue
            return False
        else: return True

# ------------------------------------------------------------------ P09
def clean(C, rule, S, what):
    """nothing has changed on the paths that end in a refusal"""
    ev = S.events
    bad, some = None, False
    over = lambda g, l: B.exists(g, lambda a: mentions(a, lambda z: z == ('iv', l.depth)))
    for j, t in enumerate(ev):
        if t.kind != 'throw': continue
        tg = registered(t.g)
        if tg == FALSE: continue
        some = True
        nul = null_results(tg, {'push_instance', 'insert_instance'})
        refusal = any(implies(tg, B.atom(a)) for a in nul)
        for i, e in enumerate(ev):
            if not changes(e) or (e.kind == 'call' and refusal): continue
            shared = [l for l in e.loops if any(l is m for m in t.loops)]
            hit = FALSE
            if i < j:
                g = e.g
                for l in e.loops:
                    if l not in shared: g = over(g, l)
                hit = conj(g, tg)
            if shared:                      # an earlier iteration
                g = conj(e.g, neg(shared[-1].exit))
                for l in e.loops: g = over(g, l)
                hit = disj(hit, conj(g, tg))
            if hit != FALSE: bad = (e, t); break
        if bad: break
    unsure = bad is not None and (murky_ev(bad[0]) or murky_node(bad[0].g) or murky_node(bad[1].g))
    C.ob(rule, S, bad is None, what, bad[0].line if bad else None, unsure=unsure)
    return some

def refused(C):
    rule = 'refused-unchanged'
    w = 'WritableDynamicDataRef::'
    n = 0
    for k in PLAIN:
        pre = {**PK(C), KINDOF(TY): num(C.K[k])}
        for q in ('operator[]', 'operator=', 'd', 'resize', 'push', 'insert', 'has_key', 'at', 'get_member'):
            for f in C.fns(w + q):
                n += clean(C, rule, C.run(f, preset=pre, opaque=OPQ), 'a refused operation leaves the value unchanged')
        for q, f in typed(C, (w + 'value<', w + 'operator[]<', w + 'push<')):
            if len(f['params']) and (k in ('ENUMERATION_TYPE', 'SEQUENCE_TYPE') or 'int,' in q):
                n += clean(C, rule, C.run(f, preset=pre, opaque=OPQ), 'a refused operation leaves the value unchanged')
    for q in ('StructType::add_member', 'UnionType::add_case_member', 'UnionType::select_case', 'UnionType::select_disc', 'AggregationType::insert_member', 'AliasType::AliasType'):
        fs = [f for x in C.P.qn if x == NSP + q or x.startswith(NSP + q + '<') for f in C.P.qn[x] if f.get('body') is not None]
        for f in fs:
            n += clean(C, rule, C.run(f), 'a refused change leaves the type unchanged')
    for x in sorted(C.P.qn):
        if x.startswith(NSP + 'EnumerationType<') and x.rsplit('::', 1)[1] in ('add_enumerator', 'value'):
            for f in C.P.qn[x]:
                if f.get('body') is not None: n += clean(C, rule, C.run(f), 'a refused change leaves the enumeration unchanged')
    if n < 40: raise Missing('refusals')

def P08(C): bounds(C)
def P09(C): refused(C)
