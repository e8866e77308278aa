"""P05 copies between compatible types, P06 compatibility verdicts"""
from core import *
from rules_value import *
from rules_layout import NEWM

CFT = 'copy_instance_from_type'
O = RES(A(2))
OM = F(O, 'members_')
CTYPE = {'BOOLEAN_TYPE': ('bool',), 'INT_8_TYPE': ('signed char',), 'UINT_8_TYPE': ('unsigned char',), 'INT_16_TYPE': ('short',), 'UINT_16_TYPE': ('unsigned short',),
         'INT_32_TYPE': ('int',), 'UINT_32_TYPE': ('unsigned int',), 'INT_64_TYPE': ('long', 'long long'), 'UINT_64_TYPE': ('unsigned long', 'unsigned long long'),
         'FLOAT_32_TYPE': ('float',), 'FLOAT_64_TYPE': ('double',), 'FLOAT_128_TYPE': ('long double',), 'CHAR_8_TYPE': ('char',), 'CHAR_16_TYPE': ('char16_t',), 'WIDE_CHAR_TYPE': ('wchar_t',)}
OTHERS = {'StructType': 'STRUCTURE_TYPE', 'PairType': 'PAIR_TYPE', 'ArrayType': 'ARRAY_TYPE', 'SequenceType': 'SEQUENCE_TYPE', 'MapType': 'MAP_TYPE', 'UnionType': 'UNION_TYPE'}

def uncvt(t):
    while t[0] == 'cvt': t = t[2]
    if t[0] == 'b':       # conversion to bool
        xs = {x for x in walk(t) if x[0] == 'at'}
        if len(xs) == 1 and len(B.support(t[1])) == 1: return xs.pop()
    return t

def from_type(C):
    rule = 'compatible-copy'
    K = C.K
    # structures
    f = C.method('StructType', CFT, 3)
    S = C.run(f, NSP + 'StructType', preset={KINDOF(O): num(K['STRUCTURE_TYPE'])})
    T, off = members(); OT, ooff = members(OM)
    common = lt(I0, size(OM))
    what = 'every member both structures have is copied from its place and type in the source'
    what2 = 'every member only the target has is constructed'
    args = (T, add(A(0), off), add(A(1), ooff), OT)
    cargs = (T, add(A(0), off))
    tot, com = size(M), mm('min', size(M), size(OM))
    if any(x.n == (com,) for x in C.effs(S, 'vcall', {CFT})):
        h = C.must(rule, S, 'vcall', CFT, args, what, n=(com,))
    else: h = C.must(rule, S, 'vcall', CFT, args, what, n=(tot,), g=common)
    if any(x.n == (tot,) for x in C.effs(S, 'vcall', {'construct_instance'})):
        h += C.must(rule, S, 'vcall', 'construct_instance', cargs, what2, n=(tot,), g=neg(common))
    else:
        sh = {I0: add(I0, com)}
        h += C.must(rule, S, 'vcall', 'construct_instance', tuple(subst(x, sh) for x in cargs), what2, n=(sub(tot, com),))
    C.only(rule, S, 'vcall', LIFE, h, 'nothing else is copied or constructed')
    # the source's members may be walked along with the target's
    phis = [l['X'][w] for l in S.loopinfo for w, x0 in l['x0'].items() if x0 == ('it', OM, n0)]
    past = lambda a: a[0] == 'eq' and mentions(a[1], lambda z: z == ('it', OM, size(OM))) and any(mentions(a[1], lambda z: z == p) for p in phis)
    bad = [x for x in C.effs(S, 'vcall', {'construct_instance'}) if x.n == (tot,) and x.a == cargs and any(past(a) and implies(x.g, neg(B.atom(a))) for a in B.support(x.g))]
    C.ob(rule, S, not bad, 'no member both structures have is left at its default', bad[0].e.line if bad else None)
    named = [x for x in C.effs(S, 'vcall', LIFE) if any(z[0] == 'fld' and z[-1] in ('name_', 'annotations_', 'id_', 'key_', 'optional_', 'bitset_') for a in B.support(x.g) for z in walk(a))]
    C.ob(rule, S, not named, 'members correspond by their position, whatever they are called', named[0].e.line if named else None)
    for k in ('INT_32_TYPE', 'SEQUENCE_TYPE', 'UNION_TYPE', 'STRING_TYPE', 'ENUMERATION_TYPE'):
        S = C.run(f, NSP + 'StructType', preset={KINDOF(O): num(K[k])})
        one = eq(size(M), n1)
        T0 = D(F(elem(M, n0), 'type_'))
        pool = [norm(x, {F(elem(M, n0), 'offset_'): n0}) for x in C.effs(S, 'vcall', {CFT})]
        got = disj(*[x.g for x in pool if x.a[0] == T0 and x.a[1:3] == (A(0), A(1)) and x.a[3] in (A(2), O)])
        C.ob(rule, S, implies(S.normal, one) and implies(S.normal, got), 'only a one-member structure takes a %s, into its member' % k, unsure=murky_node(got))
    # pairs
    f = C.method('PairType', CFT, 3)
    S = C.run(f, NSP + 'PairType', preset={KINDOF(O): num(K['PAIR_TYPE'])})
    sp = [subst(x[0], {THIS: O}) for x in pair_parts()]
    so = [n0, vc('memory_size', sp[0])]
    h = []
    for (T, off, n), ST, soff in zip(pair_parts(), sp, so):
        h += C.must(rule, S, 'vcall', CFT, (T, add(A(0), off), add(A(1), soff), ST), 'the %s of a pair is copied from its place and type in the source' % n)
    C.only(rule, S, 'vcall', LIFE, h, 'nothing else is copied')
    # aliases
    S = C.run(C.method('AliasType', CFT, 3), NSP + 'AliasType')
    pool = C.effs(S, 'vcall', {CFT})
    got = disj(*[x.g for x in pool if x.a[:3] in ((D(F(THIS, 'aliased_')), A(0), A(1)), (RES(THIS), A(0), A(1))) and x.a[3] in (A(2), O)])
    C.ob(rule, S, implies(TRUE, got), 'an alias copies as what it stands for', unsure=murky_node(got))
    # arrays
    f = C.method('ArrayType', CFT, 3)
    T = D(F(THIS, 'content_')); OC = D(F(O, 'content_'))
    d1, d2 = F(THIS, 'dimension_'), F(O, 'dimension_')
    com = mm('min', d1, d2)
    b1, b2 = vc('memory_size', T), vc('memory_size', OC)
    for k1, k2 in [(k, k) for k in LEAFS] + [('INT_32_TYPE', 'FLOAT_32_TYPE'), ('UINT_8_TYPE', 'INT_8_TYPE'), ('INT_64_TYPE', 'INT_32_TYPE'), ('STRUCTURE_TYPE', 'INT_32_TYPE'), ('INT_32_TYPE', 'ALIAS_TYPE'), ('CHAR_8_TYPE', 'UINT_8_TYPE')]:
        S = C.run(f, NSP + 'ArrayType', preset={KINDOF(O): num(K['ARRAY_TYPE']), KINDOF(T): num(K[k1]), KINDOF(OC): num(K[k2])})
        raw = [x for x in C.effs(S, 'memcpy')]
        cover = disj(*[x.g for x in raw if x.a == (A(0), A(1), mul(com, b1)) or x.a == (A(0), A(1), mul(com, b2))])
        okraw = k1 == k2 and k1 in PRIMS
        C.ob(rule, S, not raw or okraw, 'elements of kind %s are not copied from kind %s as raw bytes' % (k1, k2), raw[0].e.line if raw else None)
        what = 'every common element (kind %s from %s) is copied' % (k1, k2)
        pool = C.effs(S, 'vcall', {CFT})
        each = [x for x in pool if x.a == (T, add(A(0), mul(I0, b1)), add(A(1), mul(I0, b2)), OC) and x.n == (com,)]
        if okraw: each += [x for x in C.effs(S, 'vcall', {'copy_instance'}) if x.a == (T, add(A(0), mul(I0, b1)), add(A(1), mul(I0, b1))) and x.n == (com,)]
        if okraw: cover = disj(cover, *[x.g for x in each])
        else: cover = disj(FALSE, *[x.g for x in each])
        C.ob(rule, S, implies(S.normal, cover), what, unsure=any(murky_ev(x.e) for x in pool + raw))
        rest = {I0: add(I0, com)}
        C.must(rule, S, 'vcall', 'construct_instance', (T, subst(add(A(0), mul(I0, b1)), rest)), 'elements only the target has are constructed', n=(sub(d1, com),))
    # a value of unrelated kind is refused
    for cls in ('ArrayType', 'SequenceType', 'MapType', 'UnionType', 'PairType'):
        f = C.method(cls, CFT, 3)
        for k in ('ARRAY_TYPE', 'SEQUENCE_TYPE', 'MAP_TYPE', 'UNION_TYPE', 'PAIR_TYPE', 'INT_32_TYPE', 'STRING_TYPE', 'ENUMERATION_TYPE'):
            if OTHERS[cls] == k: continue
            S = C.run(f, NSP + cls, preset={KINDOF(O): num(K[k])})
            C.ob(rule, S, S.normal == FALSE and not C.effs(S, 'vcall', LIFE) and not C.effs(S, 'pnew'), 'a %s is not copied from a %s' % (cls, k), unsure=murky_node(S.normal))
    one_member_source(C)
    # sequences and maps
    f = C.method('SequenceType', CFT, 3)
    S = C.run(f, NSP + 'SequenceType', preset={KINDOF(O): num(K['SEQUENCE_TYPE'])})
    pn = [x for x in C.effs(S, 'pnew') if x.a[0] == A(0)]
    C.ob(rule, S, len(pn) == 1 and implies(S.normal, pn[0].g) and pn[0].a[1][0] == 'ctor' and src_obj(pn[0].a[1][1], 1) and pn[0].a[1][2:] == (T, F(THIS, 'bounds_')),
         'a copied sequence has the element type and bound of the target', pn[0].e.line if pn else None)
    ctor = C.fns('SequenceInstance::SequenceInstance', lambda f: len(f['params']) == 3)
    for f in ctor:
        p = A(0); TN, TO = RES(A(1)), D(F(p, 'content_'))
        ob = F(p, 'block_size_')
        for k1, k2 in (('INT_32_TYPE', 'INT_32_TYPE'), ('INT_32_TYPE', 'INT_16_TYPE'), ('FLOAT_32_TYPE', 'INT_32_TYPE'), ('STRING_TYPE', 'STRING_TYPE'), ('STRUCTURE_TYPE', 'STRUCTURE_TYPE'), ('SEQUENCE_TYPE', 'SEQUENCE_TYPE'), ('ENUMERATION_TYPE', 'ENUMERATION_TYPE'), ('INT_8_TYPE', 'CHAR_8_TYPE')):
            for bounds, sz, cap, got in ((n0, NC, ND, NC), (ND, NC, NC, NC), (NC, ND, ND, NC)):
                S = C.run(f, NSP + 'SequenceInstance', preset={F(p, 'memory_'): OLD, F(p, 'capacity_'): cap, F(p, 'size_'): sz, ('p', 2): bounds, KINDOF(A(1)): num(K[k1]), KINDOF(D(('hold', A(1)))): num(K[k1]), KINDOF(TO): num(K[k2])})
                compat_storage(C, rule, S, p, got, k1, k2, bounds != n0)
    f = C.method('MapType', CFT, 3)
    S = C.run(f, NSP + 'MapType', preset={KINDOF(O): num(K['MAP_TYPE'])})
    pn = [x for x in C.effs(S, 'pnew') if x.a[0] == A(0)]
    C.ob(rule, S, len(pn) == 1 and implies(S.normal, pn[0].g) and pn[0].a[1][0] == 'ctor' and src_obj(pn[0].a[1][1], 1) and F(THIS, 'bounds_') in pn[0].a[1], 'a copied map has the bound of the target', pn[0].e.line if pn else None)
    equal_content = eq(vc('is_compatible', D(F(THIS, 'content_')), D(F(O, 'content_'))), n0)
    C.ob(rule, S, implies(S.normal, equal_content) or any('PairType' in str(x) for x in pn[0].a[1][2:]), 'a map is only copied when the entries are of the same type', pn[0].e.line if pn else None, unsure=murky_node(S.normal))
    C.ob(rule, S, conj(S.normal, equal_content, eq(F(D(F(THIS, 'content_')), 'name_'), F(D(F(O, 'content_')), 'name_'))) != FALSE, 'a map is copied when the entries are of the same type')
    # strings
    for cls in string_classes(C):
        f = C.method(cls, CFT, 3)
        kind = next(k for t, k in STRINGS.items() if cls.startswith(NSP + 'TStringType<%s,' % t))
        for k in ('STRING_TYPE', 'WSTRING_TYPE', 'STRING16_TYPE', 'INT_32_TYPE', 'SEQUENCE_TYPE'):
            S = C.run(f, cls, preset={KINDOF(O): num(K[k])})
            if k != kind: C.ob(rule, S, S.normal == FALSE, 'a string is not copied from a %s' % k, unsure=murky_node(S.normal)); continue
            pn = [x for x in C.effs(S, 'pnew') if x.a[0] == A(0)]
            C.ob(rule, S, disj(*[x.g for x in pn]) == TRUE, 'the copied string is created in the target', pn[0].e.line if pn else None)
            b = F(THIS, 'bounds_')
            for x in pn:
                obj = [t for t in walk(x.a[1]) if src_obj(t, 1)]
                if not obj: C.ob(rule, S, False, 'the copy is made from the source string', x.e.line); continue
                n = size(obj[0])
                for g, v in leaves(x.a[1], x.g): pass
                lens = [t for t in x.a[1][1:] if t not in (obj[0], n0)]
                none, below, above = eq(b, n0), [le(b, n), lt(b, n)], [disj(eq(b, n0), le(n, b)), disj(eq(b, n0), lt(n, b))]
                def cut(v, g):
                    for gl, x in [(gl, x) for gs in (none, neg(none)) for gl, x in leaves(v, conj(g, gs))]:
                        if gl == FALSE or x == n and any(implies(gl, c) for c in above): continue
                        if implies(gl, neg(none)) and (x == mm('min', b, n) or x == b and any(implies(gl, c) for c in below)): continue
                        return False
                    return True
                ok = (x.a[1][0] == 'ctor' and len(lens) == 1 and cut(lens[0], x.g)) or (x.a[1][0] == 'copyof' and implies(x.g, disj(eq(b, n0), le(n, b)))) or (x.a[1] == obj[0] and implies(x.g, disj(eq(b, n0), le(n, b))))
                C.ob(rule, S, ok, 'the copied string is cut to the bound of the target and not otherwise', x.e.line, unsure=murky(x.a[1]))
    # numbers
    for cls in prim_classes(C) + enum_classes(C):
        f = C.method(cls, CFT, 3)
        for k in PRIMS + ('ENUMERATION_TYPE',):
            for asm, ts in ([(TRUE, CTYPE[k])] if k != 'ENUMERATION_TYPE' else [(conj(eq(vc('memory_size', O), num(n)), *[neg(eq(vc('memory_size', O), num(o))) for o in (1, 2, 4, 8) if o != n]), t) for n, t in ((1, ('unsigned char',)), (2, ('unsigned short',)), (4, ('unsigned int',)))]):
                S = C.run(f, cls, preset={KINDOF(O): num(K[k])}, assume=asm)
                st = [x for x in C.effs(S, 'store') if src_obj(x.a[0], 0)]
                ok = [x for x in st if src_obj(uncvt(x.a[1]), 1) and uncvt(x.a[1])[1] in ts]
                got = disj(*[x.g for x in ok])
                mem = [x for x in C.effs(S, 'memcpy') if x.a[:2] == (A(0), A(1))]
                if S.normal == FALSE or not implies(conj(asm, S.normal), got):
                    if mem and not st: ok = [1]; got = disj(*[x.g for x in mem])
                C.ob(rule, S, S.normal != FALSE and len(ok) == len(st or ok) and implies(S.normal, got), 'a number is read from a %s (%s) with its own width' % (k, ts[0]), st[0].e.line if st else None, unsure=any(murky_ev(x.e) for x in st))
        for k in ('STRING_TYPE', 'SEQUENCE_TYPE', 'ARRAY_TYPE', 'UNION_TYPE', 'MAP_TYPE', 'PAIR_TYPE'):
            S = C.run(f, cls, preset={KINDOF(O): num(K[k])})
            C.ob(rule, S, S.normal == FALSE, 'a number is not copied from a %s' % k, unsure=murky_node(S.normal))
    # unions
    S = C.run(C.method('UnionType', CFT, 3), NSP + 'UnionType', preset={KINDOF(O): num(K['UNION_TYPE'])})
    OD0 = D(F(elem(OM, n0), 'type_'))
    nm = dict(NORM0); nm[F(elem(OM, n0), 'offset_')] = n0
    pool = [norm(x, nm) for x in C.effs(S, 'vcall', {CFT, 'construct_instance', 'copy_instance'})]
    dd = [x for x in pool if x.name == CFT and x.a == (D0, A(0), A(1), OD0)]
    C.ob(rule, S, implies(S.normal, disj(*[x.g for x in dd])), 'the discriminator is copied from that of the source', unsure=any(murky_ev(x.e) for x in pool))
    parts = [x for x in pool if x not in dd]
    seen = FALSE
    bad = None
    L = ('after', 1, label(A(0)))
    for x in parts:
        j = member_index(x.a[0]); lab = label_of(j) if j is not None else None
        off = F(elem(M, j), 'offset_') if j is not None else None
        if lab not in (L, label(A(0)), label(A(1), OD0)) or x.a[1] != add(A(0), off): bad = x; continue
        if x.name == CFT:
            k = member_index(x.a[3], O); kl = label_of(k, O) if k is not None else None
            if kl not in (label(A(1), OD0), L) or x.a[2] != add(A(1), F(elem(OM, k), 'offset_')): bad = x; continue
        elif x.name != 'construct_instance': bad = x; continue
        seen = disj(seen, x.g)
    C.ob(rule, S, bad is None, 'the member the target selects is copied from the member the source has active, each at its own place', bad.e.line if bad else None, unsure=bad is not None and murky_ev(bad.e))
    want = conj(S.normal, has(LAB, L))
    C.ob(rule, S, implies(want, seen), 'the selected member is copied or constructed', unsure=murky_node(seen))
    shared = [x for x in parts if x.name == CFT]
    both = conj(has(LAB, L), has(F(O, 'labels_'), label(A(1), OD0)))
    C.ob(rule, S, bool(shared) and implies(conj(under(S.normal, nm), both), disj(*[x.g for x in shared])), 'the active member is copied when both unions have it', unsure=any(murky_ev(x.e) for x in shared))

def one_member_source(C):
    """a one-member structure is read as its member"""
    rule = 'one-member'
    K = C.K
    for cls in ['PairType', 'ArrayType', 'SequenceType', 'MapType', 'UnionType'] + [c[len(NSP):] for c in string_classes(C)[:1] + prim_classes(C)[:1] + enum_classes(C)[:1]]:
        f = C.method(cls, CFT, 3)
        S = C.run(f, NSP + cls, preset={KINDOF(O): num(K['STRUCTURE_TYPE'])})
        m0 = D(F(elem(OM, n0), 'type_'))
        pool = [x for x in C.effs(S) if x.kind in ('call', 'vcall') and x.name == CFT]
        for x in pool: x.a = tuple(subst(t, {F(elem(OM, n0), 'offset_'): n0}) for t in x.a)
        got = disj(*[x.g for x in pool if x.a[0] == THIS and x.a[1:3] == (A(0), A(1)) and x.a[3] in (m0, RES(m0))])
        C.ob(rule, S, implies(S.normal, got) and implies(S.normal, eq(size(OM), n1)), 'a one-member structure is read as its member, a larger one refused', unsure=any(murky_ev(x.e) for x in pool))

def compat_storage(C, rule, S, p, n, k1, k2, cut):
    mem = final(S, MEM); cap = final(S, CAP); siz = final(S, SIZ)
    blk = vc('memory_size', A(1)); oblk = F(p, 'block_size_')
    kn = '%s from %s%s' % (k1, k2, ', cut to the bound' if cut else '')
    mem = mem if mem[0] == 'new' else mem
    unsure = murky(mem) or murky(cap) or murky(siz)
    C.ob(rule, S, siz == n, 'the copy has all elements its bound admits (%s)' % kn, unsure=unsure)
    if mem[0] != 'new': C.ob(rule, S, False, 'the copy has storage of its own (%s)' % kn, unsure=unsure or mem[0] in ('ite', 'pite')); return
    C.ob(rule, S, lt(cap, siz) == FALSE, 'the capacity is not below the size', unsure=unsure)
    new = [x for x in C.effs(S, 'new') if x.a[0] == mem]
    blks = {blk, vc('memory_size', RES(A(1)))}
    C.ob(rule, S, len(new) == 1 and new[0].a[1] in {mul(b, cap) for b in blks}, 'storage is reserved for the recorded capacity', unsure=unsure)
    raw = [x for x in C.effs(S, 'memcpy') if x.a[0] == mem]
    okraw = k1 == k2 and k1 in PRIMS
    C.ob(rule, S, not raw or okraw, 'elements are not copied as raw bytes from another kind (%s)' % kn, raw[0].e.line if raw else None)
    cover = disj(*[x.g for x in raw if x.a[1] == OLD and x.a[2] in {mul(b, n) for b in blks | {oblk}}])
    for x in C.effs(S, 'vcall', {CFT, 'copy_instance'}):
        if x.n != (n,) or x.a[1] not in {add(mem, mul(I0, b)) for b in blks}: continue
        src = {add(OLD, mul(I0, b)) for b in (oblk, vc('memory_size', D(F(p, 'content_'))))}
        if x.a[2] in src and (x.name == 'copy_instance' and okraw or x.name == CFT and x.a[3] == D(F(p, 'content_'))): cover = disj(cover, x.g)
    C.ob(rule, S, implies(S.normal, cover), 'every admitted element is copied by its own type (%s)' % kn, unsure=unsure or any(murky_ev(x.e) for x in C.effs(S, 'vcall', {CFT})))

def P05(C):
    from_type(C)
    cut_copy(C, 'from-type')

# ------------------------------------------------------------ P06
COMPAT = 'is_compatible'
def flags(C):
    e = next(e for k, e in C.P.enums.items() if k.endswith('::TypeConsistency'))
    return {c['n']: num(c['v']) for c in e['c']}

BOUNDED = {'ArrayType': ('ARRAY_TYPE', 'dimension_', 'IGNORE_ARRAY_BOUNDS'), 'SequenceType': ('SEQUENCE_TYPE', 'bounds_', 'IGNORE_SEQUENCE_BOUNDS'), 'MapType': ('MAP_TYPE', 'bounds_', 'IGNORE_MAP_BOUNDS')}

def compat(T, X): return vc(COMPAT, T, X)

def mirror_vc(t):
    """is_compatible(a, b) may be asked of either side"""
    return t

def asks(v, *xs):
    """v is the verdict about the given two types (in any order, looked through aliases)"""
    return v is not None and v[0] in ('vc', 'call') and v[1] == COMPAT and all(any(mentions(a, lambda t: t == x) for a in v[2:]) for x in xs)

def verdicts(C):
    rule = 'compatibility'
    K, FL = C.K, flags(C)
    NONE, EQ = FL['NONE'], FL['EQUALS']
    a0 = A(0)
    everyone = ['StructType', 'PairType', 'ArrayType', 'SequenceType', 'MapType', 'UnionType'] + [c[len(NSP):] for c in string_classes(C) + prim_classes(C) + enum_classes(C)]
    def kind_of(cls):
        if cls in OTHERS: return OTHERS[cls]
        if cls.startswith('TString'): return next(k for t, k in STRINGS.items() if cls.startswith('TStringType<%s,' % t))
        if cls.startswith('Enumeration'): return 'ENUMERATION_TYPE'
        t = cls[len('PrimitiveType<'):-1]
        return next(k for k, ts in CTYPE.items() if t in ts)
    # who goes with whom
    numeric = set(PRIMS) | {'ENUMERATION_TYPE'}
    for cls in everyone:
        f = C.method(cls, COMPAT, 1)
        me = kind_of(cls)
        for k in LEAFS:
            if me == 'STRUCTURE_TYPE' and k == me: continue
            pre = {KINDOF(a0): num(K[k]), KINDOF(THIS): num(K[me])}
            S = C.run(f, NSP + cls, preset=pre)
            g = S.normal
            if k == 'ALIAS_TYPE':
                ok = all(asks(x, a0) and (x[2] == THIS or THIS in x[2:]) or (me == 'STRUCTURE_TYPE' and asks(x, a0)) for _, v, _ in S.rets for _, x in leaves(v, g) if v is not None)
                C.ob(rule, S, ok and g != FALSE, 'an alias is judged as what it stands for', unsure=murky(S.ret)); continue
            if me == 'STRUCTURE_TYPE':
                one = eq(size(M), n1)
                T0 = D(F(elem(M, n0), 'type_'))
                for gl, x in [(gl, x) for gr, v, _ in S.rets for gl, x in leaves(v, gr)]:
                    g1, g2 = conj(gl, one), conj(gl, neg(one))
                    if g1 != FALSE: C.ob(rule, S, asks(x, a0, T0), 'a one-member structure is judged as its member (against %s)' % k, unsure=murky(x))
                    if g2 != FALSE: C.ob(rule, S, x == NONE, 'a larger structure never goes with a %s' % k, unsure=murky(x))
                continue
            if k == 'STRUCTURE_TYPE' and me != 'PAIR_TYPE':
                ok = all(asks(x, a0, THIS) and x[2] == a0 for gr, v, _ in S.rets for gl, x in leaves(v, gr) if gl != FALSE)
                C.ob(rule, S, ok and g != FALSE, 'whether a structure takes a value is decided by the structure', unsure=murky(S.ret)); continue
            if k == me: continue
            if k in numeric and me in numeric: continue
            if k == 'STRUCTURE_TYPE': continue
            ok = g != FALSE and all(x == NONE for gr, v, _ in S.rets for gl, x in leaves(v, gr) if gl != FALSE)
            C.ob(rule, S, ok, 'a %s never goes with a %s' % (me, k), unsure=murky(S.ret))
    # bounds
    for cls, (k, fl, flag) in BOUNDED.items():
        S = C.run(C.method(cls, COMPAT, 1), NSP + cls, preset={KINDOF(a0): num(K[k])})
        T, X = D(F(THIS, 'content_')), D(F(a0, 'content_'))
        c = eq(F(THIS, fl), F(a0, fl))
        for base in (compat(T, X), compat(X, T)):
            good = all((implies(gl, c) and x == base) or (implies(gl, neg(c)) and x == bor(base, FL[flag])) for gr, v, _ in S.rets for gl, x in leaves(v, gr) if gl != FALSE)
            if good: break
        C.ob(rule, S, good and S.normal != FALSE, 'collections agree as their elements do, with a different bound flagged', unsure=murky(S.ret))
    for cls in string_classes(C):
        S = C.run(C.method(cls, COMPAT, 1), cls, preset={KINDOF(a0): num(K[kind_of(cls[len(NSP):])])})
        c = eq(F(THIS, 'bounds_'), F(a0, 'bounds_'))
        good = all((implies(gl, c) and x == EQ) or (implies(gl, neg(c)) and x == FL['IGNORE_STRING_BOUNDS']) for gr, v, _ in S.rets for gl, x in leaves(v, gr) if gl != FALSE)
        C.ob(rule, S, good and S.normal != FALSE, 'strings agree, with a different bound flagged', unsure=murky(S.ret))
    S = C.run(C.method('PairType', COMPAT, 1), NSP + 'PairType', preset={KINDOF(a0): num(K['PAIR_TYPE'])})
    ts = [F(THIS, n) for n in ('first_', 'second_')]
    v = S.ret
    want = bor(*[compat(D(t), D(subst(t, {THIS: a0}))) for t in ts])
    want2 = bor(*[compat(D(subst(t, {THIS: a0})), D(t)) for t in ts])
    C.ob(rule, S, v in (want, want2), 'pairs agree as both parts do', unsure=v is None or murky(v))
    # numbers
    for cls in prim_classes(C):
        f = C.method(cls, COMPAT, 1)
        me = kind_of(cls[len(NSP):])
        mysize = C.run(C.method(cls, 'memory_size', 0), cls).ret
        for k in PRIMS:
            S = C.run(f, cls, preset={KINDOF(a0): num(K[k]), KINDOF(THIS): num(K[me])})
            ms = vc('memory_size', a0)
            sz = eq(ms, mysize)
            sign = (K[k] ^ K[me]) & 128
            bad = None
            for gr, v, _ in S.rets:
                for gl, x in leaves(v, gr):
                    if gl == FALSE: continue
                    for g, width in ((conj(gl, sz), 0), (conj(gl, neg(sz)), FL['IGNORE_TYPE_WIDTH'][1])):
                        if g == FALSE: continue
                        want = width | (FL['IGNORE_TYPE_SIGN'][1] if sign else 0)
                        if k == me:
                            if x != EQ and x != num(width): bad = x
                        elif x != num(want): bad = x
            C.ob(rule, S, bad is None and S.normal != FALSE, 'a %s and a %s agree up to flagged sign and width' % (me, k), unsure=bad is not None and murky(bad))
            isfloat = lambda q: q.startswith('FLOAT')
            if k != me and isfloat(k) != isfloat(me) and not sign and SAMEWIDTH(k, me):
                C.ob(rule, S, not any(x == EQ for gr, v, _ in S.rets for gl, x in leaves(v, gr) if conj(gl, sz) != FALSE), 'an integer and a floating point number are not equal types', key='compatibility|%s|equal to %s' % (me, k))
        S = C.run(f, cls, preset={KINDOF(a0): num(K['ENUMERATION_TYPE']), KINDOF(THIS): num(K[me])})
        ok = all(asks(x, a0, THIS) for gr, v, _ in S.rets for gl, x in leaves(v, gr) if gl != FALSE)
        C.ob(rule, S, ok and S.normal != FALSE, 'number against enumeration is decided as enumeration against number', unsure=murky(S.ret))
    for cls in enum_classes(C):
        f = C.method(cls, COMPAT, 1)
        mysize = C.run(C.method(cls, 'memory_size', 0), cls).ret
        sz = eq(vc('memory_size', a0), mysize)
        for k in PRIMS + ('ENUMERATION_TYPE',):
            S = C.run(f, cls, preset={KINDOF(a0): num(K[k])})
            sign = k != 'ENUMERATION_TYPE' and not (K[k] & 128)
            bad = None
            for gr, v, _ in S.rets:
                for gl, x in leaves(v, gr):
                    for g, width in ((conj(gl, sz), 0), (conj(gl, neg(sz)), FL['IGNORE_TYPE_WIDTH'][1])):
                        if g == FALSE: continue
                        if x != num(width | (FL['IGNORE_TYPE_SIGN'][1] if sign else 0)): bad = x
            C.ob(rule, S, bad is None and S.normal != FALSE, 'an enumeration and a %s agree up to flagged sign and width' % k, unsure=bad is not None and murky(bad))
    # structures and unions: member by member
    for cls, k in (('StructType', 'STRUCTURE_TYPE'), ('UnionType', 'UNION_TYPE')):
        S = C.run(C.method(cls, COMPAT, 1), NSP + cls, preset={KINDOF(a0): num(K[k])}, assume=neg(eq(size(M), n1)) if cls == 'StructType' else TRUE)
        T, _ = members(); XM = F(a0, 'members_'); X, _ = members(XM)
        ci = compat(T, X)
        names = eq(F(elem(M, I0), 'name_'), F(elem(XM, I0), 'name_'))
        d = 0
        body = ite(names, bor(('acc', d), ci), bor(bor(('acc', d), ci), FL['IGNORE_MEMBER_NAMES']))
        IM, IN = FL['IGNORE_MEMBERS'], FL['IGNORE_MEMBER_NAMES']
        same_size = eq(size(M), size(XM))
        rets = [(gl, x) for gr, v, _ in S.rets for gl, x in leaves(v, gr) if gl != FALSE]
        isfold = lambda t: t[0] == 'fold' and t[1] in (size(M), size(XM), mm('min', size(M), size(XM)))
        folds = {t for _, x in rets for t in walk(x) if isfold(t)}
        C.ob(rule, S, bool(folds), 'the verdicts about all members are collected', unsure=murky(S.ret))
        still = [w for l in S.loopinfo for w in l['W'] if l['x0'].get(w) == ('it', XM, n0) and any(gl != FALSE and x == l['X'][w] for gl, x in leaves(l['x1'][w], l['g1']))]
        C.ob(rule, S, not still, 'every member is judged against its counterpart: the other member follows')
        if folds:
            ok = all(mentions(x, lambda t: t == ci) and mentions(x, lambda t: t[0] == 'acc') and (implies(g, names) or mentions(x, lambda t: t == IN)) and (not implies(g, names) or not mentions(x, lambda t: t == IN))
                     and not mentions(x, lambda t: t[0] == 'int' and t != IN and t != n0 and mentions(x, lambda u: u[0] == 'bor' and t in u[1])) for w in folds for g, x in leaves(w[3]))
            C.ob(rule, S, ok, 'every member is judged against its counterpart, a different name flagged', unsure=False)
            bad = False
            for gl, x in rets:
                if not mentions(x, isfold): continue
                parts = x[1] if x[0] == 'bor' else (x,)
                fs = [t for t in parts if isfold(t)]; rest = [t for t in parts if t not in fs]
                if len(fs) != 1 or any(t[0] != 'int' for t in rest): bad = True; continue
                for gi, i in leaves(fs[0][2], gl):
                    if gi == FALSE: continue
                    total = i
                    for t in rest: total = bor(total, t)
                    bad = bad or not (implies(gi, same_size) and total == n0 or implies(gi, neg(same_size)) and total == IM)
            C.ob(rule, S, not bad, 'a different number of members is flagged')
        # verdicts given before all members are seen
        early = [(gl, x) for gl, x in rets if not mentions(x, isfold)]
        stop = [(gl, x) for gl, x in early if x == NONE or x[0] == 'vc' and x[1] == COMPAT and mentions(x, lambda t: t[0] == 'fiv')]
        nogood = any(subst_node(gl, {ci: n0}) != FALSE for gl, _ in stop)
        rest = [(gl, x) for gl, x in early if (gl, x) not in stop]
        cut = all(mentions(x, lambda t: t == IM) and mentions(x, lambda t: t[0] == 'phi') for gl, x in rest)
        there = [a for gl, _ in rest for a in B.support(gl) if a[0] == 'first' and subst_node(a[3], {('iv', a[4]): n0, size(XM): num(2)}) != FALSE]
        C.ob(rule, S, not there, 'no member the other has too is left unjudged', unsure=any(murky_node(a[3]) for a in there))
        C.ob(rule, S, bool(stop or folds) and not nogood and cut, 'one pair of incompatible members makes the types incompatible', unsure=not stop and not folds and murky(S.ret))

def SAMEWIDTH(a, b):
    from rules_layout import SIZEOF
    return SIZEOF[CTYPE[a][0]] == SIZEOF[CTYPE[b][0]]

def foldof(S, head):
    for gr, v, _ in S.rets:
        for x in walk(v):
            if x[0] == 'fold' and x[1:3] == head[1:3]: return x
    return None

def told_apart(C):
    """the verdicts are sets of concessions: each its own bit, nothing for equal types, and a refusal no set of concessions can undo or reach"""
    rule = 'concessions'
    q, e = next((k, e) for k, e in C.P.enums.items() if k.endswith('::TypeConsistency'))
    V = {c['n']: c['v'] for c in e['c']}
    f = dict(qn=q, file=e.get('file', 'TypeConsistency.hpp'), line=e.get('line', 0))
    bits = 32
    mask = 2 ** bits - 1
    no, same_ = V['NONE'] & mask, V['EQUALS'] & mask
    every_ = 0
    for n, v in V.items():
        if n in ('NONE', 'EQUALS'): continue
        v &= mask
        C.ob(rule, f, v != 0 and v & (v - 1) == 0 and not v & every_, 'the concession %s is told apart from all others' % n)
        C.ob(rule, f, v & no == v, 'a refusal is not undone by the concession %s' % n)
        every_ |= v
    C.ob(rule, f, same_ == 0, 'equal types need no concession')
    C.ob(rule, f, every_ != no and no != 0, 'conceding everything is no refusal')
    for op, want in (('|', 'bor'), ('&', 'band')):
        for g in [g for g in C.fns('operator' + op) + C.fns('operator%s=' % op) if 'TypeConsistency' in g['params'][0]['t'] and len(g['params']) == 2]:
            S = C.run(g)
            v = final(S, A(0)) if g['params'][0]['t'].endswith('&') and not g['params'][0]['t'].startswith('const') else S.ret
            C.ob(rule, S, v in ((want, (A(0), A(1))), (want, (A(1), A(0)))), 'verdicts are combined with %s bit by bit' % op, unsure=v is None or murky(v))

def P06(C): verdicts(C); told_apart(C)
