"""P03 equality, P04 hash"""
from core import *
from rules_value import *
from rules_layout import TY, INST

FLOATS = ('FLOAT_32_TYPE', 'FLOAT_64_TYPE', 'FLOAT_128_TYPE')
def CMP(T, p, q): return neg(eq(vc('compare_instance', T, p, q), n0))
def memeq(a, b, n): return [B.atom(('memeq', a, b, n)), B.atom(('memeq', b, a, n))]

def float_pairs(C, cls):
    T = elem_type(cls)
    K1, K2 = KINDOF(D(F(T, 'first_'))), KINDOF(D(F(T, 'second_')))
    return [({K1: num(C.K[a]), K2: num(C.K[b]), KINDOF(T): num(C.K['PAIR_TYPE'])}, True, a + '/' + b) for a, b in (('FLOAT_32_TYPE', 'INT_32_TYPE'), ('INT_32_TYPE', 'FLOAT_64_TYPE'), ('CHAR_8_TYPE', 'FLOAT_128_TYPE'))]

def both(w): return [w, mirrored(w)]

def elements(C, S, k, T, p, q, counts, blk, cond, cls, what):
    rule = 'equality'
    each = [conj(cond, every(n, CMP(T, add(x, mul(I0, blk)), add(y, mul(I0, blk))))) for n in counts for x, y in ((p, q), (q, p))]
    raw = [conj(cond, m) for n in counts for m in memeq(p, q, mul(n, blk))]
    if decides(C.quiet(), rule, S, each, what): C.ob(rule, S, True, what); return
    if k in TRIVIAL and k not in FLOATS: decides(C, rule, S, each + raw, what); return
    if k in FLOATS and decides(C.quiet(), rule, S, raw, what):
        C.ob(rule, S, False, 'elements of kind %s are compared as bytes, not as numbers' % k, key='equality|%s|%s elements compared as bytes' % (cls, k)); return
    decides(C, rule, S, each[0], what)

def equality(C):
    rule = 'equality'
    f = C.method('StructType', 'compare_instance', 2)
    S = C.run(f, NSP + 'StructType')
    T, off = members()
    decides(C, rule, S, [every(size(M), CMP(T, add(A(0), off), add(A(1), off))), every(size(M), CMP(T, add(A(1), off), add(A(0), off)))], 'structures are equal when all members are')
    S = C.run(C.method('PairType', 'compare_instance', 2), NSP + 'PairType')
    w = TRUE
    for T, off, n in pair_parts(): w = conj(w, CMP(T, add(A(0), off), add(A(1), off)))
    decides(C, rule, S, both(w), 'pairs are equal when both parts are')
    S = C.run(C.method('AliasType', 'compare_instance', 2), NSP + 'AliasType')
    decides(C, rule, S, both(CMP(D(F(THIS, 'aliased_')), A(0), A(1))), 'aliased values are equal when what they stand for is')
    f = C.method('ArrayType', 'compare_instance', 2)
    T = D(F(THIS, 'content_')); n = F(THIS, 'dimension_'); blk = vc('memory_size', T)
    for k in LEAFS:
        S = C.run(f, NSP + 'ArrayType', preset={KINDOF(T): num(C.K[k])})
        elements(C, S, k, T, A(0), A(1), [n], blk, TRUE, 'ArrayType', 'arrays are equal when all elements (of kind %s) are' % k)
    for cls in ('SequenceInstance', 'MapInstance'):
        for owner, f, X, Y in ((cls, C.method(cls, 'operator==', 1), THIS, A(0)), (cls.replace('Instance', 'Type'), C.method(cls.replace('Instance', 'Type'), 'compare_instance', 2), D(A(0)), D(A(1)))):
            for pre, trivial, kn in kind_presets(C, cls) + (float_pairs(C, cls) if cls == 'MapInstance' else []):
                m = {THIS: X}
                pre = {subst(k, m): v for k, v in pre.items()}
                for fld in ('block_size_', 'content_'): pre[F(Y, fld)] = F(X, fld)  # values of the same type
                S = C.run(f, NSP + owner, preset=pre)
                n, blk = F(X, 'size_'), F(X, 'block_size_')
                T = D(F(X, 'content_'))
                cond = eq(n, F(Y, 'size_'))
                what = 'two collections are equal when they have the same size and all elements (of kind %s) are' % kn
                k = kn if '/' not in kn else 'FLOAT_64_TYPE' if 'FLOAT' in kn else ('INT_32_TYPE' if trivial else 'STRUCTURE_TYPE')
                elements(C, S, k, T, F(X, 'memory_'), F(Y, 'memory_'), [n, F(Y, 'size_')], blk, cond, owner, what)
    for cls in string_classes(C) + prim_classes(C) + enum_classes(C):
        S = C.run(C.method(cls, 'compare_instance', 2), cls)
        t = truth(S)
        ok = False
        for a in B.support(t):
            objs = {x for x in walk(a) if x[0] == 'at' and x[2] in (A(0), A(1))}
            if len(objs) == 2 and len({o[1] for o in objs}) == 1:
                x, y = sorted(objs, key=repr)
                w = eq(x, y); f = disj(neg(w), eq(size(x), size(y)))       # equal strings have the same length
                ok = ok or t == w or implies(conj(t, f), w) and implies(conj(w, f), t)
        C.ob(rule, S, ok, 'two values are equal when the objects in them are', unsure=murky_node(t))
    # unions
    S = C.run(C.method('UnionType', 'compare_instance', 2), NSP + 'UnionType')
    t = under(truth(S), NORM0)
    nrm = under(S.normal, NORM0)
    disc = CMP(D0, A(0), A(1))
    C.ob(rule, S, implies(conj(t, nrm), disc) or implies(conj(t, nrm), CMP(D0, A(1), A(0))), 'equal unions have equal discriminators', unsure=murky_node(t))
    for L in (label(A(0)), label(A(1))):
        j = chosen(L); m = elem(M, j); off = F(m, 'offset_')
        same_member = CMP(D(F(m, 'type_')), add(A(0), off), add(A(1), off))
        w = conj(disc, disj(neg(has(LAB, L)), same_member))
        if implies(conj(t, nrm), w) and implies(conj(w, nrm), t): C.ob(rule, S, True, 'unions are equal when discriminator and active member are'); break
    else: C.ob(rule, S, False, 'unions are equal when discriminator and active member are', unsure=murky_node(t))
    # references
    S = C.run(C.fn('ReadableDynamicDataRef::operator=='))
    w = CMP(TY, INST, F(A(0), 'instance_'))
    t = truth(S)
    g = neg(is_kind(TY, num(C.K['ARRAY_TYPE'])[1]))
    C.ob(rule, S, implies(conj(t, S.normal), w) or implies(conj(t, S.normal), CMP(TY, F(A(0), 'instance_'), INST)), 'values that compare equal are equal according to their type', unsure=murky_node(t))
    C.ob(rule, S, implies(conj(w, g, S.normal), t), 'values equal according to their type compare equal', unsure=murky_node(t))
    SA = C.run(C.fn('ReadableDynamicDataRef::operator=='), preset={KINDOF(TY): num(C.K['ARRAY_TYPE'])})
    OT = D(F(A(0), 'type_'))
    for x in C.effs(SA, 'vcall', {'compare_instance'}):
        told2 = [a for a in B.support(x.g) if mentions(a, lambda z: z == TY) and mentions(a, lambda z: z == OT or z == F(A(0), 'type_'))]
        C.ob(rule, SA, bool(told2), 'arrays are only compared element by element when their types are the same', x.e.line, unsure=murky_node(x.g))
    S2 = C.run(C.fn('ReadableDynamicDataRef::operator!='))
    C.ob(rule, S2, truth(S2) == neg(t), '!= is the negation of ==', unsure=murky_node(truth(S2)))

def P03(C):
    equality(C)

# ------------------------------------------------------------ hash
def part_hash(C, S, parts, what, only_parts=True):
    """every part is hashed once and its hash enters the result, and nothing else of the value does"""
    rule = 'hash'
    hits = []
    for T, p, n in parts:
        hits += C.must(rule, S, 'vcall', 'hash', (T, p), what, n=n, g=neg(eq(n[0], n0)) if n else TRUE, exact=False)
    C.only(rule, S, 'vcall', {'hash'}, hits, 'only the parts of the value enter its hash')
    v = S.ret
    if v is None: C.ob(rule, S, False, 'the hash is returned'); return
    used = contributions(v, 'hash')
    calls = [e for e in S.events if e.kind == 'vcall' and e.name == 'hash']
    C.ob(rule, S, all(any(('vc', 'hash') + tuple(e.a) == u or shifted(('vc', 'hash') + tuple(e.a), u) for u in used) for e in calls) and calls != [], 'the hash of every part enters the result', unsure=murky(v))
    rest = without(v, 'hash')
    bad = mentions(rest, lambda x: x[0] == 'at' and x[1] != '' or x[0] in ('p', 'hash64') )
    C.ob(rule, S, not bad or not only_parts, 'the hash depends on nothing but the hashes of the parts', unsure=murky(v))

def shifted(a, b):
    return subst(a, {I0: add(I0, n1)}) == b or a == subst(b, {I0: add(I0, n1)})

def hashes(C):
    rule = 'hash'
    T, off = members()
    S = C.run(C.method('StructType', 'hash', 1), NSP + 'StructType')
    part_hash(C, S, [(T, add(A(0), off), (size(M),))], 'every member is hashed')
    S = C.run(C.method('PairType', 'hash', 1), NSP + 'PairType')
    part_hash(C, S, [(T, add(A(0), off), ()) for T, off, n in pair_parts()], 'both parts of a pair are hashed')
    S = C.run(C.method('AliasType', 'hash', 1), NSP + 'AliasType')
    returns(C, rule, S, vc('hash', D(F(THIS, 'aliased_')), A(0)), 'an aliased value has the hash of what it stands for')
    f = C.method('ArrayType', 'hash', 1)
    T = D(F(THIS, 'content_')); n = F(THIS, 'dimension_'); blk = vc('memory_size', T)
    for k in LEAFS:
        S = C.run(f, NSP + 'ArrayType', preset={KINDOF(T): num(C.K[k])})
        elem_hash(C, S, k, T, A(0), n, blk, 'ArrayType')
    for cls in ('SequenceType', 'MapType'):
        f = C.method(cls, 'hash', 1)
        X = D(A(0))
        for pre, trivial, kn in kind_presets(C, cls.replace('Type', 'Instance')):
            pre = {subst(k, {THIS: X}): v for k, v in pre.items()}
            pre.update({subst(k, {X: THIS}): v for k, v in pre.items()})
            S = C.run(f, NSP + cls, preset=pre)
            T = [D(F(X, 'content_')), D(F(THIS, 'content_'))]
            k = kn if '/' not in kn else ('INT_32_TYPE' if trivial else 'STRUCTURE_TYPE')
            if not any(e.kind == 'vcall' and e.name == 'hash' and e.a[0] == T[0] for e in S.events): T.reverse()
            elem_hash(C, S, k, T[0], F(X, 'memory_'), F(X, 'size_'), F(X, 'block_size_'), cls, value=X)
    S = C.run(C.method('UnionType', 'hash', 1), NSP + 'UnionType')
    L = label(A(0)); j = chosen(L); m = elem(M, j)
    v = subst(S.ret, NORM0)
    want = {vc('hash', D0, A(0)), vc('hash', D(F(m, 'type_')), add(A(0), F(m, 'offset_')))}
    used = set(contributions(v, 'hash'))
    C.ob(rule, S, want <= used, 'discriminator and active member of a union enter its hash', unsure=murky(v))
    C.ob(rule, S, used <= want, 'only the discriminator and the active member of a union enter its hash', unsure=murky(v))
    some = [x for g, x in leaves(v, under(S.normal, NORM0)) if implies(g, has(LAB, L))]
    C.ob(rule, S, all(want <= set(contributions(x, 'hash')) for x in some), 'the active member enters the hash whenever there is one', unsure=murky(v))
    for cls in string_classes(C):
        S = C.run(C.method(cls, 'hash', 1), cls)
        v = S.ret
        ok = v is not None and v[0] == 'std' and 'hash' in v[1] and any(x[0] == 'at' and x[2] == A(0) and 'basic_string' in x[1] for x in v[2:])
        ok = ok or (v is not None and v[0] == 'hash64')
        C.ob(rule, S, ok, 'the hash of a string is that of its characters', unsure=v is None or murky(v))
    for cls in prim_classes(C) + enum_classes(C):
        S = C.run(C.method(cls, 'hash', 1), cls)
        sz = C.run(C.method(cls, 'memory_size', 0), cls).ret
        v = S.ret
        ok = v is not None and ((v[0] == 'hash64' and v[1] == A(0) and v[2] == sz and v[3][0] == 'int') or (v[0] == 'std' and 'hash' in v[1] and mentions(v, lambda x: x[0] == 'at' and x[2] == A(0))))
        C.ob(rule, S, ok, 'the whole number enters its hash', unsure=v is None or murky(v))
        k = S.eng.st.store.get(KINDOF(THIS))
        kind = 'float' if any(cls.endswith('<%s>' % t) for t in ('float', 'double', 'long double')) else None
        if kind and v is not None and v[0] == 'hash64':
            C.ob(rule, S, False, 'equal floating point numbers have equal hashes', key='hash|%s|bytes of a floating point number' % cls.replace(NSP, ''))
    S = C.run(C.fn('ReadableDynamicDataRef::hash'))
    returns(C, rule, S, vc('hash', TY, INST), 'the hash of a reference is that of its value')

def elem_hash(C, S, k, T, p, n, blk, cls, value=None):
    rule = 'hash'
    what = 'every element (of kind %s) is hashed' % k
    v = S.ret
    raw = [x for x in walk(v) if x[0] == 'hash64'] if v is not None else []
    if k in TRIVIAL and raw:
        ok = all(x[1:3] == (p, mul(n, blk)) and x[3][0] == 'int' for x in raw)
        ok = ok and all(gl == FALSE or implies(gl, eq(n, n0)) or x[0] == 'hash64' for gl, x in leaves(v, S.normal))
        C.ob(rule, S, ok, what, unsure=murky(v))
        if k in FLOATS: C.ob(rule, S, False, 'equal elements of kind %s have equal hashes' % k, key='hash|%s|%s elements hashed as bytes' % (cls, k))
        return
    C.ob(rule, S, not raw, 'elements of kind %s are not hashed as raw bytes' % k)
    hits = C.must(rule, S, 'vcall', 'hash', (T, add(p, mul(I0, blk))), what, n=(n,), g=neg(eq(n, n0)), exact=False)
    C.only(rule, S, 'vcall', {'hash'}, hits, 'only elements enter the hash')
    used = contributions(v, 'hash') if v is not None else []
    calls = [e for e in S.events if e.kind == 'vcall' and e.name == 'hash']
    C.ob(rule, S, bool(calls) and all(any(('vc', 'hash') + tuple(e.a) == u or shifted(('vc', 'hash') + tuple(e.a), u) for u in used) for e in calls), 'the hash of every element enters the result', unsure=v is None or murky(v))

def byte_hash(C):
    """the byte string hash reads every byte of its buffer exactly once and none outside"""
    rule = 'hash-bytes'
    f = C.fn('Instanceable::hash64')
    for n in range(0, 18):
        S = C.run(f, preset={('p', 1): num(n)})
        v = S.ret
        words, tail = n // 8, n % 8
        t = set()
        folds = [x for x in walk(v) if x[0] == 'fold']
        wide = [x for x in walk(v) if x[0] == 'at' and x[1] == 'unsigned long']
        ok = True
        if words:
            ok = len(set(folds)) == 1 and folds[0][1] == num(words) and set(wide) == {('at', 'unsigned long', add(A(0), ('fiv', 0)))} or set(wide) == {('at', 'unsigned long', add(A(0), num(i))) for i in range(words)}
            ok = ok or (len({x[1] for x in folds}) == 1 and folds[0][1] == num(words) and len(set(wide)) == 1)
        else: ok = not wide
        off = set()
        for x in walk(v):
            if x[0] == 'at' and x[1] == 'unsigned char': off.add(sub(x[2], add(A(0), num(words))))
        ok = ok and off == {num(i) for i in range(tail)}
        C.ob(rule, S, ok, 'a buffer of %d bytes is hashed byte by byte, and nothing else' % n, unsure=murky(v))
        C.ob(rule, S, mentions(v, lambda x: x == A(2)) , 'the seed enters the hash', unsure=murky(v))
    f = C.fn('Instanceable::hash_combine')
    S = C.run(f)
    v = final(S, A(0))
    C.ob(rule, S, v != A(0) and mentions(v, lambda x: x == A(0)) and mentions(v, lambda x: x == A(1)), 'combining hashes keeps both')

def whole(C):
    """no hash, and nothing it is computed from, is shortened on its way"""
    rule = 'whole'
    for f in C.J['functions']:
        if f.get('body') is None or not f['qn'].startswith(NSP): continue
        own = f['name'] in ('hash', 'map_hash', 'hash_combine')
        if not own and f.get('cls') != NSP + 'MapInstance': continue
        S = C.run(f, f.get('cls'))
        def part(v): return mentions(v, lambda x: x[0] == 'vc' and x[1] == 'hash' or own and x[0] == 'at')
        def counted(v): return mentions(v, lambda x: x[0] == 'vc' and x[1] == 'memory_size' or x in (SIZ, CAP, BLK) or x[0] == 'fld' and x[-1] in ('size_', 'capacity_', 'block_size_', 'memory_'))
        bad = [x for x in S.narrow if abs(x[1]) < 64 and any(gl != FALSE and part(t) and not counted(t) for gl, t in leaves(x[0], x[2]))]
        if own or bad: C.ob(rule, S, not bad, 'a hash is used as a whole, not shortened', line=bad[0][3] if bad else None, unsure=bool(bad) and all(murky(x[0]) for x in bad))

def P04(C):
    hashes(C); byte_hash(C); whole(C)
