"""Rules about the parts of a value: lifecycle, equality, hash, layout, compatible copies (P01..P06)."""
from core import *

M = F(THIS, 'members_')
def members(c=M, i=I0):
    m = elem(c, i)
    return D(F(m, 'type_')), F(m, 'offset_')

PRIMS = ('BOOLEAN_TYPE', 'INT_8_TYPE', 'UINT_8_TYPE', 'INT_16_TYPE', 'UINT_16_TYPE', 'INT_32_TYPE', 'UINT_32_TYPE', 'INT_64_TYPE', 'UINT_64_TYPE',
         'FLOAT_32_TYPE', 'FLOAT_64_TYPE', 'FLOAT_128_TYPE', 'CHAR_8_TYPE', 'CHAR_16_TYPE', 'WIDE_CHAR_TYPE')
CONSTRUCTED = ('ENUMERATION_TYPE', 'ALIAS_TYPE', 'ARRAY_TYPE', 'SEQUENCE_TYPE', 'STRING_TYPE', 'WSTRING_TYPE', 'STRING16_TYPE', 'MAP_TYPE',
               'UNION_TYPE', 'STRUCTURE_TYPE', 'PAIR_TYPE')
TRIVIAL = PRIMS + ('ENUMERATION_TYPE',)
LEAFS = PRIMS + CONSTRUCTED

VERBS = {   # verb -> (parameters, indexes of the pointer parameters, trailing arguments)
    'construct_instance': (1, (0,), ()),
    'destroy_instance': (1, (0,), ()),
    'copy_instance': (2, (0, 1), ()),
    'move_instance': (3, (0, 1), (A(2),)),
    'compare_instance': (2, (0, 1), ()),
    'hash': (1, (0,), ()),
}
LIFE = {'construct_instance', 'destroy_instance', 'copy_instance', 'move_instance', 'copy_instance_from_type'}

def at_parts(verb, off):
    n, ptrs, tail = VERBS[verb]
    return tuple(add(A(i), off) for i in ptrs) + tail

DOES = {'construct_instance': 'constructed', 'destroy_instance': 'destroyed', 'copy_instance': 'copied', 'move_instance': 'moved',
        'compare_instance': 'compared', 'hash': 'hashed'}

def pair_parts():
    T1, T2 = D(F(THIS, 'first_')), D(F(THIS, 'second_'))
    return [(T1, n0, 'first'), (T2, vc('memory_size', T1), 'second')]

def lifecycle(C, verb):
    rule = 'every-part'
    rev = verb == 'destroy_instance'
    # structures: members declared, at their own offset
    S = C.run(C.method('StructType', verb, VERBS[verb][0]), NSP + 'StructType')
    T, off = members()
    h = C.must(rule, S, 'vcall', verb, (T,) + at_parts(verb, off), 'every member is %s once, at its own place' % DOES[verb], n=(size(M),))
    C.only(rule, S, 'vcall', LIFE, h, 'something that is not a member is %s' % DOES[verb])
    # pairs
    S = C.run(C.method('PairType', verb, VERBS[verb][0]), NSP + 'PairType')
    h = []
    for T, off, n in pair_parts():
        h += C.must(rule, S, 'vcall', verb, (T,) + at_parts(verb, off), 'the %s of a pair is %s once, at its own place' % (n, DOES[verb]))
    C.only(rule, S, 'vcall', LIFE, h, 'something that is not part of the pair is %s' % DOES[verb])
    # arrays, for every kind of element
    contiguous(C, rule, verb, 'ArrayType', D(F(THIS, 'content_')), F(THIS, 'dimension_'))
    # aliases hand everything over
    S = C.run(C.method('AliasType', verb, VERBS[verb][0]), NSP + 'AliasType')
    h = C.must(rule, S, 'vcall', verb, (D(F(THIS, 'aliased_')),) + at_parts(verb, n0), 'the aliased value is %s' % DOES[verb])
    C.only(rule, S, 'vcall', LIFE, h, 'something else than the aliased value is %s' % DOES[verb])

def contiguous(C, rule, verb, cls, T, count):
    f = C.method(cls, verb, VERBS[verb][0])
    blk = vc('memory_size', T)
    off = mul(I0, blk)
    for k in LEAFS:
        S = C.run(f, NSP + cls, preset={KINDOF(T): num(C.K[k])})
        what = 'every element (of kind %s) is %s once, at its own place' % (k, DOES[verb])
        total = mul(count, blk)
        flat = []
        if k in TRIVIAL:
            if verb in ('copy_instance', 'move_instance'):
                flat = C.effs(S, 'memcpy')
                if flat:
                    C.ob(rule, S, len(flat) == 1 and flat[0].a == (A(0), A(1), total) and implies(S.normal, flat[0].g), what, flat[0].e.line, unsure=murky_ev(flat[0].e))
                    continue
            if verb == 'destroy_instance' and not C.effs(S, 'vcall', {verb}):
                C.ob(rule, S, True, what); continue
        C.must(rule, S, 'vcall', verb, (T,) + at_parts(verb, off), what, n=(count,))
        bad = [x for x in C.effs(S, 'memcpy')]
        C.ob(rule, S, not bad, 'elements of kind %s are not copied as raw bytes' % k, bad[0].e.line if bad else None)


# ------------------------------------------------------------ unions
D0 = D(F(elem(M, n0), 'type_'))
def label(p, T=None): return ('label', D0 if T is None else T, p)
IDX, LAB = F(THIS, 'indexes_'), F(THIS, 'labels_')
def chosen(L, base=THIS):
    return ('mapat', F(base, 'indexes_'), ('mapat', F(base, 'labels_'), L))
NORM0 = {F(elem(M, n0), 'offset_'): n0}

def norm(x, m):
    x.a = tuple(subst(t, m) for t in x.a); x.g = under(x.g, m)
    return x

def label_of(i, base=THIS):
    """the label L when i is `position of the member selected by L`"""
    if i[0] == 'mapat' and i[1] == F(base, 'indexes_') and i[2][0] == 'mapat' and i[2][1] == F(base, 'labels_'): return i[2][2]
    return None

def member_index(T, base=THIS):
    """i when T is the type of member i of base"""
    if T[0] == 'at' and T[2][0] == 'fld' and T[2][2] == 'type_' and T[2][1][0] == 'elem' and T[2][1][1] == F(base, 'members_'): return T[2][1][2]
    return None

def union_life(C, verb, prop):
    rule = 'union-parts'
    f = C.method('UnionType', verb, VERBS[verb][0])
    S = C.run(f, NSP + 'UnionType')
    does = DOES[verb]
    pool = [norm(x, NORM0) for x in C.effs(S, 'vcall')]
    if verb == 'move_instance':
        tails = {(A(2),), (bt(FALSE),)}
        pm = [x for x in pool if x.name == verb and x.a[0] == D0 and x.a[1:3] == (A(0), A(1)) and x.a[3:] in tails]
    else:
        pm = [x for x in pool if x.name == verb and x.a == (D0,) + at_parts(verb, n0)]
    disc = disj(*[x.g for x in pm])
    murk = any(murky_ev(x.e) for x in pool)
    C.ob(rule, S, implies(S.normal, disc), 'the discriminator of a union is %s' % does, pm[0].e.line if pm else None, unsure=murk)
    ok_labels = {
        'construct_instance': {F(THIS, 'default_')},
        'copy_instance': {label(A(1)), ('after', 1, label(A(0)))},
        'destroy_instance': {label(A(0))},
        'compare_instance': {label(A(0)), label(A(1))},
        'hash': {label(A(0))},
        'move_instance': {label(A(1)), ('after', 1, label(A(0)))},
    }[verb]
    used = list(pm)
    def part(verb2, labels, cond, what, ptrs, tails=((),)):
        got, seen = FALSE, []
        for x in pool:
            if x.name != verb2 or x in pm: continue
            j = member_index(x.a[0])
            L = label_of(j) if j is not None else None
            if L is None or L not in labels: continue
            off = F(elem(M, j), 'offset_')
            if x.a[1:1 + len(ptrs)] != tuple(add(A(p), off) for p in ptrs) or x.a[1 + len(ptrs):] not in tails: continue
            seen.append(x); used.append(x)
            want = conj(cond, has(LAB, L)) if verb2 != 'construct_instance' else cond
            got = disj(got, x.g)
            if not implies(conj(x.g, S.normal), want):
                C.ob(rule, S, False, what + ' (also when no member is active)', x.e.line, unsure=murk); return
        want = conj(cond, disj(*[has(LAB, x.a and label_of(member_index(x.a[0]))) for x in seen])) if verb2 != 'construct_instance' else cond
        ok = bool(seen) and implies(conj(want, S.normal), got)
        C.ob(rule, S, ok, what, seen[0].e.line if seen else None, unsure=murk)
    n, ptrs, tail = VERBS[verb]
    if verb == 'construct_instance':
        part(verb, ok_labels, neg(eq(F(THIS, 'default_'), F(THIS, 'invalid_value_'))), 'the default member of a union is constructed with it', ptrs)
    elif verb == 'move_instance':
        part('destroy_instance', {label(A(0))}, node(A(2)), 'the member the overwritten union had active is destroyed', (0,))
        part(verb, ok_labels, TRUE, 'the active member of a union is moved', ptrs, tails=((A(2),), (bt(FALSE),)))
    elif verb in ('compare_instance',):
        part(verb, ok_labels, neg(eq(vc(verb, D0, A(0), A(1)), n0)), 'the active member of a union is %s when the discriminators agree' % does, ptrs)
    else:
        part(verb, ok_labels, TRUE, 'the active member of a union is %s' % does, ptrs)
    if verb in ('construct_instance', 'copy_instance', 'move_instance', 'destroy_instance'):
        for x in pool:
            if x.name in LIFE and x not in used and not (verb == 'move_instance' and x.name == 'destroy_instance' and x.a[0] == D0 and x.a[1] == A(0)):
                C.ob(rule, S, False, 'only the discriminator and the active member of a union are touched', x.e.line, unsure=murky_ev(x.e)); break
        else: C.ob(rule, S, True, 'only the discriminator and the active member of a union are touched')
    if verb == 'construct_instance':
        sl = C.effs(S, 'setlabel')
        for lab, cond in ((F(THIS, 'default_'), neg(eq(F(THIS, 'default_'), F(THIS, 'invalid_value_')))), (F(THIS, 'invalid_value_'), eq(F(THIS, 'default_'), F(THIS, 'invalid_value_')))):
            g = disj(*[x.g for x in sl if x.a[1] == A(0) and x.a[-1] in (lab, F(THIS, 'default_'))])
            C.ob(rule, S, implies(conj(cond, S.normal), g), 'a new union selects its default member, or none', sl[0].e.line if sl else None, unsure=murk)

# ------------------------------------------------------------ values held by one C++ object
STRINGS = {'char': 'STRING_TYPE', 'wchar_t': 'WSTRING_TYPE', 'char16_t': 'STRING16_TYPE'}
def string_classes(C):
    out = []
    for r in C.P.rec:
        if r.startswith(NSP + 'TStringType<'): out.append(r)
    if len(out) < 3: raise Missing('string type classes')
    return out

def prim_classes(C):
    out = sorted(r for r in C.P.rec if r.startswith(NSP + 'PrimitiveType<') and 'basic_string' not in r and '::' not in r[len(NSP):])
    if len(out) < 15: raise Missing('primitive type classes')
    return out

def enum_classes(C):
    out = sorted(r for r in C.P.rec if r.startswith(NSP + 'EnumerationType<'))
    if len(out) < 3: raise Missing('enumeration type classes')
    return out

def src_obj(t, i):
    """t is the object stored at parameter i"""
    return t[0] == 'at' and t[2] == A(i)

def object_values(C):
    rule = 'object-value'
    def cover(S, xs, what, cond=TRUE, exact=True):
        g = disj(*[x.g for x in xs])
        ok = implies(conj(cond, S.normal), g) and (not exact or implies(conj(g, S.normal), cond)) and len(xs) >= 1
        C.ob(rule, S, ok, what, xs[0].e.line if xs else None)
    def dtors(S, i): return [x for x in C.effs(S) if (x.kind == 'dtor' and x.a[0] == A(i)) or (x.kind == 'vcall' and x.name.startswith('~') and x.a[0] == D(A(i)))]
    def anydtor(S): return [x for x in C.effs(S) if x.kind == 'dtor' or (x.kind == 'vcall' and x.name.startswith('~'))]
    for cls in string_classes(C) + [NSP + 'SequenceType', NSP + 'MapType']:
        S = C.run(C.method(cls, 'construct_instance', 1), cls)
        pn = [x for x in C.effs(S, 'pnew') if x.a[0] == A(0)]
        cover(S, pn, 'an empty object is created in the value')
        if cls[len(NSP):] in ('SequenceType', 'MapType'):
            want = ('ctor', D(F(THIS, 'content_')), F(THIS, 'bounds_'))
            C.ob(rule, S, all(x.a[1][:3] == want[:3] or x.a[1][:2] == want[:2] for x in pn), 'the collection is created with its own element type', pn[0].e.line if pn else None)
        S = C.run(C.method(cls, 'copy_instance', 2), cls)
        pn = [x for x in C.effs(S, 'pnew') if x.a[0] == A(0)]
        cover(S, pn, 'the copy is created in the target')
        C.ob(rule, S, all(mentions(x.a[1], lambda t: src_obj(t, 1)) and x.a[1][0] != 'moveof' for x in pn), 'a copy is made from the source object, which is not moved from', pn[0].e.line if pn else None)
        C.ob(rule, S, not anydtor(S), 'copying destroys nothing', anydtor(S)[0].e.line if anydtor(S) else None)
        S = C.run(C.method(cls, 'move_instance', 3), cls)
        pn = [x for x in C.effs(S, 'pnew') if x.a[0] == A(0)]
        cover(S, pn, 'the moved object is created in the target')
        C.ob(rule, S, all(mentions(x.a[1], lambda t: src_obj(t, 1)) for x in pn), 'the target of a move takes the source object', pn[0].e.line if pn else None)
        dt = dtors(S, 0)
        cover(S, dt, 'a move into an initialized value destroys the old object exactly then', node(A(2)))
        C.ob(rule, S, len(anydtor(S)) == len(dt), 'a move destroys only the overwritten object', dt[0].e.line if dt else None)
        C.ob(rule, S, all(d.e.seq < p.e.seq for d in dt for p in pn), 'the old object is destroyed before the new one is created', dt[0].e.line if dt else None)
        S = C.run(C.method(cls, 'destroy_instance', 1), cls)
        cover(S, dtors(S, 0), 'the object is destroyed with the value')
        C.ob(rule, S, len(dtors(S, 0)) == 1, 'the object is destroyed once', None)
    for cls in prim_classes(C) + enum_classes(C):
        S = C.run(C.method(cls, 'construct_instance', 1), cls)
        st = [x for x in C.effs(S) if x.kind in ('store', 'memset', 'pnew') and (x.a[0] == A(0) or src_obj(x.a[0], 0))]
        cover(S, st, 'the value is initialized when it is created')
        for v, n in (('copy_instance', 2), ('move_instance', 3)):
            S = C.run(C.method(cls, v, n), cls)
            st = [x for x in C.effs(S) if (x.kind == 'store' and src_obj(x.a[0], 0) and src_obj(x.a[1], 1) and x.a[0][1] == x.a[1][1]) or (x.kind == 'memcpy' and x.a[:2] == (A(0), A(1))) or (x.kind == 'pnew' and x.a[0] == A(0))]
            cover(S, st, 'the value is %s' % DOES[v])

# ------------------------------------------------------------ storage of sequences and maps
def stores(S, place): return [e for e in S.events if e.kind == 'store' and e.a[0] == place]
OLD = ('new', 'unsigned char', ('u', 'old'), 0)
BLK = F(THIS, 'block_size_')
MEM, CAP, SIZ = F(THIS, 'memory_'), F(THIS, 'capacity_'), F(THIS, 'size_')
NC = add(n1, ('u', 'c'))        # a positive number
ND = add(NC, add(n1, ('u', 'd')))  # a greater one

def elem_type(cls): return D(F(THIS, 'content_'))
def kind_presets(C, cls, kinds=LEAFS):
    """initial stores that fix the kind(s) of the element type"""
    T = elem_type(cls)
    if cls == 'SequenceInstance':
        return [({KINDOF(T): num(C.K[k])}, k in TRIVIAL, k) for k in kinds]
    T1, T2 = D(F(T, 'first_')), D(F(T, 'second_'))
    out = []
    for k1, k2 in (('INT_32_TYPE', 'INT_32_TYPE'), ('STRING_TYPE', 'INT_32_TYPE'), ('INT_32_TYPE', 'STRING_TYPE'), ('STRUCTURE_TYPE', 'SEQUENCE_TYPE'), ('ENUMERATION_TYPE', 'ALIAS_TYPE'), ('ALIAS_TYPE', 'UINT_8_TYPE')):
        out.append(({KINDOF(T1): num(C.K[k1]), KINDOF(T2): num(C.K[k2]), KINDOF(T): num(C.K['PAIR_TYPE'])}, k1 in TRIVIAL and k2 in TRIVIAL, k1 + '/' + k2))
    return out

def released(C, rule, S, cls, old, cap, trivial, kn, cond=TRUE):
    """the block `old` with `cap` constructed slots is given back completely"""
    T = elem_type(cls)
    if not trivial:
        C.must(rule, S, 'vcall', 'destroy_instance', (T, add(old, mul(I0, BLK))), 'every slot of released storage (elements of kind %s) is destroyed' % kn, n=(cap,), g=cond, exact=False)
    de = [x for x in C.effs(S, 'delete') if x.a[0] == old]
    C.ob(rule, S, len(de) == 1 and implies(conj(cond, S.normal), de[0].g) and de[0].name == '[]', 'released storage is deleted once, as an array', de[0].e.line if de else None,
         unsure=any(murky_ev(x.e) for x in C.effs(S, 'delete')))
    ds = [x for x in C.effs(S, 'vcall', {'destroy_instance'}) if mentions(x.a[1], lambda t: t == old)]
    for x in ds:
        C.ob(rule, S, all(x.e.seq < d.e.seq for d in de), 'slots are destroyed before their storage is deleted', x.e.line)

def instance_life(C, cls):
    rule = 'storage-life'
    T = elem_type(cls)
    for pre, trivial, kn in kind_presets(C, cls):
        # destructor
        f = C.method(cls, '~' + cls)
        S = C.run(f, NSP + cls, preset={MEM: OLD, CAP: ND, SIZ: NC, **pre})
        released(C, rule, S, cls, OLD, ND, trivial, kn)
    f = C.method(cls, '~' + cls)
    S = C.run(f, NSP + cls, preset={MEM: n0, CAP: n0, SIZ: n0})
    C.ob(rule, S, not [x for x in C.effs(S, 'delete') if x.a[0] != n0] and not C.effs(S, 'vcall', LIFE), 'an empty collection releases nothing')
    # move constructor: storage changes hands
    f = C.fn(cls + '::' + cls, lambda f: len(f['params']) == 1 and f['params'][0]['t'].endswith('&&'))
    S = C.run(f, NSP + cls)
    for n, _ in C.P.fields(NSP + cls):
        v = S.final.store.get(F(THIS, n))
        C.ob(rule, S, v is not None and v in (F(A(0), n), ('moved', F(A(0), n))), 'a moved collection keeps its %s' % n.rstrip('_').replace('_', ' '), unsure=v is not None and murky(v))
    C.ob(rule, S, S.final.store.get(F(A(0), 'memory_')) == n0, 'the source of a move gives up its storage')
    # copy constructor
    f = C.fn(cls + '::' + cls, lambda f: len(f['params']) == 1 and f['params'][0]['t'].startswith('const ') and f['params'][0]['t'].endswith(cls + ' &'))
    for pre, trivial, kn in kind_presets(C, cls):
        o = lambda n: F(A(0), n)
        TO = D(o('content_'))
        pre2 = {subst(k, {THIS: A(0)}): v for k, v in pre.items()}
        for size, cap in ((NC, NC), (NC, ND)):
            S = C.run(f, NSP + cls, preset={o('memory_'): OLD, o('capacity_'): cap, o('size_'): size, o('block_size_'): vc('memory_size', TO), **pre2})
            copied(C, rule, S, cls, TO, OLD, size, trivial, kn, vc('memory_size', TO))
            for x in C.effs(S, 'delete'):
                C.ob(rule, S, x.a[0] != OLD, 'copying does not release the source', x.e.line)

def cut_copy(C, rule, cls='MapInstance'):
    """a collection made of another one with the same element type, cut to a bound"""
    for f in C.fns(cls + '::' + cls, lambda f: len(f['params']) == 2 and f['params'][0]['t'].startswith('const ') and f['params'][0]['t'].endswith(cls + ' &')):
        for pre, trivial, kn in kind_presets(C, cls):
            o = lambda n: F(A(0), n)
            TO = D(o('content_'))
            pre2 = {subst(k, {THIS: A(0)}): v for k, v in pre.items()}
            for bounds, size, cap, got in ((n0, NC, ND, NC), (ND, NC, NC, NC), (NC, ND, ND, NC)):
                S = C.run(f, NSP + cls, preset={A(1): bounds, o('memory_'): OLD, o('capacity_'): cap, o('size_'): size, o('block_size_'): vc('memory_size', TO), **pre2})
                copied(C, rule, S, cls, TO, OLD, got, trivial, kn + (', unbounded' if bounds == n0 else ', cut' if got != size else ', bounded'), vc('memory_size', TO))

def fresh(C, rule, cls):
    """an empty collection knows its element type and has the storage it records"""
    for f in C.fns(cls + '::' + cls, lambda f: len(f['params']) == 2 and not f['params'][0]['t'].endswith(cls + ' &')):
        for cap in (n0, ND):
            S = C.run(f, NSP + cls, preset={A(1): cap})
            v = final(S, F(THIS, 'content_'))
            own = [x for g, x in leaves(v, S.normal)]
            C.ob(rule, S, bool(own) and all(x in (('hold', A(0)), ('vc', 'clone', A(0)), ('call', 'clone', A(0)), ('shr', A(0))) or mentions(x, lambda z: z == A(0)) and not murky(x) for x in own), 'a fresh collection keeps the type of its elements', unsure=murky(v))
            T = D(v)
            blk = [vc('memory_size', A(0)), vc('memory_size', T)]
            value(C, rule, S, final(S, SIZ), n0, 'a fresh collection is empty')
            mem, c = final(S, MEM), final(S, CAP)
            if cap == n0 and c == n0:
                C.ob(rule, S, mem == n0, 'without capacity there is no storage', unsure=murky(mem) or mem[0] in ('ite', 'new'))
                continue
            news = [x for x in C.effs(S, 'new') if x.a[0] == mem]
            C.ob(rule, S, c in (n0, ND), 'the capacity is what was asked for', unsure=murky(c))
            if c == n0: continue
            C.ob(rule, S, len(news) == 1 and news[0].a[1] in [mul(b, c) for b in blk] and implies(S.normal, news[0].g), 'storage is reserved for the recorded capacity', unsure=mem != n0 and (not news and not C.silent(S) or murky(mem)))
            if news: C.must(rule, S, 'vcall', 'construct_instance', (T, add(mem, mul(I0, [b for b in blk if news[0].a[1] == mul(b, c)][0]) if news[0].a[1] in [mul(b, c) for b in blk] else mem)), 'every slot of reserved storage is constructed', n=(c,), exact=False)

def copied(C, rule, S, cls, T, src, size, trivial, kn, blk):
    mem = S.final.store.get(MEM)
    cap, siz = S.final.store.get(CAP), S.final.store.get(SIZ)
    if mem is None or mem[0] != 'new':
        C.ob(rule, S, mem is not None and mem[0] == 'new', 'a copied collection gets storage of its own', unsure=mem is not None and murky(mem)); return
    C.ob(rule, S, mem != src, 'a copied collection gets storage of its own')
    C.ob(rule, S, siz == size, 'a copied collection has the size of its source', unsure=siz is None or murky(siz))
    fits = [x for x in C.effs(S, 'new') if x.a[0] == mem]
    C.ob(rule, S, len(fits) == 1 and fits[0].a[1] == mul(blk, cap), 'storage is reserved for the recorded capacity', fits[0].e.line if fits else None, unsure=cap is None or murky(cap))
    C.ob(rule, S, lt(cap, siz) == FALSE, 'the capacity is not below the size')
    C.must(rule, S, 'vcall', 'construct_instance', (T, add(mem, mul(I0, blk))), 'every slot of reserved storage is constructed', n=(cap,), exact=False)
    flat = [x for x in C.effs(S, 'memcpy') if x.a[0] == mem]
    if trivial and flat:
        C.ob(rule, S, flat[0].a == (mem, src, mul(size, blk)), 'all elements (of kind %s) are copied' % kn, flat[0].e.line)
        return
    C.ob(rule, S, not flat, 'elements of kind %s are not copied as raw bytes' % kn, flat[0].e.line if flat else None)
    dst = add(mem, mul(I0, blk))
    cp = [x for x in C.effs(S, 'vcall') if x.name in ('copy_instance', 'copy_instance_from_type')]
    ok = [x for x in cp if x.a[0] == T and x.a[1] == dst and x.n == (size,) and x.a[2] in (add(src, mul(I0, blk)), add(src, mul(I0, vc('memory_size', T))))]
    C.ob(rule, S, len(ok) == 1 and implies(S.normal, ok[0].g), 'all elements (of kind %s) are copied' % kn, cp[0].e.line if cp else None, unsure=any(murky_ev(x.e) for x in cp))
    de = [x for x in C.effs(S, 'vcall', {'destroy_instance'}) if x.a[1] == dst]
    C.ob(rule, S, trivial or (len(de) == 1 and de[0].n == (size,) and (not ok or de[0].e.seq < ok[0].e.seq)), 'the constructed slot is destroyed before an element is copied over it', de[0].e.line if de else None)

def P01(C):
    for v in ('construct_instance', 'copy_instance', 'move_instance', 'destroy_instance'):
        lifecycle(C, v)
        union_life(C, v, 'P01')
    object_values(C)
    for cls in ('SequenceInstance', 'MapInstance'):
        instance_life(C, cls)
        fresh(C, 'fresh', cls)
