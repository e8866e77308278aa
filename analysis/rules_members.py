"""P15 members of structures and unions, P16 the alternative a union holds"""
from core import *
import rules_value as V, rules_compat as K
from rules_value import M, D0, members
from rules_layout import SIZEOF
from rules_types import bodies, is_copy, PRIM_KINDS, FLT, ALL
from rules_compat import CTYPE

IX = F(THIS, 'indexes_')
PARENT = F(THIS, 'parent_')
AGG = ('AggregationType', 'StructType', 'UnionType')
MT = 'Member'

# ------------------------------------------------------------------ P15
def index_entries(S, c, muts=('emplace', 'insert', 'operator[]', 'try_emplace', 'insert_or_assign', 'emplace_hint')):
    """[(key, value, Eff)]: what is entered into the map c"""
    out = []
    st = [x for x in C_effs(S, 'store')]
    for x in C_effs(S, 'mut', set(muts)):
        if x.a[0] != c: continue
        if x.name == 'operator[]':
            for y in st:
                if y.a[0] == ('mapat', c, x.a[1]) and y.n == x.n: out.append((x.a[1], y.a[1], y))
        elif len(x.a) == 3: out.append((x.a[1], x.a[2], x))
        elif len(x.a) == 2 and x.a[1][0] == 'mkpair': out.append((x.a[1][1], x.a[1][2], x))
        elif len(x.a) == 2 and x.a[1][0] in ('pair', 'list', 'obj'): out.append((None, None, x))
    return out

def C_effs(S, kind, names=None):
    r = [eff(e) for e in S.events if e.kind == kind and (names is None or e.name in names)]
    for x in r: complete_loops(S, x)
    return r

PUSH = {'push_back', 'emplace_back'}
def pushes(S, c): return [x for x in C_effs(S, 'mut', PUSH) if x.a[0] == c]

def one_member(C, rule, S, m, what, base=None):
    """exactly the member m is added at the end of the members, and found under its name there"""
    base = base or (M, IX)
    nm = name_of(m)
    a, b = final(S, M), final(S, IX)
    C.ob(rule, S, S.normal != FALSE and same(a, ('push', base[0], m), S.normal), what + ': it becomes the last member', unsure=murky(a) or a[0] == 'fin')
    C.ob(rule, S, same(b, ('mset', base[1], nm, size(base[0])), S.normal), what + ': its name leads to its position', unsure=murky(b) or b[0] == 'fin')

def name_of(m):
    if m[0] == 'obj': return dict(x for x in m[2:]).get('name_')
    return F(m, 'name_')

def named(f): return 'Member' in f['params'][0]['t']

def declared(C, rule, S, m, name, type_, what):
    """a member declared with a name and a type"""
    if m[0] != 'obj': return C.ob(rule, S, False, what + ': it is a member of its own', unsure=True)
    d = dict(x for x in m[2:])
    C.ob(rule, S, d['name_'] == name, what + ': it bears the name given', unsure=murky(d['name_']))
    C.ob(rule, S, ref_type(d['type_']) == type_, what + ': it is of the type given', unsure=murky(d['type_']))
    C.ob(rule, S, d['id_'][0] == 'int' and d['id_'][1] < 0 and d['key_'] == ('b', FALSE) and d['optional_'] == ('b', FALSE), what + ': it is not annotated', unsure=any(murky(d[x]) for x in ('id_', 'key_', 'optional_')))

def last_pushed(S):
    a = final(S, M)
    return a[2] if a[0] == 'push' else None

def in_step(C, rule):
    """wherever a member is appended its name is entered with its position, and nothing else changes either"""
    seen = set()
    for c in AGG:
        for q in [q for q in C.P.qn if q == NSP + c or q.startswith(NSP + c + '::')]:
            for f in C.P.qn[q]:
                if f.get('body') is None or f.get('implicit') or f.get('static') or f.get('cls') != NSP + c: continue
                if f.get('const') or is_copy(f, NSP + c) or f['name'].startswith(('operator', '~')): continue
                if (f['qn'], f['line'], len(f['params'])) in seen: continue
                seen.add((f['qn'], f['line'], len(f['params'])))
                S = C.run(f, NSP + c, opaque=tuple(NSP + 'UnionType::' + x for x in ('parse_labels', 'select_case', 'select_default', 'select_disc', 'activate_member')))
                if S.normal == FALSE: continue
                ps, en = pushes(S, M), index_entries(S, IX)
                for x in C_effs(S, 'mut'):
                    if x.a[0] not in (M, IX) or any(x.e is y.e for y in ps) or any(x.e is e[2].e for e in en) or x.name == 'reserve': continue
                    if x.name == 'operator[]' and any(e[0] == x.a[1] for e in en): continue
                    if x.name in ('operator[]', 'back', 'at', 'front', 'begin', 'end', 'find') and x.a[0] == M: continue
                    C.ob(rule, S, False, 'the members of a type only grow: %s' % x.name, x.e.line, unsure=murky_ev(x.e) or x.name not in ('erase', 'clear', 'pop_back', 'operator[]', 'at', 'resize', 'swap', 'insert'))
                for x in C_effs(S, 'store'):
                    if x.a[0] in (IX, M) and f['kind'] == 'ctor': continue
                    p = x.a[0]
                    if p[0] == 'fld' and p[2] in ('name_', 'type_', 'id_', 'key_', 'optional_') and p[1][0] == 'elem' and p[1][1] in walk_places(M, S):
                        C.ob(rule, S, x.a[1] == p, 'a member keeps what it was declared with: %s' % p[2], x.e.line)
                if len(ps) != len(en):
                    C.ob(rule, S, False, 'every member added is entered under its name', ps[0].e.line if ps else en[0][2].e.line, unsure=any(murky_ev(x.e) for x in ps) or any(e[0] is None for e in en))
                    continue
                for x, (k, v, y) in zip(ps, en):
                    nm = name_of(x.a[1])
                    where = [size(z) for z in walk_places(M, S)] + [n0] * (f['kind'] == 'ctor')
                    C.ob(rule, S, k == nm, 'a member is entered under its own name', y.e.line, unsure=k is None or murky(k) or murky(nm))
                    C.ob(rule, S, x.n == y.n and equivalent(x.g, y.g, S), 'a member is entered exactly when it is added', y.e.line, unsure=murky_node(x.g))
                    C.ob(rule, S, v in where, 'a member is entered with its position', y.e.line, unsure=v is None or v[0] not in ('size', 'lin', 'int'))
                if not ps: C.ob(rule, S, True, '%s leaves the members alone' % f['name'])

def equivalent(a, b, S):
    return implies(conj(a, S.normal), b) and implies(conj(b, S.normal), a)

def walk_places(p, S):
    """the ways p reads after loops and unknown calls"""
    out = [p]
    for e in S.events:
        for a in e.a:
            for t in walk(a):
                if t[0] in ('phi', 'out') and t[-1] in (p, p[2]) and t not in out: out.append(t)
    return out

def P15(C):
    C.left_out('annotation', [('Member::key', 1, 0, True, 'a member marked as key is one'), ('Member::optional', 1, 0, True, 'a member marked as optional is one')])
    C.left_out('parent', [('StructType::StructType', 2, 1, 0, 'a structure has no parent unless one is given')])
    rule = 'add-member'
    AG = 'AggregationType::'
    f = C.fn(AG + 'insert_member')
    S = C.run(f)
    one_member(C, rule, S, A(0), 'adding a member')
    h = node(('b', B.atom(('has', IX, F(A(0), 'name_')))))
    C.ob(rule, S, implies(S.normal, neg(h)), 'no name is given to two members', unsure=murky_node(S.normal))
    C.ob(rule, S, implies(neg(h), S.normal), 'a member with a new name is always accepted', unsure=murky_node(S.normal))
    r = [v for g, v, st in S.rets if g != FALSE]
    C.ob(rule, S, r == [elem(M, size(M))], 'the member added is the one handed back', unsure=not r or murky(r[0]))
    p = final(S, PARENT)
    C.ob(rule, S, p == PARENT, 'adding a member does not change the parent')
    for cls in ('StructType',):
        for f in C.fns(cls + '::add_member') + [f for q in sorted(C.P.qn) if q.startswith(NSP + cls + '::add_member<') for f in C.P.qn[q] if f.get('body') is not None]:
            S = C.run(f, NSP + cls)
            if named(f) and len(f['params']) == 1: one_member(C, rule, S, A(0), 'adding a member'); continue
            m = last_pushed(S)
            if m is None: C.ob(rule, S, False, 'adding a member: it becomes the last member', unsure=murky(final(S, M))); continue
            one_member(C, rule, S, m, 'declaring a member')
            declared(C, rule, S, m, A(0), A(1), 'declaring a member')
    S = C.run(C.fn('UnionType::set_discriminator'), NSP + 'UnionType')
    one_member(C, rule, S, A(0), 'adding the discriminator')
    for q in sorted(q for q in C.P.qn if q.startswith(NSP + 'UnionType::add_case_member<')):
        for f in C.P.qn[q]:
            if f.get('body') is None: continue
            S = C.run(f, NSP + 'UnionType')
            if len(f['params']) == 3: one_member(C, rule, S, A(1), 'adding an alternative'); continue
            m = last_pushed(S)
            if m is None: C.ob(rule, S, False, 'adding an alternative: it becomes the last member', unsure=murky(final(S, M))); continue
            one_member(C, rule, S, m, 'declaring an alternative')
            declared(C, rule, S, m, A(1), A(2), 'declaring an alternative')
    in_step(C, 'in-step')
    # derivation
    rule = 'parent'
    for f in C.fns(AG + 'parent', lambda f: len(f['params']) == 1):
        S = C.run(f)
        derived(C, rule, S, A(0), S.normal, M, IX)
        C.ob(rule, S, implies(S.normal, conj(eq(PARENT, NULL), eq(size(M), n0))), 'a parent is only given to a type without parent and members', unsure=murky_node(S.normal) and not mentions_atoms(S.normal, PARENT))
    for f in bodies(C, NSP + 'StructType'):
        if is_copy(f, NSP + 'StructType') or len(f['params']) != 2: continue
        S = C.run(f, NSP + 'StructType')
        non = eq(A(1), NULL)
        a, p = final(S, M), final(S, PARENT)
        C.ob(rule, S, same(a, ('empty',), non) and same(final(S, IX), ('empty',), non), 'a structure without parent starts without members', unsure=murky(a))
        C.ob(rule, S, same(p, NULL, non), 'a structure declared without parent has none', unsure=murky(p))
        derived(C, rule, S, D(A(1)), neg(non), ('empty',), ('empty',))
    S = C.run(C.fn(AG + 'has_parent'))
    decides(C, rule, S, neg(eq(PARENT, NULL)), 'a type has a parent when one was given')
    for f in C.fns(AG + 'parent', lambda f: not f['params']):
        S = C.run(f)
        returns(C, rule, S, [D(PARENT)], 'the parent asked for is the one given')
        C.ob(rule, S, implies(S.normal, neg(eq(PARENT, NULL))), 'asking for the parent of a type without is refused', unsure=murky_node(S.normal))
    # lookups
    rule = 'lookup'
    for f in C.fns(AG + 'member'):
        S = C.run(f)
        if f['params'][0]['t'] == 'unsigned long':
            returns(C, rule, S, elem(M, A(0)), 'a member looked up by position is the one there')
            C.ob(rule, S, implies(S.normal, lt(A(0), size(M))), 'a position without member is refused', unsure=murky_node(S.normal))
            C.ob(rule, S, implies(lt(A(0), size(M)), S.normal), 'every position of a member can be asked for', unsure=murky_node(S.normal))
        else:
            h = B.atom(('has', IX, A(0)))
            returns(C, rule, S, elem(M, ('mapat', IX, A(0))), 'a member looked up by name is the one bearing it')
            C.ob(rule, S, implies(S.normal, h), 'a name no member bears is refused', unsure=murky_node(S.normal))
            C.ob(rule, S, implies(h, S.normal), 'every name of a member can be asked for', unsure=murky_node(S.normal))
    decides(C, rule, C.run(C.fn(AG + 'has_member')), B.atom(('has', IX, A(0))), 'a member exists when its name was entered')
    returns(C, rule, C.run(C.fn(AG + 'members')), M, 'the members listed are all of them')
    S = C.run(C.fn('UnionType::get_case_members'))
    r = [v for g, v, st in S.rets if g != FALSE]
    i = add(I0, n1)
    C.ob(rule, S, len(r) == 1 and r[0] == ('fold', sub(size(M), n1), ('empty',), ('push', ('acc', 0), F(elem(M, i), 'name_'))), 'the alternatives listed are all members but the discriminator, in order', unsure=not r or r[0][0] != 'fold' or murky(r[0]) or r[0][1] not in (sub(size(M), n1), size(M)))
    # what a member was declared with
    rule = 'member'
    for fld_, get, set_ in (('id_', 'get_id', 'id'), ('key_', 'is_key', 'key'), ('optional_', 'is_optional', 'optional'), ('name_', 'name', None), ('type_', 'type', None)):
        S = C.run(C.fn('Member::' + get))
        returns(C, rule, S, D(F(THIS, fld_)) if fld_ == 'type_' else F(THIS, fld_), 'a member tells what it was declared with: %s' % get)
        if set_ is None: continue
        for f in C.fns('Member::' + set_):
            S = C.run(f)
            for g in ('id_', 'key_', 'optional_', 'name_', 'type_', 'offset_'):
                v = final(S, F(THIS, g))
                C.ob(rule, S, v == (A(0) if g == fld_ else F(THIS, g)), 'annotating a member (%s) changes that only' % set_, unsure=murky(v))
            r = [v for g, v, st in S.rets if g != FALSE]
            C.ob(rule, S, r == [THIS], 'annotating a member hands back the member', unsure=not r or murky(r[0]))
    S = C.run(C.fn('Member::has_id'))
    decides(C, rule, S, le(n0, F(THIS, 'id_')), 'a member has an id when one was given')
    ms = bodies(C, NSP + MT) + [f for q in sorted(C.P.qn) if q.startswith(NSP + 'Member::Member<') for f in C.P.qn[q] if f.get('body') is not None]
    for f in ms:
        S = C.run(f, NSP + MT)
        v = {n: final(S, F(THIS, n)) for n in ('name_', 'type_', 'id_', 'key_', 'optional_', 'offset_')}
        if is_copy(f, NSP + MT):
            for n in v: C.ob(rule, S, v[n] == F(A(0), n), 'a copied member is declared alike: %s' % n, unsure=murky(v[n]) or n == 'type_' and v[n][0] != 'fld')
        else: declared(C, rule, S, ('obj', NSP + MT) + tuple(v.items()), A(0), A(1), 'a new member')

def mentions_atoms(g, t): return any(mentions(a, lambda z: z == t) for a in B.support(g))

def derived(C, rule, S, P, g, m0, ix0):
    """the members of P are taken over in order, and P becomes the parent"""
    PM = F(P, 'members_')
    a, b, p = final(S, M), final(S, IX), final(S, PARENT)
    fold = ('fold', size(PM), m0, ('push', ('acc', 0), elem(PM, I0)))
    C.ob(rule, S, g != FALSE and same(a, [fold, PM], conj(g, S.normal)), 'all members of the parent come first, in their order', unsure=murky(a) and not mentions(a, lambda z: z[0] == 'fold'))
    C.ob(rule, S, same(p, [('Ptr', P), ('hold', P)], conj(g, S.normal)), 'the structure derived from is the parent', unsure=murky(p))
    en = [x for x in index_entries(S, IX) if x[2].n]
    ok = len(en) == 1 and en[0][2].n == (size(PM),) and en[0][0] == F(elem(PM, I0), 'name_') or same(b, F(P, 'indexes_'), conj(g, S.normal))
    C.ob(rule, S, ok, 'all members of the parent are found by name', unsure=not en and not C.silent(S) or any(murky_ev(x[2].e) for x in en) and len(en) != 1)

# ------------------------------------------------------------------ P16
LAB, DEF, DV, INV = F(THIS, 'labels_'), F(THIS, 'default_'), F(THIS, 'default_value_'), F(THIS, 'invalid_value_')
UN = NSP + 'UnionType'
ACTIVATE = UN + '::activate_member'
INTEGRAL = tuple(k for k in PRIM_KINDS if k not in FLT)
def has(c, k): return B.atom(('has', c, k))
def label(T, p): return ('label', T, p)
def owner(k): return elem(M, ('mapat', IX, ('mapat', LAB, k)))
def named_by(k): return ('mapat', LAB, k)

def sized(t, T, s):
    """t when a value of the type T takes s bytes"""
    m = {}
    for x in (T if isinstance(T, (list, tuple)) and T and isinstance(T[0], tuple) else [T]):
        m[vc('memory_size', x)] = num(s); m[vc('memory_size', ('rget', x))] = num(s); m[vc('memory_size', RES(x))] = num(s)
    return subst(t, m)
def sized_node(g, T, s):
    return subst_node(g, {vc('memory_size', T): num(s), vc('memory_size', RES(T)): num(s), vc('memory_size', ('rget', T)): num(s)})

def bare(t):
    while t[0] in ('cvt', 'bv') and isinstance(t[-1], tuple): t = t[-1]
    return t

def shrunk(t, x, s):
    """t is x cut to s bytes, as a non-negative number"""
    full = 2 ** (8 * s) - 1
    t = bare(t) if s == 8 else t
    if t == x and s == 8: return True
    if t[0] == 'b' or x[0] == 'b': return t == x
    return t[0] == 'band' and set(map(bare, t[1])) == {num(full), x}

def kinds_of_disc(C, k, via=False):
    return kinds_of(C, D0, k, via)

def kinds_of(C, T, k, via=False):
    return {KINDOF(T): num(C.K['ALIAS_TYPE' if via else k]), KINDOF(RES(T)): num(C.K[k]), KINDOF(('rget', T)): num(C.K[k])}

def labels_given(C, rule):
    for q in sorted(q for q in C.P.qn if q.startswith(UN + '::add_case_member<')):
        for f in C.P.qn[q]:
            if f.get('body') is None or len(f['params']) != 3: continue
            S = C.run(f, UN, preset=kinds_of_disc(C, 'INT_32_TYPE'))
            n = size(A(0))
            x = elem(A(0), I0)
            en = index_entries(S, LAB)
            loop = [e for e in en if e[2].n == (n,)]
            if not loop: raise Missing('the labels of %s' % f['qn'])
            K, v, y = loop[0]
            mine = F(elem(M, size(M)), 'name_'), F(A(1), 'name_')
            for s in (1, 2, 4, 8):
                C.ob(rule, S, shrunk(sized(K, D0, s), x, s), 'a label is kept as wide as the discriminator (%d bytes)' % s, y.e.line, unsure=murky(K))
            C.ob(rule, S, len(loop) == 1 and v in mine, 'a label leads to the alternative it was given for', y.e.line, unsure=murky(v))
            each = TRUE
            for a in B.support(S.normal):
                if a[0] == 'all' and a[1] == n and a[3] == 0 and implies(S.normal, B.atom(a)): each = conj(each, a[2])
            new, ok1, ok2 = neg(has(LAB, K)), neg(eq(K, DV)), neg(eq(K, INV))
            uns = murky_node(S.normal) or each == TRUE and any(a[0] == 'all' for a in B.support(S.normal))
            C.ob(rule, S, implies(each, new), 'no label belongs to two alternatives', unsure=uns)
            C.ob(rule, S, implies(each, ok1) and implies(each, ok2), 'the reserved labels cannot be given', unsure=uns)
            C.ob(rule, S, implies(conj(S.normal, ok1, each), y.g), 'every label given is kept', y.e.line, unsure=murky_node(y.g))
            C.ob(rule, S, implies(S.normal, disj(node(A(2)), neg(eq(n, n0)))), 'an alternative without labels is the default', unsure=murky_node(S.normal))
            C.ob(rule, S, implies(S.normal, disj(neg(node(A(2))), eq(DEF, INV))), 'a union has one default', unsure=murky_node(S.normal))
            fine = conj(conj(conj(new, ok1), ok2), TRUE)
            disc = ('glob', NSP + 'UNION_DISCRIMINATOR')
            good = conj(conj(conj(neg(has(IX, F(A(1), 'name_'))), neg(eq(F(A(1), 'name_'), disc))), conj(disj(node(A(2)), neg(eq(n, n0))), disj(neg(node(A(2))), eq(DEF, INV)))), all_(n, fine, 0))
            C.ob(rule, S, implies(good, S.normal), 'new labels are always accepted', unsure=murky_node(S.normal) or len([a for a in B.support(S.normal) if a[0] == 'all']) != 1)
            # the default
            d = final(S, DEF)
            C.ob(rule, S, same(d, DEF, conj(neg(node(A(2))), S.normal)), 'only the default alternative changes the default', unsure=murky(d))
            for g, t in leaves(d, conj(node(A(2)), S.normal)):
                if g == FALSE: continue
                ok, maydv = labelled(t, K, n, g)
                C.ob(rule, S, ok, 'the default is known by one of its labels, or the reserved one', unsure=murky(t))
                t_ = takes(t, K, n, g)
                C.ob(rule, S, t_ is True, 'a default with labels is known by one of them', unsure=t_ is None or murky(t))
                if maydv:
                    own = [e for e in en if e[0] in (t, DV) and e[2].n == ()]
                    isdv = eq(t, DV)
                    C.ob(rule, S, any(e[1] in mine and implies(conj(g, isdv), e[2].g) for e in own), 'a default without labels is found by the reserved one', own[0][2].e.line if own else None, unsure=any(murky_node(e[2].g) for e in own) and False)
            extra = [e for e in en if e is not loop[0] and not (e[1] in mine and (e[0] == d or e[0] == DV or e[0] in [t for g, t in leaves(d)]))]
            C.ob(rule, S, not extra, 'no other label is entered', extra[0][2].e.line if extra else None, unsure=any(murky_ev(e[2].e) or e[0] is None for e in extra))
            # enumerations
            if f['qn'].endswith('<long>'):
                for via in (False, True):
                    T = RES(D0) if via else D0
                    S2 = C.run(f, UN, preset=kinds_of_disc(C, 'ENUMERATION_TYPE', via))
                    each = TRUE
                    for a in B.support(S2.normal):
                        if a[0] == 'all' and a[1] == n and a[3] == 0 and implies(S2.normal, B.atom(a)): each = conj(each, a[2])
                    for s in (1, 2, 4):
                        g = sized_node(each, D0, s)
                        want = allowed(T, K, s)
                        ok = any(implies(g, sized_node(w, D0, s)) for w in want)
                        C.ob(rule, S2, ok, 'a label of an enumeration (%d bytes) is one of its values' % s, unsure=murky_node(g) or not any(z[0] == 'all' and mentions(z[1], lambda y: y[0] == 'fld' and y[2] == 'values_') for a in B.support(g) for z in walk(a)) and any(mentions(a, lambda z: z[0] == 'fld' and z[2] == 'values_') for a in B.support(g)))

def allowed(T, K, s):
    """K is a value of the enumeration T"""
    vs = [F(D0, 'values_')] if T == D0 else [F(RES(D0), 'values_'), F(('rget', D0), 'values_')]
    out = []
    for v in vs:
        for d in (0, 1):
            for k in (K, ('cvt', 8 * s, K)):
                out.append(neg(all_(size(v), neg(eq(k, F(elem(v, ('iv', d)), 'second'))), d)))
    return out

def labelled(t, K, n, g):
    """(t is one of the labels given or the reserved one, it may be the reserved one)"""
    if t == DV: return True, True
    at0 = subst(K, {I0: n0})
    if t == at0: return implies(g, neg(eq(n, n0))), False
    if t[0] == 'fold' and t[1] == n:
        body = [x for _, x in leaves(t[3])]
        return t[2] == DV and all(x in (('acc', 0), K) for x in body), True
    if t[0] == 'ite': 
        a, b = labelled(t[2], K, n, conj(g, t[1])), labelled(t[3], K, n, conj(g, neg(t[1])))
        return a[0] and b[0], a[1] or b[1]
    return False, True

def takes(t, K, n, g):
    """a label is taken as the default's while it has none (None: unknown)"""
    if t[0] == 'ite':
        a, b = takes(t[2], K, n, conj(g, t[1])), takes(t[3], K, n, conj(g, neg(t[1])))
        return False if False in (a, b) else None if None in (a, b) else True
    if g == FALSE: return True
    if t == DV: return True if implies(g, eq(n, n0)) else None if murky_node(g) else False
    if t[0] != 'fold': return True
    ok = True
    for gl, x in leaves(subst(t[3], {('acc', 0): DV}), neg(eq(K, DV))):
        if gl == FALSE or x == K: continue
        if x != DV or murky_node(gl) or any(mentions(a, lambda z: z[0] == 'acc') for a in B.support(gl)): ok = None
        elif ok: ok = False
    return ok

def set_label(C, S): return C_effs(S, 'setlabel')

def switching(C, rule):
    for f in C.fns('UnionType::select_disc'):
        three = len(f['params']) == 3
        inst = A(1) if three else A(0)
        x = label(A(0), A(2)) if three else A(1)
        S = C.run(f, UN)
        st = set_label(C, S)
        if len(st) != 1: C.ob(rule, S, False, 'the discriminator is set once', unsure=True); continue
        K = st[0].a[2]
        G = st[0].g
        L = label(D0, inst)
        HL, HK = has(LAB, L), has(LAB, K)
        C.ob(rule, S, st[0].a[1] == inst, 'the discriminator set is that of the union', st[0].e.line)
        for s in (1, 2, 4, 8):
            C.ob(rule, S, shrunk(sized(K, D0, s), x, s), 'the discriminator takes the value given (%d bytes)' % s, st[0].e.line, unsure=murky(K) or K[0] == 'after')
        C.ob(rule, S, implies(conj(G, S.normal), disj(HK, neg(eq(DEF, INV)))), 'a value that is no label is not set when there is no default', st[0].e.line, unsure=murky_node(G))
        keep = eq(named_by(K), named_by(L))      # looking up what is not there throws
        C.ob(rule, S, implies(conj(G, HL), keep), 'setting the discriminator keeps the alternative selected', st[0].e.line, unsure=murky_node(G))
        C.ob(rule, S, implies(conj(conj(HL, HK), eq(named_by(K), named_by(L))), disj(G, neg(S.normal))) and implies(conj(conj(HL, HK), eq(named_by(K), named_by(L))), S.normal), 'every label of the alternative selected can be set', st[0].e.line, unsure=murky_node(G) or murky_node(S.normal))
        m = owner(K)
        h = C.must(rule, S, 'vcall', 'construct_instance', (D(F(m, 'type_')), add(inst, F(m, 'offset_'))), 'with nothing selected, the alternative of the new label is constructed', g=conj(conj(neg(HL), HK), G), exact=True)
        C.only(rule, S, 'vcall', {'construct_instance', 'destroy_instance', 'copy_instance', 'move_instance'}, h, 'setting the discriminator touches an alternative')
        t = truth(S)
        C.ob(rule, S, implies(conj(t, S.normal), G) and implies(conj(G, S.normal), t), 'success is told exactly when the discriminator is set', unsure=murky_node(t) or murky_node(G))
    # selecting by name
    f = C.fn('UnionType::activate_member')
    S = C.run(f, UN, assume=neg(eq(A(1), n0)))
    L = label(D0, A(0))
    HL, o, new = has(LAB, L), owner(L), D(A(1))
    me = disj(eq(('addr', o), A(1)), FALSE)
    C.ob(rule, S, S.normal != FALSE, 'an alternative is activated')
    h = C.must(rule, S, 'vcall', 'destroy_instance', (D(F(o, 'type_')), add(A(0), F(o, 'offset_'))), 'the alternative selected before is released, unless it is the same', g=conj(HL, neg(me)))
    h += C.must(rule, S, 'vcall', 'construct_instance', (D(F(new, 'type_')), add(A(0), F(new, 'offset_'))), 'the new alternative is constructed, unless it is the same', g=neg(conj(HL, me)))
    C.only(rule, S, 'vcall', {'construct_instance', 'destroy_instance', 'copy_instance', 'move_instance'}, h, 'activating touches another alternative')
    order = [e.name for e in S.events if e.kind == 'vcall' and e.name in ('destroy_instance', 'construct_instance')]
    C.ob(rule, S, order != ['construct_instance', 'destroy_instance'], 'the old alternative is released before the new one is constructed')
    for name, nparams in (('select_case', 2), ('select_default', 1)):
        for f in C.fns('UnionType::' + name):
            S = C.run(f, UN, opaque=(ACTIVATE,))
            ac = [x for x in C_effs(S, 'call') if x.name == 'activate_member']
            st = set_label(C, S)
            if len(ac) != 1 or len(st) != 1: C.ob(rule, S, False, '%s: one alternative is activated and its label set' % name, unsure=len(ac) != 0 and len(st) != 0); continue
            a, s = ac[0], st[0]
            v = s.a[2]
            fresh = lambda t: ('fld', THIS, t[2]) if t[0] == 'out' and len(t) == 3 and isinstance(t[2], str) else t
            if v[0] == 'out': v = fresh(v)
            C.ob(rule, S, a.a[1] == A(0) and s.a[1] == A(0), '%s: both on the union given' % name, s.e.line)
            C.ob(rule, S, a.n == s.n and equivalent(a.g, s.g, S), '%s: the label is set exactly when the alternative is activated' % name, s.e.line, unsure=murky_node(a.g))
            C.ob(rule, S, a.e.seq < s.e.seq if hasattr(a.e, 'seq') else [e for e in S.events if e is a.e or e is s.e][0] is a.e, '%s: the old alternative is looked up before the label changes' % name, s.e.line)
            if name == 'select_case':
                j = next((z[2] for z in walk(v) if z[0] == 'elem' and z[1] == LAB), I0)
                it = elem(LAB, j)
                m = elem(M, ('mapat', IX, F(it, 'second')))
                hit = disj(eq(F(it, 'second'), A(1)), eq(F(m, 'name_'), A(1)))
                C.ob(rule, S, v == F(it, 'first') and (s.n == (size(LAB),) if j == I0 else s.n == ()), 'select_case: the label set belongs to the alternative', s.e.line, unsure=murky(v) or v[0] not in ('fld', 'after', 'out', 'int', 'lin') )
                C.ob(rule, S, a.a[2] in (('addr', m), ('addr', elem(M, ('mapat', IX, A(1))))), 'select_case: the alternative activated is the one the label belongs to', a.e.line, unsure=murky(a.a[2]))
                found = s.g if j[0] != 'fiv' else subst_node(j[2], {('iv', j[3]): j})      # what the search stopped at
                C.ob(rule, S, implies(found, hit), 'select_case: the alternative selected bears the name given', s.e.line, unsure=murky_node(s.g))
                t = truth(S)
                ex = neg(all_(size(LAB), neg(s.g), 0))
                C.ob(rule, S, FALSE not in (t,), 'select_case: success can be told')
            else:
                m = owner(DEF)
                C.ob(rule, S, v == DEF, 'select_default: the label set is that of the default', s.e.line, unsure=murky(v))
                C.ob(rule, S, a.a[2] == ('addr', m), 'select_default: the alternative activated is the default', a.e.line, unsure=murky(a.a[2]))
                C.ob(rule, S, implies(s.g, neg(eq(DEF, INV))), 'select_default: only a union with a default has one to select', s.e.line)
                decides(C, rule, S, neg(eq(DEF, INV)), 'select_default: success is told exactly when there is a default')
    for f in C.fns('UnionType::get_current_selection'):
        S = C.run(f, UN)
        L = label(D0, A(0))
        returns(C, rule, S, owner(L), 'the alternative selected is the one the discriminator is a label of')
        C.ob(rule, S, implies(S.normal, has(LAB, L)), 'a discriminator that is no label selects nothing', unsure=murky_node(S.normal))

def tables(C, rule):
    S = C.run(C.fn('UnionType::get_labels'), UN)
    it = elem(LAB, I0)
    cond = conj(eq(F(it, 'second'), A(0)), neg(eq(F(it, 'first'), DV)))
    r = [v for g, v, st in S.rets if g != FALSE]
    want = ('fold', size(LAB), ('empty',), ite(cond, ('push', ('acc', 0), F(it, 'first')), ('acc', 0)))
    C.ob(rule, S, r == [want], 'the labels of an alternative are all those given for it', unsure=len(r) != 1 or r[0][0] != 'fold' or murky(r[0]))
    some = neg(eq(DEF, INV))
    S = C.run(C.fn('UnionType::get_default'), UN)
    returns(C, rule, S, named_by(DEF), 'the default is the alternative of its label', some)
    returns(C, rule, S, ('str', ''), 'a union without default has none', neg(some))
    S = C.run(C.fn('UnionType::is_default'), UN)
    decides(C, rule, S, conj(some, eq(named_by(DEF), A(0))), 'an alternative is the default when it was declared so')
    for k in ALL:
        for via in (False, True) if k != 'ALIAS_TYPE' else ():
            T = A(0)
            S = C.run(C.fn('UnionType::check_discriminator'), UN, preset=kinds_of(C, T, k, via))
            t = truth(S)
            if via and t in [neg(eq(('call', 'check_discriminator', THIS, r), n0)) for r in (RES(T), ('rget', T))]: C.ob(rule, S, True, 'a discriminator behind an alias is judged by the type aliased'); continue
            C.ob(rule, S, t == (TRUE if k in INTEGRAL + ('ENUMERATION_TYPE',) else FALSE), 'a discriminator is a whole number, a character, a boolean or an enumeration: %s' % k, unsure=t not in (TRUE, FALSE))
    for f in bodies(C, UN):
        if is_copy(f, UN): continue
        S = C.run(f, UN, preset={KINDOF(A(1)): num(C.K['INT_32_TYPE'])})
        v, i, d, l = (final(S, x) for x in (DV, INV, DEF, LAB))
        for s in (1, 2, 4, 8):
            a, b, c = (sized(x, A(1), s) for x in (v, i, d))
            whole = a[0] == b[0] == 'int'
            C.ob(rule, S, whole and a != b and 0 <= a[1] < 2 ** (8 * s) and 0 <= b[1] < 2 ** (8 * s), 'the reserved labels differ and fit the discriminator (%d bytes)' % s, unsure=not whole)
            C.ob(rule, S, c == b, 'a new union has no default', unsure=not whole or murky(c))
        C.ob(rule, S, l == ('empty',) or l == LAB, 'a new union has no labels', unsure=murky(l))
        for k in ('FLOAT_32_TYPE', 'FLOAT_64_TYPE', 'FLOAT_128_TYPE', 'STRUCTURE_TYPE', 'STRING_TYPE', 'SEQUENCE_TYPE'):
            S = C.run(f, UN, preset={KINDOF(A(1)): num(C.K[k])})
            C.ob(rule, S, S.normal == FALSE, 'a %s is refused as discriminator' % k, unsure=murky_node(S.normal))
        for k in INTEGRAL + ('ENUMERATION_TYPE',):
            S = C.run(f, UN, preset={KINDOF(A(1)): num(C.K[k])})
            C.ob(rule, S, S.normal == TRUE, 'a %s is accepted as discriminator' % k, unsure=murky_node(S.normal))
            m = last_pushed(S)
            C.ob(rule, S, m is not None and m[0] == 'obj' and ref_type(dict(x for x in m[2:])['type_']) == A(1), 'the first member of a union is its discriminator', unsure=m is None or m[0] != 'obj')

def discriminator(C, rule):
    wr = [f for f in C.fns('UnionType::current_label') if len(f['params']) == 2 and not f['params'][0]['t'].startswith('const')]
    rd = [f for f in C.fns('UnionType::current_label') if len(f['params']) == 2 and f['params'][0]['t'].startswith('const')]
    fr = [f for f in C.fns('UnionType::current_label') if len(f['params']) == 3]
    if not wr or not rd: raise Missing('the accessors of the discriminator')
    for k in INTEGRAL + ('ENUMERATION_TYPE',):
        for via in (False, True):
            for s in ((SIZEOF[CTYPE[k][0]],) if k in CTYPE else (1, 2, 4)):
                what = '%s%s%s' % (k, ' behind an alias' if via else '', ' of %d bytes' % s if k not in CTYPE else '')
                S = C.run(wr[0], UN, preset=kinds_of_disc(C, k, via))
                st = [(x, sized_node(x.g, D0, s)) for x in C_effs(S, 'store')]
                st = [x for x, g in st if g != FALSE]
                for x in st:
                    z = x.a[0]
                    if z[0] == 'at' and z[2] == A(0) and SIZEOF.get(z[1], 0) > s: C.ob(rule, S, False, 'nothing is written beyond the discriminator: %s' % what, x.e.line, unsure=murky_node(x.g))
                ok = len(st) == 1 and st[0].a[0][0] == 'at' and st[0].a[0][2] == A(0) and SIZEOF.get(st[0].a[0][1]) == s and sized_node(st[0].g, D0, s) == TRUE
                val, w = (st[0].a[1], True) if len(st) == 1 else (n0, True)
                while val[0] == 'cvt': w = w and abs(val[1]) >= 8 * s; val = val[2]
                C.ob(rule, S, ok and w and val in (A(1), ('bv', node(A(1)))), 'the discriminator is stored in its own width: %s' % what, st[0].e.line if st else None, unsure=len(st) != 1 and not (not st and C.silent(S)) or any(murky_ev(x.e) for x in st))
                C.ob(rule, S, S.normal == TRUE, 'a discriminator of kind %s can be stored' % what, unsure=murky_node(S.normal))
                S = C.run(rd[0], UN, preset=kinds_of(C, A(0), k, via))
                ok, uns, some = True, False, FALSE
                for g, v, _ in S.rets:
                    g = sized_node(g, A(0), s)
                    if g == FALSE or v is None: continue
                    for gl, t in leaves(sized(v, A(0), s), g):
                        if via and t in [x for r in (RES(A(0)), ('rget', A(0))) for x in (label(r, A(1)), ('call', 'current_label', THIS, r, A(1)))]: some = disj(some, gl); continue
                        some = disj(some, gl)
                        at = [z for z in walk(t) if z[0] == 'at']
                        uns = uns or murky(t)
                        good = len(at) == 1 and at[0][2] == A(1) and SIZEOF.get(at[0][1]) == s
                        x = t
                        while x[0] == 'cvt': good = good and abs(x[1]) >= 8 * s; x = x[2]
                        uns = uns or x[0] not in ('at', 'band', 'cvt', 'bv', 'int')
                        ok = ok and good and (x[0] == 'band' and shrunk(x, at[0], s) or x == at[0] and (s == 8 or at[0][1].startswith('unsigned') or at[0][1] in ('char16_t', 'bool')))
                C.ob(rule, S, ok and some == TRUE, 'the discriminator is read as it was stored: %s' % what, unsure=uns or murky_node(some))
    C.ob(rule, rd[0], True, 'the discriminator lies first')

INTEGERS = {'INT_8_TYPE': -8, 'UINT_8_TYPE': 8, 'INT_16_TYPE': -16, 'UINT_16_TYPE': 16, 'INT_32_TYPE': -32, 'UINT_32_TYPE': 32, 'INT_64_TYPE': -64, 'UINT_64_TYPE': 64}
STRTO = ('strtoll', 'strtoull', 'strtol', 'strtoul')
def spelled(C, rule):
    """a label given as text stands for the value it spells in the type of the discriminator"""
    DT = D(F(elem(M, n0), 'type_'))
    X = elem(A(0), I0)
    DFL = eq(X, ('str', 'default'))
    find = lambda x, t: ('std', 'basic_string::find', x, ('str', t), n0)
    base = ite(disj(eq(find(X, '0x'), n0), eq(find(X, '0X'), n0)), num(16), ite(eq(find(X, '0'), n0), num(8), num(10)))
    def number(v, w):
        """v is the number X spells, kept to at least w bits (negative: signed)"""
        while v[0] == 'cvt':
            if abs(v[1]) < abs(w) or w > 0 and v[1] < 0 and -v[1] <= w < 64 or w < 0 and 0 < v[1] < 64: return False
            v = v[2]
        return v[0] == 'std' and v[1] in (('strtoull', 'strtoul') if w == 64 else STRTO) and v[2] == ('cstr', X) and v[3] == n0 and (v[4] == n0 or same(v[4], base))
    known = lambda v: any(z[0] == 'std' and z[1] in STRTO for z in walk(v)) and not murky(v)
    for f in C.fns('UnionType::parse_labels'):
        for al, T in (('', DT), ('aliased ', ('rget', DT))):
            for k in list(INTEGERS) + ['BOOLEAN_TYPE', 'CHAR_8_TYPE', 'CHAR_16_TYPE', 'WIDE_CHAR_TYPE', 'ENUMERATION_TYPE']:
                S = C.run(f, UN, preset={KINDOF(DT): num(C.K[k])} if not al else {KINDOF(DT): num(C.K['ALIAS_TYPE']), KINDOF(T): num(C.K[k])})
                out = [e for e in C_effs(S, 'mut') if e.name in ('emplace_back', 'push_back') and e.a[0] == A(1)]
                w = '%s%s label' % (al, k)
                un = not out or any(murky_node(e.g) for e in out)
                once = all(e.n == (size(A(0)),) for e in out) and all(conj(a.g, b.g) == FALSE for i, a in enumerate(out) for b in out[:i]) and all(implies(e.g, neg(DFL)) for e in out)
                C.ob(rule, S, bool(out) and once, '%s: every text but "default" gives one label' % w, unsure=un)
                got = disj(*[e.g for e in out]) if out else FALSE
                V = [(g, v) for e in out for g, v in leaves(e.a[1], e.g)]
                uv = not V or any(murky(v) for _, v in V)
                if k in INTEGERS:
                    C.ob(rule, S, implies(neg(DFL), got), '%s: every number is taken' % w, unsure=un)
                    C.ob(rule, S, bool(V) and all(number(v, INTEGERS[k]) for _, v in V), '%s: the label is the number its text spells, in whatever base' % w, unsure=not all(known(v) for _, v in V))
                elif k == 'BOOLEAN_TYPE':
                    for t, n in (('TRUE', n1), ('FALSE', n0)):
                        g = eq(X, ('str', t))
                        C.ob(rule, S, implies(conj(g, neg(DFL)), got) and bool(V) and all(v == n for h, v in V if conj(h, g) != FALSE and implies(h, g)) and any(v == n for _, v in V), '%s: %s is %d' % (w, t, n[1]), unsure=un or any(v[0] not in ('int', 'b', 'bv') for _, v in V))
                    tf = disj(eq(X, ('str', 'TRUE')), eq(X, ('str', 'FALSE')))
                    C.ob(rule, S, implies(got, tf) or any(a[0] == 'all' and a[1] == size(A(0)) and implies(S.normal, B.atom(a)) and implies(a[2], disj(DFL, tf)) for a in B.support(S.normal)), '%s: nothing but TRUE and FALSE is one' % w, unsure=un)
                elif k == 'ENUMERATION_TYPE':
                    nm = [(g, v) for g, v in V if v[0] == 'mapat' or mentions(v, lambda z: z[0] == 'mapat')]
                    ok = bool(nm) and len(nm) < len(V) and all(strip_cvt(v) == ('mapat', F(T, 'values_'), X) for _, v in nm) and all(number(v, 32) for g, v in V if (g, v) not in nm)
                    num_ = next((z for g, v in V if (g, v) not in nm for z in walk(v) if z[0] == 'std' and z[1] in STRTO), None)
                    ok = ok and num_ is not None and all(implies(g, eq(num_, n0)) for g, v in nm)
                    ft = {z for g, v in V for a in B.support(g) for z in walk(a) if z[:2] == ('std', 'basic_string::find') and z[3:] == (('str', '*'), n0) and z[2][:3] == ('std', 'std::regex_replace', X)}
                    if len(ft) == 1 and num_ is not None:      # a text with a letter or an underscore in it is a name
                        ft = ft.pop()
                        asked = eq(num_, n0)
                        C.ob(rule, S, all(subst_node(g, {ft: num(2 ** 64 - 1)}) == FALSE for g, v in nm), '%s: a text without letters is no name' % w, unsure=uv)
                        C.ob(rule, S, all(conj(asked, subst_node(g, {ft: n0})) == FALSE for g, v in V if (g, v) not in nm), '%s: the name of an enumerator is looked up' % w, unsure=uv)
                    for e in S.events:
                        if e.kind != 'cast' or not (e.cls or '').startswith(NSP + 'EnumerationType<'): continue
                        t = e.cls.split('<')[1].rstrip('>').strip()
                        n = {'unsigned char': 1, 'unsigned short': 2, 'unsigned int': 4}.get(t)
                        sz = {z for a in B.support(e.g) for z in walk(a) if z[0] == 'vc' and z[1] == 'memory_size' and z[2] == e.a[0]}
                        if n and sz: C.ob(rule, S, all(subst_node(e.g, {z: num(m)}) == FALSE for z in sz for m in (1, 2, 4) if m != n), '%s: an enumeration of %d bytes is read as one' % (w, n), e.line, unsure=murky_ev(e))
                    C.ob(rule, S, ok, '%s: the label is the number its text spells, or the value of the enumerator it names' % w, unsure=uv or num_ is None or not nm and any(v[0] in ('call', 'vc', 'std') and v[1] not in STRTO for _, v in V))
                else:
                    one = eq(size(X), n1)
                    for g, v in [(conj(g, c), v) for g, v in V for c in (one, neg(one))]:
                        if g == FALSE: continue
                        v = strip_cvt(v)
                        i = v[2] if v[0] == 'elem' else None
                        ok = i == n0 if implies(g, one) else i is not None and i[0] == 'lin' and dict(i[1]).get(()) == 1 and mentions(i, lambda z: z[0] == 'std' and z[1] == 'basic_string::find' and z[3:5] == (('str', "'"), n0))
                        if k == 'CHAR_8_TYPE': ok = ok and v[1] == X
                        C.ob(rule, S, ok, '%s: the label is the character alone or the one quoted' % w, unsure=v[0] != 'elem' or i is None or i[0] not in ('int', 'lin', 'std'))
        S = C.run(f, UN, preset={KINDOF(DT): num(C.K['INT_32_TYPE'])})
        for g, v, st in S.rets:
            ok, un = v[0] == 'fold' and v[1] == size(A(0)) and v[2] in (('b', FALSE), n0), v[0] not in ('fold', 'b', 'int')
            if ok:
                for h, x in leaves(v[3]):
                    if x == ('acc', 0): ok = ok and conj(h, conj(DFL, nophi(h))) == FALSE
                    else: ok = ok and x in (('b', TRUE), n1) and implies(h, DFL)
                    un = un or murky(x)
            C.ob(rule, S, ok, 'a default is told exactly when one of the texts is "default"', unsure=un)

def nophi(g):
    r = TRUE
    for a in B.support(g):
        if a[0] == 'eq' and a[1][0] == 'phi': r = conj(r, B.atom(a))
    return r
def strip_cvt(v):
    while v[0] == 'cvt': v = v[2]
    return v

def access(C, rule):
    for f in C.fns('WritableDynamicDataRef::d'):
        S = C.run(f, opaque=(UN + '::select_disc',))
        cl = [x for x in C_effs(S, 'call') if x.name == 'select_disc']
        T = D(F(THIS, 'type_'))
        C.ob(rule, S, len(cl) == 1 and F(THIS, 'instance_') in cl[0].a and ref_is(cl[0].a[0], T) and implies(S.normal, cl[0].g), 'setting the discriminator of a value sets that of the value', unsure=not cl and not C.silent(S))
        if 'ReadableDynamicDataRef' in f['params'][0]['t']:
            C.ob(rule, S, len(cl) == 1 and F(A(0), 'instance_') in cl[0].a and any(ref_is(a, D(F(A(0), 'type_'))) for a in cl[0].a), 'the discriminator takes the value given', unsure=not cl and not C.silent(S))
        else: C.ob(rule, S, len(cl) == 1 and cl[0].a[-1] == A(0), 'the discriminator takes the value given', unsure=not cl and not C.silent(S))
        C.ob(rule, S, implies(S.normal, is_kind(T, C.K['UNION_TYPE'])), 'only unions have a discriminator', unsure=murky_node(S.normal))
        others = [x for x in C_effs(S, 'setlabel')]
        C.ob(rule, S, not others, 'the discriminator is set under the control of the union only', others[0].e.line if others else None)
    for f in C.fns('ReadableDynamicDataRef::current_case'):
        S = C.run(f, preset={KINDOF(D(F(THIS, 'type_'))): num(C.K['UNION_TYPE'])}, opaque=(UN + '::get_current_selection',))
        cl = [x for x in C_effs(S, 'call') if x.name == 'get_current_selection']
        r = [v for g, v, st in S.rets if g != FALSE]
        C.ob(rule, S, len(r) == 1 and mentions(r[0], lambda z: z[0] == 'call' and z[1] == 'get_current_selection' and F(THIS, 'instance_') in z), 'the current case is the alternative selected', unsure=len(r) != 1)
    for f in C.fns('ReadableDynamicDataRef::operator_at_impl', lambda f: len(f['params']) == 2 and 'basic_string' in f['params'][0]['t']):
        T = D(F(THIS, 'type_'))
        S = C.run(f, preset={KINDOF(T): num(C.K['UNION_TYPE']), A(1): ('b', FALSE)}, opaque=(UN + '::select_case', UN + '::get_current_selection'))
        cl = [x for x in C_effs(S, 'call') if x.name == 'select_case']
        C.ob(rule, S, len(cl) == 1 and implies(S.normal, cl[0].g) and F(THIS, 'instance_') in cl[0].a and A(0) in cl[0].a, 'writing to an alternative selects it', unsure=False)
        S = C.run(f, preset={KINDOF(T): num(C.K['UNION_TYPE']), A(1): ('b', TRUE)}, opaque=(UN + '::select_case', UN + '::get_current_selection'))
        cl = [x for x in C_effs(S, 'call') if x.name == 'select_case']
        C.ob(rule, S, not cl, 'reading an alternative selects nothing', cl[0].e.line if cl else None)
        sel = [t for a in B.support(S.normal) for t in walk(a) if t[0] == 'call' and t[1] == 'get_current_selection' and F(THIS, 'instance_') in t]
        ok = any(implies(S.normal, eq(A(0), F(t, 'name_'))) for t in sel)
        C.ob(rule, S, ok, 'reading another alternative than the selected one is refused', unsure=bool(sel) and not any(a[0] == 'eq' and mentions(a, lambda z: z == A(0)) for a in B.support(S.normal)))

def ref_is(t, T):
    return t == T or t == ('addr', T) or D(t) == T

def P16(C):
    C.left_out('labels', [('UnionType::add_case_member', n, n - 1, False, 'an alternative is the default one only when it is said to be') for n in (3, 4)])
    labels_given(C, 'labels')
    switching(C, 'switch')
    tables(C, 'table')
    discriminator(C, 'discriminator')
    access(C, 'access')
    spelled(C, 'spelled')
    for verb in ('construct_instance', 'copy_instance', 'move_instance', 'destroy_instance'): V.union_life(C, verb, 'P16')
    C.borrow([K.from_type], lambda w: w.startswith('UnionType::'))
