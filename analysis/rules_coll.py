"""P17 enumerations, P18 maps, P19 sequences"""
from core import *
import rules_value as V, rules_access as A_, rules_types as T_, rules_compat as K_, rules_layout as L_
from rules_value import M, enum_classes
from rules_layout import SIZEOF
from rules_members import C_effs, index_entries, equivalent, allowed, has

VS, NX = F(THIS, 'values_'), F(THIS, 'next_value_')
BASE_E = 'EnumeratedType<'

def targ_of(cls): return cls[cls.index('<') + 1:cls.rindex('>')]

def value_in(vs, x):
    """one of the entries of vs has the value x"""
    return neg(all_(size(vs), neg(eq(F(elem(vs, I0), 'second'), x)), 0))

def own(C, cls, name, n=None, pred=None):
    """the functions called name that a type of the class cls has, its own or inherited"""
    t = targ_of(cls)
    out = []
    for q in (cls, NSP + 'EnumeratedType<%s>' % t):
        out += [f for f in C.P.qn.get(q + '::' + name, []) if f.get('body') is not None and not f.get('implicit') and (n is None or len(f['params']) == n) and (pred is None or pred(f))]
        if out: return out
    raise Missing(cls + '::' + name)

# ------------------------------------------------------------------ P17
def foreign(g, known):
    """the guard rests on fields of this besides the known ones"""
    return any(mentions(a, lambda z: z[0] == 'fld' and z[1] == THIS and z[2] not in known) for a in B.support(g))

def P17(C):
    for cls in enum_classes(C):
        s = SIZEOF[targ_of(cls)]
        known = ('values_', 'next_value_', 'name_', 'kind_')
        for f in own(C, cls, 'add_enumerator'):
            rule = 'declaring'
            S = C.run(f, cls)
            x = A(1) if len(f['params']) == 2 else NX
            uns = murky_node(S.normal)
            full = conj(neg(eq(size(VS), n0)), eq(NX, n0))
            h = has(VS, A(0))
            C.ob(rule, S, implies(S.normal, neg(h)), 'a name is declared once', unsure=uns)
            C.ob(rule, S, implies(S.normal, le(NX, x)), 'a value follows the last one', unsure=uns or foreign(S.normal, known))
            C.ob(rule, S, implies(S.normal, neg(full)), 'no value follows the largest one', unsure=uns or foreign(S.normal, known))
            C.ob(rule, S, implies(conj(conj(neg(h), le(NX, x)), neg(full)), S.normal), 'a new name with a following value is accepted', unsure=uns)
            a, b = final(S, VS), final(S, NX)
            C.ob(rule, S, same(a, ('mset', VS, A(0), x), S.normal), 'the name is entered with its value', unsure=murky(a))
            nx = add(x, n1)
            C.ob(rule, S, same(b, [('cvt', 8 * s, nx), nx], S.normal), 'the next value is the one after', unsure=murky(b))
            for st in C_effs(S, 'throw'):
                pass
            first = [e for e in S.events if e.kind == 'mut' and e.a[0] == VS or e.kind == 'store' and e.a[0] in (VS, NX)]
            for e in first:
                g = eff(e).g
                C.ob(rule, S, implies(g, S.normal), 'a declaration refused leaves the enumeration as it was', e.line, unsure=murky_node(g) or murky_node(S.normal))
            r = [v for g, v, st in S.rets if g != FALSE]
            C.ob(rule, S, r == [THIS], 'declaring hands back the enumeration', unsure=not r or murky(r[0]))
        rule = 'start'
        for f in T_.bodies(C, cls):
            S = C.run(f, cls)
            a, b = final(S, VS), final(S, NX)
            if T_.is_copy(f, cls):
                C.ob(rule, S, a == F(A(0), 'values_') and b == F(A(0), 'next_value_'), 'a copy has the enumerators of the original', unsure=murky(a) or murky(b))
                continue
            C.ob(rule, S, a == ('empty',), 'a new enumeration has no enumerators', unsure=murky(a))
            C.ob(rule, S, b == n0, 'the first value is zero', unsure=murky(b))
        rule = 'lookup'
        decides(C, rule, C.run(own(C, cls, 'has_enumerator')[0], cls), has(VS, A(0)), 'a name is an enumerator when it was declared')
        S = C.run(own(C, cls, 'value')[0], cls)
        returns(C, rule, S, ('mapat', VS, A(0)), 'the value of a name is the one declared')
        C.ob(rule, S, implies(S.normal, has(VS, A(0))), 'the value of an unknown name is refused', unsure=murky_node(S.normal))
        C.ob(rule, S, implies(has(VS, A(0)), S.normal), 'the value of every name can be asked', unsure=murky_node(S.normal))
        f = own(C, cls, 'is_allowed_value')[0]
        S = C.run(f, cls)
        decides(C, rule, S, value_in(VS, A(0)), 'a value is allowed when a name has it')
        full_width(C, rule, S, f, s)
        f = own(C, cls, 'enumerator')[0]
        S = C.run(f, cls)
        full_width(C, rule, S, f, s)
        some = value_in(VS, A(0))
        for g, v, st in S.rets:
            for gl, t in leaves(v, g):
                if gl == FALSE: continue
                if t[0] == 'fld' and t[2] == 'first' and t[1][0] == 'elem' and t[1][1] == VS:
                    i = t[1][2]
                    hit = eq(F(elem(VS, i), 'second'), A(0))
                    ok = implies(gl, hit) if i[0] != 'fiv' else i[1] == size(VS) and subst_node(i[2], {('iv', i[3]): i}) == hit and implies(gl, some)
                    C.ob(rule, S, ok, 'the name of a value is one declared with it', unsure=murky_node(gl) or i[0] not in ('fiv', 'iv', 'int'))
                else:
                    C.ob(rule, S, t in (('str', ''), ('empty',)) and implies(gl, neg(some)), 'a value without name has the empty one', unsure=murky(t) or murky_node(gl) or t[0] not in ('str', 'empty', 'fld'))
        returns(C, rule, C.run(own(C, cls, 'enumerators')[0], cls), VS, 'the enumerators listed are those declared')
        S = C.run(own(C, cls, 'default_value')[0], cls)
        for g, v, st in S.rets:
            for gl, t in leaves(v, g):
                if gl == FALSE: continue
                ok = t[0] == 'fld' and t[2] == 'second' and t[1][0] == 'elem' and t[1][1] == VS or t[0] == 'mapat' and t[1] == VS
                C.ob(rule, S, ok or implies(gl, eq(size(VS), n0)), 'the default of an enumeration is one of its values', unsure=murky(t) or murky_node(gl))
        rule = 'other-enumeration'
        S = C.run(own(C, cls, 'is_compatible')[0], cls, preset={KINDOF(A(0)): num(C.K['ENUMERATION_TYPE'])})
        g = FALSE
        for gr, v, st in S.rets:
            for gl, t in leaves(v, gr):
                if t == n0: g = disj(g, gl)
        checked = any(mentions(a, lambda z: z == VS) for a in B.support(g))
        C.ob(rule, S, g == FALSE or checked, 'an enumeration is only equal to one with the same values', unsure=False, key='other-enumeration|%s' % targ_of(cls))
        C.ob(rule, S, implies(g, eq(vc('memory_size', A(0)), num(SIZEOF[targ_of(cls)]))), 'an enumeration is only equal to one of its width', unsure=murky_node(g), key='other-width|%s' % targ_of(cls))
    rule = 'typed-access'
    C.borrow([A_.access], what=lambda w: 'enumeration' in w)
    C.borrow([T_.P14], lambda w: w.startswith('Enumera'))

def full_width(C, rule, S, f, s):
    """a value asked about reaches the comparison unchanged"""
    t = f['params'][0]['t'].replace('const ', '').replace(' &', '')
    C.ob(rule, S, SIZEOF.get(t, 0) >= s, '%s takes values of the whole width' % f['name'], unsure=t not in SIZEOF)

# ------------------------------------------------------------------ P18
from order import Lin, Search, H, at_index
from rules_value import released, OLD, BLK, MEM, CAP, SIZ, NC, ND, elem_type, kind_presets, instance_life, LIFE
MI = NSP + 'MapInstance'
FP = MI + '::find_place'
KT = D(F(elem_type('MapInstance'), 'first_'))
VT = D(F(elem_type('MapInstance'), 'second_'))
POS = ('u', 'j')                # a position among the elements

def found(key, exact): return ('call', 'find_place', THIS, key, ('b', TRUE if exact else FALSE))

def sorted_search(C):
    """the search for a key among elements in the order of their hashes"""
    rule = 'search'
    f = C.fn('MapInstance::find_place')
    S = C.run(f, MI)
    h, exact = vc('hash', KT, A(0)), neg(eq(A(1), n0))
    lin = Lin([BLK])
    loops = [l for l in S.loopinfo if l['W']]
    q = Search(loops[0], MEM, BLK, lambda T: T == KT, lin) if len(loops) == 1 else None
    inv = q.infer([], h, SIZ) if q and q.ok else []
    ok = q is not None and q.ok
    left = FALSE
    for l in loops:
        for x in l['exits']: left = disj(left, x[1])
    def now(x): return {y: ('phi', y[1], y[2]) for y in walk(x) if y[0] == 'fin'}
    idx = (lambda t: q.iflat(t)) if ok else (lambda t: at_index(t, MEM, BLK))
    norm = (lambda g: q.flat(g)) if ok else (lambda g: g)
    def reached(g):
        for a in B.support(g):
            if a[0] == 'all' and a[1][0] == 'wcnt': g = B.restrict(g, neg(B.atom(a)))
        for a in list(B.support(g)):
            if a[0] == 'first': g = conj(B.restrict(g, B.atom(a)), a[3]) if implies(g, B.atom(a)) else B.restrict(g, neg(B.atom(a)))
        return g
    def below(i): return disj(le(i, n0), lt(H(sub(i, n1)), h))
    def above(i): return disj(le(SIZ, i), lt(h, H(i)))
    def between(i): return conj(le(n0, i), conj(le(i, SIZ), conj(below(i), above(i))))
    def hit(i): return conj(le(n0, i), conj(lt(i, SIZ), eq(H(i), h)))
    cand = [n0, SIZ]
    if ok:
        for v in q.V: cand += [v, add(v, n1), sub(v, n1)]
    n = 0
    for g, v, st in S.rets:
        for gl, t in spread(v, g):
            for a in B.support(gl):
                if now(a): gl = subst_node(gl, now(a))
            gg = norm(reached(gl))
            inside = any(x[0] == 'phi' for a in B.support(gg) for x in walk(a)) or any(x[0] in ('phi', 'fin') for x in walk(t))
            base = inv + [norm(left)] if inside else []
            if gg == FALSE or lin.entails([gg] + base, FALSE): continue
            t2 = subst(t, now(t))
            where = [(gg, None)] if t2 == n0 else None
            if where is None:
                i = idx(t2)
                where = [(gg, None)] if i is None else list(spread(i, gg))
            for gi, i in where:
                hyp = [gi] + base
                if gi == FALSE or lin.entails(hyp, FALSE): continue
                n += 1
                uns = not ok and inside or any(a[0] in ('all', 'first', 'lt', 'loop') or any(x[0] in ('iv', 'fiv') for x in walk(a)) for a in B.support(gi)) or any(x[0] in ('iv', 'fiv') for x in walk(t2))
                near = [x[1] for a in B.support(gi) for x in walk(a) if x[0] == 'H']
                splits = [[]]
                for x in list(dict.fromkeys(near))[:3]: splits = [o + [y] for o in splits for y in (lt(H(x), h), eq(H(x), h), lt(h, H(x)))]
                cands = cand + [y for x in dict.fromkeys(near) for y in (x, add(x, n1))]
                for e, c in ((True, exact), (False, neg(exact))):
                    if lin.entails(hyp + [c], FALSE): continue
                    if t2 == n0:
                        if e: C.ob(rule, S, all(any(lin.entails(hyp + [c] + list(lits(cu)) + sides, between(k)) for k in cands) for cu in B.cubes(gi, 40) for sides in splits), 'a key is reported absent only when it is not there', unsure=uns)
                        else: C.ob(rule, S, False, 'there is always a place for a key', unsure=uns)
                        continue
                    what = 'an element is reported only for its own key' if e else 'a key is placed where the order of the keys is kept'
                    if i is None: C.ob(rule, S, False, what, unsure=True); continue
                    good = lin.entails(hyp + [c], hit(i)) or not e and (lin.entails(hyp + [c], between(i)) or lin.entails(hyp + [c], disj(hit(i), between(i))))
                    C.ob(rule, S, good, what, unsure=uns)
    if n == 0: C.ob(rule, S, False, 'the search ends', unsure=True)

def resolved(C, S, lin, place=None):
    """the effects of a function that searches for places, with the place of A(0) named and the place of an element being that element"""
    m = {found(A(0), False): place} if place is not None else {}
    base = lambda t: at_index(t, OLD, BLK)
    def fix(t):
        for _ in range(6):
            t2 = subst(t, m) if m else t
            mm = {x: x[3] for x in walk(t2) if x[0] == 'call' and x[1] == 'find_place' and x[4] == ('b', TRUE) and base(x[3]) is not None}
            t2 = subst(t2, mm) if mm else t2
            if t2 == t: return t
            t = t2
        return t
    def gfix(g):
        for _ in range(6):
            g2 = subst_node(g, m) if m else g
            mm = {}
            for a in B.support(g2):
                for x in walk(a):
                    if x[0] == 'call' and x[1] == 'find_place' and x[4] == ('b', TRUE) and base(x[3]) is not None: mm[x] = x[3]
            g2 = subst_node(g2, mm) if mm else g2
            if g2 == g: return g
            g = g2
        return g
    return fix, gfix

def told(lin, hyp, g):
    """whether g holds (True), does not (False) or is left open (None)"""
    if g == TRUE or lin.entails(hyp, g): return True
    if g == FALSE or lin.entails(hyp, neg(g)): return False
    return None

def chosen(lin, hyp, t):
    """the value of t where hyp holds"""
    while t[0] in ('ite', 'pite'):
        v = told(lin, hyp, t[1])
        if v is None: return t
        t = t[2] if v else t[3]
    return t

def slots(C):
    """a slot that is filled gives up what it held first (P01)"""
    C.borrow([insertion, pushing], what=lambda w: w.startswith('what the slot of a'))
    C.borrow([map_data], what=lambda w: w == 'the default value is destroyed before the one of the pair is stored')

def entry_places(C):
    """the value of a key is reached where it was put (P02)"""
    C.borrow([map_data], what=lambda w: w in ('the value read is the one stored under its key', 'the value of a key present is the one stored under it', 'the value of a new key is the one just inserted'))

def entry_types(C):
    """a key or a pair is taken exactly when it is of the type of the map's (P07)"""
    C.borrow([map_data], what=lambda w: w.startswith(('a value is read when its key', 'any key of the right type', 'any pair of the right type')))

def insertion(C):
    """a new key is put at its place, the elements from there on keep following it"""
    rule = 'insert'
    f = C.fn('MapInstance::insert')
    lin = Lin([BLK])
    at = lambda i: add(OLD, mul(BLK, i))
    place = at(POS)
    known = eq(vc('hash', KT, place), vc('hash', KT, A(0)))
    ground = [lt(n0, OLD), le(POS, NC)]
    out = [lt(A(0), OLD)]
    mid, end = [lt(POS, NC), neg(known)], [eq(POS, NC)]
    for pre, trivial, kn in kind_presets(C, 'MapInstance'):
        S = C.run(f, MI, preset={MEM: OLD, SIZ: NC, CAP: ND, **pre}, opaque=(FP,), assume=conj(lt(n0, A(0)), out[0]))
        fix, gfix = resolved(C, S, lin, place)
        normal = gfix(S.normal)
        lost = bool(S.unknown)
        dup = ground + out + [lt(n0, A(0)), lt(POS, NC), known]
        nd = told(lin, dup, normal)
        C.ob(rule, S, nd is False, 'a key present is not inserted again', unsure=lost or nd is None)
        E = [(e, tuple(fix(a) for a in x.a), gfix(x.g), tuple(fix(n) for n in x.n), x) for e in S.events for x in [eff(e)] if e.kind in ('vcall', 'memcpy', 'call', 'store', 'delete', 'memset')]
        cases = [('among the others', mid + c) for c in ([eq(POS, n0), eq(NC, n1)], [eq(POS, n0), lt(n1, NC)], [lt(n0, POS), eq(add(POS, n1), NC)], [lt(n0, POS), lt(add(POS, n1), NC)])]
        for where, hyp in cases + [('after the others', end + [eq(NC, n1)]), ('after the others', end + [lt(n1, NC)])]:
            hyp = ground + out + [lt(n0, A(0))] + hyp
            ok = told(lin, hyp, normal)
            C.ob(rule, S, ok is True, 'a new key %s is accepted' % where, unsure=lost or ok is None)
            live, open_ = [], False
            for e, a, g, n, x in E:
                v = told(lin, hyp, g)
                if n and v is not False and any(lin.entails(hyp, le(c, n0)) for c in n): v = False
                if v is None and any(mentions(z, lambda y: y[0] == 'iv') for z in B.support(g)): open_ = True; continue
                if v is None: open_ = True
                if v: live.append((e, a, n, x))
            shift = [y for y in live if y[0].kind == 'memcpy' or y[0].kind == 'vcall' and y[0].name in ('move_instance',)]
            raw = [y for y in shift if y[0].kind == 'memcpy']
            last = None
            if where == 'after the others':
                if shift:
                    nothing = all(y[0].kind == 'memcpy' and lin.entails(hyp, le(y[1][2], n0)) for y in shift)
                    C.ob(rule, S, nothing, 'elements before the place of a new key stay where they are', shift[0][0].line, unsure=lost or open_)
            else:
                good, why = False, None
                if raw and len(shift) == 1:
                    e, a, n, x = shift[0]
                    good = trivial and e.name in ('memmove', 'copy_backward') and lin.entails(hyp, eq(a[0], at(add(POS, n1)))) and lin.entails(hyp, eq(a[1], place)) and lin.entails(hyp, eq(a[2], mul(BLK, sub(NC, POS))))
                    why = e.line; last = e.seq
                elif shift and not raw and len(shift) == 1:
                    e, a, n, x = shift[0]
                    why = e.line; last = e.seq
                    dst, src = at_index(a[1], OLD, BLK), at_index(a[2], OLD, BLK)
                    good = len(n) == 1 and x.rev == (True,) and src is not None and dst is not None and lin.entails(hyp, eq(src, add(POS, I0))) and lin.entails(hyp, eq(dst, add(src, n1))) and lin.entails(hyp, eq(n[0], sub(NC, POS))) and a[0] == elem_type('MapInstance')
                    C.ob(rule, S, a[3] == ('b', TRUE), 'an element moves onto a slot that is constructed', e.line, unsure=murky(a[3]) or e.name != 'move_instance')
                C.ob(rule, S, good, 'the elements (of kinds %s) after the place of a new key move up by one, the last one first' % kn, why, unsure=lost or open_ or not shift and any(e.kind in ('vcall', 'call') and e.name not in ('hash', 'find_place', 'memory_size') + tuple(LIFE) for e, _, _, _ in live))
            if where == 'among the others' and last is None: continue
            after = lambda y: last is None or y[0].seq > last
            same_ = lambda t, w: t == w or lin.entails(hyp, eq(t, w))
            off = vc('memory_size', KT)
            two = add(place, off)
            life = [y for y in live if y[0].kind == 'vcall' and y[0].name in ('destroy_instance', 'copy_instance', 'construct_instance')]
            des = [y for y in life if y[0].name == 'destroy_instance']
            cp = [y for y in life if y[0].name == 'copy_instance' and y[1][0] == KT]
            co = [y for y in life if y[0].name == 'construct_instance' and y[1][0] == VT]
            C.ob(rule, S, len(cp) == 1 and same_(cp[0][1][1], place) and cp[0][1][2] == A(0) and after(cp[0]), 'the key (kinds %s) is stored at its place' % kn, cp[0][0].line if cp else None, unsure=lost or open_)
            C.ob(rule, S, len(co) == 1 and same_(co[0][1][1], two) and after(co[0]), 'the value of a new key (kinds %s) starts as the default, next to its key' % kn, co[0][0].line if co else None, unsure=lost or open_)
            if not trivial:
                whole = len(des) == 1 and des[0][1][0] == elem_type('MapInstance') and same_(des[0][1][1], place)
                halves = sorted((show(y[1][0]) for y in des)) == sorted((show(KT), show(VT))) and all(same_(y[1][1], place if y[1][0] == KT else two) for y in des)
                C.ob(rule, S, (whole or halves) and all(after(y) and all(y[0].seq < z[0].seq for z in cp + co) for y in des), 'what the slot of a new key (kinds %s) held is destroyed first' % kn, des[0][0].line if des else None, unsure=lost or open_)
            other = [y for y in life if y not in des + cp + co]
            C.ob(rule, S, not other, 'nothing else is changed by inserting a key', other[0][0].line if other else None, unsure=lost or open_)
        a, b, c = final(S, SIZ), final(S, MEM), final(S, CAP)
        a = fix(a); 
        C.ob(rule, S, a == add(NC, n1), 'inserting a key adds one element', unsure=murky(a))
        C.ob(rule, S, b == OLD and c == ND, 'a map with room keeps its storage', unsure=murky(b) or murky(c) or b[0] in ('out', 'ite', 'new') and b != OLD)
        for g, v, st in S.rets:
            for gl, t in leaves(v, g):
                gl = gfix(gl)
                if gl == FALSE or lin.entails(ground + out, neg(gl)): continue
                t = fix(t)
                C.ob(rule, S, t == place or lin.entails(ground + [gl], eq(t, place)), 'the place of the new key is handed back', unsure=murky(t))
        # a key that lives in this map
        S = C.run(f, MI, preset={MEM: OLD, SIZ: NC, CAP: ND, **pre}, opaque=(FP,), assume=conj(le(OLD, A(0)), lt(A(0), at(NC))))
        for x in C.effs(S, 'vcall', {'copy_instance'}):
            if x.a[0] != KT: continue
            g = gfix(x.g)
            hyp = ground + [le(OLD, A(0)), lt(A(0), at(NC)), neg(known), lt(POS, NC)]
            for c, want in ((lt(A(0), place), A(0)), (eq(A(0), place), add(A(0), BLK)), (le(place, A(0)), add(A(0), BLK))):
                t = None
                for gl, l in leaves(x.a[2], x.g):
                    if told(lin, hyp + [c], gfix(gl)) is not False: t = fix(l) if t is None else ('many',)
                C.ob(rule, S, t is not None and t != ('many',) and lin.entails(hyp + [c], eq(t, want)), 'a key read from this map is followed when the elements move', x.e.line, unsure=t is None or t == ('many',) or murky(t))
    grown(C, rule, f, 'MapInstance', (FP,), 'copy_instance')

def grown(C, rule, f, cls, opq, stored):
    """storage without room grows before an element is placed in it"""
    lin = Lin([BLK])
    name = 'map' if cls == 'MapInstance' else 'sequence'
    G = NSP + cls + '::realloc'
    most = num(2 ** 32 - 1)
    placing = lambda S: C.effs(S, 'call', {'find_place'}) + [x for x in C.effs(S, 'vcall', {stored, 'destroy_instance'})]
    for mem, n, cap, txt in ((OLD, NC, NC, 'full'), (n0, n0, n0, 'without storage')):
        S = C.run(f, NSP + cls, preset={MEM: mem, SIZ: n, CAP: cap}, opaque=opq + (G,))
        gr, fp = C.effs(S, 'call', {'realloc'}), placing(S)
        uns = not gr and bool(S.unknown or [x for x in C.effs(S, 'new')] or [x for x in C.effs(S, 'call') if x.e.name != 'find_place'])
        C.ob(rule, S, len(gr) == 1 and gr[0].g == TRUE and all(gr[0].e.seq < x.e.seq for x in fp), 'a %s %s grows before a place is looked for' % (name, txt), gr[0].e.line if gr else None, unsure=uns)
        if len(gr) != 1: continue
        a = gr[0].a
        C.ob(rule, S, len(a) >= 2 and lin.entails([le(n0, n)], le(add(n, n1), a[1])), 'a %s %s grows to have room for one more' % (name, txt), gr[0].e.line, unsure=len(a) < 2 or murky(a[1]))
        C.ob(rule, S, A(1) in a, 'a %s grows within its bound' % name, gr[0].e.line, unsure=any(murky(x) for x in a))
    inside = conj(le(OLD, A(0)), lt(A(0), add(OLD, mul(BLK, NC))))
    S = C.run(f, NSP + cls, preset={MEM: OLD, SIZ: NC, CAP: NC}, opaque=opq + (G,), assume=inside)
    ks = set()
    if C.effs(S, 'call', {'realloc'}): ks = {x.a[1] for x in C.effs(S, 'call', {'find_place'})} if cls == 'MapInstance' else {x.a[2] for x in C.effs(S, 'vcall', {stored})}
    for k in ks:
        if mentions(k, lambda z: z[0] == 'call' and z[1] == 'find_place'): continue
        o = [x for x in walk(k) if x[0] == 'out' and x[2] == 'memory_']
        good = all(lin.entails([inside, gl], eq(l, add(sub(A(0), OLD), o[0]))) for gl, l in leaves(k) if o and told(lin, [inside], gl) is not False) if o else False
        C.ob(rule, S, good, 'what is read from this %s is followed when it grows' % name, unsure=murky(k) and not o)

def reallocation(C, cls):
    """growing storage keeps every element"""
    rule = 'growth'
    T = elem_type(cls)
    f = C.fn(cls + '::realloc')
    lin = Lin([BLK])
    least = mm('min', A(0), A(1))
    for bounded in (False, True):
        for pre, trivial, kn in kind_presets(C, cls):
            pre = {MEM: OLD, SIZ: NC, CAP: ND, **pre}
            given = [lt(n0, A(0)), lt(NC, A(0))] + ([neg(eq(A(1), n0)), lt(n0, least), lt(NC, least)] if bounded else [eq(A(1), n0), le(A(0), num(2 ** 32 - 1))])
            S = C.run(f, NSP + cls, preset=pre, opaque=(FP,), assume=conj(*given))
            fix, gfix = resolved(C, S, lin)
            hyp = [lt(n0, OLD)] + given
            mem, cap, siz = (chosen(lin, hyp, fix(final(S, x))) for x in (MEM, CAP, SIZ))
            lost = bool(S.unknown)
            C.ob(rule, S, siz == NC, 'growing keeps the number of elements', unsure=murky(siz))
            if mem[0] != 'new' or mem == OLD:
                C.ob(rule, S, False, 'growing reserves new storage', unsure=mem not in (OLD, n0)); continue
            want = [least] if bounded else [A(0)]
            C.ob(rule, S, cap in want or lin.entails(hyp + [le(A(0), num(2 ** 32 - 1))], eq(cap, want[0])), 'the capacity recorded is the one asked for, within the bound', unsure=murky(cap))
            nw = [x for x in C.effs(S, 'new') if x.a[0] == mem]
            C.ob(rule, S, len(nw) == 1 and nw[0].a[1] == mul(BLK, cap), 'storage is reserved for the recorded capacity', nw[0].e.line if nw else None, unsure=murky(cap))
            C.must(rule, S, 'vcall', 'construct_instance', (T, add(mem, mul(I0, BLK))), 'every slot of grown storage is constructed', n=(cap,), exact=False)
            released(C, rule, S, cls, OLD, ND, trivial, kn)
            E = [(e, tuple(fix(a) for a in x.a), gfix(x.g), tuple(fix(n) for n in x.n), x) for e in S.events for x in [eff(e)] if e.kind == 'memcpy' or e.kind == 'vcall' and e.name in ('move_instance', 'copy_instance')]
            apart = [disj(lt(add(mem, mul(BLK, cap)), OLD), lt(add(OLD, mul(BLK, ND)), mem))]
            for hyp in ([*hyp, eq(NC, n1)], [*hyp, lt(n1, NC)]):
              live = [(y, told(lin, hyp + apart, y[2])) for y in E]
              live = [(y, v) for y, v in live if v is not False]
              uns = lost or any(v is None for _, v in live)
              mv = [y for y, v in live]
              good = False
              if len(mv) == 1:
                  e, a, g, n, x = mv[0]
                  if e.kind == 'memcpy': good = trivial and a[0] == mem and a[1] == OLD and lin.entails(hyp, eq(a[2], mul(BLK, NC)))
                  else:
                      good = a[0] == T and a[1] == add(mem, mul(I0, BLK)) and a[2] == add(OLD, mul(I0, BLK)) and len(n) == 1 and lin.entails(hyp, eq(n[0], NC))
                      C.ob(rule, S, trivial or a[3] == ('b', TRUE) if e.name == 'move_instance' else True, 'an element moves onto a slot that is constructed', e.line, unsure=e.name == 'move_instance' and murky(a[3]))
                  old = [x for x in C.effs(S, 'delete') if x.a[0] == OLD]
                  if old: C.ob(rule, S, all(e.seq < d.e.seq for d in old), 'elements move before the old storage is given back', e.line)
              C.ob(rule, S, good, 'every element (of kind %s) moves to the grown storage' % kn, mv[0][0].line if mv else None, unsure=uns)

def lookups(C):
    rule = 'lookup'
    pl = found(A(0), True)
    key = lambda f: len(f['params']) == 1 and f['params'][0]['t'].endswith('*')
    S = C.run(C.fn('MapInstance::operator[]', key), MI, opaque=(FP,))
    returns(C, rule, S, pl, 'looking a key up gives the element that has it')
    S = C.run(C.fn('MapInstance::contains_key'), MI, opaque=(FP,))
    decides(C, rule, S, neg(eq(pl, n0)), 'a key is contained when looking it up finds it')
    for n in ('index_of', 'get_key_index'):
        S = C.run(C.fn('MapInstance::' + n), MI, opaque=(FP,), preset={MEM: OLD})
        g = neg(eq(pl, n0))
        for gr, v, st in S.rets:
            for gl, t in leaves(v, gr):
                if conj(gl, g) == FALSE: continue
                C.ob(rule, S, t == ('op', '/', sub(pl, OLD), BLK), 'the index of a key is where its element is', unsure=murky(t) or t[0] not in ('op', 'int', 'lin'))
        C.ob(rule, S, implies(S.normal, g), 'the index of an absent key is refused', unsure=murky_node(S.normal))
        C.ob(rule, S, implies(g, S.normal), 'the index of a key present can be asked', unsure=murky_node(S.normal))
    S = C.run(C.fn('MapInstance::operator[]', lambda f: not key(f)), MI)
    returns(C, rule, S, add(MEM, mul(A(0), BLK)), 'the element at an index is the one at that position')
    returns(C, rule, C.run(C.fn('MapInstance::size'), MI), SIZ, 'the size of a map is its number of elements')
    # through the type
    O = (FP, MI + '::insert')
    own_ = lambda n: C.method('MapType', n)
    mo = lambda k, p=A(0): k
    S = C.run(own_('get_instance_size'), NSP + 'MapType', opaque=O)
    returns(C, rule, S, F(D(A(0)), 'size_'), 'the size of a map value is the number of its elements')
    S = C.run(own_('insert_instance'), NSP + 'MapType', opaque=O)
    bounds, sz = F(THIS, 'bounds_'), F(D(A(0)), 'size_')
    room = disj(eq(bounds, n0), lt(sz, bounds))
    ins = C.effs(S, 'call', {'insert'})
    C.ob(rule, S, len(ins) >= 1 and all(x.a[0] == D(A(0)) and x.a[1] == A(1) and (len(x.a) < 3 or x.a[2] == bounds) for x in ins), 'the key given is inserted, within the bound', unsure=not ins and not C.silent(S) or any(murky_ev(x.e) for x in ins))
    g = FALSE
    for x in ins: g = disj(g, x.g)
    C.ob(rule, S, implies(room, g), 'a map with room takes a new key', unsure=not ins and not C.silent(S) or murky_node(g))
    C.ob(rule, S, implies(g, room), 'a bounded map never exceeds its bound', unsure=not ins and not C.silent(S) or murky_node(g))
    for gr, v, st in S.rets:
        for gl, t in leaves(v, gr):
            if gl == FALSE: continue
            C.ob(rule, S, implies(gl, neg(g)) if t == n0 else t[0] == 'call' and t[1] == 'insert', 'the place of a new key is handed back', unsure=murky(t))

def lits(cube):
    for a, v in cube: yield B.atom(a) if v else neg(B.atom(a))

def spread(t, g=TRUE):
    """the values a term takes, its conditional parts decided"""
    c = next((x for x in walk(t) if x[0] in ('ite', 'pite')), None)
    if c is None:
        if g != FALSE: yield g, t
        return
    yield from spread(subst(t, {c: c[2]}), conj(g, c[1]))
    yield from spread(subst(t, {c: c[3]}), conj(g, neg(c[1])))

def map_data(C):
    """what the data references make of the map operations"""
    rule = 'through-data'
    MT, inst, key = D(F(THIS, 'type_')), F(THIS, 'instance_'), F(A(0), 'instance_')
    PT = D(F(MT, 'content_'))
    MK, MV = D(F(PT, 'first_')), D(F(PT, 'second_'))
    bounds, sz, off = F(MT, 'bounds_'), vc('get_instance_size', MT, inst), vc('memory_size', MK)
    PL = ('call', 'find_place', D(inst), key, ('b', TRUE))
    INS = ('call', 'insert', D(inst), key, bounds)
    present, room = neg(eq(PL, n0)), disj(eq(bounds, n0), lt(sz, bounds))
    EQK, EQP = (eq(vc('is_compatible', T, D(F(A(0), 'type_'))), n0) for T in (MK, PT))
    placed = neg(eq(INS, n0))
    base = {vc('get_instance_at', MT, inst, key): PL, F(D(inst), 'size_'): sz}
    def canon(x):
        m = dict(base)
        for y in walk(x):
            if y[0] == 'after' and y[2][0] == 'call' and y[2][1] in ('find_place', 'insert'): m[y] = y[2]
        return subst(x, m)
    def gcanon(g):
        m = dict(base)
        for a in B.support(g):
            for y in walk(a):
                if y[0] == 'after' and y[2][0] == 'call' and y[2][1] in ('find_place', 'insert'): m[y] = y[2]
        return subst_node(g, m)
    def go(cls, name):
        fs = [f for f in C.P.qn.get(NSP + cls + '::' + name, []) if f.get('body') is not None and len(f['params']) == 1 and 'DynamicData' in f['params'][0]['t']]
        if not fs: raise Missing(cls + '::' + name)
        return C.run(fs[0], NSP + cls, preset={KINDOF(MT): num(C.K['MAP_TYPE'])}, opaque=(FP, MI + '::insert'))
    def eqv(S, g, want, what, given=TRUE):
        g, want = conj(gcanon(g), given), conj(want, given)
        C.ob(rule, S, implies(g, want) and implies(want, g), what, unsure=murky_node(g))
    def ref(S, when, ptr, what):
        some = False
        for g, d in ret_fields(S, 'type_', 'instance_'):
            gg = conj(gcanon(g), when)
            for gl, p in spread(canon(d['instance_']), gg):
                if gl == FALSE: continue
                some = True
                C.ob(rule, S, p == add(ptr, off), what, unsure=murky(p))
            C.ob(rule, S, gg == FALSE or any(same(ref_type(d['type_']), ref_type(('shr', T)), gg) for T in (MV, RES(MV))), what + ' (its type)', unsure=murky(d['type_']))
        C.ob(rule, S, some, what, unsure=True)
    for cls in ('ReadableDynamicDataRef', 'WritableDynamicDataRef'):
        S = go(cls, 'at')
        eqv(S, S.normal, conj(EQK, present), 'a value is read when its key is present and of the type of the keys')
        ref(S, present, PL, 'the value read is the one stored under its key')
    S = go('WritableDynamicDataRef', 'operator[]')
    need = conj(EQK, disj(present, room))
    eqv(S, S.normal, need, 'any key of the right type can be used while there is room', placed)
    ins = [x for x in C.effs(S, 'call', {'insert'})]
    g = FALSE
    for x in ins: g = disj(g, x.g)
    eqv(S, g, conj(conj(EQK, neg(present)), room), 'a key is inserted when it is absent')
    for x in ins: C.ob(rule, S, tuple(canon(y) for y in x.a) == INS[2:], 'the key inserted is the one asked for', x.e.line, unsure=murky_ev(x.e))
    ref(S, present, PL, 'the value of a key present is the one stored under it')
    ref(S, conj(conj(neg(present), room), placed), INS, 'the value of a new key is the one just inserted')
    S = go('WritableDynamicDataRef', 'insert')
    eqv(S, S.normal, EQP, 'any pair of the right type can be offered', placed)
    ins = C.effs(S, 'call', {'insert'})
    g = FALSE
    for x in ins: g = disj(g, x.g)
    take = conj(conj(EQP, neg(present)), room)
    eqv(S, g, take, 'a pair is inserted when its key is absent')
    for x in ins: C.ob(rule, S, tuple(canon(y) for y in x.a) == INS[2:], 'the key inserted is that of the pair', x.e.line, unsure=murky_ev(x.e))
    t = conj(gcanon(truth(S)), placed)
    C.ob(rule, S, implies(t, take) and implies(conj(take, placed), t), 'inserting tells whether the pair was taken', unsure=murky_node(t))
    val = add(INS, off)
    for name, args, what in (('destroy_instance', (MV, val), 'the default value is destroyed before the one of the pair is stored'), ('copy_instance', (MV, val, add(key, off)), 'the value of the pair is stored under its key')):
        hs = [x for x in C.effs(S, 'vcall', {name})]
        ok = [x for x in hs if tuple(canon(y) for y in x.a) == args and not x.n and implies(conj(take, placed), gcanon(x.g))]
        C.ob(rule, S, len(ok) == 1 and len(hs) == 1, what, hs[0].e.line if hs else None, unsure=any(murky_ev(x.e) or murky_node(x.g) for x in hs))
        if name == 'copy_instance' and ok: C.ob(rule, S, first is not None and first.e.seq < ok[0].e.seq, what, ok[0].e.line, unsure=first is None)
        first = ok[0] if ok else None
    S = go('WritableDynamicDataRef', 'has_key')
    eqv(S, S.normal, EQK, 'any key of the right type can be asked for')
    t = gcanon(truth(S))
    C.ob(rule, S, implies(t, present) and implies(conj(EQK, present), t), 'a key is present when looking it up finds it', unsure=murky_node(t))

def P18(C):
    sorted_search(C)
    insertion(C)
    reallocation(C, 'MapInstance')
    lookups(C)
    map_data(C)
    import rules_equal; rules_equal.whole(C)
    C.borrow([V.P01, K_.P05, lambda c: L_.P02(c)], lambda w: w.startswith('MapInstance'))

# ------------------------------------------------------------------ P19
SI = NSP + 'SequenceInstance'
ST_ = elem_type('SequenceInstance')

def pushing(C):
    rule = 'push'
    f = C.fn('SequenceInstance::push')
    lin = Lin([BLK])
    place = add(OLD, mul(BLK, NC))
    for pre, trivial, kn in kind_presets(C, 'SequenceInstance'):
        S = C.run(f, SI, preset={MEM: OLD, SIZ: NC, CAP: ND, **pre}, assume=lt(n0, A(0)))
        hyp = [lt(n0, OLD), lt(n0, A(0)), lt(NC, ND)]
        lost = bool(S.unknown)
        ok = told(lin, hyp, S.normal)
        C.ob(rule, S, ok is True, 'an element is accepted where there is room', unsure=lost or ok is None)
        E = [(x, told(lin, hyp, x.g)) for e in S.events if e.kind in ('vcall', 'memcpy', 'memset', 'delete', 'new', 'call') for x in [eff(e)] if e.name not in ('memory_size', 'get_instance_size')]
        E = [(x, v) for x, v in E if v is not False]
        open_ = lost or any(v is None for _, v in E)
        E = [x for x, v in E]
        des = [x for x in E if x.e.kind == 'vcall' and x.e.name == 'destroy_instance']
        cp = [x for x in E if x.e.kind == 'vcall' and x.e.name == 'copy_instance' or trivial and x.e.kind == 'memcpy']
        same_ = lambda t, w: t == w or lin.entails(hyp, eq(t, w))
        good = len(cp) == 1 and (cp[0].a[0] == ST_ and same_(cp[0].a[1], place) and cp[0].a[2] == A(0) if cp[0].e.kind == 'vcall' else same_(cp[0].a[0], place) and cp[0].a[1] == A(0) and cp[0].a[2] in (BLK, vc('memory_size', ST_)))
        C.ob(rule, S, good and not cp[0].n, 'the element pushed (of kind %s) is copied behind the others' % kn, cp[0].e.line if cp else None, unsure=open_ or not cp and any(x not in des for x in E))
        C.ob(rule, S, all(x.a[0] == ST_ and same_(x.a[1], place) for x in des), 'no other element is destroyed by a push', des[0].e.line if des else None, unsure=open_)
        if not trivial: C.ob(rule, S, len(des) == 1 and all(des[0].e.seq < x.e.seq for x in cp), 'what the slot of a pushed element (of kind %s) held is destroyed first' % kn, des[0].e.line if des else None, unsure=open_)
        rest = [x for x in E if x not in des + cp]
        C.ob(rule, S, not rest, 'nothing else is changed by a push', rest[0].e.line if rest else None, unsure=open_ or any(x.e.kind == 'call' for x in rest))
        a, b, c = (chosen(lin, hyp, final(S, x)) for x in (SIZ, MEM, CAP))
        C.ob(rule, S, a == add(NC, n1), 'a push adds one element', unsure=murky(a))
        C.ob(rule, S, b == OLD and c == ND, 'a sequence with room keeps its storage', unsure=murky(b) or murky(c) or lost)
        for g, v, st in S.rets:
            for gl, t in spread(v, g):
                if told(lin, hyp, gl) is False: continue
                C.ob(rule, S, same_(t, place), 'the place of the pushed element is handed back', unsure=murky(t))
    grown(C, rule, f, 'SequenceInstance', (), 'copy_instance')
    # after growing, the element goes behind the others as well
    G = SI + '::realloc'
    S = C.run(f, SI, preset={MEM: OLD, SIZ: NC, CAP: NC}, opaque=(G,), assume=lt(n0, A(0)))
    o = lambda n: [x for e in S.events for t in eff(e).a for x in walk(t) if x[0] == 'out' and x[2] == n]
    if C.effs(S, 'call', {'realloc'}):
        m, b, s = o('memory_'), o('block_size_') or [BLK], o('size_') or [NC]
        for x in C.effs(S, 'vcall', {'copy_instance'}):
            if not m: break
            C.ob(rule, S, any(x.a[1] == add(m[0], mul(bb, ss)) for bb in (b[0], BLK) for ss in (s[0], NC)), 'the element pushed into grown storage is copied behind the others', x.e.line, unsure=murky(x.a[1]))
        t = final(S, SIZ)
        C.ob(rule, S, t in [add(x, n1) for x in s + [NC]], 'a push adds one element', unsure=murky(t))

def resizing(C):
    rule = 'resize'
    f = C.fn('SequenceInstance::resize')
    lin = Lin([BLK])
    G = SI + '::realloc'
    S = C.run(f, SI, preset={MEM: OLD, SIZ: NC, CAP: ND}, opaque=(G,), assume=le(A(0), NC))
    R = C.run(C.fn('SequenceInstance::realloc'), SI, preset={MEM: OLD, SIZ: NC, CAP: ND})
    kept = final(R, SIZ) == NC and not R.unknown  # growing leaves the number of elements alone
    hyp = [le(A(0), NC)]
    ch = [x for x in C.effs(S) if (A_.changes(x.e) or x.e.kind == 'call') and told(lin, hyp, x.g) is not False]
    C.ob(rule, S, not ch, 'a sequence asked to have no more elements than it has stays as it is', ch[0].e.line if ch else None, unsure=any(murky_ev(x.e) or told(lin, hyp, x.g) is None for x in ch))
    for cap, mem, n, txt, more in ((NC, OLD, NC, 'full', [lt(NC, A(0))]), (n0, n0, n0, 'without storage', [lt(n0, A(0))]), (ND, OLD, NC, 'with too little room', [lt(NC, A(0)), lt(ND, A(0))]), (ND, OLD, NC, 'with enough room', [lt(NC, A(0)), le(A(0), ND)])):
        S = C.run(f, SI, preset={MEM: mem, SIZ: n, CAP: cap}, opaque=(G,), assume=conj(*more))
        gr = [x for x in C.effs(S, 'call', {'realloc'}) if told(lin, more, x.g) is not False]
        uns = bool(S.unknown) or any(told(lin, more, x.g) is None for x in gr)
        if txt != 'with enough room': C.ob(rule, S, len(gr) == 1, 'a sequence %s grows when it gets more elements' % txt, unsure=uns)
        for x in gr:
            C.ob(rule, S, len(x.a) >= 2 and lin.entails(more, le(A(0), x.a[1])), 'a sequence grows to have room for its new size', x.e.line, unsure=uns or murky(x.a[1]))
            C.ob(rule, S, A(1) in x.a, 'a sequence grows within its bound', x.e.line, unsure=any(murky(y) for y in x.a))
        # what is stored last
        st = [x for x in C.effs(S, 'store') if x.a[0] == SIZ and told(lin, more, x.g) is not False]
        t = final(S, SIZ)
        if t[0] in ('ite', 'pite'): t = chosen(lin, more, t)
        if t[0] == 'out' and t[2:] == ('size_',) and kept: t = n
        least = mm('min', A(0), A(1))
        bare = lambda t: t[2] if t[0] == 'cvt' and t[1] == 32 else t
        C.ob(rule, S, bare(t) == A(0) or bool(gr) and t[0] in ('ite', 'pite', 'min', 'out'), 'a sequence has as many elements as asked for', st[0].e.line if st else None, unsure=uns or murky(t) or t[0] in ('ite', 'pite', 'min', 'out'))
        seq = [y.e.seq for y in st]
        if gr and st: C.ob(rule, S, gr[0].e.seq < min(seq), 'the size changes after the storage has grown', st[0].e.line)
        other = [x for x in C.effs(S) if A_.changes(x.e) and x not in gr + st and told(lin, more, x.g) is not False and not (x.e.kind == 'store' and x.a[0] in (MEM, CAP))]
        if gr: C.ob(rule, S, not [x for x in other if x.e.kind in ('vcall', 'delete') and x.e.name in ('destroy_instance', 'delete')], 'no element is lost by resizing', unsure=uns)

def sequence_access(C):
    rule = 'access'
    S = C.run(C.fn('SequenceInstance::operator[]'), SI)
    returns(C, rule, S, add(MEM, mul(A(0), BLK)), 'the element at an index is the one at that position')
    decidedly(C, rule, S, S.normal, lt(A(0), SIZ), 'an index is accepted exactly when it is below the size')
    returns(C, rule, C.run(C.fn('SequenceInstance::size'), SI), SIZ, 'the size of a sequence is its number of elements')
    own_ = lambda n: C.method('SequenceType', n)
    Q = NSP + 'SequenceType'
    S = C.run(own_('get_instance_size'), Q)
    returns(C, rule, S, F(D(A(0)), 'size_'), 'the size of a sequence value is the number of its elements')
    S = C.run(own_('get_instance_at'), Q)
    returns(C, rule, S, add(F(D(A(0)), 'memory_'), mul(A(1), F(D(A(0)), 'block_size_'))), 'the element at an index is the one at that position')
    bounds, sz = F(THIS, 'bounds_'), F(D(A(0)), 'size_')
    few = lt(sz, num(2 ** 32 - 1))
    S = C.run(own_('push_instance'), Q, opaque=(SI + '::push',))
    room = disj(eq(bounds, n0), lt(sz, bounds))
    ps = C.effs(S, 'call', {'push'})
    C.ob(rule, S, len(ps) >= 1 and all(x.a[0] == D(A(0)) and x.a[1] == A(1) and x.a[2] == bounds for x in ps), 'the element given is pushed, within the bound', unsure=not ps and not C.silent(S) or any(murky_ev(x.e) for x in ps))
    g = FALSE
    for x in ps: g = disj(g, x.g)
    lin = Lin([])
    C.ob(rule, S, lin.entails([room, few], g) , 'a sequence with room takes a new element', unsure=not ps and not C.silent(S) or murky_node(g))
    C.ob(rule, S, lin.entails([g], room), 'a bounded sequence never exceeds its bound', unsure=not ps and not C.silent(S) or murky_node(g))
    for gr, v, st in S.rets:
        for gl, t in leaves(v, gr):
            if gl == FALSE: continue
            C.ob(rule, S, implies(gl, neg(g)) if t == n0 else t[0] == 'call' and t[1] == 'push', 'the place of a new element is handed back', unsure=murky(t))
    S = C.run(own_('resize_instance'), Q, opaque=(SI + '::resize',))
    ps = C.effs(S, 'call', {'resize'})
    C.ob(rule, S, len(ps) == 1 and ps[0].a == (D(A(0)), A(1), bounds), 'a sequence value is resized to the size asked for, within its bound', unsure=not ps and not C.silent(S) or any(murky_ev(x.e) for x in ps))

def decidedly(C, rule, S, g, want, what):
    C.ob(rule, S, implies(g, want) and implies(want, g), what, unsure=murky_node(g))

def P19(C):
    pushing(C)
    resizing(C)
    reallocation(C, 'SequenceInstance')
    sequence_access(C)
    C.borrow([V.P01, K_.P05, lambda c: L_.P02(c)], lambda w: w.startswith('SequenceInstance'))
    C.borrow([A_.P08], lambda w: 'Ref::push' in w or 'Ref::resize' in w or 'SequenceType::push' in w)
