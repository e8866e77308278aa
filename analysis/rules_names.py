"""P27 the names of types"""
from core import *
import rules_types as T, rules_idl as I

WHOLE = ('unsigned int', 'unsigned long', 'unsigned long long', 'long', 'long long')

def bound(v, *also):
    def p(t):
        if t[0] != 'dec': return False
        x = t[2]
        while x[0] == 'cvt' and abs(x[1]) >= 32: x = x[2]
        return x == v and t[1] in WHOLE + also
    return p

def name_of(*terms):
    want = [F(t, 'name_') for t in terms] + [('vc', 'name', t) for t in terms] + [('call', 'name', t) for t in terms]
    return lambda t: t in want

def spelt(C, r, S, v, g, want, what, key):
    w = I.norm(want)
    ok, unsure, some = True, False, False
    for gl, x in leaves(v, g):
        some = True
        try: t = I.flat(I.tree(C, S, last(S), sym.tidy(conj(gl, g), x)), conj(gl, g))
        except I.Murky: ok = False; unsure = True; continue
        s = I.same_text(t, w)
        if s: continue
        ok = False
        if s is None or I.unclear(t): unsure = True
    C.ob(r, S, ok and some, what, unsure=unsure or not some, key=key)

def last(S):
    return S.rets[-1][2] if S.rets else S.final

def naming(C):
    r = 'naming'
    UNB = eq
    def one(cls, f, want0, want1, b, what):
        S = C.run(f, T.cls_of(C, cls))
        v = final(S, F(THIS, 'name_'))
        pos = conj(lt(n0, b), neg(eq(b, n0)))
        if want1 is None: spelt(C, r, S, v, S.normal, want0, 'the name of %s tells what it is made of' % what, '%s|%s|%d' % (r, what, len(f['params']))); return
        spelt(C, r, S, v, conj(S.normal, conj(eq(b, n0), neg(lt(n0, b)))), want0, 'the name of %s without bound tells what it is made of' % what, '%s|%s|0' % (r, what))
        spelt(C, r, S, v, conj(S.normal, pos), want1, 'the name of %s tells its bound and what it is made of' % what, '%s|%s|1' % (r, what))
    for f in T.bodies(C, NSP + 'SequenceType'):
        if T.is_copy(f, f['cls']): continue
        one('SequenceType', f, ['sequence_', name_of(A(0))], ['sequence_', bound(A(1)), '_', name_of(A(0))], A(1), 'a sequence')
    for f in T.bodies(C, NSP + 'MapType'):
        if T.is_copy(f, f['cls']): continue
        p = ['pair_', name_of(A(0)), '_', name_of(A(1))]
        one('MapType', f, ['map_'] + p, ['map_', bound(A(2)), '_'] + p, A(2), 'a map')
    for f in T.bodies(C, NSP + 'PairType'):
        if T.is_copy(f, f['cls']): continue
        one('PairType', f, ['pair_', name_of(A(0)), '_', name_of(A(1))], None, n0, 'a pair')
    for n in ('first', 'second'):
        for f in C.fns('PairType::' + n, lambda f: len(f['params']) == 1):
            S = C.run(f, T.cls_of(C, 'PairType'))
            kept = {m: final(S, F(THIS, m + '_')) for m in ('first', 'second')}
            t = {m: [A(0), kept[m], D(kept[m]), D(F(kept[m], 'type_'))] if m == n else [D(kept[m]), D(F(kept[m], 'type_'))] for m in kept}
            spelt(C, r, S, final(S, F(THIS, 'name_')), S.normal, ['pair_', name_of(*t['first']), '_', name_of(*t['second'])], 'the name of a pair tells what was set as its ' + n, '%s|pair|%s|%s' % (r, n, f['params'][0]['t']))
    for c, t in (('char,', 'std::string'), ('wchar_t,', 'std::wstring'), ('char16_t,', 'std::u16string')):
        cls = T.cls_of(C, 'TStringType<' + c)
        for f in T.bodies(C, cls):
            if T.is_copy(f, cls): continue
            one('TStringType<' + c, f, [t], [t + '_', bound(A(0), 'int')], A(0), t)
    for f in T.bodies(C, NSP + 'ArrayType'):
        if T.is_copy(f, f['cls']): continue
        if 'vector' not in f['params'][1]['t']:
            one('ArrayType', f, ['array_', bound(A(1)), '_', name_of(A(0))], None, n0, 'an array'); continue
        # several dimensions: the name is that of the nested arrays
        S = C.run(f)
        v = final(S, F(THIS, 'name_'))
        d = elem(A(1), n0)
        more = lt(n1, size(A(1)))
        held = final(S, F(THIS, 'content_'))
        for g, w in ((conj(S.normal, more), 'several dimensions'), (conj(S.normal, neg(more)), 'one dimension given as a list')):
            inner = [x for gl, h in leaves(held, g) for x in (h, D(h), strip(h))] + ([A(0)] if w[0] == 'o' else [])
            inner += [D(F(F(THIS, 'content_'), 'type_')), D(F(THIS, 'content_'))]
            spelt(C, r, S, v, g, ['array_', bound(d), '_', name_of(*inner)], 'the name of an array of %s tells them and what it is made of' % w, '%s|array|%s' % (r, w))
    for cls, i in (('AliasType', 1), ('StructType', 0), ('UnionType', 0)):
        for f in T.bodies(C, NSP + cls):
            if T.is_copy(f, f['cls']) or len(f['params']) <= i: continue
            S = C.run(f, preset=T.UNION_INT(C, cls))
            value(C, r, S, final(S, F(THIS, 'name_')), A(i), '%s has the name it was declared with' % cls)
    for cls in T.enum_classes(C):
        for f in T.bodies(C, cls):
            if T.is_copy(f, cls) or not f['params']: continue
            S = C.run(f, cls)
            value(C, r, S, final(S, F(THIS, 'name_')), A(0), 'an enumeration has the name it was declared with')
    for f in C.fns('DynamicType::name', lambda f: f['params'] and not f['const']):
        S = C.run(f)
        value(C, r, S, final(S, F(THIS, 'name_')), A(0), 'renaming a type gives it the new name')
    for f in C.fns('DynamicType::name', lambda f: not f['params']):
        returns(C, r, C.run(f), [F(THIS, 'name_')], 'the name told is that of the type')
    for f in C.fns('PairType::name', lambda f: len(f['params']) == 2):
        S = C.run(f)
        for g, v, st in S.rets: spelt(C, r, S, v, g, ['pair_', name_of(A(0)), '_', name_of(A(1))], 'the name of a pair of types tells both', r + '|pairname')

def strip(t):
    while t[0] in ('Ptr', 'hold', 'shr'): t = t[1]
    return t

def P27(C):
    naming(C)
    C.left_out('naming', [('SequenceType::SequenceType', 2, 1, 0, 'a sequence made without a bound has none'), ('MapType::MapType', 3, 2, 0, 'a map made without a bound has none')]
               + [(q[len(NSP):], 1, 0, 0, 'a string made without a bound has none') for q in C.P.qn if q.endswith('>::TStringType')])
