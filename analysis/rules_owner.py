"""P24 dynamic values own their content: what the special members of values and references do with memory, content and type"""
from core import *
from rules_value import LIFE
import rules_value as V, rules_types as T, rules_access as R

DD, WR, RR = 'DynamicData', 'WritableDynamicDataRef', 'ReadableDynamicDataRef'
I, TY, INIT = F(THIS, 'instance_'), F(THIS, 'type_'), F(THIS, 'initialize_')
OI, OT = F(A(0), 'instance_'), F(A(0), 'type_')
YES = ('b', TRUE)
REFS = tuple('const %s%s &' % (NSP, c) for c in (DD, WR, RR)) + tuple('%s%s &&' % (NSP, c) for c in (WR, RR)) + (NSP + RR, NSP + WR)
CHANGES = {'delete', 'memset', 'memcpy', 'memmove'}

def bodies(C, cls, name=None):
    return [f for f in C.P.qn.get(NSP + cls + '::' + (name or cls), []) if f.get('body') is not None and not f.get('implicit')]

def ptypes(f): return tuple(p['t'] for p in f['params'])
def life(C, S): return [x for x in C.effs(S) if x.kind == 'vcall' and x.name in LIFE and len(x.a) > 1]
def frees(C, S): return [x for x in C.effs(S) if x.kind == 'delete']
def seq(x): return x.e.seq
def holds(t, types):
    while t[0] in ('hold', 'Ptr', 'shr'): t = t[1]
    return t in types

def type_kept(C, r, S, src, what):
    """the value has a type it keeps alive: the one of src itself, or a copy"""
    v = final(S, TY)
    want = [src, RES(src)]
    ok, unsure = S.normal != FALSE, False
    for g, x in leaves(v, S.normal):
        if x[0] == 'hold' and holds(x, want): continue
        if x == F(src[1], 'type_') if src[0] == 'deref' else False: continue
        if src == D(OT) and x == OT: continue
        ok = False; unsure = unsure or murky(x) or x[0] in ('shr', 'Ptr', 'vc')
    C.ob(r, S, ok, what, unsure=unsure)

def fresh(S):
    v = final(S, I)
    return v if v[0] == 'new' else None

def constructing(C):
    r = 'value-owned'
    seen = 0
    for f in bodies(C, DD):
        t = ptypes(f)
        if t == ('const %sDynamicType &' % NSP,): how, src, args = 'construct_instance', A(0), ()
        elif t in ((REFS[0],), (REFS[1],), (REFS[2],), (REFS[3],), (REFS[4],)): how, src, args = 'copy_instance', D(OT), (OI,)
        elif t == ('%sDynamicData &&' % NSP,): how, src, args = 'move_instance', D(OT), (OI, ('b', FALSE))
        elif len(t) == 2 and t[0] in REFS and 'DynamicType &' in t[1]: how, src, args = 'copy_instance_from_type', A(1), (OI, D(OT))
        else: continue
        S = C.run(f, NSP + DD)
        seen += 1
        mem = fresh(S)
        news = [x for x in C.effs(S) if x.kind in ('new', 'pnew') and x.name != 'memory_size']
        C.ob(r, S, mem is not None, 'a value has memory of its own', unsure=murky(final(S, I)) or final(S, I)[0] == 'ite' or mentions(final(S, I), lambda z: z[0] == 'new'))
        if mem is not None:
            for x in news:
                if x.a[0] == mem: C.ob(r, S, any(same(x.a[1], [size(t), vc('memory_size', t)], S.normal) for t in (src, D(('hold', RES(src))), RES(src), D(TY))), 'the memory of a value is as large as its type needs', x.e.line, unsure=murky(x.a[1]) or x.a[1][0] != 'int' and not (src != D(OT) and x.a[1][:2] == ('vc', 'memory_size') and x.a[1][2] in (D(OT), RES(D(OT)))))
        type_kept(C, r, S, src, 'a value keeps the type it is created with')
        C.ob(r, S, same(final(S, INIT), YES, S.normal), 'a value created releases its content when it is destroyed', unsure=murky(final(S, INIT)))
        if mem is None: continue
        ops = [x for x in life(C, S) if x.a[1] == mem]
        fill = [x for x in ops if x.name == how and _args(C, x, args, S)]
        got = disj(*[x.g for x in fill]) if fill else FALSE
        C.ob(r, S, implies(S.normal, got) and len([x for x in ops if x.name != 'destroy_instance']) == len(fill), 'the content of a new value is made once, by %s' % how,
             unsure=any(murky_ev(x.e) for x in life(C, S)) or bool(ops) and not fill and any(x.name == how and any(murky(y) or y[0] in ('ite', 'pite') for y in x.a[2:]) for x in ops))
        C.ob(r, S, not [x for x in frees(C, S) if x.a and x.a[0] == mem and conj(x.g, S.normal) != FALSE], 'a new value keeps its memory')
        for x in fill: C.ob(r, S, holds(x.a[0], [D(('hold', RES(src))), D(('hold', src)), src, RES(src)]) or _denotes(x.a[0], src), 'the content of a new value is made for its type', x.e.line, unsure=murky(x.a[0]))
        others = [x for x in life(C, S) if x.a[1] == OI and conj(x.g, S.normal) != FALSE]
        if how != 'move_instance':
            C.ob(r, S, not others and not [x for x in frees(C, S) if x.a and x.a[0] == OI], 'creating a value leaves the one it is copied from alone', unsure=any(murky_ev(x.e) for x in others))
        else: moved_from(C, S, fill, others)
    if seen < 4: raise Missing('the constructors of DynamicData')

def sized(C):
    """the memory a value is given covers what its type asks for (P02)"""
    C.borrow([constructing], what=lambda w: w == 'the memory of a value is as large as its type needs')

def converted(C):
    """a value made from one of another type is filled by its own type (P05)"""
    C.borrow([constructing], what=lambda w: w in ('the memory of a value is as large as its type needs', 'the content of a new value is made once, by copy_instance_from_type'))

def _args(C, x, args, S):
    got = x.a[2:]
    if len(got) < len(args): return False
    return all(a == b or (a[0] == 'deref' and _denotes(b, a)) or (b[0] == 'int' and a == ('b', FALSE) and b == n0) for a, b in zip(args, got))

def _denotes(t, src):
    while t[0] in ('deref',) and t[1][0] in ('hold', 'Ptr', 'shr'): t = t[1][1]
    if t[0] == 'res' or (t[0] == 'call' and t[1:2] == ('res',)): t = t[-1]
    return t == src or t == RES(src)

def moved_from(C, S, fill, others):
    r = 'value-moved'
    for n, p in (('memory', OI), ('type', OT)):
        v = final(S, p)
        C.ob(r, S, v == p, 'a value moved from keeps the %s its content is in' % n, unsure=murky(v) or v != n0)
    v = final(S, F(A(0), 'initialize_'))
    C.ob(r, S, v in (F(A(0), 'initialize_'), YES), 'a value moved from still releases its content', unsure=murky(v))
    C.ob(r, S, not [x for x in frees(C, S) if x.a and x.a[0] == OI], 'the memory of a value moved from stays its own')
    if not fill: return
    con = [x for x in others if x.name == 'construct_instance']
    des = [x for x in others if x.name == 'destroy_instance']
    ok = implies(S.normal, disj(FALSE, *[x.g for x in con])) and len(con) == 1 and all(seq(x) > seq(fill[0]) for x in con)
    C.ob(r, S, ok, 'a value moved from can be used again', unsure=len(con) > 1 or any(murky_ev(x.e) for x in others) or any(x.name not in ('construct_instance', 'destroy_instance') for x in others))
    ok = implies(S.normal, disj(FALSE, *[x.g for x in des])) and len(des) == 1 and all(seq(fill[0]) < seq(d) < seq(c) for d in des for c in con)
    C.ob(r, S, ok, 'what a move leaves in the source is released once', unsure=len(des) > 1 or any(murky_ev(x.e) for x in others))

def destroying(C):
    r = 'value-destroyed'
    fs = bodies(C, DD, '~' + DD)
    if not fs: raise Missing('the destructor of DynamicData')
    for f in fs:
        S = C.run(f, NSP + DD)
        des = [x for x in life(C, S) if x.name == 'destroy_instance' and x.a[1] == I]
        dl = [x for x in frees(C, S) if x.a and x.a[0] == I]
        on = neg(eq(INIT, n0)); u = any(murky_ev(x.e) for x in des + dl)
        got = disj(FALSE, *[x.g for x in des])
        C.ob(r, S, implies(conj(S.normal, on), disj(got, eq(I, n0))) and S.normal != FALSE, 'destroying a value releases its content', unsure=u or murky_node(got))
        C.ob(r, S, len(des) < 2 or all(conj(a.g, b.g) == FALSE for a in des for b in des if a is not b), 'destroying a value releases its content once')
        C.ob(r, S, implies(got, on), 'only content there is is released', unsure=True)
        for x in des: C.ob(r, S, x.a[0] == D(TY), 'content is released by the type of the value', x.e.line, unsure=murky(x.a[0]))
        gd = disj(FALSE, *[x.g for x in dl])
        C.ob(r, S, implies(S.normal, disj(gd, eq(I, n0))), 'destroying a value gives its memory back', unsure=u or murky_node(gd))
        C.ob(r, S, len(dl) < 2 or all(conj(a.g, b.g) == FALSE for a in dl for b in dl if a is not b), 'the memory of a value is given back once')
        C.ob(r, S, all(seq(a) < seq(b) for a in des for b in dl), 'content is released before its memory is given back')
        C.ob(r, S, all(x.name == '[]' for x in dl), 'memory is given back the way it was obtained')

def assigning(C):
    r = 'value-assigned'
    seen = 0
    for cls in (DD, WR):
        for f in bodies(C, cls, 'operator='):
            t = ptypes(f)
            if len(t) != 1 or t[0] not in REFS: continue
            S = C.run(f, NSP + cls, assume=NOT_SELF())
            seen += 1
            self_ = eq(I, OI)
            ops = life(C, S)
            u = any(murky_ev(x.e) for x in ops) or any(x.name == 'move_instance' for x in ops) or final(S, I) != I
            des = [x for x in ops if x.name == 'destroy_instance' and x.a[1] == I]
            cp = [x for x in ops if x.name == 'copy_instance' and x.a[1] == I and x.a[2] == OI]
            gd, gc = disj(FALSE, *[x.g for x in des]), disj(FALSE, *[x.g for x in cp])
            away = conj(S.normal, neg(self_))
            C.ob(r, S, implies(away, gc) and S.normal != FALSE, 'assigning a value copies the content of the other', unsure=u)
            C.ob(r, S, implies(conj(away, gc), gd), 'assigning a value releases what was there before', unsure=u)
            C.ob(r, S, conj(self_, disj(gd, gc)) == FALSE, 'assigning a value to itself changes nothing', unsure=u or murky_node(gd))
            C.ob(r, S, len(des) < 2 and len(cp) < 2 and all(seq(a) < seq(b) for a in des for b in cp), 'what was there before is released once, before the content of the other is made there', unsure=u or len(des) > 1 or len(cp) > 1)
            C.ob(r, S, implies(disj(gd, gc), S.normal), 'a refused assignment changes nothing', unsure=u)
            C.ob(r, S, not [x for x in ops if x.a[1] == OI and x.name != 'is_compatible'] and not frees(C, S), 'assigning leaves the other value alone', unsure=u)
            for x in des + cp: C.ob(r, S, x.a[0] == D(TY) or x.a[0] == D(OT), 'content is released and copied by its type', x.e.line, unsure=murky(x.a[0]))
            compat = [e for e in walk_calls(S.normal) if e[1] == 'is_compatible']
            okc = any(implies(conj(S.normal, neg(self_)), eq(e, n0)) for e in compat)
            C.ob(r, S, okc, 'a value is assigned from values of its own type only', unsure=not compat and murky_node(S.normal))
    if seen < 3: raise Missing('the assignments of values')

def walk_calls(g):
    out = set()
    def v(t):
        if t[0] == 'vc': out.add(t)
        return False
    B.exists(g, lambda t: mentions(t, v) and False)
    return out

def references(C):
    """a reference denotes what the other denotes, owns nothing and takes nothing"""
    r = 'reference'
    for cls in (RR, WR):
        for f in bodies(C, cls):
            t = ptypes(f)
            if len(t) == 1 and t[0] in REFS:
                S = C.run(f, NSP + cls)
                if not [e for e in S.events if e.kind == 'store']: continue
                v = final(S, I)
                C.ob(r, S, same(v, OI, S.normal) and S.normal == TRUE, 'a reference made from another denotes the same value', unsure=murky(v))
                v = final(S, TY)
                C.ob(r, S, all(x == OT or holds(x, [D(OT), RES(D(OT)), OT]) for g, x in leaves(v, S.normal)), 'a reference made from another has the same type', unsure=murky(v))
                for n in ('instance_', 'type_', 'initialize_'):
                    v = final(S, F(A(0), n))
                    C.ob(r, S, v == F(A(0), n), 'making a reference takes nothing (%s) from the other' % n, unsure=murky(v))
            elif len(t) == 2 and t[1] == 'unsigned char *':
                S = C.run(f, NSP + cls)
                v = final(S, I)
                C.ob(r, S, same(v, A(1), S.normal) and S.normal == TRUE, 'a reference to a part denotes that part', unsure=murky(v))
                type_kept(C, r, S, A(0), 'a reference keeps the type of what it denotes')
            else: continue
            C.ob(r, S, not life(C, S) and not frees(C, S), 'making a reference changes no value')
        for f in bodies(C, cls, '~' + cls):
            S = C.run(f, NSP + cls)
            C.ob(r, S, not life(C, S) and not frees(C, S), 'the end of a reference changes no value')
    for cls in (RR, WR, DD):
        m = C.P.rec[NSP + cls].get('methods', [])
        for x in m:
            # what the compiler supplies for a value that owns memory would share it
            if cls == DD and x['kind'] == 'ctor' and x['pt'] in (['const %s%s &' % (NSP, DD)], ['%s%s &&' % (NSP, DD)]):
                f = next((f for f in C.P.qn.get(NSP + DD + '::' + DD, []) if list(ptypes(f)) == x['pt']), None)
                if f is not None: C.ob('value-owned', f, not x['defaulted'] or x['deleted'], 'a value does not share the memory of the one it is made from')
            if cls == DD and x['name'] == 'operator=' and x['pt'] in (['const %s%s &' % (NSP, DD)], ['%s%s &&' % (NSP, DD)]):
                f = next((f for f in C.P.qn.get(NSP + DD + '::operator=', []) if list(ptypes(f)) == x['pt']), None)
                if f is not None: C.ob('value-assigned', f, not x['defaulted'] or x['deleted'], 'assigning a value does not make both share memory')

def keeping(C):
    """the operations of a value change its content, never which memory and type it has"""
    r = 'value-kept'
    n = 0
    for cls in (RR, WR, DD):
        for f in C.J['functions']:
            if f.get('cls') != NSP + cls or f.get('body') is None or f['kind'] != 'method' or f.get('const') or f.get('static') or f.get('access') in ('private', 'protected'): continue
            S = C.run(f, NSP + cls)
            n += 1
            bad = [p for p in (I, TY, INIT) if final(S, p) != p]
            C.ob(r, S, not bad, 'an operation leaves the memory and the type of the value alone', unsure=any(murky(final(S, p)) for p in bad) or f['qn'].endswith('operator='))
    if n < 10: raise Missing('the operations of dynamic values')

PARTS = {'resize', 'push', 'insert', 'd', 'operator[]', 'items', 'ref', 'cref', 'for_each', 'size', 'begin', 'end'}

def parts(C):
    """what changes a part of a value never makes the whole of it anew"""
    r = 'value-part'
    n = 0
    for cls in (WR, DD):
        for f in C.J['functions']:
            if f.get('cls') != NSP + cls or f.get('body') is None or f['kind'] != 'method' or f['name'].split('<')[0] not in PARTS: continue
            S = C.run(f, NSP + cls)
            n += 1
            bad = [x for x in life(C, S) if x.a[1] == I and conj(x.g, S.normal) != FALSE]
            C.ob(r, S, not bad, 'an operation on a part leaves the rest of the value alone', bad[0].e.line if bad else None, unsure=len({x.name for x in bad}) > 2 or any(x.name == 'move_instance' for x in bad))
    if n < 5: raise Missing('the operations on parts')

def borrowed(C):
    C.borrow([R.access], what=lambda w: w.endswith('replaces the old one') or w == 'a number written replaces the value')
    C.borrow([V.P01])
    C.borrow([T.captures], lambda w: 'DynamicType::Ptr' in w)
