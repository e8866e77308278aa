"""P12: operators on dynamic values"""
from core import *
from rules_compat import CTYPE, PRIMS
from rules_layout import TY, INST
from rules_access import PK, PLAIN, changes, targ, kind_for
from sym import Sym

SINT = ('INT_8_TYPE', 'INT_16_TYPE', 'INT_32_TYPE', 'INT_64_TYPE')
UINT = ('UINT_8_TYPE', 'UINT_16_TYPE', 'UINT_32_TYPE', 'UINT_64_TYPE')
FLT = ('FLOAT_32_TYPE', 'FLOAT_64_TYPE', 'FLOAT_128_TYPE')
CHARS = ('CHAR_8_TYPE', 'CHAR_16_TYPE', 'WIDE_CHAR_TYPE', 'BOOLEAN_TYPE')
STR = ('STRING_TYPE', 'WSTRING_TYPE', 'STRING16_TYPE')
INT = SINT + UINT
BINARY = {'*': INT + FLT, '/': INT + FLT, '+': INT + FLT, '-': INT + FLT, '%': INT, '<<': INT, '>>': INT, '&': INT, '^': INT, '|': INT}
RELATION = ('<', '>', '<=', '>=')
O = D(F(A(0), 'type_')); OINST = F(A(0), 'instance_')
BITS = {'bool': 8, 'signed char': -8, 'unsigned char': 8, 'char': -8, 'short': -16, 'unsigned short': 16, 'char16_t': 16, 'wchar_t': -32, 'int': -32, 'unsigned int': 32,
        'long': -64, 'unsigned long': 64, 'long long': -64, 'unsigned long long': 64, 'float': 32, 'double': 64, 'long double': 128}

def settle(v, t):
    """without the conversion back to the type of the operands"""
    while v is not None and v[0] == 'cvt' and abs(v[1]) in (abs(BITS.get(t, 0)), 80 if t == 'long double' else 0, 128 if t == 'long double' else 0): v = v[2]
    return v

def content(S, p, t, before=None):
    """the number stored at p when the function returns"""
    p = final(S, p) if p[0] == 'tmp' else p
    last, at = None, 0
    for i, e in enumerate(S.events[:before]):
        if e.kind == 'vcall' and e.name in ('copy_instance', 'move_instance') and e.a[1] == p: last, at = e, i
        elif e.kind == 'store' and e.a[0][0] == 'at' and e.a[0][2] == p: last, at = e, i
    if last is None: return ('at', t, p)
    if last.kind == 'store': return last.a[1]
    s = last.a[2]
    if s[0] == 'addr': return final(S, s[1])
    return content(S, s, t, at)

def presets(C, k, other=None):
    m = {**PK(C), KINDOF(TY): num(C.K[k]), KINDOF(O): num(C.K[other or k])}
    for ts in CTYPE.values():
        for t in ts:
            for h in (D(('hold', ('prim', t))), D(('hold', ('res', D(('hold', ('prim', t))))))): m[KINDOF(h)] = m[KINDOF(('prim', t))]
    return m

def computed(C, rule, S, v, want, t, what):
    ok = v is not None and any(same(settle(x, t), settle(w, t), g) for w in want for g, x in [(S.normal, v)])
    return C.ob(rule, S, ok and S.normal != FALSE, what, unsure=v is None or murky(v) or (v[0] == 'at' and v[2] not in (INST, OINST)))

def operands(C, rule, S, what):
    bad = [e for e in S.events if changes(e) and touches(e)]
    C.ob(rule, S, not bad, what, bad[0].line if bad else None, unsure=any(murky_ev(e) for e in bad))

def touches(e):
    return any(mentions(x, lambda z: z in (INST, OINST)) for x in e.a[(1 if e.kind == 'vcall' else 0):][:1])

def truthy(v, t):
    if t in ('float', 'double', 'long double'): return neg(eq(v, ('flt', '0')))
    return node(v)

def refused(C, rule, f, ks, name):
    for k in ks:
        S = C.run(f, preset=presets(C, k))
        C.ob(rule, S, S.normal == FALSE, 'operator %s is refused for a %s' % (name, k), unsure=murky_node(S.normal))

def P12(C):
    rule = 'operator'
    def op(name, n): return C.fn('DynamicData::operator' + name, lambda f: len(f['params']) == n and '<' not in f['qn'].split('::')[-1].replace('operator' + name, ''))
    rest = lambda dom: [k for k in PLAIN if k not in dom]
    a = lambda t: ('at', t, INST)
    b = lambda t: ('at', t, OINST)
    bo = lambda o, x, y: Sym.binop(None, o, x, y)
    # two operands, a value
    for o, dom in BINARY.items():
        f = op(o, 1)
        for k in dom:
            t = CTYPE[k][0]
            S = C.run(f, preset=presets(C, k))
            w = [bo(o, a(x), b(x)) for x in CTYPE[k]]
            res = ret_fields(S, 'instance_', 'type_')
            v = content(S, res[0][1]['instance_'], t) if len(res) == 1 else None
            computed(C, rule, S, v, w, t, 'operator %s on a %s gives the result of the C++ operator' % (o, k))
            prim = {x for _, d in res for x in walk(d['type_']) if x[0] == 'prim'}
            C.ob(rule, S, len(prim) == 1 and prim.pop()[1] in CTYPE[k], 'the result of operator %s is a %s' % (o, k), unsure=not prim)
            operands(C, rule, S, 'operator %s leaves its operands alone' % o)
            wrong = PRIMS[(PRIMS.index(k) + 1) % len(PRIMS)]
            S = C.run(f, preset=presets(C, k, wrong))
            C.ob(rule, S, S.normal == FALSE, 'operator %s between a %s and a %s is refused' % (o, k, wrong), unsure=murky_node(S.normal))
        refused(C, rule, f, rest(dom), o)
        # assigning form, other a value
        f = op(o + '=', 1)
        for k in dom:
            t = CTYPE[k][0]
            S = C.run(f, preset=presets(C, k))
            computed(C, rule, S, content(S, INST, t), [bo(o, a(x), b(x)) for x in CTYPE[k]], t, 'operator %s= on a %s stores the result of the C++ operator' % (o, k))
            bad = [e for e in S.events if e.kind == 'vcall' and changes(e) and e.a[1] == OINST]
            C.ob(rule, S, not bad, 'operator %s= leaves its right operand alone' % o)
            returns(C, rule, S, THIS, 'operator %s= returns the value assigned' % o)
        refused(C, rule, f, rest(dom), o + '=')
        # assigning form, other a number
        for q in sorted(C.P.qn):
            if not q.startswith(NSP + 'DynamicData::operator%s=<' % o): continue
            for f in C.P.qn[q]:
                t = targ(q.replace('operator%s=' % o, 'op'))
                me = kind_for(t)
                if f.get('body') is None: continue
                if t in ('bool', 'char', 'wchar_t', 'char16_t'):
                    S = C.run(f, preset=presets(C, next(k for k in CTYPE if t in CTYPE[k])))
                    C.ob(rule, S, S.normal == FALSE, 'operator %s= is refused for a %s' % (o, t), unsure=murky_node(S.normal))
                    continue
                if me is None or me in CHARS: continue
                S = C.run(f, preset=presets(C, me))
                computed(C, rule, S, content(S, INST, t), [bo(o, a(t), A(0)), bo(o, a(t), ('at', t, addr(A(0))))], t, 'operator %s= of a %s and a number stores the result of the C++ operator' % (o, me))
                wrong = PRIMS[(PRIMS.index(me) + 1) % len(PRIMS)]
                S = C.run(f, preset=presets(C, wrong))
                C.ob(rule, S, S.normal == FALSE, 'operator %s= of a %s and a %s is refused' % (o, wrong, t), unsure=murky_node(S.normal))
    # one operand
    for o, dom in (('-', SINT + FLT), ('~', SINT)):
        f = op(o, 0)
        for k in dom:
            t = CTYPE[k][0]
            S = C.run(f, preset=presets(C, k))
            w = [y for x in CTYPE[k] for y in ((('neg', a(x)), sub(n0, a(x))) if o == '-' else (('bnot', a(x)),))] + ([sub(sub(n0, a(x)), n1) for x in CTYPE[k]] if o == '~' else [])
            res = ret_fields(S, 'instance_', 'type_')
            v = content(S, res[0][1]['instance_'], t) if len(res) == 1 else None
            computed(C, rule, S, v, w, t, 'operator %s on a %s gives the result of the C++ operator' % (o, k))
            operands(C, rule, S, 'unary operator %s leaves its operand alone' % o)
        refused(C, rule, f, rest(dom), 'unary ' + o)
    for o, n in (('++', 0), ('++', 1), ('--', 0), ('--', 1)):
        f = op(o, n)
        for k in INT:
            t = CTYPE[k][0]
            S = C.run(f, preset=presets(C, k))
            computed(C, rule, S, content(S, INST, t), [add(a(x), n1 if o == '++' else num(-1)) for x in CTYPE[k]], t, 'operator %s on a %s changes it by one' % (o, k))
            if n == 0: returns(C, rule, S, THIS, 'prefix %s returns the value changed' % o)
        refused(C, rule, f, rest(INT), o)
    f = op('!', 0)
    for k in INT + CHARS:
        S = C.run(f, preset=presets(C, k))
        decides(C, rule, S, [neg(truthy(a(x), x)) for x in CTYPE[k]], 'operator ! on a %s tells whether it is zero' % k)
    refused(C, rule, f, [k for k in rest(INT + CHARS + STR + FLT)], '!')
    for k in STR:
        S = C.run(f, preset=presets(C, k))
        t = truth(S)
        C.ob(rule, S, S.normal == TRUE and t not in (TRUE, FALSE) and all(mentions(x, lambda z: z[0] == 'at' and z[2] == INST) for x in B.support(t)), 'operator ! on a %s tells whether it is empty' % k, unsure=murky_node(t))
    # comparisons
    for o in RELATION + ('&&', '||'):
        f = op(o, 1)
        for k in INT + FLT + CHARS:
            S = C.run(f, preset=presets(C, k))
            if o in RELATION: w = [node(bo(o, a(x), b(x))) for x in CTYPE[k]]
            else: w = [(conj if o == '&&' else disj)(truthy(a(x), x), truthy(b(x), x)) for x in CTYPE[k]]
            decides(C, rule, S, w, 'operator %s on two %s gives the result of the C++ operator' % (o, k))
            operands(C, rule, S, 'operator %s leaves its operands alone' % o)
        refused(C, rule, f, rest(INT + FLT + CHARS), o)
