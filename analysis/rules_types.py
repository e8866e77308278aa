"""P11 primitive kinds, P26 classification of kinds, P14 captured types, P13 aliases"""
from core import *
from rules_value import *
from rules_compat import CTYPE, PRIMS
from rules_layout import TY, INST, SIZEOF
from rules_access import CONTENT, STRINGS as STR_OBJ, targ, kind_for, typed

PRIM_KINDS = tuple(CTYPE)
CPPNAME = {'BOOLEAN_TYPE': 'bool', 'INT_8_TYPE': 'int8_t', 'UINT_8_TYPE': 'uint8_t', 'INT_16_TYPE': 'int16_t', 'UINT_16_TYPE': 'uint16_t', 'INT_32_TYPE': 'int32_t', 'UINT_32_TYPE': 'uint32_t',
           'INT_64_TYPE': 'int64_t', 'UINT_64_TYPE': 'uint64_t', 'FLOAT_32_TYPE': 'float', 'FLOAT_64_TYPE': 'double', 'FLOAT_128_TYPE': 'long double', 'CHAR_8_TYPE': 'char', 'CHAR_16_TYPE': 'char16_t',
           'WIDE_CHAR_TYPE': 'wchar_t'}
MASKS = ('NO_TYPE', 'PRIMITIVE_TYPE', 'CONSTRUCTED_TYPE', 'COLLECTION_TYPE', 'AGGREGATION_TYPE', 'ENUMERATED_TYPE', 'UNSIGNED_TYPE')
COLL = ('ARRAY_TYPE', 'SEQUENCE_TYPE', 'STRING_TYPE', 'WSTRING_TYPE', 'STRING16_TYPE', 'MAP_TYPE')
AGGR = ('STRUCTURE_TYPE', 'UNION_TYPE')
ENUMS = ('ENUMERATION_TYPE',)
FLT = ('FLOAT_32_TYPE', 'FLOAT_64_TYPE', 'FLOAT_128_TYPE')
UNSIGNED = ('UINT_8_TYPE', 'UINT_16_TYPE', 'UINT_32_TYPE', 'UINT_64_TYPE')
ALL = tuple(PRIM_KINDS) + ('ENUMERATION_TYPE', 'ALIAS_TYPE', 'ARRAY_TYPE', 'SEQUENCE_TYPE', 'STRING_TYPE', 'WSTRING_TYPE', 'STRING16_TYPE', 'MAP_TYPE', 'UNION_TYPE', 'STRUCTURE_TYPE', 'PAIR_TYPE')
CLASSIFY = {'is_primitive_type': PRIM_KINDS, 'is_floating_point_type': FLT, 'is_collection_type': COLL, 'is_aggregation_type': AGGR, 'is_enumerated_type': ENUMS,
            'is_constructed_type': tuple(k for k in ALL if k not in PRIM_KINDS)}
def FLZERO(v): return v == n0 or v[0] == 'flt' and float(v[1]) == 0 or v == ('b', FALSE)
CLASS_KIND = {'StructType': 'STRUCTURE_TYPE', 'UnionType': 'UNION_TYPE', 'ArrayType': 'ARRAY_TYPE', 'SequenceType': 'SEQUENCE_TYPE', 'MapType': 'MAP_TYPE', 'PairType': 'PAIR_TYPE', 'AliasType': 'ALIAS_TYPE',
              'TStringType<char,': 'STRING_TYPE', 'TStringType<wchar_t,': 'WSTRING_TYPE', 'TStringType<char16_t,': 'STRING16_TYPE'}
def cls_of(C, c):
    """the full name of a class given by its beginning"""
    if not c.endswith(','): return NSP + c
    r = [x for x in C.P.rec if x.startswith(NSP + c)]
    if len(r) != 1: raise Missing('the class %s...' % c)
    return r[0]

def ctors(C, cls):
    return [f for f in C.P.rec[cls]['methods'] if f['kind'] == 'ctor'] if cls in C.P.rec else []

def bodies(C, cls):
    """the constructors of a class that are compiled here"""
    short = cls[len(NSP):].split('<')[0]
    n = cls + '::' + short
    return [f for q, fs in C.P.qn.items() if q == n or q.startswith(n + '<') for f in fs if f.get('body') is not None]

def is_copy(f, cls):
    p = f['params'] if 'params' in f else None
    if p is None or len(p) != 1: return False
    t = p[0]['t']
    return t in ('const %s &' % cls, '%s &&' % cls, 'const %s &&' % cls)

def cpp_of(cls): return cls[cls.index('<') + 1:cls.rindex('>')]

def primitives(C):
    rule = 'primitive'
    seen = {}
    for cls in prim_classes(C):
        t = cpp_of(cls)
        k = next((k for k, ts in CTYPE.items() if t in ts), None)
        if k is None: continue
        own = [f for f in bodies(C, cls) if not is_copy(f, cls) and len(f['params']) == 1]
        if not own: raise Missing('the constructor of %s' % cls)
        for f in own:
            S = C.run(f, cls)
            v, n = final(S, KINDOF(THIS)), final(S, F(THIS, 'name_'))
            C.ob(rule, S, v == num(C.K[k]), 'the kind of %s is %s' % (t, k), unsure=murky(v))
            C.ob(rule, S, n == ('str', CPPNAME[k]), 'the name of %s is its own' % t, unsure=n[0] != 'str')
            if n[0] == 'str': C.ob(rule, S, seen.setdefault(n[1], k) == k, 'no two primitive types share the name %s' % n[1])
        S = C.run(C.method(cls, 'memory_size', 0), cls)
        returns(C, rule, S, num(SIZEOF[t]), 'a value of %s takes %d bytes' % (t, SIZEOF[t]))
        S = C.run(C.method(cls, 'construct_instance', 1), cls)
        st = [x for x in C.effs(S) if x.kind in ('store', 'memset', 'memcpy', 'pnew')]
        ok = len(st) == 1 and implies(S.normal, st[0].g) and (st[0].kind == 'store' and st[0].a[0] == D(A(0), t) and FLZERO(st[0].a[1]) or st[0].kind == 'memset' and st[0].a == (A(0), n0, num(SIZEOF[t])))
        C.ob(rule, S, ok and S.normal == TRUE, 'a fresh %s is zero' % t, unsure=any(murky_ev(x.e) for x in st) or any(x.kind in ('memcpy', 'pnew') for x in st))
        fs = [f for q in C.P.qn if q == NSP + 'primitive_type<%s>' % t for f in C.P.qn[q] if f.get('body') is not None]
        for f in fs:
            S = C.run(f)
            vals = [v for g, v, st in S.rets if g != FALSE]
            C.ob(rule, S, len(vals) == 1 and vals[0][0] == 'glob', 'asking for the description of %s again gives the same one' % t, unsure=not vals or murky(vals[0]))

def P11(C): primitives(C); C.static('P11')

# ------------------------------------------------------------------ P26
def kinds(C):
    rule = 'kind'
    f0 = C.fn('DynamicType::is_primitive_type')
    vals = {}
    for k in ALL:
        v = C.K[k]
        C.ob(rule, f0, vals.setdefault(v, k) == k, 'the kind %s differs from %s' % (k, vals[v]))
        C.ob(rule, f0, v not in [C.K[m] for m in MASKS], 'the kind %s is no class of kinds' % k)
    for name, members in CLASSIFY.items():
        f = C.fn('DynamicType::' + name)
        for k in ALL:
            S = C.run(f, preset={KINDOF(THIS): num(C.K[k])})
            t = truth(S)
            C.ob(rule, S, t == (TRUE if k in members else FALSE) and S.normal == TRUE, '%s is %s for %s' % (name, 'true' if k in members else 'false', k), unsure=murky_node(t))
    for k in ALL:
        if k in PRIM_KINDS and k not in ('BOOLEAN_TYPE', 'CHAR_8_TYPE', 'CHAR_16_TYPE', 'WIDE_CHAR_TYPE') + FLT:
            C.ob(rule, f0, bool(C.K[k] & C.K['UNSIGNED_TYPE']) == (k in UNSIGNED), 'signs: %s' % k)
    for op, want in (('operator&', lambda a, b: a & b), ('operator|', lambda a, b: a | b)):
        for f in [f for f in C.fns(op) if 'TypeKind' in f['params'][0]['t'] and len(f['params']) == 2]:
            for a in ALL:
                for b in MASKS:
                    S = C.run(f, preset={A(0): num(C.K[a]), A(1): num(C.K[b])})
                    returns(C, rule, S, num(want(C.K[a], C.K[b])), '%s of kinds' % op)
    for op, want in (('operator&=', lambda a, b: a & b), ('operator|=', lambda a, b: a | b)):
        for f in [f for f in C.fns(op) if 'TypeKind' in f['params'][0]['t'] and len(f['params']) == 2]:
            S = C.run(f, preset={A(0): num(C.K['UINT_8_TYPE']), A(1): num(C.K['UNSIGNED_TYPE'])})
            v = final(S, A(0))
            C.ob(rule, S, v == num(want(C.K['UINT_8_TYPE'], C.K['UNSIGNED_TYPE'])), '%s of kinds' % op, unsure=murky(v))
    for cls, k in CLASS_KIND.items():
        own = [f for f in bodies(C, cls_of(C, cls)) if not is_copy(f, cls_of(C, cls))]
        if not own: raise Missing('the constructors of %s' % cls)
        for f in own:
            S = C.run(f, NSP + cls, preset=UNION_INT(C, cls))
            if S.normal == FALSE: continue
            v = final(S, KINDOF(THIS))
            C.ob(rule, S, v == num(C.K[k]), 'the kind of a %s is %s' % (cls, k), unsure=murky(v))
    for cls in enum_classes(C):
        for f in [f for f in bodies(C, cls) if not is_copy(f, cls)]:
            S = C.run(f, cls)
            v = final(S, KINDOF(THIS))
            C.ob(rule, S, v == num(C.K['ENUMERATION_TYPE']), 'the kind of an enumeration is ENUMERATION_TYPE', unsure=murky(v))
    S = C.run(C.fn('DynamicType::kind'))
    returns(C, rule, S, [KINDOF(THIS), F(THIS, 'kind_')], 'a type tells its own kind')

def UNION_INT(C, cls):
    return {KINDOF(A(1)): num(C.K['INT_32_TYPE'])} if cls == 'UnionType' else {}

def P26(C): kinds(C); C.static('P26')

# ------------------------------------------------------------------ P14
def all_fields(C, cls):
    out = []
    for c in C.P.mro(cls): out += [f['n'] for f in C.P.rec[c]['fields']]
    return out

def same_field(S, n, src):
    a, b = final(S, F(THIS, n)), F(src, n)
    if a == b: return True, a
    def strip(t):       # a captured pointer to a type denotes a copy of it
        if t[0] in ('Ptr', 'hold', 'shr'): return strip(t[1]) if t[1][0] in ('Ptr', 'hold', 'shr') else t[1]
        return t
    return strip(a) in (b, D(b), strip(b)), a

CLONES = ('StructType', 'UnionType', 'AliasType', 'PairType', 'ArrayType', 'SequenceType', 'MapType', 'TStringType<char,', 'TStringType<wchar_t,', 'TStringType<char16_t,')
def captures(C):
    rule = 'capture'
    # copying a type copies everything it consists of
    for cls in [cls_of(C, c) for c in CLONES + ('Member',)] + prim_classes(C) + enum_classes(C):
        fields = all_fields(C, cls)
        if not fields: raise Missing('the fields of %s' % cls)
        for f in [f for f in bodies(C, cls) if is_copy(f, cls)]:
            S = C.run(f, cls)
            for n in fields:
                ok, v = same_field(S, n, A(0))
                C.ob(rule, S, ok, 'copying a %s keeps its %s' % (cls.replace(NSP, ''), n), unsure=murky(v))
        m = C.P.rec[cls].get('methods', [])
        for x in m:
            if x['kind'] == 'ctor' and len(x['pt']) == 1 and x['pt'][0] in ('const %s &' % cls, '%s &&' % cls) and x['defaulted'] and not x['deleted']:
                C.oblig.append((rule, '%s (%s)' % (x['qn'].replace(NSP, ''), 'memberwise'), 'holds', 'memberwise'))
    # clone
    for cls in [cls_of(C, c) for c in CLONES] + prim_classes(C) + enum_classes(C):
        if 'basic_string' in cls and 'Primitive' in cls: continue
        S = C.run(C.method(cls, 'clone', 0), cls)
        clone(C, rule, S, cls)
    # DynamicType::Ptr keeps a copy, except of types that cannot change
    def kept(v, src, g, held=None):
        """v denotes src itself only for primitive types; a clone of it otherwise"""
        ok, unsure = True, False
        for gl, x in leaves(v, g):
            x = x[1] if x[0] in ('hold', 'Ptr') and x[1][0] in ('vc', 'shr') else x
            if x == ('vc', 'clone', src) or x == ('Ptr', src) or x == ('call', 'clone', src): continue
            if x in (('shr', src), ('addr', src), ('hold', src), ('hold', ('shr', src))) or (held is not None and x == held):
                gl = conj(gl, neg(eq(held, n0))) if held is not None else gl
                fs = [v2 for kt in [KINDOF(src)] for v2 in [C.K[k] for k in ALL] if subst_node(gl, {kt: num(v2)}) != FALSE]
                if all(C.K.name[v2] in PRIM_KINDS for v2 in fs): continue
                ok = False
            elif x == n0 and held is not None and implies(gl, eq(held, n0)): continue
            else: ok = False; unsure = unsure or murky(x)
        return ok, unsure
    P = NSP + 'DynamicType::Ptr'
    cs = C.P.qn.get(P + '::Ptr', [])
    for f in cs:
        if f.get('body') is None or len(f['params']) != 1: continue
        t = f['params'][0]['t']
        S = C.run(f, P)
        if t == 'const %sDynamicType &' % NSP:
            ok, u = kept(final(S, F(THIS, 'type_')), A(0), S.normal)
            C.ob(rule, S, ok and S.normal == TRUE, 'a type that can change is copied when it is captured', unsure=u)
        elif t == 'const %s &' % P:
            src = D(F(A(0), 'type_'))
            w = [x for x in C.effs(S, 'pnew')]
            v = final(S, F(THIS, 'type_'))
            C.ob(rule, S, any(x.a[0] in (('addr', THIS), THIS) and mentions(('t',) + x.a[1:], lambda y: y == F(A(0), 'type_')) for x in w) or kept(v, src, S.normal, F(A(0), 'type_'))[0],
                 'copying a captured type captures it anew', unsure=bool(w) or murky(v))
            g = FALSE
            for x in w: g = disj(g, x.g)
            if w: C.ob(rule, S, implies(conj(S.normal, neg(eq(F(A(0), 'type_'), n0))), g), 'whatever type was captured is captured anew', unsure=murky_node(g))
    for f in C.P.qn.get(P + '::operator=', []):
        if f.get('body') is None or f['params'][0]['t'] != 'const %s &' % P: continue
        S = C.run(f, P, assume=NOT_SELF())
        src, h = D(F(A(0), 'type_')), F(A(0), 'type_')
        v = final(S, F(THIS, 'type_'))
        ok, unsure = True, False
        for gl, x in leaves(v, S.normal):
            if x == F(THIS, 'type_') and implies(gl, eq(x, h)): continue
            o, u = kept(x, src, gl, h)
            ok = ok and o; unsure = unsure or u
        C.ob(rule, S, ok, 'assigning a captured type captures it anew', unsure=unsure)
    for f in [f for f in C.P.qn.get(P + '::free', []) if f.get('body') is not None]:
        S = C.run(f, P)
        value(C, rule, S, final(S, F(THIS, 'type_')), n0, 'a captured type given away is not kept')
        got = [v for g, v, st in S.rets]
        C.ob(rule, S, bool(got) and all(v == F(THIS, 'type_') for v in got), 'a captured type is given away as it is', unsure=any(v is not None and v != n0 for v in got))
    # what a composed type keeps of the types given to it
    def ptr_field(cls, f, field, arg, what):
        S = C.run(f, NSP + cls, preset=UNION_INT(C, cls))
        v = final(S, F(THIS, field))
        want = [('Ptr', arg), arg, ('Ptr', D(F(arg, 'type_'))), ('Ptr', D(arg)), D(arg)]
        C.ob(rule, S, all(any(x == w for w in want) for g, x in leaves(v, S.normal)) and S.normal != FALSE, what, unsure=murky(v))
    for f in bodies(C, NSP + 'AliasType'):
        if len(f['params']) == 2: ptr_field('AliasType', f, 'aliased_', A(0), 'an alias keeps the type it was declared for')
    for f in bodies(C, NSP + 'PairType'):
        if len(f['params']) == 2:
            ptr_field('PairType', f, 'first_', A(0), 'a pair keeps the type of its key')
            ptr_field('PairType', f, 'second_', A(1), 'a pair keeps the type of its value')
    for n, other in (('first', 'second'), ('second', 'first')):
        for f in C.fns('PairType::' + n, lambda f: len(f['params']) == 1):
            ptr_field('PairType', f, n + '_', A(0), 'a pair keeps the type set as its ' + n)
            S = C.run(f, NSP + 'PairType')
            value(C, rule, S, final(S, F(THIS, other + '_')), F(THIS, other + '_'), 'setting the %s of a pair leaves its %s' % (n, other))
    for f in bodies(C, NSP + 'Member'):
        if len(f['params']) == 2:
            ptr_field('Member', f, 'type_', A(1), 'a member keeps the type it was declared with')
            S = C.run(f, NSP + 'Member')
            value(C, rule, S, final(S, F(THIS, 'name_')), A(0), 'a member keeps the name it was declared with')
    for cls in ('SequenceType', 'ArrayType'):
        for f in bodies(C, NSP + cls):
            if len(f['params']) == 2 and 'vector' not in f['params'][1]['t']: ptr_field(cls, f, 'content_', A(0), 'a collection keeps the type of its elements')
    for f in bodies(C, NSP + 'SequenceType') + bodies(C, NSP + 'MapType'):
        if not is_copy(f, f['cls']):
            S = C.run(f); b = A(len(f['params']) - 1)
            value(C, rule, S, final(S, F(THIS, 'bounds_')), b, 'a collection keeps its bound')
    for f in bodies(C, NSP + 'ArrayType'):
        if len(f['params']) == 2 and 'vector' not in f['params'][1]['t']:
            S = C.run(f)
            value(C, rule, S, final(S, F(THIS, 'dimension_')), A(1), 'an array keeps its dimension')
        elif len(f['params']) == 2:      # from a list of dimensions: an array of arrays
            S = C.run(f, NSP + 'ArrayType')
            n = size(A(1))
            v = final(S, F(THIS, 'content_'))
            value(C, rule, S, final(S, F(THIS, 'dimension_')), elem(A(1), n0), 'an array of several dimensions has the first of them')
            for g, x in leaves(v, S.normal):
                one, many = conj(g, le(n, n1)), conj(g, lt(n1, n))
                x = x[1] if x[0] == 'Ptr' else x
                if one != FALSE: C.ob(rule, S, x == A(0), 'an array of one dimension keeps the type of its elements', unsure=murky(x) or one != g or x[0] == 'tmp')
                if many != FALSE:
                    d = final(S, F(x, 'dimension_'))
                    rest = final(S, d[1]) if d[0] == 'elem' and d[2] == n0 else None
                    last = {y for h, y in leaves(final(S, F(x, 'content_')))}
                    ok = (rest == ('part', A(1), n1, n) or d == elem(A(1), n1)) and ('Ptr', A(0)) in last
                    C.ob(rule, S, ok, 'an array of several dimensions is made of arrays of the rest of them', unsure=many != g or x[0] not in ('p', 'int', 'fld') and (rest is None and d[:2] != ('elem', A(1)) or rest is not None and rest[0] not in ('part', 'p') or murky(d)))
    for f in bodies(C, NSP + 'MapType'):
        if len(f['params']) == 3:
            S = C.run(f)
            v = final(S, F(THIS, 'content_'))
            x = v
            while x[0] in ('Ptr', 'hold', 'shr') : x = x[1]
            a, b = final(S, F(x, 'first_')), final(S, F(x, 'second_'))
            C.ob(rule, S, a in (('Ptr', A(0)), A(0)) and b in (('Ptr', A(1)), A(1)), 'a map keeps the types of its keys and values', unsure=murky(v) or murky(a) or murky(b) or a == F(x, 'first_'))
    # accessors tell what was captured
    for q, field, deref_ in (('AliasType::get', 'aliased_', 1), ('PairType::first', 'first_', 1), ('PairType::second', 'second_', 1), ('CollectionType::content_type', 'content_', 1), ('Member::type', 'type_', 1),
                             ('ArrayType::dimension', 'dimension_', 0), ('MutableCollectionType::bounds', 'bounds_', 0), ('Member::name', 'name_', 0), ('DynamicType::name', 'name_', 0), ('Member::offset', 'offset_', 0),
                             ('AggregationType::members', 'members_', 0)):
        for f in C.fns(q, lambda f: f['const'] and not f['params']):
            S = C.run(f)
            x = F(THIS, field)
            returns(C, rule, S, [D(x), D(F(x, 'type_'))] if deref_ else [x], '%s tells what the type was given' % q)

def clone(C, rule, S, cls):
    ok, unsure, what = True, False, 'a captured %s is a complete copy of it' % cls.replace(NSP, '')
    objs = [(g, v, st) for g, v, st in S.rets if g != FALSE]
    for g, v, st in objs:
        while v[0] in ('hold', 'Ptr', 'shr'): v = v[1]
        if v[0] != 'mkshared': ok = False; unsure = unsure or murky(v) or v[0] not in ('vc', 'shr', 'int'); continue
        if v[1] != cls: ok = False; continue
        args = v[2:]
        if args == (THIS,) or args == (D(THIS),): continue
        for n in all_fields(C, cls):
            w = final(S, F(D(v), n), st)
            if w == F(THIS, n): continue
            pos = ctor_sets(C, cls, args, n)
            if pos is not None and (pos == F(THIS, n) or constant_field(C, cls, n, pos)): continue
            ok = False
            unsure = unsure or murky(w) or pos is None
            what = 'a captured %s keeps its %s' % (cls.replace(NSP, ''), n)
    C.ob(rule, S, ok and bool(objs), what, unsure=unsure)

def constant_field(C, cls, n, v):
    """every constructor of the class leaves the same constant in a field that nothing else sets"""
    if v[0] not in ('int', 'str'): return False
    if not all(final(C.run(f, cls), F(THIS, n)) == v for f in bodies(C, cls) if not is_copy(f, cls)): return False
    for f in [f for q in C.P.qn for f in C.P.qn[q] if f.get('cls') in C.P.mro(cls)]:
        if f.get('body') is None or f.get('const') or f.get('static') or f['kind'] in ('ctor', 'dtor') or f['name'] == 'operator=': continue
        if any(e.kind in ('store', 'mut') and e.a and mentions(e.a[0], lambda z: z == F(THIS, n)) for e in C.run(f, cls).events): return False
    return True

def ctor_sets(C, cls, args, field):
    """what a constructor of cls called with args leaves in a field"""
    for f in bodies(C, cls):
        ps = f['params']
        if len(ps) != len(args): continue
        if is_copy(f, cls) != (len(args) == 1 and args[0] == THIS): continue
        S = C.run(f, cls)
        return subst(final(S, F(THIS, field)), {A(i): a for i, a in enumerate(args)})
    return None

def P14(C): captures(C); C.static('P14')

# ------------------------------------------------------------------ P13
AL = D(F(THIS, 'aliased_'))
DELEGATE = (('memory_size', 0), ('construct_instance', 1), ('copy_instance', 2), ('copy_instance_from_type', 3), ('move_instance', 3), ('destroy_instance', 1), ('compare_instance', 2), ('hash', 1), ('for_each_type', 2))
def aliases(C):
    rule = 'alias'
    cls = NSP + 'AliasType'
    GET = [AL, D(F(F(THIS, 'aliased_'), 'type_')), ('rget', THIS)]
    for name, n in DELEGATE:
        S = C.run(C.method('AliasType', name, n), cls)
        own = [x for x in C.effs(S) if x.kind not in ('return', 'vcall') and outside(x)]
        calls = C.effs(S, 'vcall')
        args = tuple(A(i) for i in range(n))
        ok = len(calls) == 1 and calls[0].name == name and calls[0].a[0] in GET and calls[0].a[1:] == args and implies(S.normal, calls[0].g)
        if name == 'memory_size':
            returns(C, rule, S, [vc('memory_size', g) for g in GET], 'a value of an alias takes the room of what it stands for'); continue
        C.ob(rule, S, ok and not own and S.normal == TRUE, '%s of an alias is that of what it stands for' % name, unsure=any(murky_ev(x.e) for x in calls))
        if name == 'hash': returns(C, rule, S, [('vc', name, g) + args for g in GET], 'the result of %s is that of what the alias stands for' % name)
        if name == 'compare_instance': decides(C, rule, S, [neg(eq(('vc', name, g) + args, n0)) for g in GET], 'the result of %s is that of what the alias stands for' % name)
    S = C.run(C.method('AliasType', 'for_each_instance', 2), cls)
    calls = C.effs(S, 'vcall', {'for_each_instance'})
    ok = len(calls) == 1 and calls[0].a[0] in GET and calls[0].a[2] == A(1) and implies(S.normal, calls[0].g)
    C.ob(rule, S, ok, 'visiting an aliased value visits what it stands for', unsure=any(murky_ev(x.e) for x in calls))
    if ok:
        nd = calls[0].a[1]
        for n, want in (('type', GET), ('instance', [F(A(0), 'instance')]), ('from_index', [F(A(0), 'from_index')]), ('from_member', [F(A(0), 'from_member')]), ('parent', [F(A(0), 'parent')])):
            v = node_part(S, nd, n)
            C.ob(rule, S, v in want, 'the %s given to the visitor is that of the aliased value' % n, unsure=v is None or murky(v))
        v = node_part(S, nd, 'deep')
        C.ob(rule, S, v in (F(A(0), 'deep'), add(n1, F(D(F(A(0), 'parent')), 'deep')), add(n1, F(F(A(0), 'parent'), 'deep'))), 'an aliased value is as deep as a plain one', unsure=v is None or murky(v))
    # resolution
    S = C.run(C.fn('AliasType::rget'), cls)
    alias = is_kind(AL, C.K['ALIAS_TYPE'])
    ok, unsure, some = True, False, False
    for g, v, st in S.rets:
        for gl, x in leaves(v, g):
            some = True
            if x in (('call', 'rget', AL), ('rget', AL)): continue
            if x == AL and conj(gl, alias) == FALSE: continue
            ok = False; unsure = unsure or murky(x)
    C.ob(rule, S, ok and some and S.normal == TRUE, 'resolving an alias goes on until what it stands for is no alias', unsure=unsure)
    S = C.run(C.method('AliasType', 'is_compatible', 1), cls)
    for n in ('get', 'operator*'):
        S2 = C.run(C.fn('AliasType::' + n)); returns(C, rule, S2, [AL, D(F(F(THIS, 'aliased_'), 'type_'))], 'an alias tells the type it was declared for')
    ok, unsure = True, False
    for g, v, st in S.rets:
        for gl, x in leaves(v, g):
            if x[0] == 'vc' and x[1] == 'is_compatible' and x[2] in (('rget', THIS), AL) and (x[3] in (RES(A(0)), A(0)) or x[3] == ('rget', A(0)) and implies(gl, eq(KINDOF(A(0)), num(C.K['ALIAS_TYPE'])))): continue
            ok = False; unsure = unsure or murky(x)
    C.ob(rule, S, ok, 'an alias is compatible with what the type it stands for is compatible with', unsure=unsure)
    # the other type given to a conversion or a comparison of types
    for name, i, n in (('copy_instance_from_type', 2, 3), ('is_compatible', 0, 1)):
        for c in [cls_of(C, c) for c in CLONES if c != 'AliasType'] + prim_classes(C) + enum_classes(C):
            if 'Primitive' in c and 'basic_string' in c: continue
            S = C.run(C.method(c, name, n), c, preset={KINDOF(A(i)): num(C.K['ALIAS_TYPE'])})
            bad = unresolved(S, A(i), name)
            C.ob(rule, S, not bad, '%s treats an alias as what it stands for' % name, bad[0].e.line if bad else None)
    # references to values
    for c, q in (('ReadableDynamicDataRef', 'ReadableDynamicDataRef::ReadableDynamicDataRef'),):
        for f in [f for f in C.fns(q) if f['params'] and f['params'][0]['t'] == 'const %sDynamicType &' % NSP]:
            for pre, want in (({KINDOF(A(0)): num(C.K['ALIAS_TYPE'])}, ('rget', A(0))), ({KINDOF(A(0)): num(C.K['INT_32_TYPE'])}, A(0))):
                S = C.run(f, preset=pre)
                v = final(S, F(THIS, 'type_'))
                ok = all(resolved_to(x, want) for g, x in leaves(v, S.normal)) and S.normal != FALSE
                C.ob(rule, S, ok, 'a value declared with an alias is accessed as what it stands for' if want[0] == 'rget' else 'a value is accessed as the type it was declared with', unsure=murky(v))
    # elements declared with an alias
    for q, f in typed(C, ('WritableDynamicDataRef::push<', 'ReadableDynamicDataRef::as_vector<')):
        t = targ(q)
        k = kind_for(t)
        if k is None: continue
        coll = 'SEQUENCE_TYPE'
        for kk in (k, 'INT_64_TYPE' if k != 'INT_64_TYPE' else 'UINT_8_TYPE', 'STRING_TYPE' if k != 'STRING_TYPE' else 'WSTRING_TYPE', 'STRUCTURE_TYPE'):
            pre0 = {KINDOF(TY): num(C.K[coll])}
            from rules_access import PK, OPQ
            pre0.update(PK(C))
            pk = num(C.K[kk])
            S = C.run(f, opaque=OPQ, preset=dict(pre0, **{}) | {KINDOF(CONTENT): num(C.K['ALIAS_TYPE']), KINDOF(RES(CONTENT)): pk, KINDOF(('rget', CONTENT)): pk})
            S0 = C.run(f, opaque=OPQ, preset=pre0 | {KINDOF(CONTENT): pk})
            a, b = S.normal != FALSE, S0.normal != FALSE
            C.ob(rule, S, a == b, 'elements declared with an alias of %s are %s as plain ones (%s)' % (kk, 'accessed' if b else 'refused', t), unsure=murky_node(S.normal))

def outside(x): return x.kind in ('store', 'memcpy', 'memset', 'pnew', 'delete', 'dtor', 'mut', 'setlabel')

def node_part(S, nd, n):
    if nd[0] == 'obj':
        for k, v in nd[2:]:
            if k == n: return v
        return None
    return final(S, F(nd, n))

def resolved_to(x, want):
    while x[0] in ('hold', 'shr', 'Ptr'): x = x[1]
    if x == want: return True
    return x[0] in ('vc', 'call') and x[1] == 'clone' and x[2] == want

def unresolved(S, a, name):
    """effects that use an aliased type given as argument without resolving it (handing it on to another type, which resolves it, is fine)"""
    def uses(t):
        if t == a: return True
        if t[0] in ('res', 'rget') and t[1] == a: return False
        if t == KINDOF(a): return False
        return any(uses(x) for x in t[1:] if isinstance(x, tuple) and x)
    bad = []
    for e in S.events:
        if e.kind in ('return', 'throw', 'cast'): continue
        x = eff(e)
        if e.kind == 'vcall' and e.name in ('copy_instance_from_type', 'is_compatible'):
            if any(uses(t) for t in e.a if t != a): bad.append(x)
        elif e.kind == 'vcall' and e.name in ('memory_size',): continue
        elif any(uses(t) for t in e.a): bad.append(x)
    return bad

def P13(C): aliases(C); C.static('P13')
