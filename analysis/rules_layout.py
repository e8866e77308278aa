"""P02: where the parts of a value are"""
from core import *
from rules_value import M, members, label, pair_parts, D0, prim_classes, enum_classes, string_classes, elem_type

SIZEOF = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'char16_t': 2, 'int': 4, 'unsigned int': 4, 'wchar_t': 4,
          'float': 4, 'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'double': 8, 'long double': 16}
TY = D(F(THIS, 'type_'))
INST = F(THIS, 'instance_')
MSZ = F(THIS, 'memory_size_')
NEWM = elem(M, size(M))

def declared_layout(C):
    rule = 'offsets'
    fs = C.fns('StructType::add_member')
    if not fs: raise Missing('StructType::add_member')
    for f in fs:
        S = C.run(f, NSP + 'StructType')
        T = final(S, F(NEWM, 'type_'))
        ms = vc('memory_size', D(F(NEWM, 'type_')))
        value(C, rule, S, final(S, F(NEWM, 'offset_')), MSZ, 'a new member begins where the structure ended')
        arg = F(A(0), 'type_') if len(f['params']) == 1 else None
        ok = {add(MSZ, ms)} | ({add(MSZ, vc('memory_size', D(arg)))} if arg else {add(MSZ, vc('memory_size', A(1)))})
        value(C, rule, S, final(S, MSZ), ok, 'the structure grows by the size of its new member')
    for f in C.fns('StructType::StructType', lambda f: len(f['params']) == 2):
        S = C.run(f, NSP + 'StructType')
        p = A(1)
        P = D(p)
        value(C, rule, S, final(S, MSZ), ite(eq(p, n0), n0, F(P, 'memory_size_')), 'a structure begins as large as its parent')
        C.must(rule, S, 'mut', 'emplace_back', (M, elem(F(P, 'members_'), I0)), 'inherited members keep their place', n=(size(F(P, 'members_')),), g=neg(eq(p, n0)), exact=False,
               pool=[norm_push(x) for x in C.effs(S, 'mut')])
    for cls in ('StructType', 'UnionType'):
        S = C.run(C.method(cls, 'memory_size', 0), NSP + cls)
        returns(C, rule, S, MSZ, 'the size of a value is the recorded one')
    # unions
    for f in C.fns('UnionType::UnionType', lambda f: len(f['params']) == 2):
        S = C.run(f, NSP + 'UnionType')
        value(C, rule, S, final(S, F(elem(M, n0), 'offset_')), n0, 'the discriminator of a union is at its beginning')
        value(C, rule, S, final(S, MSZ), {vc('memory_size', D0), vc('memory_size', A(1)), vc('memory_size', RES(A(1)))}, 'a union without members holds its discriminator')
    disc = vc('memory_size', D0)
    MAX = F(THIS, 'maximum_case_member_memory_')
    for f in C.fns('UnionType::add_case_member', lambda f: 'vector' in f['params'][0]['t'] and len(f['params']) == 2):
        S = C.run(f, NSP + 'UnionType', preset={MSZ: add(disc, MAX)})
        ms = {vc('memory_size', D(F(NEWM, 'type_'))), vc('memory_size', D(F(A(1), 'type_')))}
        value(C, rule, S, final(S, F(NEWM, 'offset_')), disc, 'the members of a union begin behind the discriminator')
        for place, base, what in ((MSZ, disc, 'a union has room for its largest member'), (MAX, n0, 'the size of the largest member is kept')):
            v = final(S, place)
            ok = True
            for g, x in leaves(v, S.normal):
                m = next((m for m in ms if mentions(x, lambda t: t == m) or any(mentions(a, lambda t: t == m) for a in B.support(g))), min(ms, key=repr))
                both = (mm('max', add(base, MAX), add(base, m)), add(base, mm('max', MAX, m)))
                if x in both: continue
                ok = ok and x in (add(base, MAX), add(base, m)) and implies(g, le(add(base, MAX), x)) and implies(g, le(add(base, m), x))
            C.ob(rule, S, ok, what, unsure=murky(v))

def norm_push(x):
    if x.name in ('push_back', 'emplace_back'): x.name = 'emplace_back'
    return x

def sizes(C):
    rule = 'sizes'
    T = D(F(THIS, 'content_'))
    S = C.run(C.method('ArrayType', 'memory_size', 0), NSP + 'ArrayType')
    returns(C, rule, S, mul(F(THIS, 'dimension_'), vc('memory_size', T)), 'an array has room for all its elements')
    S = C.run(C.method('PairType', 'memory_size', 0), NSP + 'PairType')
    returns(C, rule, S, add(*[vc('memory_size', p[0]) for p in pair_parts()]), 'a pair has room for both parts')
    S = C.run(C.method('AliasType', 'memory_size', 0), NSP + 'AliasType')
    returns(C, rule, S, {vc('memory_size', D(F(THIS, 'aliased_'))), vc('memory_size', RES(THIS))}, 'an alias is as large as what it stands for')
    for cls in string_classes(C) + [NSP + 'SequenceType', NSP + 'MapType']:
        S1 = C.run(C.method(cls, 'construct_instance', 1), cls)
        szs = {x.e.extra for x in C.effs(S1, 'pnew')} - {None}
        S = C.run(C.method(cls, 'memory_size', 0), cls)
        C.ob(rule, S, len(szs) == 1 and S.ret == num(list(szs)[0]), 'the recorded size is that of the object created in the value', unsure=not szs)
    for cls in prim_classes(C) + enum_classes(C):
        S1 = C.run(C.method(cls, 'construct_instance', 1), cls)
        szs = {SIZEOF.get(x.a[0][1]) for x in C.effs(S1, 'store') if x.a[0][0] == 'at' and x.a[0][2] == A(0)} - {None}
        S = C.run(C.method(cls, 'memory_size', 0), cls)
        C.ob(rule, S, len(szs) == 1 and S.ret == num(list(szs)[0]), 'the recorded size is that of the number kept in the value', unsure=not szs)
    # elements
    S = C.run(C.method('ArrayType', 'get_instance_at', 2), NSP + 'ArrayType')
    returns(C, rule, S, add(A(0), mul(A(1), vc('memory_size', T))), 'array element i is i elements from the beginning')
    for cls in ('SequenceType', 'MapType'):
        f = C.method(cls, 'get_instance_at', 2, lambda f: f['params'][1]['t'] == 'unsigned long')
        S = C.run(f, NSP + cls)
        inst = D(A(0))
        returns(C, rule, S, add(F(inst, 'memory_'), mul(A(1), F(inst, 'block_size_'))), 'element i is i blocks from the beginning of the storage')
    for cls in ('SequenceInstance', 'MapInstance'):
        for f in C.fns(cls + '::' + cls):
            S = C.run(f, NSP + cls)
            other = [i for i, p in enumerate(f['params']) if cls in p['t']]
            content = [i for i, p in enumerate(f['params']) if 'Type &' in p['t']]
            v = final(S, F(THIS, 'block_size_'))
            ok = set()
            for i in content: ok |= {vc('memory_size', A(i)), vc('memory_size', RES(A(i)))}
            for i in content if cls == 'MapInstance' else (): ok.add(add(vc('memory_size', D(F(A(i), 'first_'))), vc('memory_size', D(F(A(i), 'second_')))))
            for i in other if not content else (): ok |= {F(A(i), 'block_size_'), vc('memory_size', D(F(A(i), 'content_')))}
            value(C, rule, S, v, ok, 'the block size is the size of one element')
    for f in C.fns('DynamicData::DynamicData'):
        S = C.run(f, NSP + 'DynamicData')
        nw = C.effs(S, 'new')
        if not nw: continue
        for x in nw:
            t = final(S, F(THIS, 'type_'))
            arg = A(0)
            C.ob(rule, S, x.a[1] in {vc('memory_size', TY), vc('memory_size', arg), vc('memory_size', RES(arg)), vc('memory_size', D(F(arg, 'type_'))), vc('memory_size', ref_type(t))} or
                 (x.a[1][0] == 'vc' and x.a[1][1] == 'memory_size' and len(f['params']) > 1), 'a value gets as much memory as its type says', x.e.line, unsure=murky(x.a[1]))
            C.ob(rule, S, same(final(S, INST), x.a[0], S.normal), 'the value lives in the memory allocated for it', x.e.line, unsure=murky(final(S, INST)))

INDEXED = ('ARRAY_TYPE', 'SEQUENCE_TYPE', 'STRING_TYPE', 'WSTRING_TYPE', 'STRING16_TYPE')
def by_position(C):
    return [f for q in sorted(C.P.qn) if ('DynamicDataRef::operator[]<' in q) for f in C.P.qn[q] if f.get('body') is not None]

def access(C):
    rule = 'places'
    K = C.K
    idx = ('mapat', F(TY, 'indexes_'), A(0))
    mem = elem(F(TY, 'members_'), idx)
    nf = 0
    for c in ('Readable', 'Writable'):
        for q in ('operator[]', 'get_member'):
            for f in C.fns(c + 'DynamicDataRef::' + q, lambda f: 'DynamicDataRef' not in f['params'][0]['t']):
                for k in ('STRUCTURE_TYPE', 'UNION_TYPE'):
                    S = C.run(f, preset={KINDOF(TY): num(K[k])})
                    returned_ref(C, rule, S, RES(D(F(mem, 'type_'))), add(INST, F(mem, 'offset_')), 'the named member is at its own place'); nf += 1
    bp = by_position(C)
    if len(bp) < 8 or nf < 6: raise Missing('access operators')
    for f in bp:
        i = A(0)
        for k in INDEXED:
            S = C.run(f, preset={KINDOF(TY): num(K[k])})
            returned_ref(C, rule, S, RES(D(F(TY, 'content_'))), vc('get_instance_at', TY, INST, i), 'the indexed element is at its own place')
        S = C.run(f, preset={KINDOF(TY): num(K['STRUCTURE_TYPE'])})
        m = elem(F(TY, 'members_'), i)
        returned_ref(C, rule, S, RES(D(F(m, 'type_'))), add(INST, F(m, 'offset_')), 'the member at a position is at its own place')
        for v, T, off in ((0, D(F(TY, 'first_')), n0), (1, D(F(TY, 'second_')), vc('memory_size', D(F(TY, 'first_'))))):
            S = C.run(f, preset={KINDOF(TY): num(K['PAIR_TYPE']), ('p', 0): num(v)})
            returned_ref(C, rule, S, RES(T), add(INST, off), 'the parts of a pair are at their own places')
    f = C.fn('ReadableDynamicDataRef::d')
    S = C.run(f, preset={KINDOF(TY): num(K['UNION_TYPE'])})
    d0 = elem(F(TY, 'members_'), n0)
    returned_ref(C, rule, S, RES(D(F(d0, 'type_'))), add(INST, F(d0, 'offset_')), 'the discriminator is at its own place') if any(mentions(d['instance_'], lambda t: t[0] == 'fld' and t[2] == 'offset_') for _, d in ret_fields(S, 'instance_')) else \
        returned_ref(C, rule, S, RES(D(F(d0, 'type_'))), INST, 'the discriminator is at its own place')
    # values of maps, by key
    ct = D(F(TY, 'content_'))
    val, key = D(F(ct, 'second_')), D(F(ct, 'first_'))
    for q in ('ReadableDynamicDataRef::at', 'WritableDynamicDataRef::at'):
        for f in C.fns(q):
            S = C.run(f, preset={KINDOF(TY): num(K['MAP_TYPE'])})
            returned_ref(C, rule, S, RES(val), add(vc('get_instance_at', TY, INST, F(A(0), 'instance_')), vc('memory_size', key)), 'the value of a map entry is behind its key')

NARROW = ('int', 'unsigned int', 'short', 'unsigned short', 'unsigned char', 'signed char', 'char')

def parts_of(x):
    if isinstance(x, dict):
        yield x
        for v in x.values(): yield from parts_of(v)
    elif isinstance(x, list):
        for v in x: yield from parts_of(v)

def strip(e):
    while e and e.get('k') in ('cast', 'paren') and e.get('e'): e = e['e']
    return e

def bare_type(t): return (t or '').replace('const ', '').replace(' const', '').replace(' &', '').strip()

def products(e):
    """the products an offset is made of"""
    e = strip(e)
    if not e: return
    if e.get('k') == 'bin' and e['op'] in ('+', '-'):
        yield from products(e['a']); yield from products(e['b'])
    elif e.get('k') == 'bin' and e['op'] == '*': yield e

def width(C):
    """offsets and amounts of storage are computed in the width of an address"""
    rule = 'width'
    for f in C.J['functions']:
        if '/xtypes/' not in f['file']: continue
        for n in parts_of([f.get('body'), f.get('inits')]):
            k, sinks = n.get('k'), []
            if k in ('bin', 'assign') and n.get('op') in ('+', '-', '+=', '-=') and bare_type(n.get('t')).endswith('*'): sinks = [x for x in (n.get('a'), n.get('b')) if x and not bare_type(x.get('t')).endswith('*')]
            elif k == 'new' and n.get('size'): sinks = [n['size']]
            elif k == 'call' and n.get('fn', {}).get('name') in ('memcpy', 'memmove', 'memset', 'memcmp') and len(n.get('args', ())) == 3: sinks = [n['args'][2]]
            for s in sinks:
                for p in products(s): C.ob(rule, f, bare_type(p.get('t')) not in NARROW, 'an offset or amount of storage is computed in the width of an address', p.get('l'))
        for i in f.get('inits') or []:
            if not i.get('f') or not i.get('e'): continue
            e = strip(i['e'])
            if e.get('k') == 'call' and e.get('fn', {}).get('name') == 'memory_size':
                ts = [bare_type(x['t']) for x in C.P.rec.get(f.get('cls') or '', {}).get('fields', []) if x['n'] == i['f']]
                C.ob(rule, f, not ts or ts[0] not in NARROW, 'the size of a type is kept in the width of an address', e.get('l'), unsure=not ts)

    places, more = set(), True
    def sized(e):
        e = strip(e)
        if not e: return False
        if e.get('k') == 'bin': return e.get('op') in ('+', '-', '*') and any(sized(e[x]) for x in 'ab')
        if e.get('k') == 'cond': return any(sized(e.get(x)) for x in ('a', 'b', 'x', 'y') if isinstance(e.get(x), dict))
        if e.get('k') == 'mem': return (e.get('rec'), e['f']) in places
        return e.get('k') == 'call' and (e.get('fn') or {}).get('name') in ('memory_size', 'max') and (e['fn']['name'] == 'memory_size' or any(sized(a) for a in e['args']))
    fs = [f for f in C.J['functions'] if '/xtypes/' in f['file'] and f.get('body') is not None]
    sets = [(f, n) for f in fs for n in parts_of(f['body']) if n.get('k') == 'asg' and strip(n['a']).get('k') == 'mem' and n.get('op') in ('=', '+=')]
    while more:
        more = False
        for f, n in sets:
            a = strip(n['a'])
            if (a.get('rec'), a['f']) not in places and sized(n['b']): places.add((a.get('rec'), a['f'])); more = True
    for f, n in sets:
        if sized(n['b']): C.ob(rule, f, bare_type(strip(n['a'])['t']) not in NARROW, 'the size of a type and the place of a member are kept in the width of an address', n.get('l'))
    for f in fs:
        if f['name'] in ('memory_size', 'offset') and any(n.get('s') == 'return' and n.get('e') and sized(n['e']) for n in parts_of(f['body'])): C.ob(rule, f, bare_type(f.get('rt') or f.get('ret')) not in NARROW, 'the size of a type and the place of a member are given in the width of an address')

def P02(C):
    declared_layout(C); sizes(C); access(C); width(C)
