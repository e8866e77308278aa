"""P23 the IDL written for a module: every declaration, every part of it, with the spelling of its kind"""
from core import *
import terms
from terms import B, bt
import rules_access as Ac

G = 'idl::generator::'
DT = G + 'dependencytree::'
NAMES = ('type_name', 'type_scope', 'label_value', 'array_dimensions', 'get_const_value', 'aliase', 'structure', 'generate_union', 'enumeration32')
CONV = ('eprosima::code_conversion_tool', 'eprosima::wide_to_utf16', 'eprosima::xtypes::wide_to_utf16', NSP + 'idl::Module::scope') + tuple(NSP + 'EnumeratedType<unsigned %s>::enumerator' % t for t in ('char', 'short', 'int'))
CASES = ('get_case_members', 'get_labels', 'is_default')
def opq(*minus): return tuple(NSP + 'UnionType::' + n for n in CASES) + tuple(NSP + G + n for n in NAMES if n not in minus) + CONV

# ------------------------------------------------------------------ the text a function makes
class Murky(Exception): pass

def local(p):
    while p[0] in ('fld', 'elem', 'mapat'): p = p[1]
    return p[0] == 'loc'

def settled(S, st, t, depth=0):
    """the term with the local variables it mentions replaced by what they hold"""
    if depth > 30 or not isinstance(t, tuple) or not t: return t
    if t[0] == 'after': return settled(S, st, t[2], depth)
    if t[0] == 'loc':
        v = st.store.get(t)
        return settled(S, st, v, depth + 1) if v is not None else t
    if t[0] == 'sstr': return t
    if t[0] == 'mk' and len(t) == 4 and t[1] == 'vector' and t[2][0] == 'it' and t[3][0] == 'it' and t[2][1] == t[3][1]:
        w = st.store.get(t[2][1]) if t[2][1][0] == 'loc' else t[2][1]
        if w is not None and t[2][2] == n0 and t[3][2] == ('size', w): return ('listof', settled(S, st, w, depth + 1))
    return tuple(settled(S, st, x, depth) if isinstance(x, tuple) else x for x in t)

def gset(S, st, g):
    """the same for a condition"""
    m = {}
    for a in B.support(g):
        for z in walk(a):
            if z[0] == 'loc' and z in st.store and z not in m:
                w = settled(S, st, st.store[z])
                if w != z: m[z] = w
            if z[0] == 'after' or z[:2] == ('mk', 'vector'): m[z] = settled(S, st, z)
    return subst_node(g, m) if m else g

def each(g, count):
    """what g says of every element of a loop"""
    out = TRUE
    for a in B.support(g):
        if a[0] == 'all' and a[1] == count and implies(g, B.atom(a)): out = conj(out, a[2])
    return out

def tree(C, S, st, v, depth=0):
    """what the text v consists of: ('L', text) ('T', value) ('R', count, parts) ('I', guard, parts, parts)"""
    k = v[0]
    if k == 'after': return tree(C, S, st, v[2], depth)
    if k == 'str': return [('L', v[1])]
    if k == 'empty' or k == 'ctor0' and 'basic_string<' in str(v[1]): return []
    if v == ('fnref', 'std::fixed'): return [('T', v)]       # as many digits behind the point, however small the number
    if k == 'fnref': return [('L', '\n')]
    if v[:2] == ('std', 'basic_string::substr') and len(v) == 5 and v[3][0] == v[4][0] == 'int' and v[3:] != (n0, sym.NPOS): return [('T', ('part', v[2], v[3], add(v[3], v[4])))]
    if k == 'cat': return [p for x in v[1:] for p in ([('L', chr(x[1]))] if x[0] == 'int' and x[1] in range(9, 127) else tree(C, S, st, x, depth))]
    if k == 'ite': return [('I', gset(S, st, v[1]), tree(C, S, st, v[2], depth), tree(C, S, st, v[3], depth))]
    if k == 'mk' and v[1] == 'basic_string' and len(v) == 4 and v[3] == num(32): return [('L', ' ')]
    if k == 'mk' and v[1] == 'basic_string' and len(v) == 4 and v[2][0] == 'int' and v[3][0] == 'int' and 0 < v[2][1] < 9 and v[3][1] in range(9, 127): return [('L', v[2][1] * chr(v[3][1]))]
    if k == 'mk' and v[1] == 'basic_string' and len(v) == 4 and v[2] == n1: return [('T', ('dec', 'char', settled(S, st, v[3])))]
    if k == 'mk' and v[1] == 'basic_string' and len(v) == 4 and v[2][0] == 'it' and v[3][0] == 'it' and v[2][1] == v[3][1] and v[2][2] == n0:
        w = st.store.get(v[2][1])
        if w is not None and v[3][2] == ('size', w): return tree(C, S, st, w, depth)
    if k == 'to_string': return [('T', ('dec', v[1], settled(S, st, v[2])))]
    if k == 'mapat' and v[1][0] == 'glob' and v[2][0] == 'int':
        t = table(C, v[1][1])
        if t is None: raise Murky()
        return [('L', t[v[2][1]])] if v[2][1] in t else [('T', ('none',))]
    if k == 'sstr':
        if len(v) < 3: raise Murky()
        return stream(C, S, st, v[2], depth)
    if k == 'loc':
        w = st.store.get(v)
        if w is not None and w != v: return tree(C, S, st, w, depth)
    if k in ('fold', 'phi', 'unk', 'callv', 'out', 'wcnt'): raise Murky()
    return [('T', settled(S, st, v))]

def stream(C, S, st, place, depth):
    evs = sorted((e for e in S.events if e.kind == 'stream' and e.a and e.a[0] == place and conj(e.g, S.normal) != FALSE), key=lambda e: e.seq)
    if any(e.kind == 'mut' and e.a and e.a[0] == place for e in S.events): raise Murky()
    return chunk(C, S, st, evs, depth)

def chunk(C, S, st, evs, depth):
    out = []; i = 0
    while i < len(evs):
        e = evs[i]
        if len(e.loops) > depth:
            l = e.loops[depth]; j = i
            while j < len(evs) and len(evs[j].loops) > depth and evs[j].loops[depth] is l: j += 1
            if l.kind != 'C' or murky(l.count): raise Murky()
            out.append(('R', settled(S, st, l.count), chunk(C, S, st, evs[i:j], depth + 1), bool(l.rev)))
            i = j
            continue
        parts = [p for v, t in zip(e.a[1:], e.extra or ('',) * 9) for p in shown(C, S, st, v, t, depth)]
        out.append(('I', gset(S, st, e.g), parts, []))
        i += 1
    return out

def shown(C, S, st, v, t, depth):
    t = t.replace('const ', '').replace(' &', '').strip()
    if t == 'char' and v[0] == 'int': return [('L', chr(v[1] & 255))]
    r = tree(C, S, st, v, depth)
    if len(r) == 1 and r[0][0] == 'T' and t in ('char', 'bool', 'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'signed char', 'unsigned char'):
        return [('T', ('dec', t, r[0][1]))]
    return r

_tables = {}
def tabled(C):
    def look(name):
        if name not in _tables: _tables[name] = table(C, name)
        return _tables[name]
    terms.TABLE[0] = look

def table(C, name):
    """a constant map of numbers to texts, from its initialiser"""
    for f in C.J['functions']:
        if f.get('body') is None or G.rstrip(':') not in f['qn']: continue
        st = [f['body']]
        while st:
            x = st.pop()
            if isinstance(x, list): st += x
            elif isinstance(x, dict):
                if x.get('n') == name and isinstance(x.get('init'), dict):
                    out = {}
                    q = [x['init']]
                    while q:
                        y = q.pop(0)
                        if isinstance(y, list): q += y
                        elif isinstance(y, dict):
                            a = y.get('args')
                            if a and len(a) == 2 and (y.get('fn') or {}).get('name') == 'pair':
                                k, v = peel(a[0]), peel(a[1])
                                if k is None or v is None or 'v' not in k or v.get('k') != 'str': return None
                                out.setdefault(k['v'], v['v'])
                            else: q += list(y.values())
                    return out or None
                st += list(x.values())
    return None

def peel(x):
    for _ in range(6):
        if not isinstance(x, dict): return None
        if x.get('k') in ('str', 'enumc', 'int'): return x
        x = x.get('e') or (x.get('args') or [None])[0]
    return None

# ------------------------------------------------------------------ comparison
def flat(items, g, sub=None):
    """parts written when g holds, texts joined and white space reduced to what separates words"""
    def go(xs, g):
        out = []
        for x in xs:
            if x[0] == 'I':
                c = subst_node(x[1], sub) if sub else x[1]
                if implies(g, c): out += go(x[2], g)
                elif implies(g, neg(c)): out += go(x[3], g)
                else:
                    a, b = go(x[2], conj(g, c)), go(x[3], conj(g, neg(c)))
                    if a == b: out += a
                    else: out.append(('I', c, a, b))
            elif x[0] == 'R':
                n = terms_subst(x[1], sub)
                gi = conj(g, each(g, n))
                b = finish(go(x[2], gi), gi)
                if b: out.append(('R', n, b, x[3]))
            elif x[0] == 'T': out.append(('T', terms_subst(x[1], sub)))
            elif x != ('L', ''): out.append(x)
        return out
    return finish(go(items, g), g)

def terms_subst(t, sub): return subst(t, sub) if sub else t

def finish(out, g):
    """consecutive parts under one condition belong together"""
    m = []
    for x in out:
        if m and x[0] == 'I' and m[-1][0] == 'I':
            y = m[-1]
            if y[1] == x[1]: m[-1] = ('I', y[1], list(y[2]) + list(x[2]), list(y[3]) + list(x[3])); continue
            if conj(g, x[1]) == conj(g, neg(y[1])): m[-1] = ('I', y[1], list(y[2]) + list(x[3]), list(y[3]) + list(x[2])); continue
        m.append(x)
    m = [('L', ' ') if x[0] == 'I' and blank(x[2]) and blank(x[3]) else x for x in m]
    return tuple(join([('I', x[1], finish(x[2], conj(g, x[1])), finish(x[3], conj(g, neg(x[1])))) if x[0] == 'I' else x for x in m]))

def blank(xs): return all(x[0] == 'L' and not x[1].strip() for x in xs)

def join(xs):
    """literal texts merged; white space kept as one blank only between two words"""
    m = []
    for x in xs:
        if x[0] == 'L' and m and m[-1][0] == 'L': m[-1] = ('L', m[-1][1] + x[1])
        else: m.append(x)
    out = []
    word = lambda c: c.isalnum() or c == '_'
    for i, x in enumerate(m):
        if x[0] != 'L': out.append(x); continue
        t = ' '.join(x[1].split())
        lead = x[1][:1].isspace(); trail = x[1][-1:].isspace()
        near = lambda y: y is not None and y[0] == 'T'
        prev = m[i - 1] if i else None
        nxt = m[i + 1] if i + 1 < len(m) else None
        if not t:
            if near(prev) and near(nxt): out.append(('L', ' '))
            continue
        r = ''
        for j, c in enumerate(t):
            if c == ' ' and not (word(t[j - 1]) and word(t[j + 1])): continue
            r += c
        if lead and near(prev) and word(r[0]): r = ' ' + r
        if trail and near(nxt) and word(r[-1]): r = r + ' '
        out.append(('L', r))
    return out

def norm(xs):
    """an expected text in the same form"""
    items = []
    for x in xs:
        if isinstance(x, str): items.append(('L', x))
        elif isinstance(x, tuple) and x and x[0] == 'R': items.append(('R', x[1], tuple(norm(x[2])), False))
        else: items.append(('T', x))
    return join(items)

def same_text(got, want):
    """True, False or None"""
    if len(got) != len(want): return False
    res = True
    for a, b in zip(got, want):
        if a[0] == 'L' and b[0] == 'L':
            if a[1] != b[1]: return False
        elif a[0] == 'T' and b[0] == 'T':
            r = b[1](a[1]) if callable(b[1]) else a[1] == b[1]
            if r is None: res = None
            elif not r: return False
        elif a[0] == 'R' and b[0] == 'R':
            c = b[1](a[1]) if callable(b[1]) else a[1] == b[1]
            r = same_text(a[2], b[2])
            if c is False or r is False or a[3]: return False
            if c is None or r is None: res = None
        else: return False
    return res

def unclear(xs):
    """parts that could not be read"""
    for x in xs:
        if x[0] == 'T' and (murky(x[1]) or mentions(x[1], lambda z: z[0] in ('fold', 'std', 'out', 'callv', 'sstr', 'loc'))): return True
        if x[0] == 'R' and (unclear(x[2]) or murky(x[1])): return True
        if x[0] == 'I' and (unclear(x[2]) or unclear(x[3]) or murky_node(x[1])): return True
    return False

def tell(xs):
    o = ''
    for x in xs:
        if x[0] == 'L': o += x[1]
        elif x[0] == 'T': o += '<%s>' % (show(x[1]) if not callable(x[1]) else '..')
        elif x[0] == 'R': o += '{%s}*' % tell(x[2])
        elif x[0] == 'I': o += '{%s|%s}?' % (tell(x[2]), tell(x[3]))
    return o[:200]

def alts(C, S, g=TRUE, sub=None):
    """texts returned when g holds: [(guard, parts)]; None when they cannot be told"""
    out = []
    for rg, v, st in S.rets:
        if conj(rg, g) == FALSE: continue
        gg = gset(S, st, conj(rg, g))
        if v is None: return None
        try: t = flat(tree(C, S, st, v), gg, sub)
        except Murky: return None
        out.append((gg, t))
    return out or None

def split(got):
    """alternatives chosen within a text, apart"""
    for g, t in got:
        if g == FALSE: continue
        if len(t) == 1 and t[0][0] == 'I': yield from split([(conj(g, t[0][1]), t[0][2]), (conj(g, neg(t[0][1])), t[0][3])])
        else: yield g, t

def parts(C, S, g=TRUE):
    """the one text returned when g holds"""
    a = alts(C, S, g)
    if a is None or any(t != a[0][1] for _, t in a): return None
    return a[0][1]

def text(C, r, S, g, want, what, sub=None):
    """the text made when g holds is `want`"""
    k = '%s|%s|%s' % (r, plain_name(S.f['qn']), what)
    got = alts(C, S, g, sub)
    if got is None:
        C.ob(r, S, False, what, unsure=True, key=k)
        return
    w = norm(want)
    res = [same_text(t, w) for _, t in got]
    fixed = all(not isinstance(x, tuple) or x[0] == 'L' for x in w)
    named = lambda t: any(x[0] == 'T' and isinstance(x[1], tuple) and x[1][:2] == ('call', 'type_scope') or x[0] == 'I' and (named(x[2]) or named(x[3])) for x in t)
    bad = [t for (_, t), x in zip(got, res) if x is False and (not unclear(t) or fixed and named(t))]
    ok = all(res)
    C.ob(r, S, ok, what + (' (writes %s)' % tell(bad[0]) if bad else ''), unsure=not bad, key=k)

def call(name, *want):
    """a value made by the generator function `name` with these first arguments"""
    def p(t):
        if t[0] != 'call' or t[1] != name: return False
        a = [x for x in t[2:] if x != ('none',)]
        for x, w in zip(a, want):
            if w is None: continue
            if callable(w):
                q = w(x)
                if not q: return q
            elif x != w: return False
        return len(a) >= len(want)
    return p

def dec(v, *types):
    def p(t): return t[0] == 'dec' and t[2] == v and (not types or t[1] in types)
    return p

def fn(C, name, pred=None):
    r = [f for f in C.fns(G + name) if f.get('body') is not None and (pred is None or pred(f))]
    if not r: raise Missing(G + name)
    return r

# ------------------------------------------------------------------ types
def scopes(C):
    """which module a type is declared in is looked up in the same way for every kind of named type"""
    r = 'idl-type-scope'
    for f in fn(C, 'type_scope'):
        never = {}
        for k in NAMED:
            S = C.run(f, None, opaque=opq('type_scope'), preset={**Ac.PK(C), KINDOF(A(1)): num(C.K[k])})
            never[k] = all(v in (('str', ''), ('default', 'string')) or v is not None and v[0] in ('default', 'ctor0') for g, v, _ in S.rets), S
        for k in NAMED:
            n, S = never[k]
            C.ob(r, S, not n or all(x for x, _ in never.values()), '%s is found in the module it is declared in' % k, key=r + '|' + k)

SPELL = {'BOOLEAN_TYPE': 'boolean', 'CHAR_8_TYPE': 'char', 'CHAR_16_TYPE': 'wchar', 'WIDE_CHAR_TYPE': 'wchar', 'INT_8_TYPE': 'int8', 'UINT_8_TYPE': 'uint8',
         'INT_16_TYPE': 'int16', 'UINT_16_TYPE': 'uint16', 'INT_32_TYPE': 'int32', 'UINT_32_TYPE': 'uint32', 'INT_64_TYPE': 'int64', 'UINT_64_TYPE': 'uint64',
         'FLOAT_32_TYPE': 'float', 'FLOAT_64_TYPE': 'double', 'FLOAT_128_TYPE': 'long double'}
OTHER = {'int16': ('short',), 'uint16': ('unsigned short',), 'int32': ('long',), 'uint32': ('unsigned long',), 'int64': ('long long',), 'uint64': ('unsigned long long',), 'uint8': ('octet',)}
TEXTS = {'STRING_TYPE': 'string', 'WSTRING_TYPE': 'wstring', 'STRING16_TYPE': 'wstring'}
NAMED = ('ALIAS_TYPE', 'ENUMERATION_TYPE', 'STRUCTURE_TYPE', 'UNION_TYPE')

def spelling(C):
    tabled(C)
    r = 'idl-spelling'
    T = A(1); N = A(0)
    CT = D(('hold', F(T, 'content_')))
    for f in fn(C, 'type_name'):
        def at(k): return C.run(f, None, opaque=opq(), preset={**Ac.PK(C), KINDOF(T): num(C.K[k])})
        for k, s in SPELL.items():
            S = at(k)
            got = parts(C, S)
            if got is not None and len(got) == 1 and got[0][0] == 'L' and got[0][1] in OTHER.get(s, ()): s = got[0][1]
            text(C, r, S, TRUE, [s], '%s is written as "%s"' % (k, s))
        B0 = eq(F(T, 'bounds_'), n0)
        for k, s in TEXTS.items():
            S = at(k)
            text(C, r, S, B0, [s], 'an unbounded %s is written as "%s"' % (k, s))
            text(C, r, S, neg(B0), [s + '<', dec(F(T, 'bounds_')), '>'], 'a bounded %s is written with its bound' % k)
        ct = content(C)
        S = at('ARRAY_TYPE')
        text(C, r, S, TRUE, [call('type_name', N, ct(T))], 'an array is written with the type of its elements')
        S = at('SEQUENCE_TYPE')
        text(C, r, S, B0, ['sequence<', call('type_name', N, ct(T)), '>'], 'an unbounded sequence is written with the type of its elements')
        text(C, r, S, neg(B0), ['sequence<', call('type_name', N, ct(T)), ',', dec(F(T, 'bounds_')), '>'], 'a bounded sequence is written with its element type and bound')
        S = at('MAP_TYPE')
        K, V = half('first_'), half('second_')
        text(C, r, S, B0, ['map<', call('type_name', N, K), ',', call('type_name', N, V), '>'], 'an unbounded map is written with its key and value types')
        text(C, r, S, neg(B0), ['map<', call('type_name', N, K), ',', call('type_name', N, V), ',', dec(F(T, 'bounds_')), '>'], 'a bounded map is written with its key and value types and bound')
        for k in NAMED:
            S = at(k)
            got = parts(C, S, PLAINNAME(T))
            text(C, r, S, PLAINNAME(T), [call('type_scope', N, T), F(T, 'name_')], '%s is written by its scope and name' % k)
            text(C, r, S, conj(neg(PLAINNAME(T)), eq(N, n0)), [call('type_scope', N, T), F(T, 'name_')], '%s without a place of its own is written by its full name' % k)
            g = conj(neg(PLAINNAME(T)), neg(eq(N, n0)))
            got = parts(C, S, g)
            if got is None or k == 'ALIAS_TYPE': continue
            FULL = ('T', F(T, 'name_'))
            ok = len(got) == 2 and got[0][0] == 'T' and call('type_scope', N, T)(got[0][1]) and (got[1] == FULL or got[1][0] == 'I' and all(x in ((FULL,), (TAIL,)) for x in got[1][2:]))
            C.ob(r, S, ok, '%s with a qualified name is written by it, without a scope at most' % k, unsure=not ok and not any(miscut(x) for y in got for x in ((y,) if y[0] == 'T' else y[2] + y[3] if y[0] == 'I' else ())) and unclear([x for x in got if x != TAIL]), key='%s|qualified|%s' % (r, k))
            if ok and got[1][0] == 'I':
                own = [x for x in got[1][2:] if x == (TAIL,)]
                n = got[1][1]
                cond = n if got[1][2] == (TAIL,) else neg(n)
                mod = lambda z: z[0] == 'call' and z[1] == 'scope'
                pre = ('std', 'basic_string::substr', F(A(1), 'name_'), n0, ('std', 'basic_string::rfind', F(A(1), 'name_'), ('str', '::'), NPOS))
                own = {z for a in B.support(cond) for z in walk(a) if mod(z)}
                ok = any(implies(conj(g, cond), eq(z, pre)) for z in own)
                C.ob(r, S, ok, '%s loses its scope only where it is its own' % k, key='%s|own|%s' % (r, k), unsure=not ok and not own and cond != TRUE)

NPOS = ('int', 2 ** 64 - 1)
LASTSEP = ('std', 'basic_string::rfind', F(A(1), 'name_'), ('str', '::'), NPOS)
def miscut(x):
    """the name from some other place at a fixed distance to its last separator"""
    if x[0] != 'T' or x == TAIL or x[1][0] != 'std' or x[1][1] != 'basic_string::substr' or x[1][2] != F(A(1), 'name_'): return False
    return x[1][4] == NPOS and sub(x[1][3], LASTSEP)[0] == 'int'
TAIL = ('T', ('std', 'basic_string::substr', F(A(1), 'name_'), add(num(2), ('std', 'basic_string::rfind', F(A(1), 'name_'), ('str', '::'), NPOS)), NPOS))
def PLAINNAME(t): return eq(('std', 'basic_string::find', F(t, 'name_'), ('str', '::'), n0), NPOS)
def content(C):
    def mk(T):
        def p(x): return strip(x) == F(T, 'content_')
        return p
    return mk
def half(h):
    def p(x): return strip(x)[0] == 'fld' and strip(x)[2] == h and strip(strip(x)[1]) == F(A(1), 'content_')
    return p
def strip(x):
    while x[0] in ('at', 'hold', 'addr', 'res'): x = x[2] if x[0] == 'at' else x[1]
    return x

def full(S): return S.normal == TRUE

def labels(C):
    r = 'idl-label'
    V, T = A(0), A(1)
    for f in fn(C, 'label_value'):
        def at(k):
            yield '', C.run(f, None, opaque=opq('label_value'), preset={**Ac.PK(C), KINDOF(T): num(C.K[k])}), T
            yield 'aliased ', C.run(f, None, opaque=opq('label_value'), preset={**Ac.PK(C), KINDOF(T): num(C.K['ALIAS_TYPE']), KINDOF(('rget', T)): num(C.K[k])}), ('rget', T)
        one = lambda x: ('mk', 'basic_string', n1, x)
        for k in SPELL:
            if k.startswith('FLOAT'): continue
            for al, S, t in at(k):
                w = '%s%s label' % (al, k)
                if k == 'BOOLEAN_TYPE':
                    text(C, r, S, eq(V, n0), ['FALSE'], w + ' of zero is FALSE')
                    text(C, r, S, neg(eq(V, n0)), ['TRUE'], w + ' of one is TRUE')
                elif k == 'CHAR_8_TYPE': text(C, r, S, TRUE, ["'", chars(V, 8, 'char'), "'"], w + ' is a quoted character')
                elif k == 'CHAR_16_TYPE': text(C, r, S, TRUE, ["L'", conv8(one, V, 16), "'"], w + ' is a quoted wide character')
                elif k == 'WIDE_CHAR_TYPE': text(C, r, S, TRUE, ["L'", conv8(one, V, 32), "'"], w + ' is a quoted wide character')
                else:
                    bits = int(k.split('_')[1])
                    text(C, r, S, TRUE, [number(V, bits, k.startswith('INT'))], w + ' is its number')
                C.ob(r, S, implies(disj(eq(V, n0), eq(V, n1)) if k == 'BOOLEAN_TYPE' else TRUE, S.normal), w + ' can be written', unsure=murky_node(S.normal))
        for al, S, t in at('ENUMERATION_TYPE'):
            got = alts(C, S)
            what = '%sENUMERATION_TYPE label is the name of the enumerator' % al
            ok = None if got is None else all([enumerator_name(p, t, V) for _, p in got])
            C.ob(r, S, ok, what, unsure=got is None or any(unclear(p) for _, p in got), key='%s|%s' % (r, what))
            C.ob(r, S, S.normal == TRUE, '%sENUMERATION_TYPE label can be written' % al, unsure=murky_node(S.normal))
            for e in S.events:
                if e.kind != 'cast' or not (e.cls or '').startswith(NSP + 'EnumerationType<') or strip(e.a[0]) != strip(t): continue
                w = e.cls.split('<')[1][:-1]
                sz = {'unsigned char': 1, 'unsigned short': 2}.get(w)
                MS = [z for a in B.support(e.g) for z in walk(a) if z[0] == 'vc' and z[1] == 'memory_size']
                big = lambda z: conj(neg(eq(z, n1)), neg(eq(z, num(2))))
                ok = any(implies(e.g, eq(z, num(sz)) if sz else big(z)) for z in MS)
                C.ob(r, S, ok, '%sENUMERATION_TYPE label: read as an enumeration of %s only where it is one' % (al, w), unsure=not MS and e.g != TRUE)

def enumerator_name(p, t, V):
    if len(p) == 1 and p[0][0] == 'I': 
        if not all(enumerator_name(x, t, V) or not x for x in p[0][2:]): return False
        return bool(p[0][2] or p[0][3])
    if len(p) != 1 or p[0][0] != 'T': return False
    x = p[0][1]
    if x[0] == 'call' and x[1] == 'enumerator': return strip(x[2]) == strip(t) and core(x[3]) == V
    return x[0] == 'fld' and x[2] == 'first' and x[1][0] == 'elem' and x[1][1] == F(t, 'values_') and mentions(x[1][2], lambda z: z == V) and mentions(x[1][2], lambda z: z[0] == 'fld' and z[2] == 'second')

def core(x):
    while x[0] == 'cvt': x = x[-1]
    return x
def chars(V, bits, t):
    def p(x): return x[0] == 'dec' and x[1] == t and core(x[2]) == V
    return p
def conv8(one, V, bits):
    def p(x):
        if x[0] != 'conv8': return False
        y = x[2]
        if y[0] == 'call' and y[1] == 'wide_to_utf16': y = y[3]
        elif bits == 32: return False if y[0] == 'mk' else None
        if y[0] != 'mk' or len(y) != 4: return None
        return y[2] == n1 and core(y[3]) == V and width(y[3]) >= bits
    return p
def width(x):
    w = 64
    while x[0] == 'cvt': w = min(w, abs(x[1])); x = x[-1]
    return w
INTS = {'int': (32, True), 'long': (64, True), 'long long': (64, True), 'unsigned int': (32, False), 'unsigned long': (64, False), 'unsigned long long': (64, False), 'short': (16, True), 'unsigned short': (16, False)}
def number(V, bits, signed):
    """the decimal number of the `bits` low bits of V"""
    def p(x):
        if x[0] != 'dec' or x[1] not in INTS: return False
        if core(x[2]) != V: return False
        w, sg = INTS[x[1]]
        n = x[2][1] if x[2][0] == 'cvt' else 64
        if width(x[2]) < bits: return False
        if w < bits: return False
        if signed and not sg: return False
        if not signed and sg and w == bits: return False
        if signed and n > 0 and x[2][0] == 'cvt' and n <= 32 and w > n: return False
        return True
    return p

# ------------------------------------------------------------------ declarations
def DIMS(t): return ('call', 'array_dimensions', ('none',), t)
def dims(T, depth):
    return ('R', size(DIMS(T)), ['[', dimension(T, depth), ']'])
def dimension(T, depth):
    def p(x): return x[0] == 'dec' and x[2] == ('elem', DIMS(T), ('iv', depth))
    return p

def decl(node, m, array, depth):
    ty = D(F(m, 'type_'))
    out = [call('type_name', node, ty), ' ', F(m, 'name_')]
    if array: out.append(dims(ty, depth))
    return out + [';']

def KT(m): return KINDOF(D(F(m, 'type_')))
def NK(C, n): return next(c['v'] for k, e in C.P.enums.items() if k.endswith('ModuleElementKind') for c in e['c'] if c['n'] == n)

def aliases(C):
    r = 'idl-alias'
    for f in fn(C, 'aliase'):
        for k in ('ARRAY_TYPE', 'INT_32_TYPE', 'SEQUENCE_TYPE', 'STRUCTURE_TYPE', 'ALIAS_TYPE', 'STRING_TYPE'):
            S = C.run(f, None, opaque=opq('aliase'), preset={**Ac.PK(C), KINDOF(A(1)): num(C.K[k])})
            text(C, r, S, S.normal, ['typedef ', call('type_name', A(2), A(1)), ' ', A(0)] + ([dims(A(1), 0)] if k == 'ARRAY_TYPE' else []) + [';'], 'an alias of %s is written with its type%s' % (k, ' and dimensions' if k == 'ARRAY_TYPE' else ''))
            served(C, r, S, A(2), NK(C, 'xALIAS'))

def served(C, r, S, nodep, kind, null=False):
    """refused at most for a node of another kind"""
    g = eq(F(D(nodep), 'kind_'), num(kind))
    if null: g = disj(eq(nodep, n0), g)
    C.ob(r, S, implies(g, S.normal), 'written for every node of its kind', unsure=murky_node(S.normal))

def structures(C):
    r = 'idl-structure'
    T, N = A(1), A(2)
    MEM = F(T, 'members_')
    PAR = D(F(T, 'parent_'))
    NOP = eq(F(T, 'parent_'), n0)
    for f in fn(C, 'structure'):
        for k in ('ARRAY_TYPE', 'INT_32_TYPE', 'STRUCTURE_TYPE', 'SEQUENCE_TYPE', 'ENUMERATION_TYPE', 'ALIAS_TYPE', 'MAP_TYPE', 'UNION_TYPE'):
            for par in (False, True):
                S = C.run(f, None, opaque=opq('structure'), preset=Ac.PK(C), assume=neg(NOP) if par else NOP)
                first = size(F(PAR, 'members_')) if par else n0
                m = elem(MEM, add(first, I0))
                cnt = sub(size(MEM), first)
                head = ['struct ', A(0)] + ([':', call('type_scope', N, PAR), F(PAR, 'name_')] if par else []) + ['{']
                text(C, r, S, S.normal, head + [('R', cnt, decl(N, m, k == 'ARRAY_TYPE', 1)), '};'], 'a structure %s is written with %s member of its own in order (%s)' % ('with a parent' if par else 'without parent', 'each', k), sub={KT(m): num(C.K[k])})
        S = C.run(f, None, opaque=opq('structure'), preset=Ac.PK(C))
        served(C, r, S, N, NK(C, 'xSTRUCT'), True)


def unions(C):
    r = 'idl-union'
    T, N = A(1), A(2)
    MEM = F(T, 'members_')
    DISC = D(F(elem(MEM, n0), 'type_'))
    NAMES_ = ('call', 'get_case_members', T)
    for f in fn(C, 'generate_union'):
        S = C.run(f, None, opaque=opq('generate_union'), preset=Ac.PK(C))
        CM = ('call', 'get_case_members', T)
        by_name = any(mentions(x, lambda z: z[:2] == CM[:2]) for _, p in alts(C, S, S.normal) or () for x in p)
        if by_name: cnt, name = size(CM), elem(CM, I0); m = elem(MEM, ('mapat', F(T, 'indexes_'), name))
        else: cnt = sub(size(MEM), n1); m = elem(MEM, add(n1, I0)); name = F(m, 'name_')
        LABS = ('call', 'get_labels', T, name)
        isdef = ('call', 'is_default', T, name)
        for k in ('ARRAY_TYPE', 'INT_32_TYPE', 'STRUCTURE_TYPE', 'STRING_TYPE', 'ALIAS_TYPE'):
            for d in (True, False):
                text(C, r, S, S.normal, ['union ', A(0), ' switch(', call('type_name', N, DISC), '){',
                     ('R', cnt, [('R', size(LABS), ['case ', call('label_value', elem(LABS, I1), DISC), ':'])] + (['default:'] if d else []) + decl(N, m, k == 'ARRAY_TYPE', 1)), '};'],
                     'every case is written with its labels%s and its member (%s)' % (', default' if d else '', k), sub={KT(m): num(C.K[k]), isdef: n1 if d else n0})
        g = eq(F(D(N), 'kind_'), num(NK(C, 'xUNION')))
        C.ob(r, S, FALSE if conj(g, S.normal) == FALSE else True, 'written for every node of its kind')

def enumerations(C):
    r = 'idl-enumeration'
    T = A(1)
    VS = ('listof', F(T, 'values_'))
    for f in fn(C, 'enumeration32'):
        S = C.run(f, None, opaque=opq('enumeration32'))
        got = alts(C, S)
        what = 'every enumerator is written, in the order of their values, separated by commas'
        if got is None: C.ob(r, S, False, what, unsure=True); continue
        ok = True; why = ''; un = False
        for g, p in got:
            un |= unclear(p)
            if not (len(p) == 5 and p[0] == ('L', 'enum ') and p[1] == ('T', A(0)) and p[2] == ('L', '{') and p[3][0] == 'R' and not p[3][3] and p[4] == ('L', '};')):
                ok = False; continue
            n, body = p[3][1], p[3][2]
            ts = [x for x in body if x[0] == 'T']
            srt = ts[0][1][1][1] if ts and ts[0][1][0] == 'fld' and ts[0][1][1][0] == 'elem' else ('none',)
            if not (n in (size(VS), size(F(T, 'values_'))) and len(ts) == 1 and ts[0][1] == F(elem(srt, I0), 'first') and srt[0] == 'sorted' and srt[1] == VS): ok = False; continue
            c = node(srt[2])
            a, b = F(('sorta', 0), 'second'), F(('sorta', 1), 'second')
            if not (c == lt(a, b) or implies(lt(a, b), c) and conj(c, lt(b, a)) == FALSE): ok = False
            rest = [x for x in body if x[0] != 'T']
            if len(rest) != 1 or rest[0][0] != 'I' or {rest[0][2], rest[0][3]} != {(('L', ','),), ()}: ok = False; continue
            if rest[0] is body[0]:
                more = rest[0][1] if rest[0][2] else neg(rest[0][1])
                if more != neg(eq(I0, n0)) and more != lt(n0, I0): ok = False
            else:
                more = rest[0][1] if rest[0][2] else neg(rest[0][1])
                last = [lt(add(I0, n1), n), neg(eq(add(I0, n1), n)), neg(le(n, add(I0, n1)))]
                if more not in last: ok = False
        C.ob(r, S, ok, what, unsure=un, key=r)
        C.ob(r, S, S.normal == TRUE, 'every enumeration can be written', unsure=murky_node(S.normal))

def dimensions(C):
    r = 'idl-dimensions'
    for f in fn(C, 'array_dimensions'):
        S = C.run(f, None, preset=Ac.PK(C))
        what = 'the dimensions of an array are those of every array in it, outermost first'
        T = A(0)
        KA = num(C.K['ARRAY_TYPE'])
        def grown(w, x):
            if x[0] == 'mutd' and x[1] in ('insert', 'emplace') and len(x) == 5 and x[3][0] == 'it' and x[3][1] == w:
                return ('push', x[2], x[4]) if x[3][2] in (size(w), size(x[2])) else ('pushed before', x[2], x[4])
            return x
        ls = [l for l in S.loopinfo if any(grown(w, x)[0].startswith('push') for w, x in l['x1'].items())]
        if not ls:
            rec = any(e.kind == 'call' or e.kind == 'cast' for e in S.events) and (any(e.kind == 'call' for e in S.events) or S.loopinfo)
            C.ob(r, S, False, what, unsure=bool(rec), key=r)
            continue
        ok, un = len(ls) == 1, len(ls) != 1
        for l in ls[:1]:
            V = [w for w, x in l['x1'].items() if grown(w, x)[0].startswith('push')]
            P_ = [w for w in l['W'] if w not in V and l['x0'][w][0] in ('addr', 'Ptr', 'fld', 'hold', 'p')]
            if len(V) != 1 or len(P_) != 1: un = True; ok = False; break
            V, P_ = V[0], P_[0]
            def obj(v):
                while v[0] in ('Ptr', 'at', 'hold', 'addr'): v = v[2] if v[0] == 'at' else v[1]
                return v
            ph = [x for x in walk(l['x1'][P_]) if x[0] == 'phi' and x[2] == P_]
            X = D(ph[0]) if ph else ('none',)
            dim = lambda t: F(t, 'dimension_')
            top = obj(l['x0'][P_]) == obj(T)
            step = grown(V, l['x1'][V])
            ok = all([top or obj(l['x0'][P_]) == F(T, 'content_'), l['x0'][V] == (('empty',) if top else ('push', ('empty',), dim(T))),
                      bool(ph) and step[:2] == ('push', ('phi', ph[0][1], V)) and step[2] == dim(X), obj(l['x1'][P_]) == F(X, 'content_'),
                      l['go'] == eq(KINDOF(X), KA) and not any(x[0] != 'head' for x in l['exits'])])
            un = not ph or any(x[0] in ('unk', 'callv', 'out', 'fold') for t in list(l['x0'].values()) + list(l['x1'].values()) for x in walk(t))
        C.ob(r, S, ok, what, unsure=un, key=r)

def constants(C):
    r = 'idl-constant'
    from rules_value import OLD
    for f in fn(C, 'get_const_value'):
        D_ = A(0)
        ks = [t for t in kind_terms(C.run(f, None, opaque=opq('get_const_value'), preset=Ac.PK(C)).rets[0][0]) if mentions(t, lambda z: z == D_)]
        if not ks: raise Missing(f['qn'])
        TY = ks[0][1]
        INST = F(D_, 'instance_')
        def at(k): return C.run(f, None, opaque=opq('get_const_value'), preset={**Ac.PK(C), KINDOF(TY): num(C.K[k])})
        ty = lambda t: D(INST, t)
        STR = lambda c: 'std::basic_string<%s, std::char_traits<%s>, std::allocator<%s>>' % (c, c, c)
        for k, t, bits in (('BOOLEAN_TYPE', 'bool', 1), ('CHAR_8_TYPE', 'char', 8), ('CHAR_16_TYPE', 'char16_t', 16), ('WIDE_CHAR_TYPE', 'wchar_t', 32)):
            S = at(k)
            text(C, r, S, TRUE, [call('label_value', lambda x, t=t, bits=bits: unbool(core(x)) == ty(t) and width(x) >= bits, lambda x: strip(x) == strip(TY))], 'a constant of %s is written as a label of its value' % k)
            C.ob(r, S, S.normal == TRUE, 'a constant of %s can be written' % k, unsure=murky_node(S.normal))
        for k, t in ((k, ts[0]) for k, ts in Ac.CTYPE.items()):
            if not (k.startswith('INT_') or k.startswith('UINT_')): continue
            S = at(k)
            bits = int(k.split('_')[1])
            text(C, r, S, TRUE, [number(ty(t), bits, k.startswith('INT'))], 'a constant of %s is written as its number' % k)
            C.ob(r, S, S.normal == TRUE, 'a constant of %s can be written' % k, unsure=murky_node(S.normal))
        for k, q in (('STRING_TYPE', 'char'), ('WSTRING_TYPE', 'wchar_t'), ('STRING16_TYPE', 'char16_t')):
            S = at(k)
            def body(x, q=q):
                if q == 'char': return x == ty(STR(q))
                if x[0] != 'conv8': return None if x[0] not in ('at', 'part') else False
                y = x[2]
                if y[0] == 'call' and y[1] == 'wide_to_utf16': y = y[3]
                elif q == 'wchar_t': return False if y == ty(STR(q)) else None
                return y == ty(STR(q))
            text(C, r, S, TRUE, [('' if q == 'char' else 'L') + '"', body, '"'], 'a constant of %s is written as a quoted text' % k)
            C.ob(r, S, S.normal == TRUE, 'a constant of %s can be written' % k, unsure=murky_node(S.normal))
        S = at('ENUMERATION_TYPE')
        got = alts(C, S)
        what = 'a constant of ENUMERATION_TYPE is written as a label of its value'
        if got is None: C.ob(r, S, False, what, unsure=True)
        for g, p in split(got or ()):
            t = p[0][1] if len(p) == 1 and p[0][0] == 'T' else ('none',)
            V = core(t[3]) if t[0] == 'call' and len(t) > 3 else ('none',)
            w = {ty('unsigned char'): 1, ty('unsigned short'): 2, ty('unsigned int'): 4}.get(V)
            MS = {z for a in B.support(g) for z in walk(a) if z[0] == 'vc' and z[1] == 'memory_size'}
            fits = any(implies(g, eq(z, num(w))) if w != 4 else implies(g, conj(neg(eq(z, n1)), neg(eq(z, num(2))))) for z in MS) if w else False
            C.ob(r, S, call('label_value', lambda x: core(x) == V and width(x) >= 8 * (w or 8), lambda x: strip(x) == strip(TY))(t) and fits, what + ' (%s)' % (w or '?'), unsure=unclear(p) or w is not None and not MS, key=r + '|enum|%s' % w)
        for k, t, d in (('FLOAT_32_TYPE', 'float', 9), ('FLOAT_64_TYPE', 'double', 17), ('FLOAT_128_TYPE', 'long double', 21)):
            S = at(k)
            got = alts(C, S)
            what = 'a constant of %s is written with all its digits' % k
            if got is None: C.ob(r, S, False, what, unsure=True); continue
            for g, p in got:
                ls = leaves_of(p)
                ok = bool(ls)
                un = False
                for l in ls:
                    vals = [x[1] for x in l if x[0] == 'T']
                    if not any(v == ty(t) for v in vals): ok = False; un |= not any(mentions(v, lambda z: z == INST) and v[0] in ('cvt', 'dec', 'at') for v in vals)
                    prec = [v[2] for v in vals if v[0] == 'std' and v[1] == 'std::setprecision']
                    if ('fnref', 'std::fixed') in vals: ok = False
                    elif not prec: ok = False; un |= any(v[0] in ('std', 'fold') for v in vals)
                    elif prec[0][0] == 'int' and prec[0][1] < d: ok = False
                C.ob(r, S, ok, what, unsure=un, key=r + '|' + k)
            bare = lambda x: x[0] == 'T' and (x[1] == ty(t) or x[1][:2] == ('std', 'std::setprecision')) or x[0] == 'L' and '.' not in x[1] and 'e' not in x[1].lower()
            C.ob(r, S, not all(bare(x) for g, p in got for l in leaves_of(p) for x in l) or not any(leaves_of(p) for g, p in got), 'a constant of %s without a fraction is still a floating-point literal' % k, key=r + '|point|' + k)
            C.ob(r, S, S.normal == TRUE, 'a constant of %s can be written' % k, unsure=murky_node(S.normal))

def unbool(x):
    if x[0] == 'b':
        sup = list(B.support(x[1]))
        if len(sup) == 1 and sup[0][0] in ('nz', 'bool', 'eq'):
            t = sup[0][1]
            return t
    if x[0] == 'ite' and x[2:] == (n1, n0): return unbool(('b', x[1]))
    return x

def leaves_of(p):
    """every text p can be"""
    out = [[]]
    for x in p:
        if x[0] == 'I':
            alt = leaves_of(x[2]) + leaves_of(x[3])
            out = [o + a for o in out for a in alt]
        elif x[0] == 'R': out = [o + a for o in out for a in leaves_of(x[2])]
        else: out = [o + [x] for o in out]
        if len(out) > 64: return []
    return out

# ------------------------------------------------------------------ the tree of declarations
NODE, MODL, TREE = DT + 'DependencyNode', DT + 'DependencyModule', DT + 'ModuleDependencyTree'
ENUMC = (NSP + 'idl::Module::is_const_from_enum',)
def sentences(C):
    r = 'idl-sentence'
    fs = [f for f in C.fns(NODE + '::generate_idl_sentence') if f.get('body') is not None]
    if not fs: raise Missing(NODE)
    NAME = F(THIS, 'node_', 'first')
    TYP = D(F(THIS, 'node_', 'second', 'type_'))
    SELF = ('addr', THIS)
    FRESH = eq(F(THIS, 'iterated_'), n0)
    for f in fs:
        def at(k): return C.run(f, f.get('cls'), opaque=opq() + ENUMC, preset={F(THIS, 'kind_'): num(NK(C, k))})
        for k, g, a in (('xALIAS', 'aliase', [NAME, lambda x: strip(x) == F(TYP, 'aliased_'), SELF]), ('xENUM', 'enumeration32', [NAME, TYP]),
                        ('xSTRUCT', 'structure', [NAME, TYP, SELF]), ('xUNION', 'generate_union', [NAME, TYP, SELF])):
            S = at(k)
            text(C, r, S, FRESH, [call(g, *a)], 'a node of kind %s is written as such, with its name and type' % k)
            once(C, r, S, k)
        S = at('xCONST')
        once(C, r, S, 'xCONST')
        CS = F(THIS, 'node_', 'second', 'parent_', 'constants_')
        el = elem(CS, I0)
        what = 'a constant is written with its type, name and value'
        enumc = ('call', 'is_const_from_enum', None)
        got = alts(C, S, FRESH)
        if got is None: C.ob(r, S, False, what, unsure=True); continue
        for g, p in got:
            un = unclear(p)
            EL = el
            if len(p) == 1 and p[0][0] == 'R': count, body = p[0][1], p[0][2]
            else: count, body = None, p
            if count is None:
                els = {z for x in p for z in walk(x) if z[0] in ('mapat', 'elem') and z[1] == CS}
                EL = els.pop() if len(els) == 1 else el
            if len(body) == 1 and body[0][0] == 'I': cond, txt = (body[0][1], body[0][2]) if body[0][2] else (neg(body[0][1]), body[0][3])
            else: cond, txt = TRUE, body
            val = F(EL, 'second') if EL[0] == 'elem' else EL
            want = norm(['const ', call('type_name', SELF, lambda x: strip(x) in (F(val, 'type_'), strip(TYP))), ' ', lambda x: x in (F(EL, 'first'), NAME, F(('kv', CS, NAME), 'first')), '=', call('get_const_value', lambda x: mentions(x, lambda z: z == F(val, 'instance_'))), ';'])
            ok = same_text(txt, want)
            C.ob(r, S, ok, what + ('' if ok else ' (writes %s)' % tell(p)), unsure=un or ok is None, key=r + '|const')
            if not ok: continue
            fe = {z: n0 for a in B.support(cond) for z in walk(a) if z[0] == 'call' and z[1] == 'is_const_from_enum'}
            own = subst_node(cond, fe) if fe else cond
            nm = eq(F(EL, 'first'), NAME) if count is not None else has(CS, NAME)
            pre = [a for a in B.support(own) if a[0] in ('all', 'loop', 'first')]
            C.ob(r, S, implies(own, nm) if count is not None else True, 'a constant is written by its own node only', unsure=murky_node(cond), key=r + '|const own')
            C.ob(r, S, implies(conj(nm, g, *[B.atom(a) for a in pre]), own), 'every constant that is not an enumerator is written', unsure=murky_node(cond) or bool(pre), key=r + '|const all')
            fe = {z: n1 for z in fe}
            C.ob(r, S, bool(fe) and subst_node(cond, fe) == FALSE, 'an enumerator is not written as a constant', unsure=not fe and murky_node(cond), key=r + '|const enum')

def once(C, r, S, k):
    FRESH = eq(F(THIS, 'iterated_'), n0)
    v = final(S, F(THIS, 'iterated_'))
    C.ob(r, S, implies(S.normal, node(v)), 'a node of kind %s that has been written is marked so' % k, unsure=murky(v), key='%s|mark|%s' % (r, k))
    got = alts(C, S, neg(FRESH))
    C.ob(r, S, got is not None and all(p == () for _, p in got), 'a node of kind %s is written once' % k, unsure=got is None, key='%s|once|%s' % (r, k))

def tables(C):
    r = 'idl-nodes'
    from rules_members import C_effs
    MOD = {'aliases_': 'xALIAS', 'constants_types_': 'xCONST', 'enumerations_32_': 'xENUM', 'structs_': 'xSTRUCT', 'unions_': 'xUNION'}
    fs = [f for f in C.fns(TREE + '::create_module_dep_tree') if f.get('body') is not None]
    if not fs: raise Missing(TREE)
    for f in fs:
        S = C.run(f, f.get('cls'))
        DM = D(A(0))
        M = F(DM, 'module_')
        evs = [e for e in C.effs(S, 'mut') if e.name in ('emplace_back', 'push_back') and e.a[0] == F(DM, 'node_set_') and len(e.a) == 2]
        for t, k in MOD.items():
            mine = []
            for e in evs:
                o = e.a[1]
                if o[0] != 'obj': continue
                d = dict(x for x in o[2:])
                if mentions(d.get('node_', n0), lambda z: z[0] == 'fld' and z[2] == t): mine.append((e, d))
            un = any(e.a[1][0] != 'obj' for e in evs) or not evs
            ok = len(mine) == 1 and mine[0][0].n == (size(F(M, t)),) and mine[0][0].g == TRUE and mine[0][1]['node_'] == elem(F(M, t), I0)
            C.ob(r, S, ok, 'every element of %s gets a node' % t, unsure=un and not ok, key='%s|%s' % (r, t))
            if ok:
                d = mine[0][1]
                C.ob(r, S, d.get('kind_') == num(NK(C, k)), 'the nodes of %s are of kind %s' % (t, k), key='%s|kind|%s' % (r, t))
                C.ob(r, S, strip(d.get('from_', n0)) == A(0) and d.get('iterated_') in (n0, NO), 'the nodes of %s belong to their module and are still to be written' % t, key='%s|from|%s' % (r, t))
        IN = F(M, 'inner_')
        sub_ = D(F(elem(IN, I0), 'second'))
        ch = [e for e in C.effs(S, 'mut') if e.name in ('emplace_back', 'push_back') and e.a[0] == F(DM, 'd_inner_') and len(e.a) == 2]
        ok = len(ch) == 1 and ch[0].n == (size(IN),) and ch[0].g == TRUE and ch[0].a[1][0] == 'mkshared' and strip(ch[0].a[1][3]) == strip(sub_) and ch[0].a[1][4] == A(0) and strip(ch[0].a[1][2]) == F(THIS, 'dep_root_')
        C.ob(r, S, ok, 'every submodule becomes a part of its module', unsure=any(murky_ev(e.e) for e in ch) or not ch and any(mentions(x, lambda z: z == IN) and e.kind == 'call' for e in C.effs(S, 'call') for x in e.a) , key=r + '|inner')
        C.ob(r, S, not any(e.name == 'for_each_submodule' and any(a[0] == 'lambda' for a in e.a if isinstance(a, tuple)) for e in C.effs(S, 'call')), 'only the direct submodules of a module become parts of it', key=r + '|direct')
        rec = [e for e in C.effs(S, 'call', {'create_module_dep_tree'})]
        ok = len(rec) == 1 and ch and rec[0].n == ch[0].n and rec[0].g == TRUE and strip(rec[0].a[1]) == strip(ch[0].a[1])
        C.ob(r, S, ok, 'the submodules get their nodes and parts in turn', unsure=not rec and not ch, key=r + '|recursion')

NO = ('b', FALSE)
def emission(C):
    r = 'idl-module'
    O = opq() + ENUMC + tuple(NSP + x for x in (NODE + '::generate_idl_sentence', MODL + '::generate_idl_sentence', MODL + '::generate_idl_module', MODL + '::all_nodes_iterated', MODL + '::all_inner_iterated', TREE + '::generate_idl', TREE + '::create_module_dep_tree', TREE + '::solve_dependency_tree'))
    fs = [f for f in C.fns(MODL + '::generate_idl_module') if f.get('body') is not None]
    if not fs: raise Missing(MODL)
    NS = F(THIS, 'node_set_')
    for f in fs:
        S = C.run(f, f.get('cls'), opaque=O)
        got = alts(C, S)
        what = 'every declaration of a module is written in it'
        ok = got is not None and all(any(x[0] == 'R' and x[1] == size(NS) and writes(x[2], elem(NS, I0)) for x in p) for _, p in got)
        C.ob(r, S, ok, what, unsure=got is None or not ok and any(unclear(p) for _, p in got), key=r + '|nodes')
        C.ob(r, S, S.normal == TRUE, 'every module can be written', unsure=murky_node(S.normal), key=r + '|normal')
    fs = [f for f in C.fns(TREE + '::generate_idl') if f.get('body') is not None and len(f['params']) == 3]
    if not fs: raise Missing(TREE)
    for f in fs:
        S = C.run(f, f.get('cls'), opaque=O)
        DM = D(A(0))
        FRESH = eq(F(DM, 'iterated_'), n0)
        MN = F(DM, 'module_', 'name_')
        ROOT = eq(size(MN), n0)
        for root in (True, False):
            g = conj(FRESH, ROOT if root else neg(ROOT))
            got = alts(C, S, g)
            w = 'the root module' if root else 'a module'
            if got is None: C.ob(r, S, False, w + ' is written', unsure=True); continue
            for gg, p in got:
                un = unclear(p)
                pos = lambda q: next((i for i, x in enumerate(p) if q(x)), None)
                body = pos(lambda x: x[0] == 'T' and call('generate_idl_module', DM)(x[1]))
                inn = pos(lambda x: x[0] == 'R' and inner_count(x[1], DM) and any(y[0] == 'T' and call('generate_idl', None, lambda z: inner_of(z, DM))(y[1]) for y in x[2]))
                C.ob(r, S, body is not None, 'the declarations of %s are written' % w, unsure=un and body is None, key='%s|body|%s' % (r, root))
                C.ob(r, S, inn is not None, 'the parts of %s are written' % w, unsure=un and inn is None, key='%s|parts|%s' % (r, root))
                if body is None or inn is None: continue
                lits = ''.join(x[1] if x[0] == 'L' else '@' if x[0] == 'T' and x[1] == MN else '#' for x in p)
                if root: C.ob(r, S, 'module' not in lits and '{' not in lits and '}' not in lits, 'the root module has no frame', key=r + '|frame root')
                else:
                    o, c = lits.find('module @{'), lits.rfind('};')
                    ok = 0 <= o and c >= 0 and lits.count('{') == 1 and lits.count('}') == 1 and lits.index('@', o) < order_of(p, min(body, inn)) and c > order_of(p, max(body, inn))
                    C.ob(r, S, ok, 'a module is framed by its name and braces', unsure=un, key=r + '|frame')
        got = alts(C, S, neg(FRESH))
        C.ob(r, S, got is not None and all(p == () for _, p in got), 'a module is written once', unsure=got is None, key=r + '|once')
        v = final(S, F(DM, 'iterated_'))
        C.ob(r, S, implies(S.normal, node(v)), 'a module that has been written is marked so', unsure=murky(v), key=r + '|mark')
    for f in [f for f in C.fns(TREE + '::generate_idl') if f.get('body') is not None and len(f['params']) < 3]:
        S = C.run(f, f.get('cls'), opaque=O)
        text(C, r, S, TRUE, [call('generate_idl', THIS, lambda x: strip(x) == F(THIS, 'dep_root_'))], 'the text of a tree is that of its root')
    for f in [f for f in C.fns(TREE + '::ModuleDependencyTree') if f['kind'] == 'ctor' and not f.get('defaulted') and len(f['params']) == 1 and 'Module ' in f['params'][0]['t']]:
        S = C.run(f, f.get('cls'), opaque=O)
        cr = C.effs(S, 'call', {'create_module_dep_tree'})
        root = final(S, F(THIS, 'dep_root_'))
        ok = len(cr) == 1 and cr[0].g == TRUE and strip(cr[0].a[1]) in (strip(root), F(THIS, 'dep_root_')) and root[0] == 'mkshared' and strip(root[3]) == strip(A(0))
        C.ob(r, S, ok, 'the tree of a module holds all of it', unsure=murky(root) or not cr, key=r + '|tree')

def order_of(p, i):
    """offset of part i in the joined text of emission()"""
    return sum(len(x[1]) if x[0] == 'L' else 1 for x in p[:i])
def sentence_of(t, nd): return t[0] == 'call' and t[1] == 'generate_idl_sentence' and any(x == nd or strip(x) == strip(nd) for x in t[2:])
def writes(xs, nd):
    """the sentence of nd is among the parts, at least unless nd has been written already or has none"""
    for y in xs:
        if y[0] == 'T' and sentence_of(y[1], nd): return True
        if y[0] != 'I': continue
        if writes(y[2], nd) and writes(y[3], nd): return True
        for has_, c in ((y[2], neg(y[1])), (y[3], y[1])):
            if writes(has_, nd) and (implies(c, neg(eq(F(nd, 'iterated_'), n0))) or implies(c, node(F(nd, 'iterated_'))) or
                                     all(mentions(a, lambda z: sentence_of(z, nd)) for a in B.support(c))): return True
    return False
def inner_count(n, DM): return n[0] == 'size' and (n[1] == F(DM, 'd_inner_') or n[1][0] == 'out' and n[1][-1] == 'd_inner_')
def inner_of(z, DM):
    z = strip(z)
    return z[0] == 'elem' and z[2] == I0 and inner_count(size(z[1]), DM)
