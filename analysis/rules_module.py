"""P22 what a module finds: the tables of its declarations, names resolved from the inside outwards, listings"""
from core import *
from terms import B, bt
import rules_members as Mb

MOD = 'idl::Module'
CL = NSP + MOD
OPQ = (CL + '::resolve_scope/3', CL + '::scope', CL + '::type', CL + '::fill_all_types', CL + '::for_each_submodule/3')
TABLES = ('structs_', 'unions_', 'aliases_', 'enumerations_32_', 'constants_', 'inner_')
TYPED = ('structs_', 'unions_', 'aliases_', 'enumerations_32_')
HAS = {'has_structure': 'structs_', 'has_union': 'unions_', 'has_enum_32': 'enumerations_32_', 'has_alias': 'aliases_', 'has_constant': 'constants_'}
GET = {'structure': 'structs_', 'union_switch': 'unions_', 'enum_32': 'enumerations_32_', 'alias': 'aliases_'}
NPOS = ('int', 2 ** 64 - 1)
SEP = ('str', '::')
FIND = lambda s: ('std', 'basic_string::find', s, SEP, n0)
SUB = lambda s, a, b: ('std', 'basic_string::substr', s, a, b)
PLAINNAME = lambda s: eq(FIND(s), NPOS)
ROOTED = lambda s: conj(eq(FIND(s), n0), neg(PLAINNAME(s)))
QUALIFIED = lambda s: conj(neg(eq(FIND(s), n0)), neg(PLAINNAME(s)))
OUTER = F(THIS, 'outer_')
ISROOT = eq(OUTER, n0)
SCOPE = ('call', 'scope', THIS)
def RSV(o, s, orig, first): return ('call', 'resolve_scope', o, s, orig, first)
YES, NO = ('b', TRUE), ('b', FALSE)
RS = RSV(THIS, A(0), A(0), YES)
FOUND = neg(eq(F(RS, 'first'), n0))
IN = lambda t: fld(D(F(RS, 'first')), t)
KEY = F(RS, 'second')
ENTRY = lambda t: ('mapat', IN(t), KEY)
T = lambda t: F(THIS, t)

def fns(C, name, n=None, pred=None):
    r = [f for f in C.fns(MOD + '::' + name) if f.get('body') is not None and (n is None or len(f['params']) == n) and (pred is None or pred(f))]
    if not r: raise Missing(MOD + '::' + name)
    return r

def run(C, f, **kw): return C.run(f, CL, opaque=kw.pop('opaque', OPQ), **kw)
def by_name(f): return len(f['params']) == 1 and 'basic_string' in f['params'][0]['t']

# ------------------------------------------------------------------ tables of declarations
def lookup(C):
    r = 'module-lookup'
    for n, t in HAS.items():
        for f in fns(C, n, 1):
            S = run(C, f)
            decides(C, r, S, conj(FOUND, has(IN(t), KEY)), '%s answers from its own table of the module the name leads to' % n)
    for n, t in GET.items():
        for f in fns(C, n, None, by_name):
            S = run(C, f)
            returned(C, r, S, ENTRY(t), '%s gives the declaration of that kind' % n)
            at = [x for x in C.effs(S, 'mapat') if x.a[:2] == (IN(t), KEY)]
            g = conj(FOUND, has(IN(t), KEY))
            ok = implies(S.normal, g) or (at and implies(S.normal, FOUND))
            C.ob(r, S, ok, '%s gives nothing when there is none' % n, unsure=murky_node(S.normal))
            C.ob(r, S, implies(g, S.normal), '%s gives every one there is' % n, unsure=murky_node(S.normal))
    for f in fns(C, 'constant', 1):
        S = run(C, f)
        g = conj(FOUND, has(IN('constants_'), KEY))
        got = FALSE; bad = None
        for x in C.effs(S, None, {'copy_instance', 'move_instance'}):
            if x.a and x.a[-1] == F(ENTRY('constants_'), 'instance_'): got = disj(got, x.g)
            else: bad = x
        C.ob(r, S, bad is None and implies(g, got), 'constant gives the value declared', unsure=got == FALSE and bad is None or bad is not None and murky_ev(bad.e))
        C.ob(r, S, implies(conj(got, S.normal), g), 'constant gives a declared value only when there is one', unsure=murky_node(got))
    for f in fns(C, 'type'):
        S = run(C, f, assume=FOUND)
        again = RSV(D(F(RS, 'first')), KEY, KEY, YES)
        for t in TYPED:
            m = {has(x, KEY): (TRUE if u == t else FALSE) for u in TYPED for x in (IN(u),)}
            ok, some, unsure = True, False, False
            for g, v, st in S.rets:
                for gl, x in leaves(v, g):
                    x = settle(x, again); gl = settle_node(gl, again)
                    gg = conj(gl, FOUND, *[has(IN(u), KEY) if u == t else neg(has(IN(u), KEY)) for u in TYPED])
                    if gg == FALSE: continue
                    some = True
                    if x not in (ENTRY(t), F(ENTRY(t), 'type_'), ('Ptr', D(F(ENTRY(t), 'type_')))): ok = False; unsure = unsure or murky(x) or murky_node(gg)
            C.ob(r, S, ok and some, 'type() gives what the table %s has under the name' % t, unsure=unsure)
        any_ = disj(*[has(IN(u), KEY) for u in TYPED])
        ok, unsure = True, False
        for g, v, st in S.rets:
            for gl, x in leaves(v, g):
                x = settle(x, again); gl = conj(settle_node(gl, again), FOUND, neg(any_))
                if gl == FALSE: continue
                if any(y[0] == 'mapat' and y[1][0] == 'fld' for y in walk(x)): ok = False; unsure = unsure or murky(x) or murky_node(gl)
        at = ('std', 'basic_string::find', A(0), ('str', '::'), n0)
        names = [e for e in S.events if e.kind == 'store' and mentions(e.a[0], lambda z: z[-1:] == ('name_',))]
        bad = [e for e in names if any(subst_node(e.g, {at: k}) != FALSE for k in (num(1), num(3), NPOS))]
        C.ob(r, S, not bad, 'a type found keeps its name, unless it was looked for from the root', bad[0].line if bad else None, unsure=any(murky_ev(e) or mentions_node(e.g, lambda z: z != at and z[0] in ('std', 'elem', 'sv') and A(0) in z) for e in bad))
        C.ob(r, S, ok, 'type() finds nothing where no type is declared', unsure=unsure)
        S = run(C, f)
        lost = None
        for g, v, st in S.rets:
            for gl, x in leaves(v, g):
                if gl == FALSE or x is None or x[0] != 'fold' or mentions(x[3], lambda z: z[0] == 'acc') or x[3][:2] != ('call', 'type'): continue
                if not implies(gl, every(x[1], eq(x[3], n0))): lost = x
        C.ob(r, S, lost is None, 'a type found in one submodule is not lost by looking into the next')
        for u in C.effs(S, 'mapat'):
            if u.a[0] in [IN(t) for t in TYPED]:
                g = settle_node(u.g, again)
                C.ob(r, S, implies(conj(g, S.normal), conj(FOUND, has(u.a[0], KEY))), 'type() reads the table %s only where the name is declared in it' % u.a[0][2], u.e.line, unsure=murky_node(g))

def settle(x, again):
    """a name that has led to a module leads nowhere else when asked again there"""
    return subst(x, {again: RS, F(again, 'first'): F(RS, 'first'), F(again, 'second'): KEY})
def settle_node(g, again):
    return subst_node(g, {again: RS, F(again, 'first'): F(RS, 'first'), F(again, 'second'): KEY})

def returned(C, rule, S, entry, what):
    """a reference to the type (or content) of the entry"""
    ok, some, unsure = True, False, False
    want = (D(F(entry, 'type_')), F(entry, 'type_'), D(entry), entry)
    for g, v, st in S.rets:
        for gl, x in leaves(v, g):
            some = True
            y = ('at', '', x[2]) if x and x[0] == 'at' else x
            if y not in want: ok = False; unsure = unsure or x is None or murky(x)
    C.ob(rule, S, ok and some, what, unsure=unsure or not some)

def symbols(C):
    r = 'module-symbols'
    anyof = disj(*[has(T(t), A(0)) for t in TABLES])
    for f in fns(C, 'has_symbol', 2):
        S = run(C, f, opaque=OPQ + (CL + '::has_symbol',))
        up = neg(eq(('call', 'has_symbol', D(OUTER), A(0), A(1)), n0)); up2 = neg(eq(('call', 'has_symbol', D(OUTER), A(0), YES), n0))
        ext = neg(eq(A(1), n0))
        decides(C, r, S, [disj(anyof, conj(ext, neg(ISROOT), u)) for u in (up, up2)], 'a symbol is any declaration of the module, and of the modules around it when asked for')
    for f in fns(C, 'symbol_count', 1):
        S = run(C, f, opaque=OPQ + (CL + '::symbol_count',))
        own = ite(anyof, num(1), n0)
        returns(C, r, S, own, 'symbols are counted once in the outermost module', g=ISROOT)
        returns(C, r, S, add(own, ('call', 'symbol_count', D(OUTER), A(0))), 'symbols are counted once per module on the way out', g=neg(ISROOT))
    for f in fns(C, 'has_submodule', 1):
        decides(C, r, run(C, f), has(T('inner_'), A(0)), 'has_submodule answers from the submodules')
    for f in fns(C, 'submodule', 1):
        S = run(C, f); h = has(T('inner_'), A(0)); e = ('mapat', T('inner_'), A(0))
        returns(C, r, S, e, 'submodule gives the one of that name', g=h)
        returns(C, r, S, n0, 'submodule gives none when there is none', g=neg(h))
    for f in fns(C, 'operator[]', 1):
        S = run(C, f); e = ('mapat', T('inner_'), A(0))
        returned(C, r, S, e, 'indexing gives the submodule of that name')
        C.ob(r, S, not C.effs(S, 'mut') and not C.effs(S, 'store'), 'indexing declares nothing', unsure=False)
    for f in fns(C, 'submodule_size', 0): returns(C, r, run(C, f), size(T('inner_')), 'the number of submodules')
    for f in fns(C, 'name', 0): returns(C, r, run(C, f), T('name_'), 'the name of the module')
    up = ('call', 'scope', D(OUTER))
    for f in fns(C, 'scope', 0):
        S = run(C, f)
        named_up = conj(neg(ISROOT), neg(eq(size(up), n0)))
        ok, some, unsure = True, False, False
        for g, v, st in S.rets:
            for h in (ISROOT, conj(neg(ISROOT), eq(size(up), n0))):
                for gl, x in leaves(v, conj(g, h)):
                    if gl == FALSE: continue
                    some = True
                    if text(x, gl) not in ([T('name_')],) + (() if h == ISROOT else ([up, T('name_')],)): ok = False; unsure = unsure or murky(x)
        C.ob(r, S, ok and some, 'the scope of a module in the root is its name', unsure=unsure or not some)
        ok, some, unsure = True, False, False
        for g, v, st in S.rets:
            for gl, x in leaves(v, conj(g, named_up)):
                if gl == FALSE: continue
                some = True
                p = text(x, gl)
                if p != [up, SEP, T('name_')]: ok = False; unsure = unsure or murky(x)
        C.ob(r, S, ok and some, 'the scope of a module is the scope around it and its name', unsure=unsure or not some)

def text(x, g):
    """the parts a text is put together from"""
    if x[0] == 'cat': return [z for y in x[1:] for z in text(y, g)]
    if x[0] in ('ite', 'pite'):
        if implies(g, x[1]): return text(x[2], g)
        if implies(g, neg(x[1])): return text(x[3], g)
    if x == ('str', '') : return []
    return [x]

# ------------------------------------------------------------------ declaring
def entries(t, base, g):
    """the leaves of the contents of a table: [(guard, kept, removed, [(key, value)])]"""
    out = []
    for gl, x in leaves(t, g):
        new, gone = [], []
        while True:
            if x[0] in ('ite', 'pite'):
                if implies(gl, x[1]): x = x[2]; continue
                if implies(gl, neg(x[1])): x = x[3]; continue
            if x[0] == 'mset': new.insert(0, (x[2], x[3])); x = x[1]; continue
            if x[0] == 'mutd' and x[1] == 'erase' and len(x) == 4: gone.append(x[3][2] if x[3][0] == 'mfind' else x[3]); x = x[2]; continue
            break
        out.append((gl, True if x == base else 0 if x[0] == 'empty' else None, gone, new))
    return out

def scoped(p, nm, g):
    """the text is the scope, the separator and the name"""
    e = eq(size(SCOPE), n0)
    for gg, want in ((conj(g, e), ([nm], [SCOPE, nm])), (conj(g, neg(e)), ([SCOPE, SEP, nm],))):
        if gg == FALSE: continue
        for gl, x in leaves(p, gg):
            if gl != FALSE and text(x, gl) not in want: return False
    return True

DECL = [('structure', 'structs_', 'type'), ('union_switch', 'unions_', 'type'), ('enum_32', 'enumerations_32_', 'type'), ('add_alias', 'aliases_', 'type'),
        ('create_alias', 'aliases_', 'alias'), ('create_constant', 'constants_', 'const')]
CT = 'constants_types_'

def declaring(C):
    r = 'module-declare'
    for n, t, how in DECL:
        for f in fns(C, n, None, lambda f: f['rt'] == 'bool'):
            S = run(C, f)
            nm = F(A(0), 'name_') if how == 'type' else A(1) if how == 'alias' else A(0)
            rp = {'type': 1, 'alias': 9, 'const': 2}[how]
            repl = neg(eq(A(rp), n0)) if len(f['params']) > rp else FALSE
            pl = PLAINNAME(nm)
            had = has(T(t), nm)
            if how == 'const': both = disj(conj(had, has(T(CT), nm)), conj(neg(had), neg(has(T(CT), nm))))
            else: both = TRUE
            w = '%s(%s)' % (n, len(f['params']))
            fin = final(S, T(t)); tr = truth(S)
            if n != 'add_alias':
                C.ob(r, S, same(fin, T(t), conj(S.normal, neg(pl))) and conj(tr, neg(pl)) == FALSE, w + ' refuses a scoped name', unsure=murky(fin) or murky_node(tr))
            cases = [('a new name', conj(pl, neg(had)), True, False), ('a name in use', conj(pl, had, neg(repl)), False, False)]
            if repl != FALSE: cases.append(('a name to be replaced', conj(pl, had, repl), True, True))
            vals = []
            for what, g, added, gone in cases:
                g = conj(g, both, S.normal)
                if g == FALSE: C.ob(r, S, False, w + ': ' + what, unsure=True); continue
                ok, unsure = True, murky(fin)
                for gl, kept, out, new in entries(fin, T(t), g):
                    if gl == FALSE: continue
                    good = kept and (not new if not added else len(new) == 1 and new[0][0] == nm) and all(x == nm for x in out) and (gone or not out)
                    if not good: ok = False; unsure = unsure or kept is None
                    elif new: vals.append((gl, new[0][1]))
                C.ob(r, S, ok, '%s: %s %s' % (w, what, 'is entered, once and under that name' if added else 'keeps what it stands for'), unsure=unsure)
                if added: C.ob(r, S, implies(conj(g, possible(S)), tr), '%s: %s is reported as declared' % (w, what), unsure=murky_node(tr))
                else: C.ob(r, S, conj(g, tr) == FALSE, '%s: %s is reported as refused' % (w, what), unsure=murky_node(tr))
            for u in TABLES + (CT,):
                if u == t or (u == CT and how == 'const'): continue
                x = final(S, T(u)); C.ob(r, S, same(x, T(u), S.normal), '%s leaves %s alone' % (w, u), unsure=murky(x))
            for x in Mb.C_effs(S, 'mut', {'operator[]', 'insert_or_assign'}):
                if x.a[0] == T(t) and x.a[1] == nm: C.ob(r, S, implies(conj(x.g, S.normal), disj(neg(had), repl)), w + ' overwrites only what is to be replaced', x.e.line, unsure=murky_node(x.g))
            if how == 'const': constant_entry(C, r, S, f, vals, nm, w, both); continue
            for g, v in vals:
                d = dict(v[2:]) if v[0] == 'obj' else {}
                x = d.get('type_')
                if x is None or x[0] not in ('Ptr', 'hold'): C.ob(r, S, False, w + ': what is entered', unsure=True); continue
                o = x[1]
                name = final(S, fld(o, 'name_'))
                C.ob(r, S, scoped(name, nm, g), w + ': the type entered is known by its scoped name', unsure=murky(name))
                if o == A(0):
                    st = [e for e in S.events if e.kind == 'store' and e.args[0] == fld(o, 'name_')] if hasattr(S.events[0], 'args') else [e for e in S.events if e.kind == 'store' and e.a[0] == fld(o, 'name_')]
                    st = [e for e in st if conj(e.g, g) != FALSE]
                    put = [e for e in S.events if e.kind == 'mut' and e.a[0] == T(t) and e.name != 'erase']
                    C.ob(r, S, bool(st) and bool(put) and max(e.seq for e in st) < min(e.seq for e in put), w + ': it is renamed before it is entered', unsure=not put and not C.silent(S))
                elif how == 'alias':
                    al = final(S, fld(o, 'aliased_')); C.ob(r, S, any(y == A(0) for y in walk(al)), w + ': it stands for the type given', unsure=murky(al) or al[0] != 'p')
                if 'parent_' in d: C.ob(r, S, d['parent_'] == THIS, w + ': it belongs to this module', unsure=murky(d['parent_']))

def refusals(C):
    """a declaration that is refused leaves the type it was given as it was (P09)"""
    r = 'module-refused'
    for n, t, how in DECL:
        for f in fns(C, n, None, lambda f: f['rt'] == 'bool'):
            p = f['params'][0]['t']
            if not p.endswith('Type &') or p.startswith('const') or len(f['params']) != 1: continue
            S = run(C, f)
            nm = F(A(0), 'name_')
            v = final(S, nm)
            for what, g in (('a name in use', conj(PLAINNAME(nm), has(T(t), nm))), ('a scoped name', neg(PLAINNAME(nm)))):
                g = conj(g, S.normal)
                if g == FALSE or conj(truth(S), g) != FALSE: continue
                C.ob(r, S, same(v, nm, g), '%s: a type refused for %s keeps its name' % (n, what), unsure=murky(v))

def possible(S):
    """not thrown by something that cannot fail here"""
    return S.normal

def constant_entry(C, r, S, f, vals, nm, w, both):
    for g, v in vals:
        d = dict(v[2:]) if v[0] == 'obj' else {}
        if 'instance_' not in d: C.ob(r, S, False, w + ': what is entered', unsure=True); continue
        ty = ref_type(d['type_'])
        src = D(F(A(1), 'type_'))
        ents = [y for x in Mb.C_effs(S, 'mut', {'emplace', 'insert', 'try_emplace'}) if x.a[0] == T(CT) and x.a[1] == nm for y in [x.a[2]] if y[0] == 'obj']
        own = [F(('mapat', T(CT), nm), 'type_')]
        C.ob(r, S, any(y in (src, F(A(1), 'type_')) or y in own or y == D(own[0]) for y in walk(ty)), w + ': the constant is of the type given', unsure=murky(ty))
        for e in ents: C.ob(r, S, ref_type(dict(e[2:])['type_']) == src, w + ': its type is kept', unsure=murky(e))
        cp = [x for x in C.effs(S, None, {'copy_instance', 'move_instance', 'copy_instance_from_type'}) if x.a and F(A(1), 'instance_') in x.a]
        C.ob(r, S, any(implies(conj(g, *[neg(eq(y, F(A(1), 'instance_'))) for y in x.a if y != F(A(1), 'instance_')]), x.g) for x in cp), w + ': the constant has the value given', unsure=bool(S.unknown) or any(murky_ev(x.e) for x in cp))
    # constants that stand for enumerators
    if len(f['params']) == 4:
        fe = neg(eq(A(3), n0)); FE = T('from_enum_')
        had = has(T('constants_'), nm); repl = neg(eq(A(2), n0))
        ps = [x for x in Mb.C_effs(S, 'mut', Mb.PUSH | {'insert', 'emplace'}) if x.a[0] == FE]
        pg = disj(*[x.g for x in ps]) if ps else FALSE
        base = conj(S.normal, both, PLAINNAME(nm))
        added = conj(base, disj(neg(had), repl))
        C.ob(r, S, implies(conj(added, fe), pg) and all(x.a[-1] == nm for x in ps), w + ': a constant that stands for an enumerator is noted as such', unsure=murky_node(pg))
        C.ob(r, S, implies(conj(pg, base), conj(fe, disj(neg(had), repl))), w + ': only such a constant is', unsure=murky_node(pg))
        rm = [x for x in Mb.C_effs(S, 'mut', {'erase', 'clear', 'resize', 'pop_back'}) if x.a[0] == FE]
        gone = disj(*[x.g for x in rm]) if rm else FALSE
        C.ob(r, S, implies(conj(base, had, repl, neg(fe)), gone), w + ': a constant that replaces one is not taken for an enumerator', unsure=murky(final(S, FE)))
        C.ob(r, S, implies(conj(gone, base), repl) and all(nm in [y for z in x.a for y in walk(z)] for x in rm), w + ': no other constant is affected by a replacement', unsure=murky_node(gone))
    for g in fns(C, 'is_const_from_enum', 1):
        S2 = run(C, g); FE = T('from_enum_'); end = ('it', FE, size(FE)); beg = ('it', FE, n0)
        fnd = ('std', 'std::find', beg, end, A(0)); cnt = ('std', 'std::count', beg, end, A(0))
        decides(C, r, S2, [neg(eq(fnd, end)), neg(eq(cnt, n0)), neg(every(size(FE), neg(eq(elem(FE, ('iv', 0)), A(0)))))], 'the constants noted are the ones that stand for enumerators')

def submodules(C):
    r = 'module-submodules'
    for f in fns(C, 'create_submodule', 1):
        S = run(C, f)
        fin = final(S, T('inner_')); had = has(T('inner_'), A(0))
        C.ob(r, S, same(fin, T('inner_'), conj(S.normal, had)), 'a submodule declared again is the one there is', unsure=murky(fin))
        for gl, kept, out, new in entries(fin, T('inner_'), conj(S.normal, neg(had))):
            if gl == FALSE: continue
            ok = kept and not out and len(new) == 1 and new[0][0] == A(0)
            C.ob(r, S, ok, 'a submodule is entered under its name', unsure=murky(fin) or kept is None)
            if ok:
                v = new[0][1]
                mk = [e for e in S.events if e.kind == 'new' and e.a and e.a[0] == v]
                ar = [x for e in mk for x in e.a if x[0] == 'ctor']
                got = v[2:] if v[0] == 'mkshared' else ar[0][1:] if len(ar) == 1 else None
                C.ob(r, S, got is not None and tuple(got) == (addr(THIS), A(0)), 'a submodule is made inside this module, with its name', unsure=got is None)
                rets_to(C, r, S, neg(had), [('at', '', v)], 'the submodule made is given back')
        rets_to(C, r, S, had, [('at', '', ('mapat', T('inner_'), A(0)))], 'the submodule there is, is given back')
    for f in fns(C, 'Module', 2):
        S = C.run(f, CL)
        value(C, r, S, final(S, OUTER), A(0), 'a submodule knows the module around it')
        value(C, r, S, final(S, T('name_')), A(1), 'a submodule knows its name')
    for f in fns(C, 'Module', 0):
        S = C.run(f, CL)
        value(C, r, S, final(S, OUTER), n0, 'a root module has none around it')
        value(C, r, S, final(S, T('name_')), ('str', ''), 'a root module has no name')

def rets_to(C, r, S, g, want, what):
    ok, some, unsure = True, False, False
    for gr, v, st in S.rets:
        for gl, x in leaves(v, conj(gr, g)):
            if gl == FALSE: continue
            some = True
            if x[0] == 'at': x = ('at', '', pick(x[2], gl))
            if x not in want: ok = False; unsure = unsure or murky(x)
    C.ob(r, S, ok and some, what, unsure=unsure or not some)

def pick(x, g):
    while x[0] in ('ite', 'pite'):
        if implies(g, x[1]): x = x[2]
        elif implies(g, neg(x[1])): x = x[3]
        else: break
    return x

# ------------------------------------------------------------------ names
def names(C):
    r = 'module-names'
    for f in fns(C, 'resolve_scope', 1):
        S = run(C, f)
        goes(C, r, S, TRUE, [RS], 'a name is looked for from this module')
    for f in fns(C, 'resolve_scope', 3):
        s, o, first = A(0), A(1), neg(eq(A(2), n0))
        again = conj(neg(first), eq(s, o))
        live = neg(again)
        cut = FIND(s); head = SUB(s, n0, cut); rest = SUB(s, add(cut, num(2)), NPOS)
        inner = conj(QUALIFIED(s), has(T('inner_'), head))
        anyof = disj(*[has(T(t), s) for t in TABLES])
        def go(g, want, what):
            S = run(C, f, assume=conj(g, live))
            goes(C, r, S, conj(g, live), want, what)
        go(conj(ROOTED(s), ISROOT), [RSV(THIS, SUB(s, num(2), NPOS), o, x) for x in (YES, NO, A(2))], 'a name that starts at the root is looked for in it')
        go(conj(ROOTED(s), neg(ISROOT)), [RSV(D(OUTER), x, y, YES) for x in (s, o) for y in (s, o)], 'a name that starts at the root is passed on outwards')
        go(inner, [RSV(D(('mapat', T('inner_'), head)), rest, o, NO)], 'a qualified name is looked for in the submodule it names, and only there')
        go(conj(QUALIFIED(s), neg(inner), first, neg(ISROOT)), [RSV(D(OUTER), x, y, YES) for x in (s, o) for y in (s, o)], 'a qualified name whose first part is not declared here is looked for further out')
        go(conj(QUALIFIED(s), neg(inner), neg(first)), None, 'a qualified name is looked for nowhere else once its first part is found')
        go(conj(QUALIFIED(s), neg(inner), first, ISROOT), None, 'a qualified name unknown in the root leads nowhere')
        go(conj(PLAINNAME(s), anyof), (THIS, s), 'a name declared here is found here')
        go(conj(PLAINNAME(s), neg(anyof), first, neg(ISROOT)), [RSV(D(OUTER), x, y, YES) for x in (s, o) for y in (s, o)], 'a name not declared here is looked for further out')
        go(conj(PLAINNAME(s), neg(anyof), neg(first)), None, 'the last part of a qualified name is looked for nowhere else')
        go(conj(PLAINNAME(s), neg(anyof), first, ISROOT), None, 'a name not declared in the root leads nowhere')

def goes(C, r, S, g, want, what):
    """where a name leads under g: a list of equivalent lookups, (module, name), or None for nowhere"""
    ok, some, unsure = True, False, False
    for gr, d in ret_fields(S, 'first', 'second'):
        for gl, x in leaves(d['first'], conj(gr, g)):
            if gl == FALSE: continue
            some = True
            for g2, y in leaves(d['second'], gl):
                if x[0] == 'fld' and x[1][0] == 'mkpair': x = x[1][1]
                if y[0] == 'fld' and y[1][0] == 'mkpair': y = y[1][2]
                if g2 == FALSE: continue
                if want is None: good = x == n0
                elif isinstance(want, tuple): good = x in (addr(want[0]), want[0]) and y == want[1]
                else: good = any((x, y) == (F(w, 'first'), F(w, 'second')) for w in want)
                if not good: ok = False; unsure = unsure or murky(x) or murky(y) or murky_node(g2)
    C.ob(r, S, ok and some, what, unsure=unsure or not some)

# ------------------------------------------------------------------ listing
def listing(C):
    r = 'module-listing'
    for f in fns(C, 'fill_all_types', 2):
        S = run(C, f)
        ent = Mb.index_entries(S, A(0))
        whole = neg(eq(A(1), n0))
        e0 = eq(size(SCOPE), n0)
        known = []
        for t in TYPED:
            el = elem(T(t), ('iv', 0))
            mine = [x for x in ent if x[0] is not None and any(y == el for y in walk(x[0]))]
            C.ob(r, S, len(mine) >= 1 and implies(S.normal, disj(*[x[2].g for x in mine])) and all(x[2].n == (size(T(t)),) for x in mine), 'every entry of %s is listed' % t, unsure=any(murky_ev(x[2].e) for x in mine) or any(x[0] is None or murky_ev(x[2].e) for x in ent))
            for k, v, x in mine:
                known.append(x)
                nm = F(el, 'first')
                good = True
                for gg, want in ((neg(whole), ([nm],)), (conj(whole, e0), ([nm], [SCOPE, nm])), (conj(whole, neg(e0)), ([SCOPE, SEP, nm],))):
                    for gl, y in leaves(k, conj(gg, x.g)):
                        if gl != FALSE and text_all(y, gl) not in want: good = False
                C.ob(r, S, good, 'an entry of %s is listed under its name, with the scope when asked for' % t, x.e.line, unsure=murky(k))
                C.ob(r, S, v in (F(el, 'second', 'type_'), ('Ptr', D(F(el, 'second', 'type_')))), 'an entry of %s is listed with its type' % t, x.e.line, unsure=murky(v))
        inner(C, r, S, 'fill_all_types', [(A(0), A(1))], size(T('inner_')), D(F(elem(T('inner_'), ('iv', 0)), 'second')), 'the types of every submodule are listed')
    for f in fns(C, 'get_all_types', 1):
        S = run(C, f)
        cs = [x for x in C.effs(S, 'call', {'fill_all_types'}) if x.a[0] == THIS]
        C.ob(r, S, any(implies(S.normal, x.g) and x.a[2] == A(0) for x in cs), 'listing lists this module', unsure=not cs and not C.silent(S))
        C.ob(r, S, all(v is not None and v[0] in ('out', 'loc', 'tmp') for g, v, st in S.rets), 'the list is given back', unsure=any(v is None or murky(v) for g, v, st in S.rets))
    for f in fns(C, 'for_each_submodule', 3):
        S = run(C, f)
        m = D(A(1)); n = size(fld(m, 'inner_')); ev = fld(m, 'inner_')
        each = D(F(elem(ev, ('iv', 0)), 'second'))
        vs = [x for x in C.effs(S, 'visit')]
        ok = [x for x in vs if x.a == (A(0), each) and x.n == (n,)]
        C.ob(r, S, len(ok) == 1 and len(vs) == 1 and implies(S.normal, ok[0].g), 'every submodule is visited once', unsure=any(murky_ev(x.e) for x in vs))
        rec = neg(eq(A(2), n0))
        cs = [x for x in C.effs(S, 'call', {'for_each_submodule'})]
        good = [x for x in cs if x.n == (n,) and any(x.a[1:3] == (A(0), q) for q in (F(elem(ev, ('iv', 0)), 'second'), addr(each)))]
        C.ob(r, S, bool(good) and implies(conj(S.normal, rec), disj(*[x.g for x in good])) and len(good) == len(cs), 'so are the submodules of every submodule', unsure=any(murky_ev(x.e) for x in cs))
        for x in good:
            C.ob(r, S, implies(x.g, rec), 'deeper submodules are visited only when asked for', x.e.line, unsure=murky_node(x.g))
            C.ob(r, S, implies(x.g, node(x.a[3]) if x.a[3][0] == 'b' else neg(eq(x.a[3], n0))), 'visiting goes all the way down', x.e.line, unsure=murky(x.a[3]))
    for f in fns(C, 'for_each_submodule', 2):
        S = run(C, f)
        cs = C.effs(S, 'call', {'for_each_submodule'})
        C.ob(r, S, len(cs) == 1 and implies(S.normal, cs[0].g) and cs[0].a[1:] == (A(0), addr(THIS), A(1)) and not cs[0].n, 'visiting submodules starts at this module', unsure=murky_ev(cs[0].e) if cs else not C.silent(S))
    for f in fns(C, 'for_each', 1):
        S = run(C, f)
        vs = C.effs(S, 'visit'); cs = C.effs(S, 'call', {'for_each_submodule'})
        C.ob(r, S, len(vs) == 1 and vs[0].a == (A(0), THIS) and implies(S.normal, vs[0].g) and not vs[0].n, 'visiting a module visits it', unsure=any(murky_ev(x.e) for x in vs))
        C.ob(r, S, len(cs) == 1 and cs[0].a[1:] in [(A(0), addr(THIS), YES)] and implies(S.normal, cs[0].g) and not cs[0].n, 'and all its submodules', unsure=murky_ev(cs[0].e) if cs else not C.silent(S, *[x.name for x in vs]))

def text_all(x, g): return text(x, g)

def inner(C, r, S, name, argss, n, each, what):
    cs = C.effs(S, 'call', {name})
    ok = [x for x in cs if x.a[0] == each and x.n == (n,) and x.a[1:] in argss]
    C.ob(r, S, len(ok) == 1 and len(cs) == 1 and implies(S.normal, ok[0].g), what, unsure=any(murky_ev(x.e) for x in cs))

def omitted(C):
    """what leaving out an argument means"""
    M = 'idl::Module::'
    rep = 'a name declared already is replaced only when asked for'
    C.left_out('declare', [(M + n, 2, 1, False, rep) for n in ('structure', 'union_switch', 'enum_8', 'enum_16', 'enum_32', 'create_alias', 'add_alias', 'constant')]
               + [(M + 'create_alias', 3, 2, False, rep), (M + 'create_constant', 4, 2, False, rep), (M + 'create_constant', 4, 3, False, 'a constant is no enumerator unless said so')])
    C.left_out('listing', [(M + 'get_all_types', 1, 0, False, 'types are listed by their own name unless asked otherwise'), (M + 'fill_all_types', 2, 1, False, 'types are listed by their own name unless asked otherwise')]
               + [(M + 'for_each_submodule', n, n - 1, True, 'visiting submodules goes down to all of them unless asked otherwise') for n in (2, 3)])
    C.left_out('lookup', [(M + 'has_symbol', 2, 1, True, 'a name is looked for in the modules around as well unless asked otherwise')])

def P22(C):
    lookup(C)
    symbols(C)
    declaring(C)
    submodules(C)
    names(C)
    listing(C)
    omitted(C)
