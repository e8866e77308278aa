"""Shared machinery of the rules: program loading, summaries, obligations, matching of effect events against expectations."""
import json, os, sys
from terms import *
import sym
from sym import Prog, Sym, NSP, fld, ptr_roots, place_root

THIS = ('this',)
A = lambda i: ('p', i)
I0, I1 = ('iv', 0), ('iv', 1)
n0, n1 = num(0), num(1)

def F(x, *names):
    for n in names: x = fld(x, n)
    return x
def D(p, T=''): return deref(T, p)
def KINDOF(x): return fld(x, 'kind_')
def plain_name(q): return __import__('re').sub(r'\(lambda at ([^():]*/)?([^/():]+):\d+:\d+\)', r'lambda in \2', q.replace(NSP, ''))
def RES(x): return ('res', x)
def vc(m, o, *a): return ('vc', m, o) + tuple(a)
def size(c): return ('size', c)

class Kinds:
    def __init__(self, P):
        e = next(e for k, e in P.enums.items() if k.endswith('::TypeKind'))
        self.by = {c['n']: c['v'] for c in e['c']}
        self.name = {c['v']: c['n'] for c in e['c']}
    def __getitem__(self, n): return self.by[n]

def is_kind(x, k): return eq(KINDOF(x), num(k))

def under(g, m): return subst_node(g, m) if m else g

def kind_terms(g):
    out = []
    for a in B.support(g):
        for t in walk(a):
            if t[0] == 'fld' and t[2] == 'kind_' and t not in out: out.append(t)
    return out

def feasible(g, kt, vals):
    return [v for v in vals if subst_node(g, {kt: num(v)}) != FALSE]

def conj(*a):
    r = TRUE
    for x in a: r = B.conj(r, x)
    return r
def disj(*a):
    r = FALSE
    for x in a: r = B.disj(r, x)
    return r
neg = B.neg
implies = B.implies

OPAQUE = ('phi', 'unk', 'callv')
def murky(t):
    """does the term contain something the summariser could not resolve?"""
    return mentions(t, lambda x: x[0] in OPAQUE)
def murky_node(g): return any(murky(a) for a in B.support(g))
def murky_ev(e): return any(murky(x) for x in e.a) or any(l.kind != 'C' or murky(l.count) for l in e.loops)

# ------------------------------------------------------------ event normalisation
class Eff:
    """event in rule form: loops reduced to a tuple of counts (outermost first)"""
    __slots__ = ('kind', 'name', 'a', 'g', 'n', 'e', 'rev')
    def __init__(self, kind, name, a, g, n, e, rev=None):
        self.kind, self.name, self.a, self.g, self.n, self.e, self.rev = kind, name, a, g, n, e, rev
    def __repr__(self):
        return '%s %s(%s) [%s]%s' % (self.kind, self.name, ', '.join(show(x) for x in self.a), showg(self.g), ' x '.join(['']+[show(c) for c in self.n]))

def eff(e):
    return Eff(e.kind, e.name, e.a, e.g, tuple(l.count for l in e.loops), e, tuple(bool(l.rev) for l in e.loops))

def complete_loops(S, x):
    """a loop left early only by throwing is completed whenever the function returns"""
    for l in x.e.loops:
        if l.exit == FALSE: continue
        for a in B.support(S.normal):
            if a[0] != 'all' or a[1] != l.count or a[3] != l.depth: continue
            g = B.restrict(x.g, a[2])
            if conj(g, a[2]) == x.g and implies(conj(S.normal, B.exists(g, lambda t: mentions(t, lambda z: z == ('iv', l.depth)))), B.atom(a)): x.g = g
    if len(x.e.loops) == len(x.n) == 1:
        l = x.e.loops[0]
        if l.exit != FALSE and not implies(conj(S.normal, x.g), all_(l.count, neg(l.exit), l.depth)) and not implies(conj(S.normal, x.g), neg(l.exit)) and not implies(conj(S.normal, x.g), l.exit): x.n = (('cut', l.count),)

def fuse(effs):
    """join a peeled first / last / split iteration with its loop (single level loops)"""
    effs = list(effs)
    done = True
    while done:
        done = False
        for x in effs:
            if len(x.n) != 1: continue
            d = x.e.loops[0].depth
            iv = ('iv', d)
            for y in effs:
                if y is x or y.kind != x.kind or y.name != x.name or len(y.a) != len(x.a): continue
                if len(y.n) == 0:
                    # y is iteration -1 (x shifted) or iteration count
                    for at, sh in ((num(-1), 1), (x.n[0], 0)):
                        if tuple(subst(t, {iv: at}) for t in x.a) == y.a and (any(mentions(t, lambda z: z == iv) for t in x.a)):
                            m = {iv: sub(iv, n1)} if sh else {}
                            z = Eff(x.kind, x.name, tuple(subst(t, m) for t in x.a), disj(under(x.g, m), y.g), (add(x.n[0], n1),), x.e, x.rev)
                            effs = [w for w in effs if w is not x and w is not y] + [z]; done = True; break
                elif len(y.n) == 1 and y.e.loops[0].depth == d and any(mentions(t, lambda z: z == iv) for t in x.a):
                    m = {iv: add(iv, x.n[0])}
                    if tuple(subst(t, m) for t in x.a) == y.a:
                        z = Eff(x.kind, x.name, x.a, disj(x.g, y.g), (add(x.n[0], y.n[0]),), x.e, x.rev)
                        effs = [w for w in effs if w is not x and w is not y] + [z]; done = True
                if done: break
            if done: break
    return effs

# ------------------------------------------------------------ context and report
class Missing(Exception): pass

def literal(e):
    """the constant an expression spells, if it does"""
    while isinstance(e, dict) and e.get('k') in ('cast', 'paren', 'init') and isinstance(e.get('e'), dict): e = e['e']
    if not isinstance(e, dict): return None
    if e.get('k') == 'bool': return bool(e['v'])
    if e.get('k') == 'int': return int(e['v'])
    if e.get('k') == 'null': return 0
    return None

EFFECTS = ('store', 'call', 'visit', 'vcall', 'mut', 'memcpy', 'memset', 'stream', 'setlabel', 'new', 'pnew', 'delete', 'mkshared', 'dtor')
ASKED = ('memory_size', 'get_instance_size', 'is_compatible', 'compare_instance', 'hash_instance')

class Ctx:
    def __init__(self, J):
        self.J = J
        self.P = Prog(J)
        self.K = Kinds(self.P)
        self.cache = {}
        self.fails, self.notes, self.oblig, self.seen = [], [], [], set()
        self.prop = None

    def fns(self, qn, pred=None):
        q = qn if '(' in qn else NSP + qn
        return [f for f in self.P.qn.get(q, []) if f.get('body') is not None and (pred is None or pred(f))]

    def fn(self, qn, pred=None, optional=False):
        r = self.fns(qn, pred)
        if not r:
            if optional: return None
            raise Missing('no function %s in the analysed program' % qn)
        return r[0]

    def sm(self, f, cls=None, **kw):
        k = (f['id'], cls, repr(sorted(kw.items())))
        if k not in self.cache:
            self.cache[k] = Sym(self.P, **kw).run(f, cls or f.get('cls'))
        self.seen.add((f['qn'], f['line']))
        return self.cache[k]

    def left_out(self, rule, table):
        """what an argument that is left out stands for: (function, number of parameters, which, value, what)"""
        for q, n, i, want, what in table:
            for f in [f for k, fs in self.P.qn.items() if k == NSP + q or k.startswith(NSP + q + '<') for f in fs if len(f['params']) == n and 'def' in f['params'][i]]:
                v = literal(f['params'][i]['def'])
                self.ob(rule, f, v is not None and v == want, what, unsure=v is None, key='%s|%s|default %d' % (rule, q, i))

    def silent(self, S, *known):
        """nothing happens here that could stand for an effect looked for in vain"""
        return not S.unknown and not any(e.kind in EFFECTS and e.name not in ASKED + known and conj(e.g, S.normal) != FALSE for e in S.events)

    def quiet(self):
        """a context whose obligations are not recorded"""
        if not hasattr(self, '_q'):
            import copy
            self._q = copy.copy(self)
        self._q.fails, self._q.notes, self._q.oblig = [], [], []
        return self._q

    def borrow(self, rules, pred=lambda w: True, what=lambda w: True):
        """the facts another property's rules establish about the constructs this one is about"""
        q = self.quiet()
        q.prop = self.prop
        for r in rules:
            try: r(q)
            except Missing: pass
        self.oblig += [o for o in q.oblig if pred(o[1]) and what(o[3])]
        self.notes += [n for n in q.notes if pred(n.rsplit(' at ', 1)[-1]) and what(n.rsplit(' at ', 1)[0].split(': ', 1)[-1])]
        self.fails += [dict(f, prop=self.prop) for f in q.fails if pred(f['where']) and what(f['what'])]

    # one obligation = one checked fact about one construct
    def ob(self, rule, S, ok, what, line=None, key=None, unsure=False):
        f = S.f if hasattr(S, 'f') else S
        where = '%s (%s:%d)' % (plain_name(f['qn']), os.path.basename(f['file']), line or f['line'])
        if ok: self.oblig.append((rule, where, 'holds', what))
        elif unsure or (hasattr(S, 'unknown') and S.unknown):
            self.oblig.append((rule, where, 'undecided', what))
            self.notes.append('%s: %s at %s' % (rule, what, where))
        else:
            self.oblig.append((rule, where, 'violated', what))
            self.fails.append(dict(prop=self.prop, rule=rule, where=where, what=what, key=key or '%s|%s|%s' % (rule, plain_name(f['qn']), what)))
        return ok

    def static(self, prop):
        """facts about the public types, decided by the compiler (tu/static.cpp)"""
        import subprocess, re
        src = os.path.join(self.root, 'tu', 'static.cpp')
        r = subprocess.run(['clang++', '-fsyntax-only', '-ferror-limit=0', '-w'] + self.flags + [src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        errs = [l for l in r.stdout.splitlines() if ' error: ' in l]
        bad = {m.group(1) for l in errs for m in [re.search(r'static assertion failed[^:]*: (.*)$', l)] if m}
        other = {int(m.group(1)) for l in errs if 'static assertion failed' not in l for m in [re.search(r'static\.cpp:(\d+):', l)] if m}
        for i, l in enumerate(open(src), 1):
            m = re.match(r'FACT\("(%s: [^"]*)"' % prop, l)
            if not m: continue
            w = 'the public interface (static.cpp:%d)' % i
            if i in other: self.oblig.append(('interface', w, 'undecided', m.group(1))); self.notes.append('%s: does not compile' % m.group(1))
            elif m.group(1) in bad:
                self.oblig.append(('interface', w, 'violated', m.group(1)))
                self.fails.append(dict(prop=self.prop, rule='interface', where=w, what=m.group(1), key='interface|' + m.group(1)))
            else: self.oblig.append(('interface', w, 'holds', m.group(1)))
        if [l for l in errs if 'static.cpp:' not in l] and not bad and not other: raise Missing('the interface facts do not compile')

    # ---------------------------------------------------------- matching
    def effs(self, S, kind=None, names=None):
        r = [eff(e) for e in S.events if (kind is None or e.kind == kind) and (names is None or e.name in names)]
        for x in r: complete_loops(S, x)
        return fuse(r) if kind is not None else r

    def must(self, rule, S, kind, name, args, what, n=(), g=TRUE, exact=True, gmax=None, pool=None):
        """on every path satisfying g the effect happens (for every index below the counts n); and (exact) on no other path"""
        pool = self.effs(S, kind, {name}) if pool is None else [x for x in pool if x.kind == kind and x.name == name]
        hit, got = [], FALSE
        for x in pool:
            if x.a == tuple(args) and x.n == tuple(n): hit.append(x); got = disj(got, x.g)
        if not hit and len(n) == 1:     # unrolled over a constant count
            pass
        near = [x for x in pool if x not in hit]
        unsure = any(murky_ev(x.e) or murky_node(x.g) for x in pool)
        ok = implies(conj(g, S.normal), got) if S.normal != FALSE else False
        line = (hit or near)[0].e.line if (hit or near) else None
        if ok and exact:
            top = g if gmax is None else gmax
            if not implies(conj(got, S.normal), top):
                self.ob(rule, S, False, what + ' (also done when it must not be)', line, unsure=unsure); return hit
        self.ob(rule, S, ok, what, line, unsure=unsure)
        return hit

    def only(self, rule, S, kind, names, hits, what, pred=None):
        """no effect of this kind other than the ones already accounted for"""
        for x in self.effs(S, kind, names):
            if any(x.a == h.a and x.n == h.n and x.name == h.name for h in hits): continue
            if pred and not pred(x): continue
            self.ob(rule, S, False, what + ': ' + show(x.a[0]) if x.a else what, x.e.line, key=None, unsure=murky_ev(x.e))
            return
        self.ob(rule, S, True, what)

    def method(self, cls, name, nparams=None, pred=None):
        """the implementation of a virtual method a class uses (own or inherited), with the class it is analysed for"""
        for c in self.P.mro(NSP + cls if not cls.startswith(NSP) else cls):
            for f in self.P.qn.get(c + '::' + name, []):
                if f.get('body') is None: continue
                if nparams is not None and len(f['params']) != nparams: continue
                if pred and not pred(f): continue
                return f
        raise Missing('no implementation of %s::%s' % (cls, name))

    def run(self, f, cls=None, preset=None, assume=TRUE, opaque=()):
        k = (f['id'], cls, repr(sorted((preset or {}).items(), key=repr)), assume, tuple(opaque))
        if k not in self.cache:
            self.cache[k] = Sym(self.P, opaque=opaque).run(f, cls or f.get('cls'), preset=preset, assume=assume)
        self.seen.add((f['qn'], f['line']))
        return self.cache[k]

# ------------------------------------------------------------ values at the end of a function
def final(S, p, st=None):
    """value of a place when the function has returned"""
    e = S.eng
    old, e.st = e.st, st or S.final
    try: return _fin(e, p)
    finally: e.st = old

def _fin(e, p):
    if p[0] == 'pite': return ite(p[1], _fin(e, p[2]), _fin(e, p[3]))
    if p in e.st.store: return e.st.store[p]
    if p[0] == 'fld':
        w = _fin(e, p[1])
        if w[0] == 'ite': return ite(w[1], _fin(e, fld(w[2], p[2])), _fin(e, fld(w[3], p[2])))
        if w[0] == 'obj':
            for n, v in w[2:]:
                if n == p[2]: return v
        if w != p[1] and w[0] not in ('int', 'b', 'lin', 'str', 'after'): return _fin(e, fld(w, p[2]))
        return e.read(p)
    return e.read(p)

def ret_fields(S, *names):
    """fields of the object returned, over all normal paths: [(guard, {name: value})]"""
    out = []
    for g, v, st in S.rets:
        if v is None: continue
        def go(g, v):
            if v[0] in ('ite', 'pite'): go(conj(g, v[1]), v[2]); go(conj(g, neg(v[1])), v[3]); return
            if g == FALSE: return
            out.append((g, {n: tidy(g, final(S, fld(v, n), st)) for n in names}))
        go(g, v)
    return out

def NOT_SELF(other=('p', 0)):
    """an assignment between two different objects"""
    return conj(neg(eq(THIS, other)), neg(eq(('addr', THIS), ('addr', other))))

def leaves(v, g=TRUE):
    """[(guard, value)] of a conditional value"""
    if v is not None and v[0] in ('ite', 'pite'):
        out = []
        for c, x in ((v[1], v[2]), (neg(v[1]), v[3])):
            gg = conj(g, c)
            if gg != FALSE: out += leaves(x, gg)
        return out
    return [(g, v)]

def same(v, want, g=TRUE):
    """v equals want wherever g holds (want: one term, or several acceptable ones)"""
    wants = list(want) if isinstance(want, (list, set)) else [want]
    for gv, x in leaves(v, g):
        ok = False
        for w in wants:
            ok = all(gw == FALSE or x == y or (x is not None and y is not None and implies(gw, eq(x, y))) for gw, y in leaves(w, gv))
            if ok: break
        if not ok and x is not None:      # a sum of conditional amounts: by cases
            c = next((y for z in [x] + wants if z is not None and z[0] == 'lin' for y in walk(z) if y[0] == 'ite'), None)
            if c is None: c = next((y for z in wants if z is not None for _, q in leaves(z) if q is not None and q[0] == 'lin' for y in walk(q) if y[0] == 'ite'), None)
            ok = c is not None and all(h == FALSE or same(subst(x, {c: y}), [z if z is None else subst(z, {c: y}) for z in wants], h) for h, y in ((conj(gv, c[1]), c[2]), (conj(gv, neg(c[1])), c[3])))
        if not ok: return False
    return True

def value(C, rule, S, v, want, what, line=None, g=None):
    g = S.normal if g is None else g
    if v is None: return C.ob(rule, S, False, what, line)
    return C.ob(rule, S, g != FALSE and same(v, want, g), what, line, unsure=murky(v))

def returns(C, rule, S, want, what, g=TRUE):
    """the function returns `want` on all its normal paths (that satisfy g)"""
    ok, line, unsure, some = True, None, False, FALSE
    for gr, v, st in S.rets:
        gg = conj(gr, g)
        if gg == FALSE: continue
        some = disj(some, gg)
        v2 = final(S, v, st) if v is not None and v[0] in ('fld', 'loc', 'tmp') else v
        if v2 is None or not (same(v2, want, gg) or same(v, want, gg)): ok = False; unsure = unsure or v2 is None or murky(v2) or murky_node(gg)
    return C.ob(rule, S, ok and some != FALSE, what, line, unsure=unsure)

def returned_ref(C, rule, S, T, ptr, what, g=TRUE):
    """the reference returned (on normal paths satisfying g) denotes a value of type T at ptr"""
    ok, unsure, some = True, False, FALSE
    for gr, d in ret_fields(S, 'type_', 'instance_'):
        gg = conj(gr, g)
        if gg == FALSE: continue
        some = disj(some, gg)
        a = same(ref_type(d['type_']), ref_type(('shr', T)), gg); b = same(d['instance_'], ptr, gg)
        if not (a and b): ok = False; unsure = unsure or murky(d['type_']) or murky(d['instance_']) or murky_node(gg)
    return C.ob(rule, S, ok and some != FALSE, what, unsure=unsure)

def ref_type(t):
    """the type a held pointer denotes (with aliases looked through once)"""
    if t[0] in ('hold', 'shr', 'Ptr'):
        x = t[1]
        return ref_type(x) if x[0] in ('hold', 'shr', 'Ptr') else x
    if t[0] == 'ite': return ite(t[1], ref_type(t[2]), ref_type(t[3]))
    return D(t)

def truth(S, g=TRUE):
    """the condition under which a function returning bool returns true"""
    r = FALSE
    for gr, v, st in S.rets:
        if v is None: continue
        for gl, x in leaves(v, conj(gr, g)): r = disj(r, conj(gl, node(x) if x[0] == 'b' or x[0] == 'ite' else neg(eq(x, n0))))
    return r

def every(count, g, depth=0):
    """g holds for all indices below count"""
    return all_(count, g, depth)

def decides(C, rule, S, wants, what, g=TRUE, line=None):
    """the function returns true exactly when (one of) the wanted condition(s) holds"""
    t = truth(S, g)
    dom = conj(S.normal, g)
    wants = wants if isinstance(wants, (list, tuple)) else [wants]
    ok = any(implies(conj(t, dom), w) and implies(conj(w, dom), t) for w in wants)
    return C.ob(rule, S, ok and dom != FALSE, what, line, unsure=murky_node(t))

def swap01(t, memo=None):
    return subst(t, {A(0): A(1), A(1): A(0)})

def mirrored(g):
    """the same condition with the two compared values exchanged"""
    return subst_node(g, {A(0): A(1), A(1): A(0)})

def contributions(t, head):
    return [x for x in walk(t) if x[0] == 'vc' and x[1] == head]

def without(t, head):
    """t with every call of `head` replaced by a constant"""
    m = {x: ('u', 'part') for x in contributions(t, head)}
    return subst(t, m) if m else t
