"""Inductive invariants over the loops of a search: which candidate facts hold on entry and are kept by every iteration.
Facts are linear comparisons of indices and of the keys found at indices; entailment is linear integer arithmetic (Fourier-Motzkin)."""
from core import *
from math import gcd
from functools import reduce

def H(i): return ('H', i)

class Lin:
    """linear entailment over the atoms of guards"""
    def __init__(self, positive=()):
        self.positive = set(positive)       # factors known to be >= 1
        self.memo = {}

    def norm(self, t):
        """polynomial with common positive factors divided out"""
        p = poly(t)
        while True:
            ms = list(p)
            common = [f for f in self.positive if ms and all(f in m for m in ms)]
            if not common: return p
            f, q = common[0], {}
            for m, c in p.items():
                l = list(m); l.remove(f); q[tuple(l)] = q.get(tuple(l), 0) + c
            p = {m: c for m, c in q.items() if c}

    def cons(self, p):
        """p >= 0 as (const, {var: coef})"""
        return (p.get((), 0), {m: c for m, c in p.items() if m != ()})

    def entails(self, hyps, goal):
        """whatever satisfies all hyps satisfies goal (False when that cannot be shown)"""
        k = (tuple(hyps), goal)
        if k in self.memo: return self.memo[k]
        r = self.memo[k] = self.show(hyps, goal)
        return r

    def show(self, hyps, goal):
        f = self.lift(neg(goal))
        if f is None: return False
        units, clauses = [], []
        for h in hyps:
            h = self.lift(h)
            if h is None or h == TRUE: continue
            cs = B.cubes(h, 40)
            if len(cs) == 0: return True
            if len(cs) == 1: units += cs[0]
            elif len(cs) < 40: clauses.append(cs)
        gs = B.cubes(f, 60)
        if len(gs) >= 60: return False
        return all(self.closed(units + c, clauses, 4) for c in gs)

    def closed(self, lits, clauses, depth):
        while True:
            if self.empty(lits): return True
            left, grew = [], False
            have = dict(lits)
            for cs in clauses:
                if any(all(have.get(a) == v for a, v in c) for c in cs): continue
                live = [c for c in cs if not any(have.get(a, v) != v for a, v in c)]
                live = [c for c in live if not self.empty(lits + c)]
                if not live: return True
                if len(live) == 1: lits = lits + live[0]; have = dict(lits); grew = True
                else: left.append(live)
            clauses = left
            if not grew: break
        if depth == 0: return False
        for i, cs in enumerate(clauses):
            if all(self.closed(lits + c, clauses[:i] + clauses[i + 1:], depth - 1) for c in cs): return True
            if depth < 3: break
        return False

    def lift(self, f):
        """conditional terms inside comparisons become conditions"""
        for _ in range(40):
            t = None
            for a in B.support(f):
                for x in walk(a):
                    if x[0] in ('ite', 'pite') and not any(y[0] in ('ite', 'pite') for z in (x[2], x[3]) for y in walk(z)): t = x; break
                if t: break
            if t is None: return f
            f = disj(conj(t[1], subst_node(f, {t: t[2]})), conj(neg(t[1]), subst_node(f, {t: t[3]})))
            if f == FALSE: return f
        return None

    def empty(self, cube):
        k = frozenset(cube)
        if k in self.memo: return self.memo[k]
        r = self.memo[k] = self.empty_(cube)
        return r

    def empty_(self, cube):
        base, ne = [], []
        d = {}
        for a, v in cube:
            if d.setdefault(a, v) != v: return True
        for a, v in cube:
            if a[0] == 'eq':
                p = self.norm(a[1])
                if v: base += [self.cons(p), self.cons({m: -c for m, c in p.items()})]
                else: ne.append(p)
            elif a[0] == 'pos':
                p = self.norm(a[1])
                q = dict(p) if v else {m: -c for m, c in p.items()}
                if v: q[()] = q.get((), 0) - 1
                base.append(self.cons(q))
        terms = set()
        for c, l in base: terms |= set(l)
        for p in ne: terms |= {m for m in p if m}
        todo, seen = list(terms), set()
        while todo:
            m = todo.pop()
            if m in seen: continue
            seen.add(m)
            for x in m:
                if x[0] == 'op' and (x[1] == '/' and x[3] == num(2) or x[1] == '>>' and x[3] == num(1)):
                    q, p = {(x,): 2}, self.norm(x[2])
                    lo = dict(p)                            # x - 2q >= 0
                    for k, c in q.items(): lo[k] = lo.get(k, 0) - c
                    hi = {k: -c for k, c in lo.items()}; hi[()] = hi.get((), 0) + 1      # 2q + 1 - x >= 0
                    base += [self.cons(lo), self.cons(hi)]
                    todo += [k for k in p if k]
            if all(nonneg(f) or f[0] == 'H' or f in self.positive for f in m): base.append((0, {m: 1}))
        for f in self.positive:
            if any(f in m for m in seen):
                base += [self.scaled(c, l, f) for c, l in base if not any(f in m for m in l)]
                base.append((-1, {(f,): 1}))
        hs = sorted({x for m in seen for x in m if x[0] == 'H'}, key=key)
        for i, x in enumerate(hs):
            for y in hs[:i]:
                d = poly(sub(x[1], y[1]))
                lo = dict(d); lo[()] = lo.get((), 0) - 1
                hi = {m: -c for m, c in d.items()}; hi[()] = hi.get((), 0) - 1
                if self.contradiction(base + [self.cons(lo)]) and self.contradiction(base + [self.cons(hi)]):
                    base += [(0, {(x,): 1, (y,): -1}), (0, {(x,): -1, (y,): 1})]
        return self.split(base, ne)

    def scaled(self, c, l, f):
        p = mul(unpoly({(): c, **l} if c else dict(l)), f)
        return self.cons(poly(p))

    def split(self, base, ne):
        if self.contradiction(base): return True
        for i, p in enumerate(ne):
            lo = dict(p); lo[()] = lo.get((), 0) - 1
            hi = {m: -c for m, c in p.items()}; hi[()] = hi.get((), 0) - 1
            a, b = self.contradiction(base + [self.cons(lo)]), self.contradiction(base + [self.cons(hi)])
            if a and b: return True
            if a: return self.split(base + [self.cons(hi)], ne[:i] + ne[i + 1:])
            if b: return self.split(base + [self.cons(lo)], ne[:i] + ne[i + 1:])
        return False

    def contradiction(self, cs):
        # equations first
        cs = [(c, dict(l)) for c, l in cs]
        while True:
            have = {(c, frozenset(l.items())) for c, l in cs}
            e = None
            for c, l in cs:
                if l and (-c, frozenset((m, -k) for m, k in l.items())) in have:
                    m = next((m for m, k in l.items() if abs(k) == 1), None)
                    if m is not None: e = (c, l, m); break
            if e is None: break
            c0, l0, m0 = e
            s0 = l0[m0]
            out = []
            for c, l in cs:
                k = l.get(m0, 0)
                if k:
                    f = -k * s0
                    c = c + f * c0
                    l = {m: l.get(m, 0) + f * l0.get(m, 0) for m in set(l) | set(l0)}
                    l = {m: x for m, x in l.items() if x}
                if not l:
                    if c < 0: return True
                    continue
                out.append((c, l))
            cs = list({(c, frozenset(l.items())): (c, l) for c, l in out}.values())
        cur = set()
        def put(s, c, l):
            l = {m: k for m, k in l.items() if k}
            if not l: return c < 0
            g = reduce(gcd, [abs(k) for k in l.values()])
            if g > 1: c, l = c // g, {m: k // g for m, k in l.items()}
            s.add((c, frozenset(l.items())))
            return False
        for c, l in cs:
            if put(cur, c, l): return True
        while True:
            vs = {m for _, l in cur for m, _ in l}
            if not vs: return False
            best = None
            for v in vs:
                p = sum(1 for _, l in cur if dict(l).get(v, 0) > 0); n = sum(1 for _, l in cur if dict(l).get(v, 0) < 0)
                if best is None or p * n < best[0]: best = (p * n, v)
            v = best[1]
            pos_, neg_, rest = [], [], set()
            for c, l in cur:
                k = dict(l).get(v, 0)
                if k > 0: pos_.append((c, dict(l)))
                elif k < 0: neg_.append((c, dict(l)))
                else: rest.add((c, l))
            for c1, l1 in pos_:
                for c2, l2 in neg_:
                    a, b = -l2[v], l1[v]
                    l = {m: a * l1.get(m, 0) + b * l2.get(m, 0) for m in set(l1) | set(l2)}
                    if put(rest, a * c1 + b * c2, l): return True
            # keep the tightest of parallel constraints
            tight = {}
            for c, l in rest:
                if l not in tight or c < tight[l]: tight[l] = c
            cur = {(c, l) for l, c in tight.items()}
            if len(cur) > 400: return False

def at_index(t, base, block):
    """i when t is base + block * i"""
    p, q = poly(sub(t, base)), {}
    for m, c in p.items():
        l = list(m)
        if block not in l: return None
        l.remove(block); q[tuple(l)] = q.get(tuple(l), 0) + c
    return unpoly(q)

class Search:
    """the state of a search loop in terms of indices: base + block * index for every pointer, H(index) for the key found at an index"""
    def __init__(self, L, base, block, is_hash, lin):
        self.L, self.base, self.block, self.lin = L, base, block, lin
        d = L['d']
        self.ok = True
        self.m = {}
        self.ints, self.hashes = [], []
        for w in L['W']:
            ph, x0 = ('phi', d, w), L['x0'][w]
            if w in L['ind']: continue
            if at_index(x0, base, block) is not None:
                self.m[ph] = add(base, mul(block, ('phi', d, ('index', w))))
                self.ints.append((('phi', d, ('index', w)), w, True))
            elif x0[0] == 'vc' and x0[1] == 'hash': self.hashes.append((ph, w))
            elif x0[0] in ('int', 'lin', 'fld', 'op', 'size', 'cvt'): self.ints.append((ph, w, False))
        self.is_hash = is_hash

    def t(self, x):
        """a term over indices"""
        x = subst(x, self.m)
        return self.keys(x)

    def keys(self, x):
        m = {}
        for y in walk(x):
            if y[0] == 'vc' and y[1] == 'hash' and self.is_hash(y[2]):
                i = at_index(y[3], self.base, self.block)
                if i is not None: m[y] = H(i)
                elif y[3][0] in ('ite', 'pite'):
                    m[y] = self.hleaf(y[3])
        m = {k: v for k, v in m.items() if v is not None}
        return subst(x, m) if m else x

    def hleaf(self, t):
        if t[0] in ('ite', 'pite'):
            a, b = self.hleaf(t[2]), self.hleaf(t[3])
            return ite(t[1], a, b) if a and b else None
        i = at_index(t, self.base, self.block)
        return H(i) if i is not None else None

    def n(self, g):
        g = subst_node(g, self.m)
        m = {}
        for a in B.support(g):
            for y in walk(a):
                if y[0] == 'vc' and y[1] == 'hash' and self.is_hash(y[2]):
                    v = self.hleaf(y[3])
                    if v is not None: m[y] = v
        return subst_node(g, m) if m else g

    def index(self, t):
        """index of a pointer term (leaf by leaf), or None"""
        t = self.t(t)
        if t[0] in ('ite', 'pite'):
            a, b = self.index(t[2]), self.index(t[3])
            return ite(t[1], a, b) if a is not None and b is not None else None
        return at_index(t, self.base, self.block)

    def infer(self, given, h, size):
        """the facts about the loop variables that hold at the head of every iteration"""
        L = self.L
        first, nxt = {}, {}
        for v, w, ptr in self.ints:
            a, b = (self.index(L['x0'][w]), self.index(L['x1'][w])) if ptr else (self.t(L['x0'][w]), self.t(L['x1'][w]))
            if a is None or b is None: self.ok = False; return []
            first[v], nxt[v] = a, b
        for v, w in self.hashes: first[v], nxt[v] = self.t(L['x0'][w]), self.t(L['x1'][w])
        given = given + [self.n(L['entry'])]       # about the state before the loop: it stays
        entry = list(given)
        step = self.n(conj(L['go'], L['g1']))
        weaker = {}
        def inductive(Q):
            Q = [q for q in Q if self.lin.entails(entry, subst_node(q, first))]
            while True:
                hyp = [q for q in Q if weaker.get(q) not in Q] + given + [step]
                bad = [q for q in Q if not self.lin.entails(hyp, subst_node(q, nxt))]
                if not bad: return Q
                Q = [q for q in Q if q not in bad]
        V = [v for v, _, _ in self.ints]
        # variables that are always equal
        pairs = {eq(a, b): (a, b) for i, a in enumerate(V) for b in V[:i]}
        pairs.update({eq(w, H(a)): (w, H(a)) for w, _ in self.hashes for a in V})
        E = inductive(list(pairs))
        rep = {}
        for q in sorted(E, key=lambda q: pairs[q][1][0] == 'H'):
            a, b = (subst(x, rep) for x in pairs[q])
            if a == b: continue
            rep = {k: subst(v, {a: b}) for k, v in rep.items()}; rep[a] = b
        self.rep = rep
        V = [v for v in V if v not in rep]
        first = {v: subst(first[v], rep) for v in V + [w for w, _ in self.hashes if w not in rep]}
        nxt = {v: subst(nxt[v], rep) for v in first}
        step = subst_node(step, rep)
        entry = [subst_node(x, rep) for x in entry]
        C = []
        def both(strict, loose):
            C.extend((strict, loose)); weaker[loose] = strict
        for a in V:
            both(le(num(0), a), le(num(-1), a))
            both(lt(a, size), le(a, size))
            for b in V:
                if b != a: both(lt(a, b), le(a, b)); C.append(le(a, add(b, n1)))
            both(*[disj(eq(a, num(0)), q) for q in (lt(H(a), h), le(H(a), h))])
            both(*[disj(eq(a, size), q) for q in (lt(h, H(a)), le(h, H(a)))])
            both(*[disj(le(a, num(0)), q) for q in (lt(H(sub(a, num(1))), h), le(H(sub(a, num(1))), h))])
            both(*[disj(le(size, add(a, num(1))), q) for q in (lt(h, H(add(a, num(1)))), le(h, H(add(a, num(1)))))])
        if len(V) <= 4:
            for a in V:
                for i, b in enumerate(V):
                    for c in V[:i]:
                        if a not in (b, c): C += [le(add(a, a), add(b, c)), le(add(b, c), add(add(a, a), n1))]
        self.V = V
        Q = inductive(list(dict.fromkeys(C)))
        self.Q = [q for q in Q if weaker.get(q) not in Q]
        return self.Q

    def flat(self, g):
        """a guard at the head of an iteration, over the independent variables"""
        return subst_node(self.n(g), self.rep)

    def iflat(self, t):
        i = self.index(t)
        return subst(i, self.rep) if i is not None else None
