"""Term and guard domain of the summariser.

Terms are hashable tuples in normal form; guards are nodes of a hash-consed BDD over atoms (terms).
Arithmetic (and pointer arithmetic) is kept as a normalised polynomial, so `p + i*b` and `i*b + p` are the same term.
"""
import sys
sys.setrecursionlimit(20000)

# ---------------------------------------------------------------- BDD
class Bdd:
    def __init__(self):
        self.var = {}            # atom -> level
        self.atoms = []          # level -> atom
        self.nodes = {}          # (lvl, lo, hi) -> id
        self.info = {0: None, 1: None}
        self.cache = {}

    def mk(self, lvl, lo, hi):
        if lo == hi:
            return lo
        k = (lvl, lo, hi)
        n = self.nodes.get(k)
        if n is None:
            n = len(self.info)
            self.nodes[k] = n
            self.info[n] = k
        return n

    def atom(self, a):
        l = self.var.get(a)
        if l is None:
            l = len(self.atoms)
            self.var[a] = l
            self.atoms.append(a)
        return self.mk(l, 0, 1)

    def ite(self, f, g, h):
        if f == 1: return g
        if f == 0: return h
        if g == h: return g
        if g == 1 and h == 0: return f
        k = (f, g, h)
        r = self.cache.get(k)
        if r is not None:
            return r
        top = min(self.info[x][0] for x in (f, g, h) if x > 1)
        def co(x, v):
            if x <= 1: return x
            l, lo, hi = self.info[x]
            return (hi if v else lo) if l == top else x
        r = self.mk(top, self.ite(co(f, 0), co(g, 0), co(h, 0)), self.ite(co(f, 1), co(g, 1), co(h, 1)))
        self.cache[k] = r
        return r

    def neg(self, f): return self.ite(f, 0, 1)
    def conj(self, a, b): return self.ite(a, b, 0)
    def disj(self, a, b): return self.ite(a, 1, b)
    def implies(self, a, b): return self.conj(a, self.neg(b)) == 0

    def support(self, f):
        seen, out, st = set(), set(), [f]
        while st:
            x = st.pop()
            if x <= 1 or x in seen: continue
            seen.add(x)
            l, lo, hi = self.info[x]
            out.add(l); st += [lo, hi]
        return [self.atoms[l] for l in sorted(out)]

    def compose(self, f, fn, memo=None):
        """rebuild f replacing every atom a by node fn(a)"""
        if memo is None: memo = {}
        if f <= 1: return f
        if f in memo: return memo[f]
        l, lo, hi = self.info[f]
        r = self.ite(fn(self.atoms[l]), self.compose(hi, fn, memo), self.compose(lo, fn, memo))
        memo[f] = r
        return r

    def exists(self, f, pred):
        """existentially quantify the atoms satisfying pred"""
        memo = {}
        def go(x):
            if x <= 1: return x
            if x in memo: return memo[x]
            l, lo, hi = self.info[x]
            a, b = go(lo), go(hi)
            r = self.disj(a, b) if pred(self.atoms[l]) else self.ite(self.mk(l, 0, 1), b, a)
            memo[x] = r
            return r
        return go(f)

    def restrict(self, f, c):
        """generalised cofactor (constrain): agrees with f where c holds"""
        if c == 0: return 0
        if c == 1 or f <= 1: return f
        if f == c: return 1
        k = ('r', f, c)
        r = self.cache.get(k)
        if r is not None: return r
        lf, lc = self.info[f][0], self.info[c][0]
        if lc < lf:
            r = self.restrict(f, self.disj(self.info[c][1], self.info[c][2]))
        else:
            fl, fh = self.info[f][1], self.info[f][2]
            cl, chh = (self.info[c][1], self.info[c][2]) if lc == lf else (c, c)
            if cl == 0: r = self.restrict(fh, chh)
            elif chh == 0: r = self.restrict(fl, cl)
            else: r = self.mk(lf, self.restrict(fl, cl), self.restrict(fh, chh))
        self.cache[k] = r
        return r

    def cubes(self, f, limit=8):
        out = []
        def go(x, acc):
            if len(out) >= limit: return
            if x == 1: out.append(list(acc)); return
            if x == 0: return
            l, lo, hi = self.info[x]
            go(hi, acc + [(self.atoms[l], True)]); go(lo, acc + [(self.atoms[l], False)])
        go(f, [])
        return out

B = Bdd()
TRUE, FALSE = 1, 0

# ---------------------------------------------------------------- integers / polynomials
def num(n): return ('int', int(n))
NULL = num(0)

def key(t): return repr(t)

def poly(t):
    """-> dict monomial(tuple of factors) -> coef"""
    if t[0] == 'int': return {(): t[1]} if t[1] else {}
    if t[0] == 'lin': return dict(t[1])
    return {(t,): 1}

def unpoly(p):
    p = {m: c for m, c in p.items() if c}
    if not p: return num(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == (): return num(c)
        if c == 1 and len(m) == 1: return m[0]
    return ('lin', tuple(sorted(p.items(), key=lambda x: (len(x[0]), key(x[0])))))

def is_num(t): return t[0] == 'int'

def add(a, b, k=1):
    if a[0] == 'ite' and (b[0] == 'int' or a[2][0] in ('it', 'rit', 'addr')): return ite(a[1], add(a[2], b, k), add(a[3], b, k))
    if a[0] == 'it': return ('it', a[1], add(a[2], b, k)) if b[0] != 'it' else (add(a[2], b[2], -1) if k == -1 and a[1] == b[1] else ('sub', a, b))
    if a[0] == 'rit': return ('rit', a[1], add(a[2], b, k)) if b[0] != 'rit' else (add(a[2], b[2], -1) if k == -1 and a[1] == b[1] else ('sub', a, b))
    p = poly(a)
    for m, c in poly(b).items():
        p[m] = p.get(m, 0) + k * c
    return unpoly(p)

def sub(a, b): return add(a, b, -1)

def mul(a, b):
    pa, pb, r = poly(a), poly(b), {}
    if len(pa) * len(pb) > 64: return ('mul', a, b)
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = tuple(sorted(m1 + m2, key=key))
            r[m] = r.get(m, 0) + c1 * c2
    return unpoly(r)

def scale(p, k): return {m: c * k for m, c in p.items()}

def lead(p):
    ms = sorted((m for m in p if m != ()), key=lambda m: (len(m), key(m)))
    return ms[0] if ms else None

# ---------------------------------------------------------------- booleans as terms
def bt(node): return ('b', node)
def is_bool(t): return t[0] == 'b'

def tidy(g, t):
    """simplify the min/max and conditional sub-terms of t that g decides"""
    if g <= 1 or not isinstance(t, tuple): return t
    m = {}
    for x in walk(t):
        if x[0] in ('min', 'max') and x not in m:
            a, b = x[1], x[2]
            l, g2 = lt(a, b), le(a, b)
            if B.implies(g, g2) or B.implies(g, l): m[x] = a if x[0] == 'min' else b
            elif B.implies(g, le(b, a)) or B.implies(g, lt(b, a)): m[x] = b if x[0] == 'min' else a
        elif x[0] in ('ite', 'pite') and x not in m:
            c = B.restrict(x[1], g)
            if c <= 1: m[x] = x[2] if c else x[3]
    if not m: return t
    r = subst(t, m)
    return r if r == t else tidy(g, r)

def node(t):
    """term used as a condition -> BDD node"""
    if t[0] == 'b': return t[1]
    if t[0] == 'int': return TRUE if t[1] else FALSE
    if t[0] == 'ite': return B.ite(t[1], node(t[2]), node(t[3]))
    if t[0] in ('addr', 'str', 'lambda', 'new'): return TRUE
    return B.neg(eq(t, num(0)))

def eq(a, b):
    if a == b: return TRUE
    if a[0] == 'b' and b[0] == 'b': return B.ite(a[1], b[1], B.neg(b[1]))
    if a[0] == 'b' and b[0] == 'int': return (a[1] if b[1] == 1 else B.neg(a[1]) if b[1] == 0 else FALSE)
    if b[0] == 'b' and a[0] == 'int': return eq(b, a)
    for x, y in ((a, b), (b, a)):
        if x[0] == 'at' and x[1] == 'bool':
            if y[0] == 'b': return B.ite(y[1], B.neg(eq(x, num(0))), eq(x, num(0)))
            if y == num(1): return B.neg(eq(x, num(0)))
    if a[0] == 'b': a = ('bv', a[1])
    if b[0] == 'b': b = ('bv', b[1])
    if a[0] == 'ite': return B.ite(a[1], eq(a[2], b), eq(a[3], b))
    if b[0] == 'ite': return B.ite(b[1], eq(a, b[2]), eq(a, b[3]))
    # iterators
    for x, y in ((a, b), (b, a)):
        if x[0] == 'fiv' and y == x[1]: return all_(x[1], B.neg(x[2]), x[3])
        if x[0] == 'mfind' and y[0] in ('it', 'end') and y[1] == x[1] and (y[0] == 'end' or y[2] != num(0)):
            return B.neg(has(x[1], x[2]))
    if a[0] == b[0] and a[0] in ('it', 'rit') and a[1] == b[1]:
        return eq(a[2], b[2])
    if a[0] == 'str' and b[0] == 'str': return FALSE
    if a[0] in ('strcmp', 'memcmp') and b == num(0) or b[0] in ('strcmp', 'memcmp') and a == num(0): return FALSE
    # absent/size facts
    for x, y in ((a, b), (b, a)):
        if y == num(0) and x[0] == 'count': return B.neg(has(x[1], x[2]))
        if y == num(1) and x[0] == 'count': return has(x[1], x[2])
        if y == num(0) and x[0] in ('addr', 'new', 'str', 'shr', 'hold', 'Ptr'): return FALSE
        if y[0] == 'int' and y[1] < 0 and x[0] in ('size', 'count'): return FALSE
        if x[0] == 'addr' and x[1][0] == 'loc' and (y[0] in ('p', 'this') or y[0] == 'addr' and (y[1][0] in ('p', 'this') or y[1][0] == 'loc' and y[1] != x[1])): return FALSE
        if y == num(0) and x[0] == 'band' and len(x[1]) == 2 and x[1][0][0] == 'int' and x[1][0][1] > 0 and (x[1][0][1] & (x[1][0][1] - 1)) == 0: pass
    p = poly(sub(a, b)) if a[0] not in ('it', 'rit') and b[0] not in ('it', 'rit') else {(a,): 1, (b,): -1}
    l = lead(p)
    if l is None: return TRUE if not p.get(()) else FALSE
    if p[l] < 0: p = scale(p, -1)
    if surely_pos(p) or surely_pos(scale(p, -1)): return FALSE
    if len(p) > 1 and not p.get(()) and all(c > 0 and len(m) == 1 and m[0][0] in ('ite', 'count', 'size') and nonneg(m[0]) for m, c in p.items()):
        r = TRUE
        for m in p: r = B.conj(r, eq(m[0], num(0)))
        return r
    if FACTS and any(f[0] in m for m in p for f in FACTS):
        if surely_pos(bound(p, False)): return FALSE
        u = bound(p, True)
        if u is not None and surely_pos(scale(u, -1)): return FALSE
    for x, y in ((a, b), (b, a)):
        if x[0] in ('min', 'max') and y in x[1:]:
            o = x[1] if x[2] == y else x[2]
            return le(y, o) if x[0] == 'min' else le(o, y)
    # c*x + d == 0 with single monomial: normalise gcd
    if len(l) == 1 and l[0][0] == 'fld' and l[0][2] == 'kind_' and l[0][1][0] in ('res', 'rget') and len(p) == 2 and p.get((), 0) == -ALIAS_KIND * p[l]: return FALSE
    if len([m for m in p if m]) == 1 and abs(p[l]) > 1:
        d = p.get((), 0)
        if d % p[l]: return FALSE
        p = {l: 1, (): d // p[l]}
    return B.atom(('eq', unpoly(p)))

FACTS = []      # (iv, count) of the loops being summarised: 0 <= iv < count

def bound(p, upper):
    """a polynomial bounding p over the iterations of the enclosing loops, or None"""
    for iv, count in FACTS:
        q = {}
        for m, c in p.items():
            if iv in m:
                if len(m) != 1: return None
                if (c > 0) == upper:
                    for m2, c2 in poly(sub(count, num(1))).items(): q[m2] = q.get(m2, 0) + c * c2
            else: q[m] = q.get(m, 0) + c
        p = q
    return {m: c for m, c in p.items() if c}

def surely_pos(p):
    """the polynomial is > 0 whatever its (non-negative) monomials are"""
    return p is not None and p.get((), 0) > 0 and all(m == () or (c > 0 and all(nonneg(x) for x in m)) for m, c in p.items())

def pos(p):
    """integer polynomial > 0"""
    l = lead(p)
    if l is None: return TRUE if p.get((), 0) > 0 else FALSE
    if surely_pos(p): return TRUE
    n = scale(p, -1); n[()] = n.get((), 0) + 1
    if surely_pos({m: c for m, c in n.items() if c}): return FALSE
    if FACTS:
        if surely_pos(bound(p, False)): return TRUE
        u = bound(p, True)
        if u is not None:
            n = scale(u, -1); n[()] = n.get((), 0) + 1
            if surely_pos({m: c for m, c in n.items() if c}): return FALSE
    if p[l] < 0:
        q = scale(p, -1); q[()] = q.get((), 0) + 1   # !(q > 0) == -q+1 > 0 ; p>0 <=> !( -p + 1 > 0)
        return B.neg(pos(q))
    # single non-negative monomial against a constant
    ms = [m for m in p if m]
    if len(ms) == 1 and len(l) == 1 and p[l] == 1:
        x, d = l[0], p.get((), 0)
        if nonneg(x):
            if d > 0: return TRUE
            if d == 0: return B.neg(eq(x, num(0)))
        if x[0] == 'count' and d <= -1: return FALSE
    return B.atom(('pos', unpoly(p)))

NONNEG_FIELDS = set()   # fields of an unsigned type (names unambiguous in the program)
def nonneg(x):
    if x[0] == 'ite': return nonneg(x[2]) and nonneg(x[3])
    if x[0] == 'int': return x[1] >= 0
    return x[0] in ('size', 'count', 'u', 'iv') or x[0] == 'fld' and x[2] in NONNEG_FIELDS or x[0] in ('min', 'max') and nonneg(x[1]) and nonneg(x[2]) or (x[0] == 'vc' and x[1] in ('memory_size', 'get_instance_size'))

def lt(a, b):
    if a[0] == 'ite': return B.ite(a[1], lt(a[2], b), lt(a[3], b))
    if b[0] == 'ite': return B.ite(b[1], lt(a, b[2]), lt(a, b[3]))
    if a[0] == 'b': a = ('bv', a[1])
    if b[0] == 'b': b = ('bv', b[1])
    if a[0] == b[0] and a[0] in ('it', 'rit') and a[1] == b[1]: return lt(a[2], b[2])
    if a[0] in ('it', 'rit') or b[0] in ('it', 'rit'): return B.atom(('lt', a, b))
    if a[0] == 'fiv' and b == a[1]: return B.neg(all_(a[1], B.neg(a[2]), a[3]))
    if b[0] == 'fiv' and a == b[1]: return FALSE
    return pos(poly(sub(b, a)))

def le(a, b): return B.neg(lt(b, a))

TABLE = [None]   # looks up a constant table of the program by name
def has(c, k):
    if c[0] == 'glob' and k[0] == 'int' and TABLE[0]:
        t = TABLE[0](c[1])
        if t is not None: return TRUE if k[1] in t else FALSE
    return B.atom(('has', c, k))

ALIAS_KIND = 32771
_alias = {}
def alias_cond(n):
    """n is `kind of x is ALIAS` (or its negation): (x, polarity)"""
    r = _alias.get(n)
    if r is None:
        r = (None, True)
        if n > 1:
            l, lo, hi = B.info[n]
            a = B.atoms[l]
            if lo <= 1 and hi <= 1 and a[0] == 'eq':
                p = dict(poly(a[1]))
                c = p.pop((), 0)
                if len(p) == 1:
                    (m, k), = p.items()
                    if len(m) == 1 and k == 1 and c == -ALIAS_KIND and m[0][0] == 'fld' and m[0][2] == 'kind_': r = (m[0][1], hi == 1)
        _alias[n] = r
    return r

def resolve(n, a, b):
    """(x is an alias ? f(rget x) : f(x)) -> f(res x), else None"""
    x, pol = alias_cond(n)
    if x is None: return None
    r, u = (a, b) if pol else (b, a)
    if not mentions(r, lambda y: y == ('rget', x)): return None
    if subst(u, {x: ('rget', x)}) == r: return subst(u, {x: ('res', x)})
    return None

def pite(n, a, b):
    if n == TRUE or a == b: return a
    if n == FALSE: return b
    r = resolve(n, a, b)
    if r is not None: return r
    if a[0] == 'pite':
        c = B.restrict(a[1], n)
        if c <= 1: return pite(n, a[2] if c else a[3], b)
    if b[0] == 'pite':
        c = B.restrict(b[1], B.neg(n))
        if c <= 1: return pite(n, a, b[2] if c else b[3])
    return ('pite', n, a, b)

def elem(c, i):
    if c[0] == 'pite': return pite(c[1], elem(c[2], tidy(c[1], i)), elem(c[3], tidy(B.neg(c[1]), i)))
    return ('elem', c, i)

def ite(n, a, b):
    if n == TRUE: return a
    if n == FALSE: return b
    if a == b: return a
    r = resolve(n, a, b)
    if r is not None: return r
    if a[0] == 'b' and b[0] == 'b': return bt(B.ite(n, a[1], b[1]))
    if a[0] == 'b' and b[0] == 'int' and b[1] in (0, 1): return bt(B.ite(n, a[1], b[1]))
    if b[0] == 'b' and a[0] == 'int' and a[1] in (0, 1): return bt(B.ite(n, a[1], b[1]))
    # nested simplification under the condition
    if a[0] == 'ite':
        c = B.restrict(a[1], n)
        if c <= 1: a = a[2] if c == 1 else a[3]
    if b[0] == 'ite':
        c = B.restrict(b[1], B.neg(n))
        if c <= 1: b = b[2] if c == 1 else b[3]
    if a == b: return a
    # merge ite(n, a, ite(m, a, b)) -> ite(n|m, a, b)
    if b[0] == 'ite' and b[2] == a: return ite(B.disj(n, b[1]), a, b[3])
    if b[0] == 'ite' and b[3] == a: return ite(B.disj(n, B.neg(b[1])), a, b[2])
    if a[0] == 'ite' and a[2] == b: return ite(B.conj(n, B.neg(a[1])), a[3], b)
    if a[0] == 'ite' and a[3] == b: return ite(B.conj(n, a[1]), a[2], b)
    # min / max
    if lt(a, b) == n or le(a, b) == n: return mm('min', a, b)
    if lt(b, a) == n or le(b, a) == n: return mm('max', a, b)
    # value under an equality that makes it the same
    m = B.neg(n)
    sup = B.support(n)
    if len(sup) == 1 and sup[0][0] == 'exc':
        x, y = (a, b) if n == B.atom(sup[0]) else (b, a)      # x: when the exception happens
        if x[0] == 'vc' and x[1] == 'clone' and y == ('shr', x[2]): return ('hold', x[2])
    if key_n(m) < key_n(n): n, a, b = m, b, a
    return ('ite', n, a, b)

def key_n(n): return n

def mm(op, a, b):
    if a[0] == 'ite': return ite(a[1], mm(op, a[2], b), mm(op, a[3], b))
    if b[0] == 'ite': return ite(b[1], mm(op, a, b[2]), mm(op, a, b[3]))
    if a[0] == 'int' and b[0] == 'int': return num((min if op == 'min' else max)(a[1], b[1]))
    if a == b: return a
    if a[0] == b[0] == 'it' and a[1] == b[1]: return ('it', a[1], mm(op, a[2], b[2]))
    for x, y in ((a, b), (b, a)):
        if x[0] == 'fiv' and y == x[1]: return x if op == 'min' else y
        if x[0] == 'int' and y[0] != 'int' and nonneg(y):
            if x[1] <= 0: return x if op == 'min' else y
            if x[1] >= 2 ** 64 - 1: return y if op == 'min' else x
        if y[0] == op and x in y[1:]: return y
    c = le(a, b)
    if c in (TRUE, FALSE): return a if (c == TRUE) == (op == 'min') else b
    return (op,) + tuple(sorted((a, b), key=key))

def band(a, b):
    if a[0] == 'int' and b[0] == 'int': return num(a[1] & b[1])
    if a[0] == 'ite': return ite(a[1], band(a[2], b), band(a[3], b))
    if b[0] == 'ite': return ite(b[1], band(a, b[2]), band(a, b[3]))
    if a == b: return a
    return ('band', tuple(sorted((a, b), key=lambda t: (t[0] != 'int', key(t)))))

def bor(a, b):
    """bitwise or; NONE (~0) is absorbing and 0 neutral"""
    fl, c = [], 0
    for x in (a, b):
        xs = list(x[1]) if x[0] == 'bor' else [x]
        for y in xs:
            if y[0] == 'int': c |= y[1]
            elif y not in fl: fl.append(y)
    if c == -1 or c == 0xffffffff: return num(-1)
    if a[0] == 'ite' and len(fl) <= 4: return ite(a[1], bor(a[2], b), bor(a[3], b))
    if b[0] == 'ite' and len(fl) <= 4: return ite(b[1], bor(a, b[2]), bor(a, b[3]))
    if not fl: return num(c)
    if c: fl.append(num(c))
    if len(fl) == 1: return fl[0]
    return ('bor', tuple(sorted(fl, key=key)))

# ---------------------------------------------------------------- substitution
def exactdiv(a, b):
    """a / b when every term of a has the single term b as a factor"""
    p, q = poly(a), poly(b)
    if len(q) != 1: return None
    (m, c), = q.items()
    if c != 1 or not m: return None
    out = {}
    for mm_, cc in p.items():
        l = list(mm_)
        for x in m:
            if x not in l: return None
            l.remove(x)
        out[tuple(l)] = cc
    return unpoly(out)

def subst(t, m, memo=None):
    """replace sub-terms (dict) and renormalise"""
    if memo is None: memo = {}
    if t in m: return m[t]
    if not isinstance(t, tuple): return t
    r = memo.get(t)
    if r is not None: return r
    k = t[0] if t else None
    if k in ('int', 'str'): r = t
    elif k == 'lin':
        r = num(0)
        for mono, c in t[1]:
            x = num(c)
            for f in mono: x = mul(x, subst(f, m, memo))
            r = add(r, x)
    elif k == 'b': r = bt(subst_node(t[1], m))
    elif k == 'pite': r = pite(subst_node(t[1], m), subst(t[2], m, memo), subst(t[3], m, memo))
    elif k == 'elem': r = elem(subst(t[1], m, memo), subst(t[2], m, memo))
    elif k == 'fiv': r = ('fiv', subst(t[1], m, memo), subst_node(t[2], m), t[3])
    elif k == 'bv': r = ('bv', subst_node(t[1], m))
    elif k == 'ite': r = ite(subst_node(t[1], m), subst(t[2], m, memo), subst(t[3], m, memo))
    elif k == 'op' and len(t) == 4 and t[1] == '/':
        x, y = subst(t[2], m, memo), subst(t[3], m, memo)
        r = exactdiv(x, y) or ('op', '/', x, y)
    elif k == 'op' and len(t) == 4 and t[1] in ('>>', '<<'):
        x, y = subst(t[2], m, memo), subst(t[3], m, memo)
        if t[1] == '<<' and y[0] == 'int' and 0 <= y[1] < 32: r = mul(x, num(1 << y[1]))
        else: r = num(x[1] >> y[1]) if x[0] == 'int' and y[0] == 'int' and 0 <= y[1] < 64 else ('op', t[1], x, y)
    elif k == 'band': r = band(subst(t[1][0], m, memo), subst(t[1][1], m, memo))
    elif k == 'bor':
        r = num(0)
        for x in t[1]: r = bor(r, subst(x, m, memo))
    elif k in ('min', 'max'): r = mm(k, subst(t[1], m, memo), subst(t[2], m, memo))
    elif k == 'at': r = deref(t[1], subst(t[2], m, memo))
    elif k == 'fold': r = ('fold', subst(t[1], m, memo), subst(t[2], m, memo), subst(t[3], m, memo))
    elif k == 'lambda': r = t
    else: r = tuple(subst(x, m, memo) if isinstance(x, tuple) else x for x in t)
    memo[t] = r
    return r

def subst_node(n, m):
    def fn(a):
        k = a[0]
        if k == 'eq':
            return eq(subst(a[1], m), num(0))
        if k == 'pos': return pos(poly(subst(a[1], m)))
        if k == 'all': return all_(subst(a[1], m), subst_node(a[2], m), a[3])
        if k == 'first':
            n, any_, this = subst(a[1], m), subst_node(a[2], m), subst_node(a[3], m)
            return FALSE if FALSE in (any_, this) or n == num(0) else B.atom(('first', n, any_, this, a[4]))
        if k == 'lt': return lt(subst(a[1], m), subst(a[2], m))
        b = subst(a, m)
        return B.atom(b)
    return B.compose(n, fn)

def all_(count, body, depth):
    """for every n in [0,count): body(iv at depth)"""
    if body == TRUE: return TRUE
    if count == num(0): return TRUE
    if not mentions_node(body, lambda x: x == ('iv', depth)):
        if is_num(count) and count[1] > 0: return body
    return B.atom(('all', count, body, depth))

def walk(t):
    """all sub-terms, entering guards"""
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple): continue
        if x and isinstance(x[0], str): yield x
        if x and x[0] in ('b', 'bv'):
            st += B.support(x[1])
        elif x and x[0] in ('ite', 'pite'):
            st += B.support(x[1]); st += [x[2], x[3]]
        elif x and x[0] == 'first':
            st.append(x[1]); st += B.support(x[2]); st += B.support(x[3])
        elif x and x[0] == 'fiv':
            st.append(x[1]); st += B.support(x[2])
        elif x and x[0] == 'all':
            st.append(x[1]); st += B.support(x[2])
        else:
            st += [y for y in x if isinstance(y, tuple)]

def mentions(t, pred): return any(pred(x) for x in walk(t))
def mentions_node(n, pred): return any(mentions(a, pred) for a in B.support(n))

# ---------------------------------------------------------------- places
SCALARS = {'bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long',
           'long long', 'unsigned long long', 'float', 'double', 'long double', 'wchar_t', 'char16_t', 'char32_t'}

def strip_cv(t):
    for p in ('const ', 'volatile '):
        while t.startswith(p): t = t[len(p):]
    t = t.strip()
    while t.endswith('const'): t = t[:-5].strip()
    return t

def mem_type(t):
    t = strip_cv(t.rstrip('&').strip())
    if t in SCALARS: return t
    if t.endswith('Instance') or t.startswith('std::basic_string'): return t
    return ''

def deref(T, p):
    if p[0] == 'addr': return p[1]
    if p[0] == 'shr': return p[1]
    if p[0] == 'it' and T == '': return elem(p[1], p[2])
    if p[0] == 'ite': return pite(p[1], deref(T, p[2]), deref(T, p[3])) if p[2][0] == 'addr' or p[3][0] == 'addr' else ('at', T, p)
    return ('at', T, p)

def addr(p):
    if p[0] == 'at' : return p[2]
    if p[0] == 'pite': return ite(p[1], addr(p[2]), addr(p[3]))
    return ('addr', p)

# ---------------------------------------------------------------- printing
def show(t, names=None):
    if not isinstance(t, tuple): return str(t)
    k = t[0] if t else ''
    S = lambda x: show(x, names)
    if k == 'int': return str(t[1])
    if k == 'str': return '"' + str(t[1]) + '"'
    if k == 'p': return (names or {}).get(t[1], 'arg%d' % t[1])
    if k == 'this': return '*this'
    if k == 'fld': return (S(t[1]) + '.' if t[1] != ('this',) else '') + t[2]
    if k == 'elem': return S(t[1]) + '[' + S(t[2]) + ']'
    if k == 'at': return '*' + ('(' + t[1].replace('eprosima::xtypes::', '') + '*)' if t[1] else '') + S(t[2])
    if k == 'addr': return '&' + S(t[1])
    if k == 'iv': return 'ijklm'[t[1] % 5]
    if k == 'lin':
        out = []
        for m, c in t[1]:
            x = '*'.join(S(f) for f in m)
            out.append(('%d' % c if not m else x if c == 1 else '%d*%s' % (c, x)))
        return '(' + ' + '.join(out) + ')'
    if k == 'b': return showg(t[1], names)
    if k == 'ite': return '(' + showg(t[1], names) + ' ? ' + S(t[2]) + ' : ' + S(t[3]) + ')'
    if k == 'vc': return S(t[2]) + '.' + t[1] + '(' + ', '.join(S(x) for x in t[3:]) + ')'
    if k == 'band': return '(' + ' & '.join(S(x) for x in t[1]) + ')'
    if k == 'bor': return '(' + ' | '.join(S(x) for x in t[1]) + ')'
    if k == 'eq': return S(t[1]) + ' == 0'
    if k == 'pos': return S(t[1]) + ' > 0'
    if k == 'pite': return '(' + showg(t[1], names) + ' ? ' + S(t[2]) + ' : ' + S(t[3]) + ')'
    if k == 'bv': return showg(t[1], names)
    if k == 'first': return 'first(%s: %s in %s)' % (S(t[1]), showg(t[3], names), showg(t[2], names))
    if k == 'fiv': return 'first-index(%s: %s)' % (S(t[1]), showg(t[2], names))
    if k == 'all': return 'forall(%s: %s)' % (S(t[1]), showg(t[2], names))
    return k.replace('eprosima::xtypes::', '') + '(' + ', '.join(S(x) for x in t[1:]) + ')' if isinstance(k, str) else '(' + ', '.join(S(x) for x in t) + ')'

def showg(n, names=None):
    if n == TRUE: return 'true'
    if n == FALSE: return 'false'
    cs = B.cubes(n, 4)
    return ' || '.join('&&'.join(('' if v else '!') + '{' + show(a, names) + '}' for a, v in c) for c in cs)
