"""Guarded effect summaries.

A summary of a function is what it does, independent of how it is written: the list of its effects (virtual calls, writes, reads
of instance memory, allocations, visits, throws), each with the condition under which it happens, the loops that enclose it in a
normal form (forward, counted from 0) and its operands as normalised terms over the parameters; plus the guarded returned values
and the values left in the fields.  Calls to repository functions are inlined, calls on a type whose class is unknown are effects.
"""
import re
from terms import *

NSP = 'eprosima::xtypes::'
OPAQUE = {                       # repository functions whose call is kept as a term (each is analysed on its own as a root)
    NSP + 'AliasType::rget': 'rget',
    NSP + 'Instanceable::hash_combine': None, NSP + 'Instanceable::hash64': 'hash64',
    NSP + 'primitive_type': None,
}

def simp(q):
    n = None
    while n != q:
        n = q
        q = re.sub(r'<[^<>]*>', '', q)
    return q

class Give(Exception): pass

def narrow32(e):
    """the value of e comes from an unsigned one of 32 bits or less"""
    while e:
        t = (e.get('t') or '').replace('const ', '').rstrip('& ')
        if t in ('unsigned int', 'unsigned short', 'unsigned char', 'bool'): return True
        e = e.get('e') if e.get('k') in ('cast', 'paren', 'mat', 'tmp') else None
    return False

class Prog:
    def __init__(self, J):
        self.J = J
        self.fn = {f['id']: f for f in J['functions']}
        self.rec = {r['qn']: r for r in J['records']}
        self.glob = {g['qn']: g for g in J['globals']}
        self.qn = {}
        for f in J['functions']: self.qn.setdefault(f['qn'], []).append(f)
        self.sub = {}
        for r in J['records']:
            for b in r['bases']: self.sub.setdefault(b, []).append(r['qn'])
        self.enums = {e['qn'] if 'qn' in e else e['n']: e for e in J['enums']}
        self._fields = {}
        self._over = {}
        ty = {}
        for r in J['records']:
            for f in r['fields']: ty.setdefault(f['n'], set()).add(strip_cv(f['t']))
        NONNEG_FIELDS.clear()
        NONNEG_FIELDS.update(n for n, t in ty.items() if t <= {'unsigned int', 'unsigned long', 'unsigned short', 'unsigned char'} and n != 'kind_')

    def is_rec(self, t):
        t = strip_cv(t.rstrip('&').strip())
        return t in self.rec and not t.endswith('DynamicType::Ptr')

    def fields(self, cls):
        """[(name, type)] including bases"""
        if cls in self._fields: return self._fields[cls]
        r, out = self.rec.get(cls), []
        if r:
            for b in r['bases']: out += self.fields(b)
            out += [(f['n'], f['t']) for f in r['fields']]
        self._fields[cls] = out
        return out

    def derived(self, cls, base):
        if cls == base: return True
        r = self.rec.get(cls)
        return bool(r) and any(self.derived(b, base) for b in r['bases'])

    def mro(self, cls):
        out, st = [], [cls]
        while st:
            c = st.pop(0)
            if c in out or c not in self.rec: continue
            out.append(c); st += self.rec[c]['bases']
        return out

    def overrider(self, cls, name, pt):
        k = (cls, name, tuple(pt))
        if k not in self._over:
            self._over[k] = None
            for c in self.mro(cls):
                for f in self.qn.get(c + '::' + name, []):
                    if [p['t'] for p in f['params']] == list(pt) and not f['static'] and f.get('body') is not None:
                        self._over[k] = f; break
                if self._over[k]: break
        return self._over[k]

    def leaves(self, base):
        """concrete classes derived from base (or itself)"""
        out = [base]
        for s in self.sub.get(base, []): out += self.leaves(s)
        return out

class Loop:
    __slots__ = ('depth', 'count', 'rev', 'kind', 'exit', 'line', 'entry')
    def __repr__(self): return 'loop(%s%s%s)' % (show(self.count), ' rev' if self.rev else '', ' exit ' + showg(self.exit) if self.exit != FALSE else '')

class Ev:
    __slots__ = ('kind', 'name', 'a', 'g', 'loops', 'line', 'fn', 'seq', 'cls', 'file', 'extra', 'stack')
    def __repr__(self):
        return '%s %s(%s) [%s] %s @%s:%d' % (self.kind, self.name, ', '.join(show(x) for x in self.a), showg(self.g), self.loops or '', self.fn.split('::')[-1], self.line)

class St:
    __slots__ = ('g', 'store', 'epoch')
    def __init__(self, g, store, epoch): self.g, self.store, self.epoch = g, store, epoch
    def fork(self, g=None): return St(self.g if g is None else g, dict(self.store), dict(self.epoch))

class Frame:
    __slots__ = ('this', 'cls', 'env', 'rets', 'fn', 'n', 'up', 'retref', 'entry')

class LoopCtl:
    def __init__(self): self.brk, self.cont = [], []

class Summary: pass

def fld(base, name):
    if base[0] == 'kv' and name == 'second': return ('mapat', base[1], base[2])
    if base[0] == 'at' and base[1]: base = ('at', '', base[2])
    if base[0] == 'pite': return pite(base[1], fld(base[2], name), fld(base[3], name))
    return ('fld', base, name)

INTW = {'signed char': (8, 1), 'char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'unsigned short': (16, 0), 'char16_t': (16, 0), 'wchar_t': (32, 1), 'int': (32, 1),
        'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0), 'long long': (64, 1), 'unsigned long long': (64, 0)}   # width, signed
SIZEY = ('size', 'iv', 'int', 'vc', 'count', 'cvt')
def ptr_roots(p):
    if p[0] == 'ite': return ptr_roots(p[2]) | ptr_roots(p[3])
    if p[0] == 'lin':
        c = [m[0] for m, k in p[1] if len(m) == 1 and k == 1]
        pr = [x for x in c if x[0] in ('p', 'new', 'addr', 'phi') or (x[0] == 'fld' and x[2] in ('instance_', 'memory_', 'instance', 'memory'))]
        if not pr: pr = [x for x in c if not (x[0] in SIZEY and not (x[0] == 'vc' and x[1] not in ('memory_size', 'hash'))) and not (x[0] == 'fld' and x[2].endswith(('size_', 'offset_', 'index_')))]
        return {pr[0]} if pr else set()
    if p[0] == 'after': return ptr_roots(p[2])
    return {p} if p[0] not in ('int', 'b') else set()

def place_root(p):
    while True:
        if p[0] in ('fld', 'elem', 'mapat'): p = p[1]
        elif p[0] == 'pite': p = p[2]
        else: return p

NPOS = ('int', 2 ** 64 - 1)

def text_query(name, v, vals):
    """find and substr, where the text is known to begin before the first occurrence of what is looked for"""
    if name == 'substr' and len(vals) == 2 and vals[0] == NULL and vals[1] == NPOS: return v
    if name == 'find' and len(vals) == 2 and vals[1] == NULL and v[:2] == ('std', 'basic_string::substr') and v[3] == NULL \
            and v[4] == ('std', 'basic_string::find', v[2], vals[0], NULL): return NPOS
    return ('std', 'basic_string::' + name, v) + vals

def boolean(e):
    while e.get('k') in ('cast', 'paren') and strip_cv(e.get('t', '')) != 'bool': e = e['e']
    return strip_cv(e.get('t', '')) == 'bool' or e.get('k') == 'bool'

class Sym:
    def __init__(self, prog, opaque=(), maxinl=40, stop=None):
        self.P = prog
        self.extra_opaque = set(opaque)
        self.stop = stop
        self.maxinl = maxinl

    # ------------------------------------------------------------ driver
    def run(self, f, cls=None, this=('this',), preset=None, assume=TRUE):
        self.events, self.frames, self.nfr, self.ntmp, self.seq, self.nnew = [], [], 0, 0, 0, 0
        self.loops, self.quiet, self.depth, self.stack, self.unknown, self.loopinfo = [], 0, 0, [], set(), []
        self.declared, self.wlog, self.ctl, self.steps = set(), None, [], 0
        self.nw = 0; self.bits = {}
        self.narrow = []
        self.thrown = []
        self.handlers = []
        del FACTS[:]
        self.st = St(assume, dict(preset or {}), {})
        fr = self.push(f, this, cls or f.get('cls'))
        self.fn_file = f['file']
        for i, p in enumerate(f['params']):
            t = p['t']
            if t.endswith('&'): fr.env[p['d']] = ('p', i)
            elif self.P.is_rec(t): fr.env[p['d']] = ('p', i)
            else:
                pl = ('loc', p['d'], fr.n)
                fr.env[p['d']] = pl
                self.st.store[pl] = (preset or {}).get(('p', i), ('p', i))
        if f['kind'] == 'ctor': self.ctor_inits(f, ('this',))
        self.stmt(f['body'])
        S = Summary()
        S.f, S.cls, S.events, S.rets, S.end, S.unknown = f, cls, self.events, fr.rets, self.st, self.unknown
        S.names = {i: p['n'] for i, p in enumerate(f['params'])}
        S.final = self.merge([self.st] + [s for _, _, s in fr.rets]) if fr.rets else self.st
        S.ret = None
        if fr.rets:
            v = fr.rets[-1][1]
            tot = FALSE
            for g, _, _ in fr.rets: tot = B.disj(tot, g)
            for g, x, _ in reversed(fr.rets[:-1]):
                if x is not None and v is not None: v = self.vite(B.restrict(g, tot), x, v)
            S.ret = v
        S.normal = S.final.g
        S.eng, S.loopinfo, S.narrow = self, self.loopinfo, self.narrow
        return S

    def push(self, f, this, cls):
        fr = Frame()
        self.nfr += 1
        fr.this, fr.cls, fr.env, fr.rets, fr.fn, fr.n, fr.up = this, cls, {}, [], f, self.nfr, None
        fr.retref = f.get('rt', '').endswith('&')
        fr.entry = self.st.g
        self.frames.append(fr)
        return fr

    @property
    def fr(self): return self.frames[-1]

    def tmp(self):
        self.ntmp += 1
        return ('tmp', self.ntmp)

    # ------------------------------------------------------------ events
    def ev(self, kind, name, a, line, cls=None, extra=None):
        if self.quiet or self.st.g == FALSE: return
        e = Ev()
        a = [tidy(self.st.g, x) for x in a]
        e.kind, e.name, e.a, e.g, e.loops, e.line = kind, name, tuple(a), self.st.g, tuple(self.loops), line
        e.fn, e.file, e.cls, e.extra = self.fr.fn['qn'], self.fr.fn['file'], cls, extra
        e.stack = tuple(x.fn['qn'] for x in self.frames)
        e.seq = self.seq; self.seq += 1
        self.events.append(e)

    def unk(self, what):
        self.unknown.add(what)
        return ('unk', what)

    # ------------------------------------------------------------ memory
    def is_local(self, p): return place_root(p)[0] in ('loc', 'tmp')

    def read(self, p):
        if p[0] == 'pite':
            return self.vite(p[1], self.read(p[2]), self.read(p[3]))
        v = self.st.store.get(p)
        if v == ('ctor0', 'std::pair'):
            q = [self.st.store.get(fld(p, n), NULL) for n in ('first', 'second')]
            if q != [NULL, NULL] or fld(p, 'first') in self.st.store: return ('mkpair',) + tuple(q)
        if v is not None: return v
        if p[0] in ('fld',):
            w = self.st.store.get(p[1])
            if w is not None and w[0] not in ('int', 'b', 'lin', 'str'):
                if w[0] == 'mkpair' and p[2] in ('first', 'second'): return w[1] if p[2] == 'first' else w[2]
                if w != p[1]: return self.read(fld(w, p[2]))
        if p[0] == 'elem':
            c = self.st.store.get(p[1])
            if c is not None and c[0] == 'push':
                if p[2] == self.size_of(c[1]): return c[2]
        if p[0] == 'mapat':
            c = self.st.store.get(p[1])
            if c is not None and c[0] in ('mset', 'ite'): return self.entry(c, p)
        if p[0] == 'at':
            n = max([self.st.epoch.get(r, 0) for r in ptr_roots(p[2])] or [0])
            if n: return ('after', n, p)
        return p

    def entry(self, c, p):
        """what the place p of a map holds, c being the contents of the map"""
        while c[0] == 'mset':
            q = eq(c[2], p[2])
            if q == TRUE: return c[3]
            if q != FALSE: return ('afterm', c, p)
            c = c[1]
        if c[0] == 'ite': return ite(c[1], self.entry(c[2], p), self.entry(c[3], p))
        return p

    def vite(self, c, a, b):
        if a is None or b is None: return a if b is None else b
        if c == TRUE or a == b: return a
        if c == FALSE: return b
        pl = ('this', 'p', 'fld', 'elem', 'at', 'rget', 'loc', 'tmp', 'pite', 'mapat')
        return ite(c, a, b)

    def log(self, p):
        if self.wlog is not None: self.wlog.append(p)

    def write(self, p, v, line, T=''):
        if self.st.g == FALSE: return
        if p[0] == 'pite':
            self.write_if(p[1], p[2], v, line, T); self.write_if(B.neg(p[1]), p[3], v, line, T)
            return
        if not self.is_local(p):
            self.ev('store', T, (p, v), line)
        if p[0] == 'at' or (place_root(p)[0] == 'at' and p[0] != 'at' and False):
            self.bump(p[2])
        self.st.store[p] = v
        if p[0] == 'mapat':
            c = self.st.store.get(p[1])
            if c is not None and c[0] == 'mset' and c[2] == p[2]: self.st.store[p[1]] = ('mset', c[1], c[2], v)
        self.log(p)

    def write_if(self, c, p, v, line, T):
        g = self.st.g
        n = B.conj(g, c)
        if n == FALSE: return
        self.st.g = n
        old = self.read(p)
        self.write(p, v, line, T)
        if n != g: self.st.store[p] = self.vite(c, v, old)
        self.st.g = g

    def bump(self, ptr, keep=None):
        for r in ptr_roots(ptr):
            self.st.epoch[r] = self.st.epoch.get(r, 0) + 1
            for k in [k for k in self.st.store if k[0] == 'at' and r in ptr_roots(k[2])]: del self.st.store[k]

    def memread(self, t, ptrs):
        """a term that depends on the memory behind ptrs"""
        n = 0
        for p in ptrs:
            for r in ptr_roots(p): n = max(n, self.st.epoch.get(r, 0))
        return ('after', n, t) if n else t

    def forget(self, p):
        for k in [k for k in self.st.store if k != p and self.inside(k, p)]: del self.st.store[k]

    def inside(self, k, p):
        while k[0] in ('fld', 'elem', 'mapat'):
            k = k[1]
            if k == p: return True
        return False

    def copy_obj(self, cls, dst, src, line):
        if src[0] == 'pite' or dst == src:
            pass
        w = self.st.store.get(src)
        if w is not None and not self.P.is_rec(cls): self.write(dst, w, line); return
        for n, t in self.P.fields(cls):
            if t.endswith('&'): self.st.store[fld(dst, n)] = addr(self.reffield(fld(src, n)))
            elif self.P.is_rec(t): self.copy_obj(strip_cv(t), fld(dst, n), fld(src, n), line)
            else: self.write(fld(dst, n), self.read(fld(src, n)), line, t)
        self.st.store[('cls', dst)] = ('clsname', cls)

    def reffield(self, p):
        if p[0] == 'pite': return pite(p[1], self.reffield(p[2]), self.reffield(p[3]))
        v = self.st.store.get(p)
        return p if v is None else deref('', v)

    def snap(self, cls, p):
        """a term for the present contents of a local object"""
        by_const = cls.startswith('const ')
        cls = strip_cv(cls.rstrip('&').strip())
        if by_const and cls.startswith('std::basic_string<') and self.is_local(p): return self.read(p)
        if not self.is_local(p) or not self.P.is_rec(cls): return p
        out = []
        for n, t in self.P.fields(cls):
            q = fld(p, n)
            out.append((n, self.reffield(q) if t.endswith('&') else self.snap(t, q) if self.P.is_rec(t) else self.read(q)))
        return ('obj', cls) + tuple(out)

    PURE = ('call', 'fold', 'sorted', 'partsorted', 'fld', 'elem', 'mapat', 'mk', 'after', 'push', 'list')
    def deloc(self, v):
        """an element of a local container, as an element of what it holds"""
        if not isinstance(v, tuple) or not v: return v
        if v[0] in ('ite', 'neg', 'cvt', 'to_string'):
            m = {}
            if v[0] == 'ite':
                for a in B.support(v[1]):
                    for z in walk(a):
                        if z[0] in ('fld', 'elem'):
                            w = self.deloc(z)
                            if w != z: m[z] = w
            w = tuple(self.deloc(x) if isinstance(x, tuple) else x for x in v)
            return ('ite', subst_node(v[1], m)) + w[2:] if m else w
        if v[0] not in ('fld', 'elem'): return v
        if v[0] == 'fld': return fld(self.deloc(v[1]), v[2])
        b = v[1]
        if b[0] in ('loc', 'tmp'):
            w = self.st.store.get(b)
            if w is not None and w[0] in self.PURE and not any(k != b and k[0] == 'elem' and k[1] == b for k in self.st.store): return ('elem', w, v[2])
            return v
        return ('elem', self.deloc(b), v[2]) if b[0] in ('fld', 'elem') else v

    # ------------------------------------------------------------ merging
    def merge(self, sts):
        sts = [s for s in sts if s is not None and s.g != FALSE]
        if not sts: return St(FALSE, {}, {})
        if len(sts) == 1: return sts[0]
        tot = FALSE
        for s in sts: tot = B.disj(tot, s.g)
        out = sts[-1].fork(tot)
        for s in reversed(sts[:-1]):
            c = B.restrict(s.g, tot)
            for k in set(s.store) | set(out.store):
                a, b = s.store.get(k), out.store.get(k)
                if a is b or a == b: continue
                if k[0] == 'cls': out.store[k] = a or b; continue
                if a is None or b is None:
                    if k[0] in ('loc', 'tmp') or self.is_local(k): out.store[k] = a if b is None else b; continue
                    if k[0] == 'at':
                        out.store.pop(k, None)
                        for r in ptr_roots(k[2]): out.epoch[r] = max(out.epoch.get(r, 0), 1)
                        continue
                    a = k if a is None else a
                    b = k if b is None else b
                out.store[k] = self.vite(c, a, b)
            for r, n in s.epoch.items(): out.epoch[r] = max(out.epoch.get(r, 0), n)
        return out

    def branch(self, c, fa, fb=None):
        """run fa under c and fb under !c on forks of the state, and merge; returns (ra, rb)"""
        g0 = self.st.g
        base = self.st
        ga, gb = B.conj(g0, c), B.conj(g0, B.neg(c))
        ra = rb = None
        if ga == FALSE:
            A = None
        else:
            self.st = base.fork(ga); ra = fa(); A = self.st
        if gb == FALSE:
            Bs = None
        else:
            self.st = base.fork(gb)
            if fb: rb = fb()
            Bs = self.st
        if A is not None and Bs is not None and A.g == ga and Bs.g == gb:
            self.st = self.merge_c(c, A, Bs, g0)
        else:
            self.st = self.merge([A, Bs])
        return ra, rb

    def merge_c(self, c, A, Bs, g):
        out = Bs.fork(g)
        for k in set(A.store) | set(Bs.store):
            a, b = A.store.get(k), Bs.store.get(k)
            if a is b or a == b: continue
            if k[0] == 'cls': out.store[k] = a or b; continue
            if a is None or b is None:
                if self.is_local(k): out.store[k] = a if b is None else b; continue
                if k[0] == 'at':
                    out.store.pop(k, None)
                    for r in ptr_roots(k[2]): out.epoch[r] = max(out.epoch.get(r, 0), 1)
                    continue
                a = k if a is None else a
                b = k if b is None else b
            out.store[k] = self.vite(c, a, b)
        for r, n in A.epoch.items(): out.epoch[r] = max(out.epoch.get(r, 0), n)
        return out

    # ------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None or self.st.g == FALSE: return
        self.steps += 1
        if self.steps > 60000: raise Give('too many steps')
        m = getattr(self, 's_' + s['s'], None)
        if m is None:
            self.unk('statement ' + s['s']); return
        m(s)

    def s_expr(self, s): self.rv(s['e'], drop=True)
    def s_block(self, s):
        for x in s['b']:
            if self.st.g == FALSE: break
            self.stmt(x)

    def s_decl(self, s):
        for v in s['vars']: self.declare(v)

    def declare(self, v):
        if v.get('bits'): self.bits[v['d']] = abs(v['bits'])
        if v.get('static'):
            self.fr.env[v['d']] = ('static', v['n'])
            return
        if v.get('bindings'):
            src = self.lv(v['init']) if v.get('init') else self.unk('binding')
            w = self.st.store.get(src)
            for i, b in enumerate(v['bindings']):
                nm = ('first', 'second')[i] if i < 2 else str(i)
                self.fr.env[b['d']] = fld(src, nm)
            self.fr.env[v['d']] = src
            return
        if v.get('ref') and v.get('init') is not None:
            self.fr.env[v['d']] = self.lv(v['init'])
            return
        p = ('loc', v['d'], self.fr.n)
        self.fr.env[v['d']] = p
        self.declared.add(p)
        self.forget(p); self.st.store.pop(p, None)
        if v.get('init') is not None: self.init(p, v['t'], v['init'], v['l'] if 'l' in v else 0)
        elif not self.P.is_rec(v['t']): self.st.store[p] = self.default(v['t'])

    def default(self, t):
        q = simp(strip_cv(t))
        if q.endswith('basic_string'): return ('str', '')
        if q in ('std::vector', 'std::map', 'std::set'): return ('empty',)
        if 'shared_ptr' in q or 'weak_ptr' in q or q.endswith('DynamicType::Ptr'): return NULL
        return ('uninit', q)

    def init(self, p, t, e, line):
        """initialise the object at p of type t from expression e"""
        if t.endswith('&'):
            self.st.store[p] = addr(self.lv(e)); return
        if self.P.is_rec(t):
            cls = strip_cv(t)
            if e['k'] == 'ctor' : self.construct(e, p)
            elif e['k'] == 'init' and not e['es']: pass
            else:
                src = self.rv(e)
                if src[0] == 'lambda': self.st.store[p] = src; self.log(p); return
                if src[0] in ('loc', 'tmp') and self.st.store.get(src, NULL)[0] == 'lambda': self.st.store[p] = self.st.store[src]; self.log(p); return
                self.copy_obj(cls, p, src, line)
            return
        self.write(p, self.rv(e), line, t)

    def s_if(self, s):
        if s.get('init'): self.stmt(s['init'])
        if s.get('cv'):
            for v in (s['cv'] if isinstance(s['cv'], list) else s['cv'].get('vars', [s['cv']])): self.declare(v)
        c = node(self.rv(s['c']))
        self.branch(c, lambda: self.stmt(s['a']), (lambda: self.stmt(s['b'])) if s.get('b') else None)

    def s_return(self, s):
        fr = self.fr
        v = None
        if s.get('e') is not None:
            rt = fr.fn.get('rt', 'void')
            if fr.retref: v = self.lv(s['e'])
            elif self.P.is_rec(rt):
                e = s['e']
                if e['k'] == 'ctor':
                    v = self.tmp(); self.construct(e, v)
                else:
                    v = self.rv(e)
                    if e['k'] != 'call':
                        d = self.tmp(); self.copy_obj(strip_cv(rt), d, v, s['l']); v = d
            else: v = self.rv(s['e'])
        if self.st.g == FALSE: return
        self.ev('return', '', () if v is None else (self.snap(fr.fn.get('rt', ''), v) if isinstance(v, tuple) else v,), s['l'])
        fr.rets.append((self.st.g, v, self.st.fork()))
        self.st.g = FALSE

    def s_break(self, s):
        if self.ctl: self.ctl[-1].brk.append(self.st.fork())
        self.st.g = FALSE
    def s_continue(self, s):
        for c in reversed(self.ctl):
            if c.cont is not None:
                c.cont.append(self.st.fork()); break
        self.st.g = FALSE

    def s_switch(self, s):
        v = self.rv(s['c'])
        base = self.st
        g0 = base.g
        body = []
        def flat(x):
            if x['s'] == 'block':
                for y in x['b']: flat(y)
            else: body.append(x)
        # keep nested blocks below a label whole
        blk = s['b']['b'] if s['b']['s'] == 'block' else [s['b']]
        items = []
        def put(x):
            if x['s'] in ('case', 'default'):
                items.append(('L', x))
                if x.get('b') is not None: put(x['b'])
            else: items.append(('S', x))
        for x in blk: put(x)
        cases = [x['v'] if not isinstance(x.get('v'), dict) else None for t, x in items if t == 'L' and x['s'] == 'case']
        vals = []
        for t, x in items:
            if t == 'L' and x['s'] == 'case':
                ce = x.get('e') or x.get('v')
                val = num(x['v']) if isinstance(x.get('v'), (int, str)) and str(x['v']).lstrip('-').isdigit() else self.rv(ce)
                vals.append((id(x), eq(v, val)))
        anyc = FALSE
        guard = {}
        for i, n in vals:
            guard[i] = B.conj(n, B.neg(anyc)); anyc = B.disj(anyc, n)
        ctl = LoopCtl(); ctl.cont = None
        self.ctl.append(ctl)
        self.st = base.fork(FALSE)
        hasdef = False
        for t, x in items:
            if t == 'L':
                c = guard[id(x)] if x['s'] == 'case' else B.neg(anyc)
                if x['s'] == 'default': hasdef = True
                ent = base.fork(B.conj(g0, c))
                self.st = self.merge([self.st, ent]) if self.st.g != FALSE else ent
            else: self.stmt(x)
        self.ctl.pop()
        outs = [self.st] + ctl.brk
        if not hasdef: outs.append(base.fork(B.conj(g0, B.neg(anyc))))
        self.st = self.merge(outs)

    def s_try(self, s):
        base = self.st.fork()
        g0 = base.g
        hs = s['h']
        key_ = ('exc', tuple(strip_cv((h.get('t') or '...').rstrip('&').strip()) for h in hs), self.exc_tag(s))
        n = B.atom(key_)
        self.handlers.append(hs)
        self.st = base.fork(B.conj(g0, B.neg(n)))
        self.stmt(s['b'])
        self.handlers.pop()
        A = self.st
        self.st = base.fork(B.conj(g0, n))
        for h in hs:
            v = h.get('v')
            if v:
                d = v['d'] if isinstance(v, dict) else v
                p = ('loc', d, self.fr.n)
                self.fr.env[d] = p
                self.st.store[p] = ('excval', h.get('t'))
            self.stmt(h['b'])
            break
        Bs = self.st
        if A.g == B.conj(g0, B.neg(n)) and Bs.g == B.conj(g0, n): self.st = self.merge_c(n, Bs, A, g0)
        else: self.st = self.merge([A, Bs])

    def exc_tag(self, s):
        return self.fr.fn['qn'].split('::')[-1]

    # ------------------------------------------------------------ loops
    def led(self, s):
        """A loop without a condition that begins by leaving when one fails has that condition."""
        c = s.get('c')
        while isinstance(c, dict) and c.get('k') in ('cast', 'paren'): c = c.get('e')
        if c is not None and not (c.get('k') == 'bool' and c.get('v') in (True, 1, '1', 'true')) or s.get('cv'): return s
        b = s['b']
        if b.get('s') != 'block' or not b['b']: return s
        i = b['b'][0]
        if i.get('s') != 'if' or i.get('b') is not None or i.get('init') is not None or i.get('cv'): return s
        a = i['a']
        while a.get('s') == 'block' and len(a['b']) == 1: a = a['b'][0]
        if a.get('s') != 'break': return s
        return dict(s, c={'k': 'un', 'op': '!', 'e': i['c'], 't': 'bool', 'l': i['l']}, b=dict(b, b=b['b'][1:]))

    def s_for(self, s):
        s = self.led(s)
        if s.get('init'): self.stmt(s['init'])
        self.loop(lambda: node(self.rv(s['c'])) if s.get('c') else TRUE, lambda: self.stmt(s['b']),
                  lambda: self.rv(s['inc'], drop=True) if s.get('inc') else None, s['l'])
    def s_while(self, s):
        s = self.led(s)
        def cond():
            if s.get('cv'):
                for v in (s['cv'] if isinstance(s['cv'], list) else [s['cv']]): self.declare(v)
            return node(self.rv(s['c']))
        self.loop(cond, lambda: self.stmt(s['b']), lambda: None, s['l'])
    def s_do(self, s):
        self.stmt_once(s)
        self.loop(lambda: node(self.rv(s['c'])), lambda: self.stmt(s['b']), lambda: None, s['l'])
    def stmt_once(self, s):
        ctl = LoopCtl(); self.ctl.append(ctl)
        self.stmt(s['b'])
        self.ctl.pop()
        self.unk('do loop')
        self.st = self.merge([self.st] + ctl.cont + ctl.brk)

    def s_rangefor(self, s):
        C = self.lv(s['r'])
        it = ('loc', ('rf', s['l'], s['v']['d']), self.fr.n)
        cv = self.read(C)
        if C[0] == 'tmp':
            # what is iterated over stays alive for the whole loop, as a local would
            C = ('loc', ('rfc', s['l'], s['v']['d']), self.fr.n)
            self.st.store[C] = cv
        self.st.store[it] = num(0)
        n = self.size_of(cv)
        v = s['v']
        def bind():
            k = self.st.store[it]
            el = elem(C, k)
            if v.get('bindings'):
                for i, b in enumerate(v['bindings']):
                    self.fr.env[b['d']] = fld(el, ('first', 'second')[i])
                return
            if v['ref']: self.fr.env[v['d']] = el
            else:
                p = ('loc', v['d'], self.fr.n)
                self.fr.env[v['d']] = p; self.declared.add(p)
                self.forget(p)
                if self.P.is_rec(v['t']): self.copy_obj(strip_cv(v['t']), p, el, s['l'])
                else: self.st.store[p] = self.read(el)
        def body():
            bind(); self.stmt(s['b'])
        def inc():
            self.st.store[it] = add(self.st.store[it], num(1)); self.log(it)
        self.loop(lambda: lt(self.st.store[it], n), body, inc, s['l'])

    def loop(self, cond, body, inc, line):
        d = self.depth
        iv = ('iv', d)
        self.depth += 1
        entry = self.st.fork()
        g0 = entry.g
        try:
            self._loop(cond, body, inc, line, d, iv, entry, g0)
        finally:
            self.depth = d

    def iterate(self, st, cond, body, inc):
        """one iteration from state st; returns (cond node, state after inc, break states, loop rets)"""
        self.st = st
        g = st.g
        c = cond()
        head_exit = self.st.fork(B.conj(self.st.g, B.neg(c)))
        self.st.g = B.conj(self.st.g, c)
        ctl = LoopCtl(); self.ctl.append(ctl)
        body()
        self.ctl.pop()
        self.st = self.merge([self.st] + ctl.cont)
        if self.st.g != FALSE: inc()
        return c, self.st, ctl.brk, head_exit

    def _loop(self, cond, body, inc, line, d, iv, entry, g0):
        fr = self.fr
        # 1. places written by an iteration
        W = []
        self.quiet += 1
        saved, self.wlog = self.wlog, []
        decl0, nrets = set(self.declared), len(fr.rets)
        nthr = len(self.thrown)
        for _ in range(2):
            st = entry.fork()
            for w in W: st.store[w] = ('phi', d, w)
            self.wlog = []
            self.iterate(st, cond, body, inc)
            del fr.rets[nrets:]; del self.thrown[nthr:]
            new = [w for w in self.wlog if not (w in self.declared and w not in decl0) and (place_root(w)[0] != 'tmp' or w in entry.store) and not (place_root(w) in self.declared and place_root(w) not in decl0)
                   and not mentions(w, lambda x: x[0] in ('phi',) or x == iv)]
            n0 = len(W)
            for w in new:
                if w not in W: W.append(w)
            if len(W) == n0 and _: break
        wl, self.wlog = self.wlog, saved
        W = [w for w in W if w[0] != 'at']
        for w in W: self.log(w)
        # 2. induction variables
        x0 = {w: entry.store.get(w, w) for w in W}
        X = {w: ('phi', d, w) for w in W}
        ind = {}
        sat = {}
        def run_once():
            st = entry.fork()
            st.store.update(X)
            c, after, brk, head = self.iterate(st, cond, body, inc)
            del fr.rets[nrets:]; del self.thrown[nthr:]
            return c, after
        for _ in range(3):
            c, after = run_once()
            again = False
            for w in W:
                if w in ind: continue
                x1 = after.store.get(w, w)
                ph = ('phi', d, w)
                if x1[0] == 'ite' and self.saturating(x1, ph) is not None:
                    end = self.saturating(x1, ph)
                    a = x0[w]
                    if end[0] == 'it' and a[0] == 'it' and end[1] == a[1]: X[w] = ('it', a[1], mm('min', add(a[2], iv), end[2])); sat[w] = ('it', a[1], mm('min', add(a[2], ('CNT',)), end[2]))
                    else: X[w] = mm('min', add(a, iv), end); sat[w] = mm('min', add(a, ('CNT',)), end)
                    ind[w] = num(0); again = True; continue
                if x1 == ph: ind[w] = num(0); X[w] = x0[w]; again = True; continue
                if x0[w] in (bt(TRUE), bt(FALSE)):      # a flag told once: it says whether this is the first iteration
                    x2 = subst(x1, {ph: x0[w]})
                    if x2[0] == 'b' and {x0[w], x2} == {bt(TRUE), bt(FALSE)} and subst(x1, {ph: x2}) == x2:
                        X[w] = ite(eq(iv, num(0)), x0[w], x2); sat[w] = ite(eq(('CNT',), num(0)), x0[w], x2)
                        ind[w] = num(0); again = True; continue
                if x1[0] in ('lin', 'it', 'rit') or True:
                    try: dlt = sub(x1, ph)
                    except Exception: dlt = None
                    if dlt is not None and dlt[0] in ('int', 'lin', 'size', 'fld', 'vc', 'p', 'at') and not mentions(dlt, lambda x: x[0] == 'phi' and x[1] == d or x == iv) and x1[0] not in ('b', 'ite') and ph in [m[0] for m, k in (x1[1] if x1[0] == 'lin' else ()) if len(m) == 1]:
                        ind[w] = dlt
                        X[w] = add(x0[w], mul(dlt, iv)); again = True
            if not again: break
        # 3. trip count
        st = entry.fork(); st.store.update(X)
        self.st = st
        c = cond()
        self.quiet -= 1
        count, extra, rev = None, TRUE, False
        cubes = B.cubes(c, 2)
        lits = cubes[0] if len(cubes) == 1 else None
        if c == TRUE: pass
        elif lits is None: extra = c
        else:
            for a, v in lits:
                n = self.trip(a, v, iv) if count is None else None
                if n is not None: count = n
                else:
                    l = B.atom(a)
                    extra = B.conj(extra, l if v else B.neg(l))
        W_loop = count is None
        if not W_loop:
            # a counter too small for what it counts starts again from the beginning
            for w in ind:
                bits = self.bits.get(w[1], 64) if w[0] == 'loc' else 64
                if 1 < bits < 32 and ind[w][0] == 'int' and ind[w][1] and w not in sat and not (count[0] == 'int' and count[1] * abs(ind[w][1]) < 1 << bits - 1):
                    count = ('narrow', bits, count); break
        if W_loop:
            self.nw += 1
            count = ('wcnt', self.nw)
        prim_neg = False
        if not W_loop:
            cs = [ind[w] for w in ind if ind[w][0] == 'int' and ind[w][1] != 0]
            prim_neg = bool(cs) and all(x[1] < 0 for x in cs) or any(x0[w][0] == 'rit' for w in ind)
            if prim_neg and self.direction(entry, X, extra, g0, d, iv, body, count, nrets, nthr) == 1: prim_neg = False      # counts down what it walks upwards
            if prim_neg:
                m = {iv: sub(sub(count, num(1)), iv)}
                X = {w: subst(v, m) for w, v in X.items()}
                extra = subst_node(extra, m)
                rev = True
        # 4. reductions over booleans used as the loop condition
        forced = {}
        for a, v in (lits or []):
            if a[0] in ('phi',) or (a[0] == 'eq' and a[1][0] == 'phi'):
                w = (a if a[0] == 'phi' else a[1])[2]
                if w in W and w not in ind:
                    val = v if a[0] == 'phi' else not v
                    forced[w] = val
        if forced:
            for w, val in forced.items(): X[w] = bt(TRUE if val else FALSE)
            self.quiet += 1
            st = entry.fork(); st.store.update(X); self.st = st
            extra = cond()
            l2 = B.cubes(extra, 2)
            extra = TRUE
            if len(l2) == 1:
                for a, v in l2[0]:
                    if self.trip(a, v, iv) is None or W_loop:
                        l = B.atom(a); extra = B.conj(extra, l if v else B.neg(l))
            self.quiet -= 1
        # 5. the iteration that is recorded
        L = Loop()
        L.depth, L.count, L.rev, L.kind, L.exit, L.line, L.entry = d, count, rev, 'W' if W_loop else 'C', FALSE, line, g0
        self.loops.append(L)
        if not W_loop: FACTS.append((iv, count))
        def settle(st):
            """what evaluating the condition changes among the loop's variables"""
            before = {w: st.store.get(w, w) for w in W}
            keep, self.st = self.st, st.fork()
            self.quiet += 1
            cond()
            self.quiet -= 1
            del fr.rets[nrets:]; del self.thrown[nthr:]
            for w in W:
                v = self.st.store.get(w, w)
                if v != before[w] and v[0] not in ('out', 'ite'): st.store[w] = v
            self.st = keep
        st = entry.fork(); st.store.update(X)
        settle(st)
        st.g = B.conj(g0, extra)
        self.st = st
        ev0 = len(self.events)
        ctl = LoopCtl(); self.ctl.append(ctl)
        body()
        self.ctl.pop()
        self.st = self.merge([self.st] + ctl.cont)
        if self.st.g != FALSE:
            inc()
        after = self.st
        self.loops.pop()
        if not W_loop: FACTS.pop()
        # 6. exits
        rets = fr.rets[nrets:]; del fr.rets[nrets:]
        thr = self.thrown[nthr:]; del self.thrown[nthr:]
        rel = lambda g: B.restrict(g, g0)
        head = rel(B.conj(g0, B.neg(extra)))
        exits = [('head', head, None, None)] if head != FALSE else []
        exits += [('brk', rel(s.g), None, s) for s in ctl.brk if s.g != FALSE]
        exits += [('ret', rel(g), v, s) for g, v, s in rets]
        exits += [('thr', rel(g), None, None) for g in thr]
        anyx = FALSE
        for x in exits: anyx = B.disj(anyx, x[1])
        soft = anyx
        red = {}
        for w in W:
            if w in ind: continue
            x1 = after.store.get(w, w)
            if w in forced:
                f = node(x1)
                ok = B.restrict(f if forced[w] else B.neg(f), after.g)
                soft = B.disj(soft, B.conj(rel(after.g), B.neg(ok)))
                a = all_(count, ok, d)
                red[w] = bt(B.conj(node(x0[w]), a) if forced[w] else B.disj(node(x0[w]), B.neg(a)))
                continue
            ph = ('phi', d, w)
            if x1[0] == 'b':
                f = x1[1]
                pa = node(ph) if ph in [x for a in B.support(f) for x in walk(a)] else None
                # f == phi & b   or   phi | b
                at = self.phi_atom(f, ph)
                if at is not None:
                    hi, lo = self.cofactor(f, at, True), self.cofactor(f, at, False)
                    if lo == FALSE and not mentions_node(hi, lambda x: x == ph):
                        red[w] = bt(B.conj(node(x0[w]), all_(count, hi, d))); continue
                    if hi == TRUE and not mentions_node(lo, lambda x: x == ph):
                        red[w] = bt(B.disj(node(x0[w]), B.neg(all_(count, B.neg(lo), d)))); continue
            oth = [x for x in walk(x1) if x[0] == 'phi' and x[1] == d and x != ph]
            if not oth:
                red[w] = ('fold', count, x0[w], subst(x1, {ph: ('acc', d)}))
            else: red[w] = ('fin', d, w)
        L.exit = soft
        noexit = all_(count, B.neg(anyx), d)
        kinds = len([x for x in exits if x[1] != FALSE])
        def xguard(x):
            if kinds == 1: return B.conj(g0, B.neg(noexit))
            return B.conj(g0, B.atom(('first', count, anyx, x[1], d)))
        miv = {iv: ('fiv', count, anyx, d)}
        if not self.quiet:
            self.loopinfo.append(dict(fn=fr.fn, d=d, W=W, X=dict(X), x0=dict(x0), x1={w: after.store.get(w, w) for w in W}, g1=rel(after.g), entry=g0, go=extra, count=count, line=line,
                                      exits=[(x[0], x[1], x[2], dict(x[3].store) if x[3] is not None else None) for x in exits], ind=set(ind)))
        outs = []
        nst = entry.fork(B.conj(g0, noexit))
        for w in W: nst.store[w] = subst(sat[w], {('CNT',): count}) if w in sat else add(x0[w], mul(ind[w], count)) if w in ind else red[w]
        for r, n in after.epoch.items(): nst.epoch[r] = max(nst.epoch.get(r, 0), n)
        for s in ctl.brk:
            for r, n in s.epoch.items(): nst.epoch[r] = max(nst.epoch.get(r, 0), n)
        # memory written by the iterations
        for k in [k for k in nst.store if k[0] == 'at' and any(nst.epoch.get(r, 0) != entry.epoch.get(r, 0) for r in ptr_roots(k[2]))]: del nst.store[k]
        settle(nst)
        outs.append(nst)
        for x in exits:
            if x[1] == FALSE: continue
            if x[0] == 'head':
                b = entry.fork(xguard(x))
                for w in W: b.store[w] = subst(X[w], miv)
                settle(b)
                outs.append(b)
            elif x[0] == 'brk':
                b = entry.fork(xguard(x))
                for w in W:
                    v = x[3].store.get(w, w)
                    if v[0] == 'b': v = bt(B.restrict(v[1], x[1]))
                    b.store[w] = subst(v, miv)
                outs.append(b)
            elif x[0] == 'ret':
                v = x[2]
                if v is not None:
                    if v[0] == 'b': v = bt(B.restrict(v[1], x[1]))
                    v = subst(v, miv)
                s2 = entry.fork(xguard(x))
                fr.rets.append((s2.g, v, s2))
            elif x[0] == 'thr': self.thrown.append(xguard(x))
        self.st = self.merge(outs)

    def direction(self, entry, X, extra, g0, d, iv, body, count, nrets, nthr):
        """1 when every place the iterations name moves upwards with the iteration, -1 when downwards, 0 when not told"""
        fr = self.fr
        keep = (self.st, self.quiet, self.wlog, self.loops, self.nw)
        ev0, li0, na0 = len(self.events), len(self.loopinfo), len(self.narrow)
        st = entry.fork(); st.store.update(X); st.g = B.conj(g0, extra)
        self.st, self.quiet, self.wlog, self.loops = st, 0, [], []
        self.ctl.append(LoopCtl())
        FACTS.append((iv, count))
        try: body()
        finally:
            FACTS.pop()
            self.ctl.pop()
            evs = self.events[ev0:]
            del self.events[ev0:], self.loopinfo[li0:], self.narrow[na0:], fr.rets[nrets:], self.thrown[nthr:]
            self.st, self.quiet, self.wlog, self.loops, self.nw = keep
        signs = set()
        def look(t):
            if t == iv: signs.add(1)
            elif t[0] == 'lin':
                for m, k in t[1]:
                    for x in m:
                        if x == iv: signs.add(1 if k > 0 else -1)
                        elif isinstance(x, tuple): look(x)
            else:
                for x in t[1:]:
                    if isinstance(x, tuple) and x and isinstance(x[0], str): look(x)
        for e in evs:
            if e.kind == 'return': continue
            for t in e.a: look(t)
        return signs.pop() if len(signs) == 1 else 0

    def saturating(self, x1, ph):
        """x1 is (ph != end ? ph + 1 : ph): the end"""
        sup = B.support(x1[1])
        if len(sup) != 1 or sup[0][0] != 'eq': return None
        l = B.atom(sup[0])
        t, f = (x1[2], x1[3]) if x1[1] == l else (x1[3], x1[2])
        if t != ph or f != add(ph, num(1)): return None
        p = poly(sup[0][1])
        c = p.pop((ph,), 0)
        if c not in (1, -1): return None
        r = unpoly({m: -k * c for m, k in p.items()})
        return None if mentions(r, lambda x: x == ph) else r

    def phi_atom(self, f, ph):
        for a in B.support(f):
            if a == ph or a == ('eq', ph): return a
        return None
    def cofactor(self, f, a, truth):
        n = B.atom(a)
        # a is ('eq', phi): true means phi == 0
        val = truth if a[0] == 'phi' else (not truth)
        return B.compose(f, lambda x: (TRUE if val else FALSE) if x == a else B.atom(x))

    def trip(self, a, v, iv):
        if a[0] not in ('eq', 'pos'): return None
        p = poly(a[1])
        c = p.pop((iv,), 0)
        if c not in (1, -1) or any(iv in m for m in p): return None
        r = unpoly(p)
        if mentions(r, lambda x: x[0] == 'phi'): return None
        if a[0] == 'eq':
            if v: return None
            return sub(num(0), r) if c == 1 else r
        if v: return r if c == -1 else None
        return sub(num(1), r) if c == 1 else None      # !(iv + r > 0) <=> iv < 1 - r

    # ------------------------------------------------------------ expressions
    def size_of(self, v):
        if v[0] == 'push': return add(self.size_of(v[1]), num(1))
        if v[0] == 'empty': return num(0)
        if v[0] == 'str': return num(len(v[1]))
        if v[0] == 'ite': return ite(v[1], self.size_of(v[2]), self.size_of(v[3]))
        if v[0] in ('sorted', 'partsorted'): return self.size_of(v[1])
        if v[0] == 'part': return sub(v[3], v[2])
        if v[:2] == ('mk', 'vector') and len(v) == 3 and v[2][0] in ('int', 'lin', 'size'): return v[2]
        return ('size', v)

    def lv(self, e):
        k = e['k']
        m = getattr(self, 'l_' + k, None)
        if m: return m(e)
        if k == 'call':
            tag, x = self.call(e)
            if tag == 'P' or x[0] in ('tmp', 'loc') and self.P.is_rec(e.get('t', '')): return x
            p = self.tmp(); self.st.store[p] = x
            return p
        v = self.rv(e)
        if self.P.is_rec(e.get('t', '')): return v
        p = self.tmp()
        self.st.store[p] = v
        return p

    def l_ref(self, e):
        d = e['d']
        if e['dk'] in ('static', 'global'):
            return ('glob', e.get('qn') or e.get('n'))
        for fr in reversed(self.frames):
            if d in fr.env: return fr.env[d]
            f2 = fr.up
            while f2 is not None:
                if d in f2: return f2[d]
                f2 = None
        return ('var', e['n'])

    def l_binding(self, e): return self.l_ref(dict(e, dk='local'))

    def l_mem(self, e):
        if e['arrow']: base = deref('', self.rv(e['b']))
        else: base = self.lv(e['b'])
        if e.get('static'): return ('glob', e['f'])
        rec = e.get('rec')
        w = self.st.store.get(base)
        if w is not None and w[0] == 'mkpair': 
            p = self.tmp(); self.st.store[p] = w[1] if e['f'] == 'first' else w[2]; return p
        if base[0] == 'elem' and self.is_map_place(base[1], e):
            pass
        p = fld(base, e['f'])
        r = self.P.rec.get(rec)
        if r:
            for f in r['fields']:
                if f['n'] == e['f'] and f['t'].endswith('&'): return self.reffield(p)
        return p

    def is_map_place(self, c, e): return False

    def l_un(self, e):
        if e['op'] == '*':
            return deref(mem_type(e.get('t', '')), self.rv(e['e'])) if mem_type(e.get('t', '')) else deref('', self.rv(e['e']))
        if e['op'] in ('++', '--') and not e.get('post'):
            self.rv(e); return self.lv(e['e'])
        if e['op'] == '__extension__': return self.lv(e['e'])
        p = self.tmp(); self.st.store[p] = self.rv(e)
        return p

    def l_asg(self, e):
        self.rv(e)
        return self.lv_quiet(e['a'])
    def lv_quiet(self, e):
        self.quiet += 1
        try: return self.lv(e)
        finally: self.quiet -= 1

    def l_sub(self, e):
        a = e['a']
        t = a.get('t', '')
        i = self.rv(e['b'])
        base = self.rv(a)
        if base[0] == 'addr': return elem(base[1], i)
        return deref(mem_type(e.get('t', '')), add(base, i)) if mem_type(e.get('t', '')) in ('unsigned char', 'char') else elem(deref('', base), i)

    def l_cond(self, e):
        c = node(self.rv(e['c']))
        if c == TRUE: return self.lv(e['a'])
        if c == FALSE: return self.lv(e['b'])
        a, b = self.branch(c, lambda: self.lv(e['a']), lambda: self.lv(e['b']))
        if a is None or b is None: return a if b is None else b
        return pite(c, a, b)

    def l_cast(self, e):
        p = self.lv(e['e'])
        self.cast_ev(e, p)
        return p

    def cast_ev(self, e, p):
        if e['ck'] == 'BaseToDerived':
            self.ev('cast', e['st'], (p,), e['l'], cls=strip_cv(e['t'].rstrip('*& ').strip()))

    def l_this(self, e): raise Give('lvalue this')

    def l_bin(self, e):
        if e['op'] == ',':
            self.rv(e['a'], drop=True); return self.lv(e['b'])
        p = self.tmp(); self.st.store[p] = self.rv(e); return p

    def rv(self, e, drop=False):
        k = e['k']
        m = getattr(self, 'r_' + k, None)
        if m is None: return self.unk('expression ' + k)
        v = m(e)
        return v

    def load(self, p, e):
        t = e.get('t', '')
        if self.P.is_rec(t): return p
        self.access(p, t, 'r', e['l'])
        return self.read(p)

    def access(self, p, t, rw, line):
        """typed access to instance memory"""
        if p[0] == 'pite':
            self.access(p[2], t, rw, line); self.access(p[3], t, rw, line); return
        q = p
        while q[0] in ('fld', 'elem'): q = q[1]
        if q[0] == 'at' and q[1]:
            self.ev('access', q[1], (q[2],), line, extra=rw)

    def r_int(self, e): return num(e['v'])
    def r_bool(self, e): return bt(TRUE if e['v'] in (True, 1, '1', 'true') else FALSE)
    def r_float(self, e): return ('flt', str(e['v']))
    def r_str(self, e): return ('str', e['v'])
    def r_null(self, e): return NULL
    def r_zero(self, e): return NULL if not self.P.is_rec(e.get('t', '')) else self.default(e.get('t', ''))
    def r_this(self, e): return addr(self.fr.this)
    def r_enumc(self, e): return num(e['v'])
    def r_fnref(self, e): return ('fnref', e.get('qn') or e.get('n') or (e.get('fn') or {}).get('qn'))
    def r_memfn(self, e): return ('fnref', e.get('f') or (e.get('fn') or {}).get('qn'))
    def r_typeid(self, e): return ('typeid', e.get('t'), str(e.get('of')))
    def r_unk(self, e): return self.unk('node ' + str(e.get('c')))
    def r_throw(self, e):
        v = self.rv(e['e']) if e.get('e') else None
        self.throw(e.get('e', {}) and (e.get('e') or {}).get('t', ''), e['l'], v)
        return NULL
    def throw(self, t, line, v=None):
        self.ev('throw', strip_cv(t or ''), () if v is None or v[0] == 'mk' else (v,), line)
        self.thrown.append(self.st.g)
        self.st.g = FALSE

    def r_ref(self, e):
        if e.get('dk') in ('static', 'global'):
            q = e.get('qn')
            if 'v' in e and e['v'] is not None and not isinstance(e['v'], dict): 
                try: return num(int(e['v']))
                except ValueError: pass
            g = self.P.glob.get(q)
            if g and g.get('init') and ('const' in g['t'] or 'constexpr' in g['t']) and not self.P.is_rec(g['t']):
                if g['init'].get('k') in ('int', 'bool', 'enumc', 'str', 'cast'):
                    try: return self.rv(g['init'])
                    except Give: pass
            return ('glob', q)
        return self.load(self.l_ref(e), e)
    def r_binding(self, e): return self.load(self.l_binding(e), e)
    def r_mem(self, e):
        if 'v' in e and not isinstance(e['v'], dict):
            try: return num(int(e['v']))
            except (ValueError, TypeError): pass
        return self.load(self.l_mem(e), e)
    def r_sub(self, e): return self.load(self.l_sub(e), e)

    def r_un(self, e):
        op = e['op']
        if op == '*': return self.load(self.l_un(e), e)
        if op == '&': return addr(self.lv(e['e']))
        if op == '!': return bt(B.neg(node(self.rv(e['e']))))
        if op in ('++', '--'):
            p = self.lv(e['e'])
            self.access(p, e.get('t', ''), 'rw', e['l'])
            v = self.read(p)
            n = add(v, num(1 if op == '++' else -1))
            self.write(p, n, e['l'], e.get('t', ''))
            return v if e.get('post') else n
        v = self.rv(e['e'])
        if op == '-':
            return sub(NULL, v) if v[0] in ('int', 'lin', 'size', 'iv') else ('neg', v)
        if op == '~': return num(~v[1]) if v[0] == 'int' else ('bnot', v)
        if op == '+': return v
        return ('un', op, v)

    def r_bin(self, e):
        op = e['op']
        if op in ('&&', '||'):
            a = node(self.rv(e['a']))
            if a == (FALSE if op == '&&' else TRUE): return bt(a)
            g = self.st.g
            sel = a if op == '&&' else B.neg(a)
            out = []
            self.branch(sel, lambda: out.append(node(self.rv(e['b']))))
            b = out[0] if out else (TRUE if op == '&&' else FALSE)
            return bt(B.conj(a, b) if op == '&&' else B.disj(a, b))
        if op == ',':
            self.rv(e['a'], drop=True); return self.rv(e['b'])
        a = self.rv(e['a']); b = self.rv(e['b'])
        if op in ('==', '!=', '&', '|', '^') and (op in ('&', '|', '^') or 'b' in (a[0], b[0])) and boolean(e['a']) and boolean(e['b']):
            a, b = (x if x[0] in ('b', 'int') and x[1] in (0, 1) or x[0] == 'b' else bt(node(x)) for x in (a, b))
        return self.binop(op, a, b, e)

    def binop(self, op, a, b, e=None):
        t = (e or {}).get('t', '')
        if op == '==': return bt(eq(a, b))
        if op == '!=': return bt(B.neg(eq(a, b)))
        if op == '<': return bt(lt(a, b))
        if op == '>': return bt(lt(b, a))
        if op == '<=': return bt(le(a, b))
        if op == '>=': return bt(le(b, a))
        if op in ('+', '-', '*') and a[0] not in ('flt',) and b[0] not in ('flt',):
            a = ('bv', a[1]) if a[0] == 'b' else a
            b = ('bv', b[1]) if b[0] == 'b' else b
            if op == '+': return add(b, a) if b[0] in ('it', 'rit') else add(a, b)
            if op == '-': return sub(a, b)
            if a[0] == 'ite' and b[0] == 'int': return ite(a[1], mul(a[2], b), mul(a[3], b))
            return mul(a, b)
        if a[0] == 'b' and b[0] == 'b' and op in ('&', '|', '^'):
            return bt(B.conj(a[1], b[1]) if op == '&' else B.disj(a[1], b[1]) if op == '|' else B.ite(a[1], B.neg(b[1]), b[1]))
        if op == '&': return band(a, b)
        if op == '|': return bor(a, b)
        if a[0] == 'int' and b[0] == 'int':
            x, y = a[1], b[1]
            if op == '<<': return num(x << y)
            if op == '>>': return num(x >> y)
            if op == '/' and y: return num(int(x / y))
            if op == '%' and y: return num(x - y * int(x / y))
            if op == '^': return num(x ^ y)
        if op == '<<' and b[0] == 'int' and 0 <= b[1] < 32: return self.binop('*', a, num(1 << b[1]))
        if op == '/' :
            p, q = poly(a), poly(b)
            if len(q) == 1:
                (m, c), = q.items()
                if c == 1 and m and all(set(m) <= set(mm_) and all(mm_.count(x) >= m.count(x) for x in m) for mm_ in p):
                    out = {}
                    for mm_, cc in p.items():
                        l = list(mm_)
                        for x in m: l.remove(x)
                        out[tuple(l)] = cc
                    return unpoly(out)
        return ('op', op, a, b)

    def r_asg(self, e):
        op = e['op']
        t = e.get('t', '') or e['a'].get('t', '')
        if op == '=':
            v = self.rv(e['b'])
            p = self.lv(e['a'])
            if self.P.is_rec(t):
                self.copy_obj(strip_cv(t), p, v, e['l']); return p
        else:
            p = self.lv(e['a'])
            b = self.rv(e['b'])
            self.access(p, t, 'r', e['l'])
            a = self.read(p)
            if strip_cv(t) == 'bool' and op in ('&=', '|=', '^='):
                a, b = bt(node(a)), bt(node(b))
            v = self.binop(op[:-1], a, b, e)
        self.access(p, t, 'w', e['l'])
        self.write(p, v, e['l'], t)
        return v

    def r_cond(self, e):
        c = node(self.rv(e['c']))
        if c == TRUE: return self.rv(e['a'])
        if c == FALSE: return self.rv(e['b'])
        a, b = self.branch(c, lambda: self.rv(e['a']), lambda: self.rv(e['b']))
        if a is None or b is None: return a if b is None else b
        if self.P.is_rec(e.get('t', '')): return pite(c, a, b)
        return self.vite(c, a, b)

    def r_sizeof(self, e): return num(e['v']) if e.get('v') is not None else ('sizeof', str(e.get('of')))

    def r_cast(self, e):
        ck = e['ck']
        if ck in ('BaseToDerived', 'DerivedToBase', 'UncheckedDerivedToBase'):
            v = self.rv(e['e'])
            if ck == 'BaseToDerived':
                ptr = e['t'].rstrip().endswith('*')
                self.cast_ev(e, deref('', v) if ptr else v)
            return v
        if ck == 'NullToPointer': return NULL
        if ck == 'ToVoid':
            self.rv(e['e'], drop=True); return NULL
        v = self.rv(e['e'])
        return self.convert(v, ck, e)

    def convert(self, v, ck, e):
        tb, fb = e.get('tb', 0) or 0, e.get('fb', 0) or 0
        if ck in ('IntegralToBoolean', 'PointerToBoolean'): return bt(node(v))
        if ck == 'FloatingToBoolean': return bt(B.neg(eq(v, ('flt', '0'))))
        if ck == 'IntegralCast':
            if v[0] == 'int':
                w, x = abs(tb), v[1]
                if w and w < 128:
                    x &= (1 << w) - 1
                    if tb < 0 and x >= 1 << (w - 1): x -= 1 << w
                return num(x)
            if v[0] == 'b': return v
            if tb and fb and abs(tb) < abs(fb) and not self.quiet and self.st.g != FALSE: self.narrow.append((v, tb, self.st.g, e.get('l')))
            if v[0] == 'ite' and (v[2][0] == 'int' or v[3][0] == 'int'): return ite(v[1], self.convert(v[2], ck, e), self.convert(v[3], ck, e))
            if tb and fb and abs(tb) < abs(fb) and abs(tb) <= 16: return ('cvt', tb, v)
            if tb and fb and abs(tb) == abs(fb) and abs(tb) <= 16 and (tb < 0) != (fb < 0): return ('cvt', tb, v)
            if v[0] == 'at' and tb and fb and abs(fb) > 16 and abs(tb) <= abs(fb) and tb != fb: return ('cvt', tb, v)
            return v
        if ck in ('FloatingToIntegral', 'IntegralToFloating', 'FloatingCast'):
            if v[0] == 'int' and ck == 'IntegralToFloating': return ('flt', str(v[1]))
            if v[0] == 'b': v = ('bv', v[1])
            return ('cvt', tb, v)
        return v

    def r_init(self, e):
        if len(e['es']) == 1 and not self.P.is_rec(e.get('t', '')) and e.get('t', '') in SCALARS: return self.rv(e['es'][0])
        if not e['es'] and not self.P.is_rec(e.get('t', '')): return NULL if mem_type(e.get('t', '')) in SCALARS or e.get('t', '').endswith('*') else self.default(e.get('t', ''))
        return ('list',) + tuple(self.snap(x.get('t', ''), self.rv(x)) for x in e['es'])

    def r_new(self, e):
        t = strip_cv(e.get('of', ''))
        if e.get('place'):
            pl = e['place']
            ptr = self.rv(pl[0] if isinstance(pl, list) else pl)
            init = self.ctor_term(e.get('init'))
            self.ev('pnew', t, (ptr, init), e['l'], extra=e.get('sz'))
            self.bump(ptr)
            if not self.P.is_rec(t): self.st.store[deref(mem_type(t), ptr)] = init
            return ptr
        n = self.rv(e['size']) if e.get('size') else num(1)
        init = self.ctor_term(e.get('init'))
        self.nnew += 1
        v = ('new', t, n, self.nnew)
        self.ev('new', t, (v, n, init), e['l'])
        return v

    def ctor_term(self, i):
        if i is None: return ('none',)
        if i['k'] == 'ctor':
            if not i['args']: return ('ctor0',)
            a = tuple(self.arg_term(x) for x in i['args'] if not x.get('dflt'))
            if i.get('copymove'): return ('copyof' if not i.get('move') else 'moveof',) + a
            return ('ctor',) + a
        return self.rv(i)

    def arg_term(self, x):
        return self.snap(x.get('t', ''), self.lv(x)) if self.P.is_rec(x.get('t', '')) else self.rv(x)

    def r_delete(self, e):
        v = self.rv(e['e'])
        self.ev('delete', '[]' if e.get('arr') else '', (v,), e['l'])
        return NULL

    def r_pdtor(self, e): return NULL

    def r_lambda(self, e):
        caps = {}
        this = None
        for c in e['caps']:
            if c.get('this'): this = self.fr.this; continue
            if c.get('ref') or c.get('init') is None:
                caps[c['d']] = self.l_ref({'d': c['d'], 'dk': 'local', 'n': c.get('n')})
                if not c.get('ref'):
                    p = self.tmp(); self.st.store[p] = self.read(caps[c['d']]); caps[c['d']] = p
            else:
                src = self.lv(c['init'])
                if c.get('ref'): caps[c['d']] = src
                else:
                    p = self.tmp()
                    self.st.store[p] = self.read(src); caps[c['d']] = p
        self.lams = getattr(self, 'lams', {})
        n = len(self.lams)
        env = dict(self.fr.env)
        if self.fr.up: env = dict(self.fr.up, **env)
        env.update(caps)
        me = (e['fid'], env, self.fr.this, self.fr.cls)
        for k, l in self.lams.items():
            if l == me: return ('lambda', k)
        self.lams[n] = me
        return ('lambda', n)

    def call_lambda(self, n, args, line):
        fid, env, this, cls = self.lams[n]
        f = self.P.fn.get(fid)
        if f is None or f.get('body') is None: return ('V', self.unk('lambda body'))
        def setup(fr): fr.up = env
        return self.inline(f, this, cls, args, line, setup)

    def r_ctor(self, e):
        t = e.get('t', '')
        if self.P.is_rec(t):
            p = self.tmp()
            self.construct(e, p)
            return p
        return self.std_ctor(e)

    def r_call(self, e):
        tag, x = self.call(e)
        if tag == 'V': return x
        return self.load(x, e)

    # ------------------------------------------------------------ constructors
    def construct(self, e, dst):
        f = self.P.fn.get(e['fn']['id'])
        cls = strip_cv(e.get('t', '')) if e.get('t') else e['fn']['cls']
        rc = e['fn'].get('cls') or cls
        if e.get('elid') and e['args']:
            a = e['args'][0]
            if a['k'] == 'ctor': return self.construct(a, dst)
        if f is None or f.get('defaulted') or f.get('body') is None:
            args = [a for a in e['args']]
            if e.get('copymove') and args:
                src = self.lv(args[0])
                self.copy_obj(rc, dst, src, e['l'])
                return
            if f is not None and f.get('inits'): 
                self.inline(f, dst, rc, [self.bind_arg(a, p['t']) for a, p in zip(args, f['params'])], e['l'], ctor=True)
                return
            for n, t in self.P.fields(rc):
                if not self.P.is_rec(t) and not t.endswith('&'): self.st.store[fld(dst, n)] = self.default(t)
            return
        args = [self.bind_arg(a, p['t']) for a, p in zip(e['args'], f['params'])]
        self.inline(f, dst, rc, args, e['l'], ctor=True)

    def ctor_inits(self, f, dst):
        for i in f.get('inits') or []:
            e = i.get('e')
            if e is None: continue
            if 'base' in i or 'deleg' in i:
                if e['k'] == 'ctor':
                    if self.P.is_rec(e.get('t', '')): self.construct(e, dst)
                    else: [self.rv(a) for a in e['args']]
                continue
            n = i['f']
            t = next((x[1] for x in self.P.fields(f['cls']) if x[0] == n), '')
            p = fld(dst, n)
            if t.endswith('&'): self.st.store[p] = addr(self.lv(e))
            elif self.P.is_rec(t):
                if e['k'] == 'ctor': self.construct(e, p)
                else: self.copy_obj(strip_cv(t), p, self.rv(e), f['line'])
            elif strip_cv(t).endswith('DynamicType::Ptr') or not self.P.is_rec(t):
                self.write(p, self.rv(e), e.get('l', f['line']), t)

    # ------------------------------------------------------------ calls
    def bind_arg(self, a, t):
        """('ref', place) or ('val', value) for a parameter of type t"""
        if t.endswith('&'): return ('ref', self.lv(a))
        if self.P.is_rec(t):
            if a['k'] == 'ctor':
                p = self.tmp(); self.construct(a, p); return ('ref', p)
            src = self.rv(a)
            p = self.tmp(); self.copy_obj(strip_cv(t), p, src, a.get('l', 0)); return ('ref', p)
        return ('val', self.rv(a))

    def inline(self, f, this, cls, args, line, setup=None, ctor=False):
        if self.st.g == FALSE: return ('V', NULL)
        for fr in self.frames:
            if fr.fn is f and (len(self.frames) > 12 or fr.this == this or self.count_fn(f) > 1):
                return self.opaque_call(f, this, args, line, 'rec')
        if len(self.frames) > self.maxinl: return self.opaque_call(f, this, args, line, 'deep')
        g0 = self.st.g
        fr = self.push(f, this, cls)
        if setup: setup(fr)
        for (k, v), p in zip(args, f['params']):
            if k == 'ref': fr.env[p['d']] = v
            else:
                pl = ('loc', p['d'], fr.n)
                fr.env[p['d']] = pl
                self.declared.add(pl)
                self.st.store[pl] = v
        ctl, self.ctl = self.ctl, []
        if f['kind'] == 'ctor': self.ctor_inits(f, this)
        if f.get('body') is not None: self.stmt(f['body'])
        self.ctl = ctl
        self.frames.pop()
        rt = f.get('rt', 'void')
        tail = self.st
        outs = [s for _, _, s in fr.rets]
        if not fr.rets:
            return ('V', NULL)
        self.st = self.merge([tail] + outs)
        tot = FALSE
        for g, _, _ in fr.rets: tot = B.disj(tot, g)
        isref = fr.retref or self.P.is_rec(rt)
        v = fr.rets[-1][1]
        for g, x, _ in reversed(fr.rets[:-1]):
            if x is None or v is None: continue
            c = B.restrict(g, tot)
            if isref: v = v if x == v else x if c == TRUE else v if c == FALSE else pite(c, x, v)
            else: v = self.vite(c, x, v)
        if v is None: return ('V', NULL)
        return ('P', v) if fr.retref else ('V', v)

    def count_fn(self, f): return sum(1 for fr in self.frames if fr.fn is f)

    def opaque_call(self, f, this, args, line, why):
        vals = [v for k, v in args]
        if f['name'] == 'code_conversion_tool':
            m = re.search(r'basic_string<(\w+)', f.get('rt', ''))
            return ('V', ('conv8', m.group(1) if m else '') + tuple(self.read(v) if k == 'ref' else v for k, v in args))
        vals = [self.deloc(self.snap(p['t'], v) if k == 'ref' else v) for (k, v), p in zip(args, f['params'])]
        ob = this if this is not None else ('none',)
        if ob[0] == 'at' and self.P.is_rec(ob[1]): ob = ('at', '', ob[2])
        self.ev('call', f['name'], (ob,) + tuple(vals), line, cls=f.get('cls'), extra=why)
        for (k, v), p in zip(args, f['params']):
            if p['t'].endswith('*') and not p['t'].startswith('const'): self.bump(v)
        t = ('call', f['name'], ob) + tuple(vals)
        for i, ((k, v), p) in enumerate(zip(args, f['params'])):
            if p['t'].endswith('&') and not p['t'].startswith('const') and v[0] in ('loc', 'tmp', 'fld'):
                self.forget(v); self.st.store[v] = ('out', self.seq, i); self.log(v)
        if this is not None and f['kind'] == 'method' and not f.get('const') and not f.get('static'):
            for n, _ in self.P.fields(f.get('cls') or ''):
                q = fld(this, n)
                self.forget(q); self.st.store[q] = ('out', self.seq, n); self.log(q)
        rt = f.get('rt', 'void')
        if rt.endswith('&') or self.P.is_rec(rt): return ('P', t)
        t = self.memread(t, [v for (k, v), p in zip(args, f['params']) if p['t'].endswith('*')])
        return ('V', t)

    def call(self, e):
        fn = e.get('fn')
        if fn is None:
            return self.call_value(e)
        qn, name = fn['qn'], fn['name']
        sq = simp(qn)
        obj = e.get('obj')
        # object
        if fn.get('root') or fn['id'] in self.P.fn and self.P.fn[fn['id']].get('body') is not None:
            f = self.P.fn.get(fn['id'])
            this = None
            if fn.get('cls') and not fn.get('static') and obj is not None:
                this = deref('', self.rv(obj)) if e.get('arrow') else self.lv(obj)
            if f is not None and f.get('lambda') and this is not None:
                w = this if this[0] == 'lambda' else self.st.store.get(this, NULL)
                if w[0] == 'lambda' and w[1] in self.lams:
                    args = [self.bind_arg(a, p['t']) for a, p in zip(e['args'], f['params'])]
                    return self.call_lambda(w[1], args, e['l'])
            r = self.repo_special(e, fn, sq, name, this)
            if r is not None: return r
            if fn.get('virtual') and not e.get('qual'):
                cls = self.dyn_class(this)
                if cls:
                    g = self.P.overrider(cls, name, fn['pt'])
                    if g is not None:
                        args = [self.bind_arg(a, p['t']) for a, p in zip(e['args'], g['params'])]
                        return self.inline(g, this, cls, args, e['l'])
                return self.vcall(e, fn, this)
            if f is None or f.get('body') is None:
                if f is not None and f.get('defaulted') and name == 'operator=':
                    src = self.lv(e['args'][0])
                    self.copy_obj(fn['cls'], this, src, e['l']); return ('P', this)
                return self.vcall(e, fn, this)
            if sq in OPAQUE or sq in self.extra_opaque or '%s/%d' % (sq, len(f['params'])) in self.extra_opaque or (self.stop and self.stop(f)):
                args = [self.bind_arg(a, p['t']) for a, p in zip(e['args'], f['params'])]
                return self.opaque_call(f, this, args, e['l'], 'opaque')
            args = [self.bind_arg(a, p['t']) for a, p in zip(e['args'], f['params'])]
            if fn.get('noreturn'):
                self.throw('noreturn', e['l']); return ('V', NULL)
            cls = fn.get('cls')
            if this is not None:
                dc = self.dyn_class(this)
                if dc and self.P.derived(dc, cls): cls = dc
            return self.inline(f, this, cls, args, e['l'])
        return self.std_call(e, fn, sq, name, obj)

    def dyn_class(self, this):
        if this is None: return None
        for fr in self.frames:
            if fr.this == this and fr.cls and this == ('this',): return self.frames[0].cls
        c = self.st.store.get(('cls', this))
        return c[1] if c else None

    def vcall(self, e, fn, this):
        vals = []
        ptrs = []
        for a, t in zip(e['args'], fn['pt']):
            if t.endswith('&') or self.P.is_rec(t): v = self.snap(t, self.lv(a))
            else:
                v = self.rv(a)
                if t.endswith('*'): ptrs.append((v, t))
            vals.append(v)
        if this is not None and this[0] == 'pite' and False: pass
        ob = this if this is not None else ('none',)
        self.ev('vcall', fn['name'], (ob,) + tuple(vals), e['l'], cls=fn.get('cls'))
        t = ('vc', fn['name'], ob) + tuple(vals)
        t = self.memread(t, [v for v, _ in ptrs])
        for v, pt in ptrs:
            if not pt.startswith('const') and fn['name'] not in ('get_instance_at', 'get_instance_size', 'for_each_instance', 'destroy_instance'): self.bump(v)
        rt = fn.get('rt', 'void')
        if rt.endswith('&'): return ('P', t)
        if strip_cv(rt) == 'bool': return ('V', bt(B.atom(('eq', t)) if False else B.neg(eq(t, NULL))))
        return ('V', t)

    def call_value(self, e):
        """call through a value (std::function, lambda)"""
        v = self.rv(e['callee']) if e.get('callee') else self.unk('callee')
        return self.apply(v, e['args'], e['l'])

    def apply(self, v, args, line):
        if v[0] == 'lambda':
            f = self.P.fn.get(self.lams[v[1]][0])
            a = [self.bind_arg(x, p['t']) for x, p in zip(args, f['params'])] if f else []
            return self.call_lambda(v[1], a, line)
        vals = [self.snap(a.get('t', ''), self.lv(a)) if self.P.is_rec(a.get('t', '')) else self.rv(a) for a in args]
        self.ev('visit', '', (v,) + tuple(vals), line)
        return ('V', ('apply', v) + tuple(vals))

    def repo_special(self, e, fn, sq, name, this):
        """repository functions with a fixed meaning"""
        root = self.frames[0].fn
        if sq.startswith(NSP + 'DynamicType::Ptr::') and not root['qn'].startswith(NSP + 'DynamicType::Ptr'):
            v = self.read(this) if this is not None else NULL
            if name == 'get' or name.startswith('operator->'): return ('V', v)
            if name == 'operator*': return ('P', deref('', v))
            if name == 'operator bool': return ('V', bt(node(v)))
            if name == 'operator=':
                a = e['args'][0]
                nv = self.read(self.lv(a)) if 'Ptr' in a.get('t', '') else ('Ptr', self.lv(a))
                if name == 'operator=' and 'Ptr' not in a.get('t', ''): nv = ('Ptr', self.lv(a))
                self.write(this, nv, e['l'], 'Ptr')
                return ('P', this)
            if name in ('operator==', 'operator!='):
                b = self.rv(e['args'][0])
                n = eq(v, b); return ('V', bt(n if name == 'operator==' else B.neg(n)))
            if name == 'reset':
                self.write(this, NULL, e['l'], 'Ptr'); return ('V', NULL)
        if sq == NSP + 'AliasType::rget' and not root['qn'].startswith(NSP + 'AliasType::rget'):
            return ('P', self.rget(this))
        if sq == NSP + 'UnionType::disc' and root['name'] != 'disc':
            return ('V', addr(elem(fld(this, 'members_'), NULL)))
        if sq == NSP + 'UnionType::current_label' and root['name'] != 'current_label':
            if len(fn['pt']) == 3:
                t, p, q = self.lv(e['args'][0]), self.rv(e['args'][1]), self.rv(e['args'][2])
                self.ev('setlabel', 'from', (this, p, self.memread(('label', t, q), [q])), e['l']); self.bump(p)
                return ('V', NULL)
            if strip_cv(fn['pt'][0].rstrip('& ')).endswith('DynamicType'):
                t, p = self.lv(e['args'][0]), self.rv(e['args'][1])
                self.ev('getlabel', '', (this, t, p), e['l'])
                return ('V', self.memread(('label', t, p), [p]))
            p, v = self.rv(e['args'][0]), self.rv(e['args'][1])
            self.ev('setlabel', '', (this, p, v), e['l']); self.bump(p)
            return ('V', NULL)
        if sq == NSP + 'primitive_type':
            return ('P', ('prim', self.tmpl_arg(fn)))
        if sq == NSP + 'Instanceable::hash_combine' and root['name'] != 'hash_combine':
            p = self.lv(e['args'][0]); x = self.rv(e['args'][1])
            self.write(p, ('combine', self.read(p), x), e['l'], 'hash')
            return ('V', NULL)
        if sq == NSP + 'Instanceable::hash64' and root['name'] != 'hash64':
            v = tuple(self.rv(a) for a in e['args'])
            return ('V', self.memread(('hash64',) + v, v[:1]))
        return None

    def rget(self, p):
        if p[0] == 'pite': return pite(p[1], self.rget(p[2]), self.rget(p[3]))
        return ('rget', p)

    def tmpl_arg(self, fn):
        rt = fn.get('rt', '')
        m = re.search(r'PrimitiveType<(.*)>', rt)
        if m: return m.group(1)
        f = self.P.fn.get(fn['id'])
        if f and f.get('targs'): return str(f['targs'])
        return fn['qn'].split('<', 1)[-1][:-1] if '<' in fn['qn'] else 'f%d' % fn['id']

    # ------------------------------------------------------------ the standard library
    def std_ctor(self, e):
        t = simp(strip_cv(e.get('t', '')))
        args = [a for a in e['args'] if not a.get('dflt') and not strip_cv(a.get('t', '')).startswith('std::allocator')]
        if t.endswith('DynamicType::Ptr'):
            if not args: return NULL
            a = args[0]
            at = strip_cv(a.get('t', ''))
            if at.endswith('DynamicType::Ptr'): return self.read(self.lv(a))
            f = e['fn']
            pt = f['pt'][0] if f.get('pt') else ''
            if 'shared_ptr' in pt: return self.rv(a)
            return ('Ptr', self.lv(a))
        if not args: return self.default(e.get('t', '')) if t.split('::')[-1] in ('basic_string', 'vector', 'map', 'shared_ptr', 'weak_ptr', 'set') else ('ctor0', t)
        if e.get('move') and len(args) == 1:
            p = self.lv(args[0]); v = self.read(p)
            if not self.is_local(p) or place_root(p)[0] == 'loc':
                if t.split('::')[-1] in ('shared_ptr',): self.moved(p, e['l'])
                elif t.split('::')[-1] in ('basic_string', 'vector', 'map') : self.moved(p, e['l'])
            self.access(p, e.get('t', ''), 'r', e['l'])
            return v
        if len(args) == 1:
            a = args[0]
            if t.split('::')[-1] in ('basic_string', 'shared_ptr', 'weak_ptr', 'function', '_Rb_tree_const_iterator', '_Rb_tree_iterator', '__normal_iterator', 'reference_wrapper') or e.get('copymove'):
                if t.split('::')[-1] == 'reference_wrapper': return addr(self.lv(a))
                if t.split('::')[-1] == 'shared_ptr':
                    b = a
                    while b.get('k') in ('cast', 'paren') and isinstance(b.get('e'), dict): b = b['e']
                    i = b.get('init') if b.get('k') == 'new' and not b.get('place') and not b.get('size') else None
                    if i and i['k'] == 'ctor':
                        # owned from the start: as make_shared, with the same arguments
                        vals = tuple(self.snap(x.get('t', ''), self.rv(x)) for x in i['args'] if not x.get('dflt'))
                        self.ev('mkshared', e.get('t', ''), vals, e['l'])
                        return ('mkshared', simp2(e.get('t', ''))) + vals
                return self.rv(a)
            if t.split('::')[-1] in ('vector', 'map') and 'initializer_list' in (e['fn'].get('pt') or [''])[0]:
                return ('mk' + t.split('::')[-1], self.rv(a))
        vals = tuple(self.rv(a) for a in args)
        if t == 'std::pair' and len(vals) == 2: return ('mkpair',) + vals
        if t.split('::')[-1] == 'basic_string' and len(vals) == 2 and vals[0][0] == vals[1][0] == 'it' and vals[0][1] == vals[1][1]:
            v = self.read(vals[0][1])
            v = self.cut(v, vals[0][2], vals[1][2])
            to, frm = (re.search(r'basic_string<(\w+)', x) for x in (e.get('t', ''), args[0].get('t', '')))
            if to and frm: return v if to.group(1) == frm.group(1) else ('conv', to.group(1), frm.group(1), v)
        if t == 'std::vector' and len(vals) == 2 and vals[0][0] == vals[1][0] == 'it' and vals[0][1] == vals[1][1] and 'vector' in args[0].get('t', ''):
            return self.cut(self.read(vals[0][1]), vals[0][2], vals[1][2])
        return ('mk', t.split('::')[-1]) + vals

    def cut(self, v, frm, to): return v if (frm, to) == (NULL, self.size_of(v)) else ('part', v, frm, to)

    def moved(self, p, line):
        self.write(p, ('moved', self.read(p)), line, 'move') if not self.is_local(p) else self.st.store.__setitem__(p, ('moved',))

    def mut(self, p, name, args, line, newval=None):
        self.ev('mut', name, (p,) + tuple(args), line) if not self.is_local(p) else None
        old = self.read(p)
        self.forget(p)
        self.st.store[p] = newval if newval is not None else ('mutd', name, old) + tuple(args)
        self.log(p)

    def deref_it(self, v):
        if v[0] == 'ite': return pite(v[1], self.deref_it(v[2]), self.deref_it(v[3]))
        if v[0] == 'it': return elem(v[1], v[2])
        if v[0] == 'rit': return elem(v[1], sub(sub(self.size_of(self.read(v[1])), num(1)), v[2]))
        if v[0] == 'mfind':
            p = ('kv', v[1], v[2])
            return p
        return ('at', '', v)

    def std_call(self, e, fn, sq, name, obj):
        A = e['args']
        cls = simp(fn.get('cls') or '')
        C = cls.split('::')[-1]
        l = e['l']
        def args(skip=0): return tuple(self.snap(a.get('t', ''), self.rv(a)) for a in A[skip:])
        # ---- smart pointers
        if C in ('__shared_ptr', '__shared_ptr_access', 'shared_ptr', 'unique_ptr', 'weak_ptr', '__weak_ptr'):
            p = self.lv(obj) if not e.get('arrow') else deref('', self.rv(obj))
            v = self.read(p)
            if name in ('get', 'operator->', 'lock'): return ('V', v)
            if name == 'operator*': return ('P', deref('', v))
            if name == 'operator bool': return ('V', bt(node(v)))
            if name == 'operator=':
                a = A[0]
                q = None
                if fn['pt'] and '&&' in fn['pt'][0]:
                    q = self.lv(a); nv = self.read(q)
                else: nv = self.rv(a)
                self.write(p, nv, l, 'ptr')
                if q is not None and q != p and not self.is_local(q): self.write(q, NULL, l, 'ptr')
                return ('P', p)
            if name == 'reset':
                nv = self.rv(A[0]) if A else NULL
                self.write(p, nv, l, 'ptr'); return ('V', NULL)
            if name == 'swap':
                q = self.lv(A[0]); a, b = self.read(p), self.read(q)
                self.write(p, b, l, 'ptr'); self.write(q, a, l, 'ptr'); return ('V', NULL)
            if name in ('use_count', 'expired'): return ('V', ('std', name, v))
        if C == 'enable_shared_from_this' or name in ('shared_from_this', 'weak_from_this'):
            this = deref('', self.rv(obj)) if e.get('arrow') else self.lv(obj)
            if name == 'enable_shared_from_this': return ('V', NULL)
            return ('V', ('shr', this))
        if C in ('reference_wrapper',): return ('P', deref('', self.rv(obj)))
        if C == 'function':
            v = self.rv(obj) if not e.get('arrow') else self.read(deref('', self.rv(obj)))
            if name == 'operator()': return self.apply(v, A, l)
            if name == 'operator bool': return ('V', bt(node(v)))
        if obj is None and e.get('oper') and name == 'operator()' and False: pass
        # ---- iterators
        if C in ('__normal_iterator', '_Rb_tree_const_iterator', '_Rb_tree_iterator', 'reverse_iterator', '_Bit_const_iterator', '_Bit_iterator', 'move_iterator', '_Node_iterator', '_Node_const_iterator'):
            p = self.lv(obj)
            v = self.read(p)
            if name in ('operator*', 'operator->'):
                d = self.deref_it(v)
                return ('P', d) if name == 'operator*' else ('V', addr(d))
            if name in ('operator++', 'operator--', 'operator+=', 'operator-='):
                k = self.rv(A[0]) if name in ('operator+=', 'operator-=') else num(1)
                n = add(v, k, 1 if name in ('operator++', 'operator+=') else -1)
                self.write(p, n, l, 'it')
                if name in ('operator++', 'operator--') and A: return ('V', v)
                return ('P', p)
            if name == 'operator+': return ('V', add(v, self.rv(A[0])))
            if name == 'operator-': return ('V', sub(v, self.rv(A[0])))
            if name == 'operator[]': return ('P', self.deref_it(add(v, self.rv(A[0]))))
            if name in ('operator==', 'operator!='):
                n = eq(v, self.rv(A[0])); return ('V', bt(n if name == 'operator==' else B.neg(n)))
            if name == 'operator=':
                nv = self.rv(A[0]); self.write(p, nv, l, 'it'); return ('P', p)
            if name == 'base': return ('V', ('base', v))
        # ---- containers
        if C in ('vector', 'basic_string', 'map', 'set', 'unordered_map', 'basic_string_view', 'array', 'list', 'deque', 'initializer_list', 'multimap'):
            p = deref('', self.rv(obj)) if e.get('arrow') else self.lv(obj)
            r = self.container(C, name, p, A, e, fn, l)
            if r is not None: return r
        # ---- streams
        if name == 'operator<<' and (C.startswith('basic_ostream') or 'ostream' in (fn.get('rt') or '')):
            if obj is not None: s = self.lv(obj); xs = A
            else: s = self.lv(A[0]); xs = A[1:]
            vals = []
            for a in xs:
                if a['k'] in ('fnref',): vals.append(('fnref', 'std::fixed') if (a.get('fn') or {}).get('qn') == 'std::fixed' else ('fnref',)); continue
                vals.append(self.deloc(self.snap(a.get('t', ''), self.rv(a))))
            self.ev('stream', '', (s,) + tuple(vals), l, extra=tuple(a.get('t', '') for a in xs))
            if self.is_local(s): 
                pass
            return ('P', s)
        if C in ('basic_stringstream', 'basic_ostringstream', 'basic_istringstream', 'basic_streambuf', 'basic_ios', 'ios_base', 'locale', 'basic_ostream'):
            s = self.lv(obj) if obj is not None and not e.get('arrow') else None
            if name == 'str' and not A: return ('V', ('sstr', self.read(s), s) if s else self.unk('str'))
            vals = args()
            if s is not None and name == 'precision' and len(vals) == 1:
                self.ev('stream', '', (s, ('std', 'std::setprecision', vals[0])), l, extra=('',))
                return ('V', self.unk('precision'))
            if s is not None and not fn.get('const'): self.mut(s, name, vals, l)
            return ('V', ('std', C + '::' + name) + vals)
        if C == 'numeric_limits' and not A and name in ('max', 'min', 'lowest') and fn.get('rt') in INTW:
            w, sg = INTW[fn['rt']]
            return ('V', num((2 ** (w - sg) - 1) if name == 'max' else -2 ** (w - 1) if sg else 0))
        # ---- free functions
        if cls in ('', 'std') or not fn.get('cls') or fn.get('static'):
            r = self.free(e, fn, sq, name, A, l)
            if r is not None: return r
        if fn.get('cls') and obj is not None:
            p = deref('', self.rv(obj)) if e.get('arrow') else self.lv(obj)
            vals = args()
            if C == 'less' and name == 'operator()': return ('V', bt(lt(*vals)))
            if C in ('hash',) : return ('V', ('std', 'hash', C) + vals)
            if not fn.get('const') and name not in ('operator()',): self.mut(p, name, vals, l)
            for i, (a, t) in enumerate(zip(A, fn.get('pt') or ())):
                if t.endswith('&') and not t.endswith('&&') and not t.startswith('const '):
                    q = self.lv(a)
                    if self.is_local(q): self.forget(q); self.st.store[q] = ('out', self.seq, i); self.log(q)
            if (fn.get('rt') or '').endswith('&'): return ('P', ('std', C + '::' + name, self.read(p)) + vals)
            return ('V', ('std', C + '::' + name, self.read(p)) + vals)
        vals = args()
        return ('V', ('std', sq) + vals)

    def container(self, C, name, p, A, e, fn, l):
        str_ = C in ('basic_string', 'basic_string_view')
        v = self.read(p)
        if p[0] == 'at' and p[1]: self.access(p, p[1], 'r', l)
        if name in ('size', 'length'): return ('V', self.size_of(v))
        if name == 'empty': return ('V', bt(eq(self.size_of(v), NULL)))
        if name in ('begin', 'cbegin'): return ('V', ('it', p, NULL))
        if name in ('end', 'cend'): return ('V', ('it', p, self.size_of(v)))
        if name in ('rbegin', 'crbegin'): return ('V', ('rit', p, NULL))
        if name in ('rend', 'crend'): return ('V', ('rit', p, self.size_of(v)))
        if name in ('c_str', 'data') and str_: return ('V', v if v[0] == 'str' else ('cstr', v))
        if name == 'data': return ('V', addr(('elem', p, NULL)))
        if C in ('map', 'unordered_map', 'set', 'multimap'):
            if name in ('count', 'contains'):
                k = self.key(A[0])
                h = self.has_key(v, k)
                return ('V', bt(h) if name == 'contains' else ite(h, num(1), num(0)))
            if name == 'at':
                k = self.key(A[0]); self.ev('mapat', C, (p, k), l); return ('P', ('mapat', p, k))
            if name == 'find':
                if v == ('empty',): self.key(A[0]); return ('V', ('it', p, NULL))
                return ('V', ('mfind', p, self.key(A[0])))
            if name == 'operator[]':
                k = self.key(A[0])
                self.ev('mut', 'operator[]', (p, k), l) if not self.is_local(p) else None
                if not self.is_local(p) or True:
                    self.log(p)
                q = ('mapat', p, k)
                h = self.has_key(v, k)
                if h != TRUE:
                    self.st.store[p] = ('mset', v, k, ite(h, self.read(q), ('default',)))
                return ('P', q)
            if name in ('emplace', 'insert', 'try_emplace', 'insert_or_assign'):
                vals = tuple(self.snap(a.get('t', ''), self.rv(a)) for a in A)
                self.ev('mut', name, (p,) + vals, l) if not self.is_local(p) else None
                if len(vals) == 1 and vals[0][0] == 'mkpair': vals = vals[0][1:]
                h = TRUE if not vals else self.has_key(v, vals[0])
                if len(vals) == 2: self.st.store[p] = ite(FALSE if name == 'insert_or_assign' else h, v, ('mset', v, vals[0], vals[1]))
                else: self.st.store[p] = ('mutd', name, v) + vals
                self.log(p)
                q = self.tmp()
                self.st.store[q] = ('mkpair', ('mfind', p, vals[0]) if vals else NULL, bt(B.neg(h)))
                return ('P', q)
            if name in ('erase', 'clear'):
                vals = tuple(self.rv(a) for a in A)
                self.mut(p, name, vals, l, ('empty',) if name == 'clear' else None)
                return ('V', ('std', 'erase', v) + vals)
            if name == 'operator=':
                nv = self.rv(A[0]); self.write(p, nv, l, 'container'); self.forget(p); return ('P', p)
            return None
        # sequences
        if name == 'operator[]' : return ('P', elem(p, self.rv(A[0])))
        if name == 'at':
            i = self.rv(A[0]); self.ev('vecat', C, (p, i), l); return ('P', elem(p, i))
        if name == 'front': return ('P', elem(p, NULL))
        if name == 'back': return ('P', elem(p, sub(self.size_of(v), num(1))))
        if name in ('push_back', 'emplace_back'):
            if len(A) == 1:
                x = self.snap(A[0].get('t', ''), self.rv(A[0]))
            else: x = ('mk', name) + tuple(self.snap(a.get('t', ''), self.rv(a)) for a in A)
            self.ev('mut', name, (p, x), l) if not self.is_local(p) else None
            self.st.store[p] = ('push', v, x) if not str_ else ('cat', v, x)
            self.log(p)
            return ('P', elem(p, self.size_of(v)))
        if name == 'operator=':
            a = A[0]
            q = self.lv(a); nv = self.read(q)
            self.access(p, p[1] if p[0] == 'at' else '', 'w', l)
            self.write(p, nv, l, 'container'); self.forget(p); return ('P', p)
        if name in ('operator+=', 'append') and str_:
            vals = tuple(self.rv(a) for a in A)
            self.ev('mut', name, (p,) + vals, l) if not self.is_local(p) else None
            self.st.store[p] = ('cat', v) + vals; self.log(p)
            return ('P', p)
        if str_ and name == 'compare' and len(A) == 1:
            w = self.rv(A[0]); return ('V', ite(eq(v, w), NULL, ('strcmp', v, w)))
        if name.startswith('operator basic_string_view'): return ('V', v)
        if name.startswith('~'):
            self.ev('dtor', p[1] if p[0] == 'at' else C, (addr(p),), l)
            self.bump(addr(p)); return ('V', NULL)
        vals = tuple(self.snap(a.get('t', ''), self.rv(a)) for a in A)
        if fn.get('const') and C == 'basic_string': return ('V', text_query(name, v, vals))
        if fn.get('const'): return ('V', ('std', C + '::' + name, v) + vals)
        self.mut(p, name, vals, l, ('empty',) if name == 'clear' else None)
        return ('V', ('std', C + '::' + name, v) + vals)

    def key(self, a): return self.rv(a)

    def has_key(self, v, k):
        if v[0] == 'mset':
            q = eq(v[2], k)
            return TRUE if q == TRUE else B.disj(q, self.has_key(v[1], k))
        if v[0] == 'empty': return FALSE
        if v[0] == 'ite': return B.ite(v[1], self.has_key(v[2], k), self.has_key(v[3], k))
        if v[0] == 'mutd' and v[1] == 'erase' and len(v) == 4 and (v[3][0] == 'mfind' or v[3] == k):
            x = v[3][2] if v[3][0] == 'mfind' else v[3]
            return B.conj(B.neg(eq(x, k)), self.has_key(v[2], k))
        return has(v, k)

    def free(self, e, fn, sq, name, A, l):
        R = self.rv
        if name in ('move', 'forward') and len(A) == 1: return ('P', self.lv(A[0]))
        if name == 'as_const' and len(A) == 1: return ('P', self.lv(A[0]))
        if name == 'addressof': return ('V', addr(self.lv(A[0])))
        if name in ('ref', 'cref'): return ('V', addr(self.lv(A[0])))
        if name in ('min', 'max') and len(A) == 2:
            a, b = R(A[0]), R(A[1])
            small = [narrow32(x) for x in A[:2]]
            for x, y, s in ((a, b, small[0]), (b, a, small[1])):
                if B.implies(self.st.g, le(x, y)): return ('V', x if name == 'min' else y)
                if s and y[0] == 'int' and y[1] >= 2 ** 32 - 1: return ('V', x if name == 'min' else y)
                if s and y[0] == 'ite' and y[2][0] == 'int' and y[2][1] >= 2 ** 32 - 1: return ('V', ite(y[1], x if name == 'min' else y[2], mm(name, x, y[3])))
            return ('V', mm(name, a, b))
        if name in ('operator==', 'operator!=') and len(A) == 2:
            a, b = R(A[0]), R(A[1])
            for q in (A[0], A[1]): pass
            n = eq(a, b)
            return ('V', bt(n if name == 'operator==' else B.neg(n)))
        if name in ('operator<', 'operator>', 'operator<=', 'operator>=') and len(A) == 2:
            return ('V', self.binop(name[8:], R(A[0]), R(A[1])))
        if name == 'operator+' and len(A) == 2:
            a, b = R(A[0]), R(A[1])
            if a[0] == 'it' or b[0] == 'it': return ('V', add(a, b))
            return ('V', ('cat', a, b))
        if name == 'operator-' and len(A) == 2: return ('V', sub(R(A[0]), R(A[1])))
        if name in ('begin', 'cbegin') and len(A) == 1: return ('V', ('it', self.lv(A[0]), NULL))
        if name in ('end', 'cend') and len(A) == 1:
            p = self.lv(A[0]); return ('V', ('it', p, self.size_of(self.read(p))))
        if name in ('rbegin', 'crbegin') and len(A) == 1: return ('V', ('rit', self.lv(A[0]), NULL))
        if name in ('rend', 'crend') and len(A) == 1:
            p = self.lv(A[0]); return ('V', ('rit', p, self.size_of(self.read(p))))
        if name in ('next', 'prev'):
            v = R(A[0]); k = R(A[1]) if len(A) > 1 and not A[1].get('dflt') else num(1)
            return ('V', add(v, k, 1 if name == 'next' else -1))
        if name == 'advance':
            p = self.lv(A[0]); self.write(p, add(self.read(p), R(A[1])), l, 'it'); return ('V', NULL)
        if name == 'distance': return ('V', sub(R(A[1]), R(A[0])))
        if name == 'size' and len(A) == 1: return ('V', self.size_of(self.read(self.lv(A[0]))))
        if name == 'swap' and len(A) == 2:
            p, q = self.lv(A[0]), self.lv(A[1]); a, b = self.read(p), self.read(q)
            self.write(p, b, l); self.write(q, a, l); return ('V', NULL)
        if name == 'exchange':
            p = self.lv(A[0]); a = self.read(p); self.write(p, R(A[1]), l); return ('V', a)
        if name in ('memcpy', 'memmove', '__builtin_memcpy', 'memset'):
            v = [R(a) for a in A]
            self.ev('memset' if name == 'memset' else 'memcpy', name, v, l)
            self.bump(v[0]); return ('V', v[0])
        if name in ('copy_n', 'copy', 'fill_n', 'fill', 'copy_backward') and len(A) == 3 and self.bytes_of(A[0]) and (self.bytes_of(A[2 if name[:2] == 'co' else 1]) or name[:2] == 'fi'):
            # the same bytes as memmove/memset; copy goes front to back, copy_backward back to front
            v = [R(a) for a in A]
            w = self.bytes_of(A[0])
            n = mul(num(w), v[1]) if name.endswith('_n') else sub(v[1], v[0])
            if name == 'copy_backward': dst = sub(v[2], n)
            elif name[:2] == 'co': dst = v[2]
            else: dst = v[0]
            if name[:2] == 'fi':
                if w == 1: self.ev('memset', name, (dst, v[2] if name == 'fill' else v[2], n), l)
                else: return None
            else: self.ev('memcpy', name, (dst, v[0], n), l)
            self.bump(dst)
            return ('V', NULL if name == 'fill' else dst if name == 'copy_backward' else add(dst, n))
        if name == 'copy' and len(A) == 3:
            v = [R(a) for a in A]
            if all(x[0] == 'it' for x in v) and v[0][1] == v[1][1] != v[2][1] and self.is_local(v[2][1]) and v[2][2] == NULL:
                if self.size_of(self.read(v[2][1])) == sub(v[1][2], v[0][2]):
                    self.mut(v[2][1], 'copy', (), l, self.cut(self.read(v[0][1]), v[0][2], v[1][2]))
                    return ('V', add(v[2], sub(v[1][2], v[0][2])))
        if name in ('memcmp', '__builtin_memcmp'):
            v = [R(a) for a in A]
            self.ev('memcmp', name, v, l)
            x = self.memread(('memeq',) + tuple(sorted(v[:2], key=key)) + (v[2],), v[:2])
            return ('V', ite(B.atom(x), NULL, ('memcmp',) + tuple(v)))
        if name == 'equal' and len(A) == 3:
            v = [R(a) for a in A]
            n = sub(v[1], v[0])
            self.ev('memcmp', name, (v[0], v[2], n), l)
            x = self.memread(('memeq',) + tuple(sorted((v[0], v[2]), key=key)) + (n,), v)
            return ('V', bt(B.atom(x)))
        if name == 'make_shared':
            vals = tuple(self.snap(a.get('t', ''), self.rv(a)) for a in A)
            self.ev('mkshared', fn.get('rt', ''), vals, l)
            return ('V', ('mkshared', simp2(fn.get('rt', ''))) + vals)
        if name in ('static_pointer_cast', 'const_pointer_cast', 'dynamic_pointer_cast'): return ('V', R(A[0]))
        if name == 'make_pair': return ('V', ('mkpair', R(A[0]), R(A[1])))
        if name == 'destroy_at':
            v = R(A[0]); t = strip_cv(A[0].get('t', '').rstrip('* '))
            self.ev('dtor', t, (v,), l); self.bump(v); return ('V', NULL)
        if name in ('for_each', 'all_of', 'any_of', 'none_of', 'find_if', 'count_if', 'find_if_not') and len(A) == 3:
            return self.algo(name, A, l)
        if name in ('sort', 'stable_sort') and len(A) in (2, 3):
            return self.sort(A, l)
        if name == 'unreachable' or name == '__builtin_unreachable' or fn.get('noreturn'):
            self.throw('noreturn', l); return ('V', NULL)
        if name == 'to_string': return ('V', ('to_string', (fn.get('pt') or [''])[0]) + tuple(R(a) for a in A))
        return None

    def bytes_of(self, e):
        """The size of what a pointer to plain numbers or characters points to; None for anything else."""
        t = strip_cv(e.get('t', ''))
        if not t.rstrip().endswith('*'): return None
        return {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'char16_t': 2, 'int': 4, 'unsigned int': 4, 'wchar_t': 4,
                'char32_t': 4, 'float': 4, 'long': 8, 'unsigned long': 8, 'double': 8, 'uint8_t': 1, 'std::byte': 1}.get(strip_cv(t.rstrip()[:-1].rstrip()).replace('const ', '').strip())

    def sort(self, A, l):
        b, en = self.rv(A[0]), self.rv(A[1])
        fnv = self.rv(A[2]) if len(A) == 3 else None
        if b[0] != 'it' or en[0] != 'it' or b[1] != en[1]: return ('V', self.unk('sort'))
        v = self.read(b[1])
        xs = [('loc', ('srt', i), 0) for i in (0, 1)]
        for i, x in enumerate(xs): self.st.store[x] = ('sorta', i)
        if fnv is None: cmp = bt(lt(('sorta', 0), ('sorta', 1)))
        elif fnv[0] != 'lambda': return ('V', self.unk('sort order'))
        else:
            ps = self.P.fn.get(self.lams[fnv[1]][0])['params']
            tag, cmp = self.call_lambda(fnv[1], [('ref', x) if p['t'].endswith('&') else ('val', self.read(x)) for x, p in zip(xs, ps)], l)
        for x in xs: self.st.store.pop(x, None)
        whole = b[2] == NULL and en[2] == self.size_of(v)
        if self.is_local(b[1]): self.forget(b[1])
        if whole and v[0] == 'partsorted': v = v[1]
        self.st.store[b[1]] = ('sorted', v, cmp) if whole else ('partsorted', v)
        self.log(b[1])
        if not self.is_local(b[1]): self.ev('mut', 'sort', (b[1],), l)
        return ('V', NULL)

    def algo(self, name, A, l):
        b, en = self.rv(A[0]), self.rv(A[1])
        fnv = self.rv(A[2])
        it = ('loc', ('alg', l, self.nfr, self.ntmp), self.fr.n)
        self.ntmp += 1
        self.st.store[it] = b
        res = ('loc', ('algr', l, self.ntmp), self.fr.n)
        if name in ('all_of', 'none_of', 'any_of'): self.st.store[res] = bt(FALSE if name == 'any_of' else TRUE)
        def body():
            p = self.deref_it(self.st.store[it])
            if fnv[0] != 'lambda':
                self.unk('algorithm callee'); return
            f = self.P.fn.get(self.lams[fnv[1]][0])
            tag, x = self.call_lambda(fnv[1], [('ref', p) if f['params'][0]['t'].endswith('&') else ('val', self.read(p))], l)
            n = node(x)
            if name == 'all_of': self.st.store[res] = bt(B.conj(node(self.st.store[res]), n))
            if name == 'any_of': self.st.store[res] = bt(B.disj(node(self.st.store[res]), n))
            if name == 'none_of': self.st.store[res] = bt(B.conj(node(self.st.store[res]), B.neg(n)))
            if name in ('all_of', 'any_of', 'none_of'): self.log(res)
            if name in ('find_if', 'find_if_not'):
                if name == 'find_if_not': n = B.neg(n)
                def br():
                    self.ctl[-1].brk.append(self.st.fork()); self.st.g = FALSE
                self.branch(n, br)
        def inc():
            self.st.store[it] = add(self.st.store[it], num(1)); self.log(it)
        self.loop(lambda: B.neg(eq(self.st.store[it], en)), body, inc, l)
        if name in ('find_if', 'find_if_not'): return ('V', self.st.store.get(it, NULL))
        return ('V', self.st.store.get(res, NULL))

def simp2(t):
    m = re.match(r'std::shared_ptr<(?:typename )?(.*)>$', t.strip())
    if not m:
        m = re.search(r'shared_ptr<(.*)>', t)
    return strip_cv(m.group(1)) if m else t
