"""A small typestate walker over structured bodies: finite abstract states through every path of a function.
A client gives: start (a state), call(node, states) -> states, cond(node, state) -> (states if true, states if false).
States are hashable.  walk() returns the states at each way out: {'fall','return','break','continue','throw'}."""

class Out(dict):
    def __missing__(self, k): self[k] = set(); return self[k]
    def add(self, o, but=()):
        for k, v in o.items():
            if k not in but: self[k] |= v

class Flow:
    def __init__(self, client): self.c = client
    def stmts(self, xs, S):
        out = Out(); cur = set(S)
        for x in xs:
            o = self.stmt(x, cur); out.add(o, ('fall',)); cur = o['fall']
        out['fall'] = cur
        return out
    def expr(self, e, S):
        """states after evaluating e (short-circuit operators are split)"""
        if not isinstance(e, (dict, list)) or not S: return S
        if isinstance(e, list):
            for x in e: S = self.expr(x, S)
            return S
        k = e.get('k')
        if k == 'lambda': return S
        if k == 'asg' and e.get('op') == '=' and e['a'].get('k') == 'ref' and e['a'].get('t') == 'bool' and hasattr(self.c, 'truth'):
            t, f = self.cond(e['b'], S)
            return {self.c.truth(e['a']['d'], True, x) for x in t} | {self.c.truth(e['a']['d'], False, x) for x in f}
        if k == 'log' or k == 'bin' and e.get('op') in ('&&', '||') or k == 'cond':
            t, f = self.cond(e, S)
            if k == 'cond': return t | f
            return t | f
        for key in sorted(e):
            if key in ('fn', 't', 'l', 'k', 'n', 'qn'): continue
            if isinstance(e[key], (dict, list)): S = self.expr(e[key], S)
        return set().union(*[self.c.step(e, s) for s in S]) if S else S
    def cond(self, e, S):
        k = e.get('k')
        if k == 'cast' and e.get('ck') not in ('PointerToBoolean',) : return self.cond(e['e'], S)
        if k == 'paren': return self.cond(e['e'], S)
        if k == 'un' and e.get('op') == '!': t, f = self.cond(e['e'], S); return f, t
        if e.get('op') in ('&&', '||'):
            t, f = self.cond(e['a'], S)
            if e['op'] == '&&': t2, f2 = self.cond(e['b'], t); return t2, f | f2
            t2, f2 = self.cond(e['b'], f); return t | t2, f2
        if k == 'cond':
            t, f = self.cond(e['c'], S)
            a, b = self.cond(e['a'], t), self.cond(e['b'], f)
            return a[0] | b[0], a[1] | b[1]
        S = self.expr(e, S)
        T, N = set(), set()
        for s in S:
            a, b = self.c.cond(e, s); T |= set(a); N |= set(b)
        return T, N
    def loop(self, c, body, inc, S, first_test=True):
        out = Out(); seen = set(); work = set(S); exits = set()
        while work - seen:
            new = work - seen; seen |= new
            if first_test and c is not None: t, f = self.cond(c, new)
            else: t, f = new, set()
            exits |= f
            o = self.stmt(body, t)
            out.add(o, ('fall', 'break', 'continue'))
            exits |= o['break']
            nxt = o['fall'] | o['continue']
            if inc is not None: nxt = self.expr(inc, nxt)
            if not first_test:
                t, f = self.cond(c, nxt); exits |= f; nxt = t
            work = nxt
            if len(seen) > 4000: raise RuntimeError('too many states')
        out['fall'] = exits
        return out
    def stmt(self, s, S):
        out = Out()
        if not S or s is None: out['fall'] = set(S); return out
        k = s['s']
        if k == 'block': return self.stmts(s['b'], S)
        if k == 'expr':
            e = s['e']
            if e.get('k') == 'throw':
                out['throw'] = self.expr(e.get('e'), S); return out
            out['fall'] = self.expr(e, S); return out
        if k == 'decl':
            for v in s['vars']:
                if v.get('init') is not None and v.get('t', '').replace('const ', '') == 'bool' and hasattr(self.c, 'truth'):
                    t, f = self.cond(v['init'], S)
                    S = {self.c.truth(v['d'], True, x) for x in t} | {self.c.truth(v['d'], False, x) for x in f}; continue
                if v.get('init') is not None: S = self.expr(v['init'], S)
                S = set().union(*[self.c.bound(v, x) for x in S]) if S else S
            out['fall'] = S; return out
        if k == 'rangefor':
            S = self.expr(s.get('r'), S)
            out['fall'] = set(S); seen = set(); work = set(S)
            while work - seen:
                new = work - seen; seen |= new
                o = self.stmt(s['b'], new); out.add(o, ('fall', 'break', 'continue'))
                work = o['fall'] | o['continue']; out['fall'] |= work | o['break']
            return out
        if k == 'if':
            if s.get('cv'): raise RuntimeError('variable in a condition')
            if s.get('init') is not None: S = self.stmt(s['init'], S)['fall']
            t, f = self.cond(s['c'], S)
            a = self.stmt(s['a'], t) if t else Out()
            b = self.stmt(s['b'], f) if s.get('b') is not None and f else Out(fall=f)
            out.add(a); out.add(b); return out
        if k == 'return':
            out['return'] = self.expr(s.get('e'), S) if s.get('e') is not None else set(S); return out
        if k in ('break', 'continue'): out[k] = set(S); return out
        if k == 'while': return self.loop(s['c'], s['b'], None, S)
        if k == 'do': return self.loop(s['c'], s['b'], None, S, first_test=False)
        if k == 'for':
            o = self.stmt(s['init'], S) if s.get('init') is not None else Out(fall=set(S))
            r = self.loop(s.get('c'), s['b'], s.get('inc'), o['fall'])
            return r
        if k == 'switch':
            if s.get('init') is not None: S = self.stmt(s['init'], S)['fall']
            S = self.expr(s['c'], S)
            items = []
            def put(x):
                if x['s'] in ('case', 'default'):
                    items.append(('L', x))
                    if x.get('b') is not None: put(x['b'])
                else: items.append(('S', x))
            for x in (s['b']['b'] if s['b']['s'] == 'block' else [s['b']]): put(x)
            vals = [x['v'] for t, x in items if t == 'L' and x['s'] == 'case']
            cur = set(); hasdef = False; exits = set()
            for t, x in items:
                if t == 'L':
                    if x['s'] == 'default': hasdef = True
                    v = x['v'] if x['s'] == 'case' else None
                    cur |= set().union(*[self.c.switch(s['c'], v, vals, y) for y in S]) if S else set()
                else:
                    o = self.stmt(x, cur); cur = o['fall']; exits |= o['break']; out.add(o, ('fall', 'break'))
            if not hasdef: exits |= set().union(*[self.c.switch(s['c'], None, vals, y) for y in S]) if S else set()
            out['fall'] = cur | exits
            return out
        if k == 'try':
            raise RuntimeError('try')
        if k in ('null', 'empty'): out['fall'] = set(S); return out
        raise RuntimeError('statement ' + k)


# ------------------------------------------------------------ helpers put back where they are called
def simple(e):
    while isinstance(e, dict) and e.get('k') in ('cast', 'paren') and isinstance(e.get('e'), dict): e = e['e']
    return isinstance(e, dict) and e.get('k') in ('ref', 'int', 'bool', 'this', 'enumc', 'null', 'char')

def subst_ast(x, m):
    if isinstance(x, list): return [subst_ast(y, m) for y in x]
    if not isinstance(x, dict): return x
    if x.get('k') == 'ref' and x.get('d') in m: return m[x['d']]
    return {k: subst_ast(v, m) if isinstance(v, (dict, list)) else v for k, v in x.items()}

def returns_in(x):
    if isinstance(x, list): return sum(returns_in(y) for y in x)
    if not isinstance(x, dict) or x.get('k') == 'lambda': return 0
    return (x.get('s') == 'return') + sum(returns_in(v) for v in x.values() if isinstance(v, (dict, list)))

def inlined(P, body, inside, depth=0):
    """body with the calls to small helpers (free or static functions of the library, given plain names) replaced by what they do"""
    def helper(e):
        if not isinstance(e, dict) or e.get('k') != 'call' or not e.get('fn') or depth > 3: return None
        f = P.fn.get(e['fn'].get('id'))
        if not f or f.get('body') is None or not inside(f) or len(f['params']) != len(e['args']): return None
        if not all(simple(a) or not p.get('ref') and False for a, p in zip(e['args'], f['params'])): return None
        asg = set()
        def find(x):
            if isinstance(x, list):
                for y in x: find(y)
            elif isinstance(x, dict):
                if x.get('k') in ('asg', 'un'):
                    t = x.get('a') or x.get('e')
                    while isinstance(t, dict) and t.get('k') in ('cast', 'paren'): t = t.get('e')
                    if isinstance(t, dict) and t.get('k') == 'ref' and (x['k'] == 'asg' or x.get('op') in ('++', '--', '&')): asg.add(t.get('d'))
                for v in x.values():
                    if isinstance(v, (dict, list)): find(v)
        find(f['body'])
        if any(p['d'] in asg and not p['t'].rstrip().endswith('&') for p in f['params']): return None      # it works on its own copy
        return f, {p['d']: a for p, a in zip(f['params'], e['args'])}
    def peel(e):
        while isinstance(e, dict) and e.get('k') in ('cast', 'paren') and isinstance(e.get('e'), dict): e = e['e']
        return e
    def go(x):
        if isinstance(x, list): return [go(y) for y in x]
        if not isinstance(x, dict): return x
        if x.get('s') in ('expr', 'return') and isinstance(x.get('e'), dict):
            h = helper(peel(x['e']))
            if h:
                f, m = h
                n = returns_in(f['body'])
                one = f['body'].get('b') or []
                if x['s'] == 'expr' and n == 0 or x['s'] == 'return' and not (len(one) == 1 and one[0].get('s') == 'return'):
                    return inlined(P, subst_ast(f['body'], m), inside, depth + 1)
        h = helper(x)
        if h:
            f, m = h
            one = f['body'].get('b') or []
            if len(one) == 1 and one[0].get('s') == 'return' and isinstance(one[0].get('e'), dict):
                return inlined(P, subst_ast(one[0]['e'], m), inside, depth + 1)
        return {k: go(v) if isinstance(v, (dict, list)) else v for k, v in x.items()}
    return go(body)
