"""P21 values as text"""
import re
from core import *
import rules_access as R
import rules_visit as W

NODE = A(0)
WIDTH = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'char8_t': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'char16_t': 2, 'wchar_t': 4, 'char32_t': 4, 'int': 4, 'unsigned int': 4, 'long': 8,
         'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'float': 4, 'double': 8, 'long double': 16}
UNSIGNED = ('unsigned char', 'bool', 'unsigned short', 'char16_t', 'char32_t', 'unsigned int', 'unsigned long', 'unsigned long long')
CHARS = ('char', 'signed char', 'unsigned char', 'char8_t')
FLOATS = ('float', 'double', 'long double')
NUMBERS = [k for k in R.PRIMS if not k.startswith(('CHAR', 'WIDE'))]
BOGUS = 'NO_TYPE'
CT = ('eprosima::code_conversion_tool',)

def bare(t): return re.sub(r'^const |&$| const$', '', t.strip()).strip().rstrip('&').strip()

def pieces(v, g=TRUE, t=''):
    """the parts a text is made of, in order: (guard, value, C++ type shown)"""
    if v[0] == 'cat': return [p for x in v[1:] for p in pieces(x, g, t)]
    if v[0] == 'ite': return pieces(v[2], conj(g, v[1]), t) + pieces(v[3], conj(g, neg(v[1])), t)
    if v[0] == 'to_string': return [(g, v[2], bare(v[1]))]
    if v[0] == 'b': return [(g, v, 'bool')]
    if v[0] == 'int' and bare(t) == 'char': return [(g, ('str', chr(v[1] & 255)), 'const char *')]
    return [(g, v, bare(t))]

def written(S):
    """what is written to the result, in order"""
    out = []
    for e in sorted((e for e in S.events if e.kind == 'stream'), key=lambda e: e.seq):
        if conj(e.g, S.normal) == FALSE: continue
        for v, t in zip(e.a[1:], e.extra or ('',) * 9):
            if len(e.loops) == 1 and t == 'char' and v[0] == 'elem' and v[1][0] == 'tmp' and v[2][0] == 'iv':      # a text, character by character
                c = (e.loops[0].exit == FALSE and not e.loops[0].rev and e.loops[0].count) or ()
                if c and c[0] == 'size': v, t = c[1], ''
            out += pieces(v, e.g, t)
    return [p for p in out if p[0] != FALSE]

def holds(to, frm):
    """every value of type frm is kept by type to"""
    if to == frm: return True
    if to not in WIDTH or frm not in WIDTH: return None
    if to in FLOATS: return WIDTH[to] > WIDTH[frm] or frm in FLOATS and WIDTH[to] >= WIDTH[frm]
    if frm in FLOATS: return False
    if to in UNSIGNED and frm not in UNSIGNED: return frm in ('wchar_t', 'char') and WIDTH[to] >= WIDTH[frm]   # code points
    return WIDTH[to] > WIDTH[frm] or WIDTH[to] == WIDTH[frm] and (to in UNSIGNED) == (frm in UNSIGNED)

def stored(v, inst, want, depth=0):
    """v is the content stored as type `want` at inst: True, False, or None when it cannot be told"""
    if v[0] == 'at' and v[2] == inst: return v[1] == want or want.startswith('basic_string') and want in v[1]
    if v[0] == 'cstr': return False if stored(v[1], inst, want) else None      # ends at the first null character
    if v[0] == 'part': return False if stored(v[1], inst, want) else None
    if v[0] in ('copyof',): return stored(v[1], inst, want)
    if v[0] == 'b' and want == 'bool':
        sup = list(B.support(v[1]))
        if len(sup) == 1 and sup[0][0] in ('nz', 'bool') and mentions(sup[0], lambda z: z[0] == 'at' and z[1] == 'bool' and z[2] == inst): return True
        return None
    if v[0] == 'cvt':
        if v[1] in (1, 8, 16, 32, 64) and want in WIDTH and v[1] >= 8 * WIDTH[want]: return stored(v[-1], inst, want)
        return False if stored(v[-1], inst, want) else None
    if v[0] == 'band' and len(v[1]) == 2 and want in WIDTH:      # only some of its bits
        c = [x for x in v[1] if x[0] == 'int']; o = [x for x in v[1] if x[0] != 'int']
        full = (1 << 8 * WIDTH[want]) - 1
        if len(c) == 1 and stored(o[0], inst, want): return c[0][1] & full == full
    if v[0] == 'lin' and all(len(m) <= 1 for m, k in v[1]) and [1 for m, k in v[1] if m] == [1]:      # it and some more
        m = [(m[0], k) for m, k in v[1] if m]
        if stored(m[0][0], inst, want): return False
    if v[0] == 'op' and len(v) == 4 and v[1] in ('/', '%', '<<', '>>', '^', '|') and v[3][0] == 'int' and v[3][1] != (1 if v[1] == '/' else 0) and stored(v[2], inst, want): return False
    return None

def wide(v, inst, want):
    """v is the text of the character(s) stored as `want`"""
    if v[0] == 'part': return False if wide(v[1], inst, want) else None
    if v[0] != 'conv8' or len(v) != 3: return None
    x = v[2]
    if x[0] == 'mk' and x[1] == 'basic_string' and len(x) == 4:
        return stored(x[3], inst, want) if x[2] == n1 else None
    if x[0] == 'list' and len(x) == 2: return stored(x[1], inst, want)
    if x[0] == 'conv':
        s = stored(x[3], inst, want)
        return s and (WIDTH.get(x[1], 0) >= WIDTH.get(x[2], 9))
    if x[0] == 'fold' and x[1][0] == 'size': return utf16(x, inst, want)
    return stored(x, inst, want)

def utf16(x, inst, want):
    """x encodes every stored wide character, in order, as UTF-16"""
    src = x[1][1]
    if src[0] == 'mk' and src[1] == 'basic_string' and len(src) == 4: s = stored(src[3], inst, want) if src[2] == n1 else None
    else: s = stored(src, inst, want)
    es = set()
    mentions(x[3], lambda z: es.add(z) if z[0] == 'elem' and z[-1] == I0 else None)
    if s is not True or len(es) != 1 or x[2] not in (('str', ''), ('empty',)): return s and None
    e = es.pop()
    cut = set()
    mentions(x[3], lambda z: cut.add(z) if z[0] == 'cvt' and z[-1] == e else None)
    pts = sorted({b + d for b in [0x10000 * i for i in range(17)] + [1 << i for i in range(21)] for d in (-1, 0, 1, 0x2A5, 0x3FF, 0x155C)} & set(range(0x110000)) - set(range(0xD800, 0xE000)))
    for c in pts:
        vals = {z: num(c & (1 << z[1]) - 1) for z in cut if z[1] in (8, 16, 32, 64)}
        units = [v for g, v, t in pieces(subst(subst(x[3], vals), {e: num(c)}))]
        if not units or units[0] != ('acc', 0): return None
        out = []
        for u in units[1:]:
            w = 0xFFFF
            while u[0] == 'cvt': w &= (1 << u[1]) - 1; u = u[-1]
            if u[0] != 'int': return None
            out.append(u[1] & w)
        if out != ([c] if c < 0x10000 else [0xD7C0 + (c >> 10), 0xDC00 + (c & 0x3FF)]): return False
    return True

def node_printer(C):
    fs = [f for f in C.J['functions'] if f.get('lambda') and f['name'] == 'operator()' and f['file'].endswith('DynamicDataImpl.hpp') and len(f['params']) == 1 and 'ReadableNode' in f['params'][0]['t']]
    if len(fs) != 1: raise Missing('the visitor of to_string')
    return fs[0]

def printing(C):
    rule = 'shown'
    f = node_printer(C)
    IN = F(NODE, 'internal_')
    inst, ty = F(IN, 'instance'), F(IN, 'type')
    T = D(('hold', ty))          # visitors never see an alias (P20)
    TS = (T, ty)
    sized = lambda n: conj(*[c for x in TS for c in [eq(vc('memory_size', x), num(n))] + [neg(eq(vc('memory_size', x), num(m))) for m in (1, 2, 4) if m != n]])
    up = F(IN, 'parent')
    root = disj(conj(eq(up, n0), eq(F(IN, 'deep'), n0)), conj(neg(eq(up, n0)), neg(eq(F(IN, 'deep'), n0))))     # the root, and only it, has depth 0 (P20)
    run = lambda k, assume=TRUE, **more: C.run(f, preset={**R.PK(C), KINDOF(T): num(C.K[k]), KINDOF(ty): num(C.K[k]), **more}, opaque=CT, assume=conj(root, assume))
    fallback = [p[1] for p in written(run(BOGUS)) if p[1][0] == 'str']
    cases = [(k, None) for k in R.PLAIN if k != 'ENUMERATION_TYPE'] + [('ENUMERATION_TYPE', n) for n in (1, 2, 4)]
    for k, n in cases:
        asm = conj(root, *(() if n is None else [sized(n)]))
        S = run(k, asm)
        what = k if n is None else '%s of %d bytes' % (k, n)
        C.ob(rule, S, implies(asm, S.normal), 'a %s can be shown' % what, unsure=murky_node(S.normal))
        ps = [(conj(g, asm), v, t) for g, v, t in written(S) if conj(g, asm) != FALSE]
        uns = bool(S.unknown) or any(murky(v) or murky_node(g) for g, v, t in ps)
        texts = [v for g, v, t in ps if v[0] == 'str']
        always = [(v, t) for g, v, t in ps if implies(asm, g)]
        C.ob(rule, S, any(mentions(v, lambda z: z in (F(T, 'name_'), F(ty, 'name_'))) for v, t in always), 'a %s is shown with the name of its type' % what, unsure=uns)
        C.ob(rule, S, any(mentions(v, lambda z: z == F(IN, 'deep')) for v, t in always), 'a %s is shown at its depth' % what, unsure=uns)
        C.ob(rule, S, any(v[0] == 'fnref' or v[0] == 'str' and '\n' in v[1] for v, t in always), 'a %s has a line of its own' % what, unsure=uns)
        cont = [(g, v, t) for g, v, t in ps if mentions(v, lambda z: z == inst)]
        full = len(cont) == 1 and implies(asm, cont[0][0])
        if k in NUMBERS or k == 'CHAR_8_TYPE' or n is not None:
            want = {1: 'unsigned char', 2: 'unsigned short', 4: 'unsigned int'}[n] if n else None
            C.ob(rule, S, full, 'the content of a %s is shown once' % what, unsure=uns)
            for g, v, t in cont:
                r = [stored(v, inst, ct) for ct in ([want] if want else R.CTYPE[k])]
                ok = True if True in r else None if None in r else False
                C.ob(rule, S, ok is True, 'a %s is shown from its stored content' % what, unsure=uns or ok is None)
                ct = want or R.CTYPE[k][0]
                if k == 'CHAR_8_TYPE': C.ob(rule, S, t == 'char', 'a character is shown as a character', unsure=uns or not t)
                else:
                    C.ob(rule, S, t not in CHARS and t not in ('char16_t', 'wchar_t', 'char32_t'), 'a %s is shown as a number' % what, unsure=uns or not t)
                    h = holds(t, ct) if t not in CHARS else True
                    C.ob(rule, S, bool(h), 'a %s is shown without losing part of it' % what, unsure=uns or h is None)
        elif k in R.STRINGS or k in ('CHAR_16_TYPE', 'WIDE_CHAR_TYPE'):
            C.ob(rule, S, full, 'the content of a %s is shown once' % what, unsure=uns)
            for g, v, t in cont:
                ok = stored(v, inst, R.STRINGS[k]) if k == 'STRING_TYPE' else wide(v, inst, R.STRINGS.get(k) or R.CTYPE[k][0])
                C.ob(rule, S, ok is True, 'a %s is shown from its stored content, without losing part of it' % what, unsure=uns or ok is None)
        elif k in ('SEQUENCE_TYPE', 'MAP_TYPE'):
            sz = [vc('get_instance_size', x, inst) for x in TS]
            C.ob(rule, S, any(v in sz for v, t in always), 'a %s is shown with its size' % what, unsure=uns or any(v[0] != 'vc' for g, v, t in cont) or not cont and False)
        if texts or fallback: C.ob(rule, S, texts != fallback or bool(cont), 'a %s is shown as what it is' % what, unsure=uns)
        for g, v, t in cont: C.ob(rule, S, t not in ('void *', 'unsigned char *', 'const void *'), 'no address is shown', unsure=uns)
    # the place a part has in its parent
    rule = 'place'
    for k in R.COLLECTIONS[:2] + ('MAP_TYPE', 'PAIR_TYPE') + R.AGGREGATIONS:
        for leaf in ('INT_32_TYPE', 'STRUCTURE_TYPE'):
            S = C.run(f, preset={**R.PK(C), KINDOF(T): num(C.K[leaf]), KINDOF(ty): num(C.K[leaf]), KINDOF(F(D(up), 'type')): num(C.K[k])}, opaque=CT, assume=conj(root, neg(eq(up, n0))))
            ps = written(S)
            uns = bool(S.unknown) or any(murky(v) or murky_node(g) for g, v, t in ps)
            hit = [v for g, v, t in ps if implies(conj(root, neg(eq(up, n0))), g)]
            name, pos = F(D(F(IN, 'from_member')), 'name_'), F(IN, 'from_index')
            if k in R.AGGREGATIONS: C.ob(rule, S, name in hit and pos not in hit, 'a part of a %s is shown by the name of its member' % k, unsure=uns)
            else: C.ob(rule, S, pos in hit and name not in hit, 'a part of a %s is shown by its position' % k, unsure=uns)
    S = C.run(f, preset={**R.PK(C), KINDOF(T): num(C.K['INT_32_TYPE']), KINDOF(ty): num(C.K['INT_32_TYPE'])}, opaque=CT, assume=conj(root, eq(up, n0)))
    C.ob(rule, S, S.normal != FALSE and implies(conj(root, eq(up, n0)), S.normal), 'a value without parent can be shown', unsure=murky_node(S.normal))
    C.ob(rule, S, not any(conj(g, eq(up, n0)) != FALSE and mentions(v, lambda z: z == F(IN, 'from_member')) for g, v, t in written(S)), 'a value without parent has no place', unsure=bool(S.unknown))

def whole(C):
    rule = 'whole'
    f = C.method('ReadableDynamicDataRef', 'to_string')
    S = C.run(f)
    calls = C.effs(S, 'vcall', {'for_each_instance'})
    uns = bool(S.unknown) or any(murky_ev(x.e) for x in calls)
    C.ob(rule, S, len(calls) == 1 and not calls[0].n, 'a value is shown by one visit to all of it', unsure=uns)
    TY, INST = D(F(THIS, 'type_')), F(THIS, 'instance_')
    for x in calls:
        C.ob(rule, S, x.a[0] == TY, 'the value shown is the one asked for', x.e.line, unsure=murky(x.a[0]))
        t = W.node_field(x.a[1], 'instance')
        C.ob(rule, S, t == INST, 'the value shown is the one asked for', x.e.line, unsure=t is None or murky(t))
    for g, v, st in S.rets:
        C.ob(rule, S, v is not None and v[0] in ('sstr', 'out'), 'the text is what was written', unsure=v is None or v[0] not in ('str', 'empty', 'ctor0') and not mentions(v, lambda z: z[0] == 'sstr'))
    for f in C.fns('operator<<', lambda f: len(f['params']) == 2 and 'DynamicData' in f['params'][1]['t'] and 'ostream' in f['params'][0]['t']):
        S = C.run(f, opaque=('eprosima::xtypes::ReadableDynamicDataRef::to_string',))
        ps = [e for e in S.events if e.kind == 'stream']
        ok = len(ps) == 1 and ps[0].a[0] == A(0) and ps[0].a[1][:2] == ('call', 'to_string') and ps[0].a[1][2] == A(1)
        C.ob(rule, S, ok, 'a value is written to a stream as its text', unsure=bool(S.unknown) or not ps and not C.silent(S) or any(murky(x) for e in ps for x in e.a[1:]))

def casting(C):
    rule = 'as-string'
    fs = [f for q, f in R.typed(C, ('ReadableDynamicDataRef::cast<',)) if R.kind_for(R.targ(q)) == 'STRING_TYPE']
    if not fs: raise Missing('cast<std::string>')
    TY, INST = D(F(THIS, 'type_')), F(THIS, 'instance_')
    msz = vc('memory_size', TY)
    for f in fs:
        for k, n in [(k, None) for k in R.PLAIN if k != 'ENUMERATION_TYPE'] + [('ENUMERATION_TYPE', n) for n in (1, 2, 4)]:
            if k in ('WSTRING_TYPE', 'STRING16_TYPE'): continue
            asm = TRUE if n is None else conj(eq(msz, num(n)), *[neg(eq(msz, num(m))) for m in (1, 2, 4) if m != n])
            S = C.run(f, preset={**R.PK(C), KINDOF(TY): num(C.K[k])}, assume=asm, opaque=CT)
            what = k if n is None else '%s of %d bytes' % (k, n)
            ok = k in R.PRIMS or n or k == 'STRING_TYPE'
            if not ok:
                C.ob(rule, S, S.normal == FALSE, 'a %s is not a plain text' % what, unsure=murky_node(S.normal))
                continue
            C.ob(rule, S, implies(asm, S.normal), 'a %s can be taken as text' % what, unsure=murky_node(S.normal))
            ps = [p for g, v, st in S.rets if conj(g, asm) != FALSE for p in (pieces(v, conj(g, asm)) if v is not None else [])]
            ps = [p for p in ps if p[0] != FALSE]
            uns = bool(S.unknown) or not ps or any(murky(v) for g, v, t in ps)
            want = {1: ['unsigned char'], 2: ['unsigned short'], 4: ['unsigned int']}[n] if n else R.CTYPE[k] if k in R.PRIMS else [R.STRINGS[k]]
            for g, v, t in ps:
                r = [stored(v, INST, ct) for ct in want]
                good = True if True in r else None if None in r else False
                C.ob(rule, S, good is True, 'the text of a %s is made of its stored content' % what, unsure=uns or good is None and v[0] != 'str')
                if k == 'STRING_TYPE': continue
                h = [holds(t, ct) for ct in want]
                C.ob(rule, S, True in h, 'the text of a %s has all of it' % what, unsure=uns or None in h or not t)

# ------------------------------------------------------------------ the conversion between encodings
def nodes_of(x):
    if isinstance(x, dict):
        yield x
        for k, v in x.items():
            if k != 'fn' and isinstance(v, (dict, list)): yield from nodes_of(v)
    elif isinstance(x, list):
        for v in x: yield from nodes_of(v)

def refs(e): return {n['d'] for n in nodes_of(e) if n.get('k') == 'ref'}
def peel(e):
    while isinstance(e, dict) and e.get('k') in ('cast', 'paren') and e.get('e') is not None: e = e['e']
    return e or {}
def var_of(e):
    e = peel(e)
    return e.get('d') if e.get('k') == 'ref' else None

def conversion_call(e): return e.get('k') == 'call' and e.get('fn') and e['fn']['name'] in ('translate', 'in', 'out') and len(e.get('args', ())) >= 7

class Conversion:
    """state: (converted part not yet kept, input used up, possible results, known flags, names of what was produced)"""
    def __init__(self, call):
        a = call['args']
        self.next, self.end, self.buf, self.frm, self.stop = var_of(a[-1]), a[-2], var_of(a[-3]), var_of(a[-4]), var_of(a[-5])
        self.res = None; self.lost = []
    def step(self, e, s):
        pend, done, res, flags, made = s
        k = e.get('k')
        if conversion_call(e):
            if pend == 1: self.lost.append(e['l'])
            return [(1, 0, frozenset((0, 1, 2)), frozenset(x for x in flags if x[1] not in ('eq', 'ne') and x[0] not in ('kept', 'asked')) | {('ran', True)}, frozenset())]
        if k == 'call' and e.get('fn') and (e['fn'].get('cls') or '').startswith('std::basic_string<') or k == 'call' and e.get('fn') and e['fn']['name'] in ('copy', 'operator+='):
            r = refs(e.get('args'))
            if self.buf in r and pend: return [(0 if self.next in r or r & made else '?', done, res, flags | {('kept', True)}, made)]
        if k == 'asg':
            v = var_of(e['a'])
            if v is not None: return [self.set(v, e['b'] if e.get('op') == '=' else None, s)]
        return [s]
    def set(self, v, e, s):
        pend, done, res, flags, made = s
        flags = frozenset(x for x in flags if x[0] != v)
        made = made - {v}
        if e is None: return (pend, done, res, flags, made)
        b = peel(e)
        if v == self.frm: done = '?'
        if b.get('k') == 'bool': flags |= {(v, b['v'])}
        elif self.same(b) is not None: flags |= {(v, self.same(b))}
        elif conversion_call(b): self.res = v
        elif self.next in refs(b): made |= {v}
        return (pend, done, res, flags, made)
    def truth(self, v, b, s): return s[:3] + (frozenset(x for x in s[3] if x[0] != v) | {(v, b)},) + s[4:]
    def bound(self, v, s): return [self.set(v['d'], v.get('init'), s)]
    def same(self, b):
        """b tells whether the input is used up"""
        if b.get('k') != 'bin' or b.get('op') not in ('==', '!=', '<', '>', '>=', '<='): return None
        x, y = var_of(b['a']), var_of(b['b'])
        if self.frm not in (x, y) or self.stop is not None and self.stop not in (x, y) or self.buf in (x, y) or self.next in (x, y): return None
        return 'eq' if b['op'] in ('==',) or b['op'] == '>=' and x == self.frm or b['op'] == '<=' and y == self.frm else 'ne'
    def cond(self, e, s):
        pend, done, res, flags, made = s
        e = peel(e)
        if e.get('k') == 'bool': return ([s], []) if e['v'] else ([], [s])
        yes, no = (pend, 1, res, flags, made), (pend, 0 if done != '?' else '?', res, flags, made)
        rel = self.same(e) if e.get('k') == 'bin' else None
        if e.get('k') == 'ref':
            for d, v in flags:
                if d == e['d']:
                    if v in ('eq', 'ne'): rel = v
                    else: return ([s], []) if v else ([], [s])
        if rel:
            if done == 1: yes, no = [yes], []
            else: yes, no = [yes], [no]
            return (yes, no) if rel == 'eq' else (no, yes)
        if e.get('k') == 'bin' and e.get('op') in ('==', '!='):
            x, y = peel(e['a']), peel(e['b'])
            if {var_of(x), var_of(y)} == {self.next, self.buf}:
                none, some = [(0, done, res, flags - {('kept', True)}, made)], [s]
                return (none, some) if e['op'] == '==' else (some, none)
            if y.get('d') == self.res and y.get('k') == 'ref': x, y = y, x
            if x.get('k') == 'ref' and x['d'] == self.res and res is not None and y.get('k') in ('enumc', 'int'):
                v = int(y['v'])
                a = [(pend, done, res & {v}, flags, made)] if v in res else []
                b = [(pend, done, res - {v}, flags, made)] if res - {v} else []
                return (a, b) if e['op'] == '==' else (b, a)
        s = (pend, done, res, flags | {('asked', True)}, made)
        return [s], [s]
    def switch(self, c, v, vals, s):
        pend, done, res, flags, made = s
        b = peel(c)
        if not (b.get('k') == 'ref' and b['d'] == self.res or conversion_call(b)) or res is None: return [s]
        keep = res & {v} if v is not None else res - set(vals)
        return [(pend, done, keep, flags, made)] if keep else []

def constant(e, decl):
    e = peel(e)
    if e.get('k') == 'int': return int(e['v'])
    if e.get('k') == 'ref' and e.get('d') in decl and 'const' in decl[e['d']]['t']: return constant(decl[e['d']].get('init'), decl)
    if e.get('k') == 'bin' and e['op'] in ('+', '-', '*', '/'):
        a, b = constant(e['a'], decl), constant(e['b'], decl)
        if a is None or b is None or e['op'] == '/' and not b: return None
        return {'+': a + b, '-': a - b, '*': a * b, '/': a // (b or 1)}[e['op']]

def encoding(C):
    rule = 'encoding'
    import flow
    fs = [f for f in C.J['functions'] if f['name'] == 'code_conversion_tool' and f.get('body') is not None and 'view' in f['params'][0]['t']]
    if not fs: raise Missing('code_conversion_tool')
    for f in fs:
        f = dict(f, body=flow.inlined(C.P, f['body'], lambda g: g['qn'].startswith('eprosima::') and not g.get('cls') and g['name'] != 'code_conversion_tool'))
        calls = [n for n in nodes_of(f['body']) if conversion_call(n)]
        if not calls: raise Missing('the conversion of ' + f['qn'])
        cl = Conversion(calls[0])
        try: o = flow.Flow(cl).stmt(f['body'], {(0, 0, None, frozenset(), frozenset())})
        except (RuntimeError, KeyError, TypeError) as x:
            C.ob(rule, f, False, 'the conversion is analysed', unsure=True); continue
        ends = o['return'] | o['fall']
        C.ob(rule, f, bool(ends), 'a conversion comes to an end')
        uns = None in (cl.next, cl.buf, cl.frm) or not ends
        C.ob(rule, f, not any((s[0] == 1 or ('kept', True) in s[3]) and s[2] and 2 not in s[2] and ('asked', True) not in s[3] for s in o['throw']), 'a conversion that gets on is not refused', unsure=uns)
        C.ob(rule, f, not cl.lost and not any(s[0] == 1 for s in ends), 'every part that was converted is kept', cl.lost[0] if cl.lost else None, unsure=uns)
        C.ob(rule, f, not any(s[1] != 1 and not {('ran', True), ('asked', True)} & s[3] for s in ends), 'what there is to convert is converted', unsure=uns)
        C.ob(rule, f, all(s[0] != '?' for s in ends), 'exactly what was converted is kept', unsure=True)
        C.ob(rule, f, not any(s[1] == 0 for s in ends), 'the conversion ends when all of the input was used', unsure=uns or any(s[1] == '?' for s in ends))
        decl = {v['d']: v for n in nodes_of(f['body']) if n.get('s') == 'decl' for v in n['vars']}
        for c in calls:
            m = re.search(r'\[(\d+)\]', decl.get(cl.buf, {}).get('t', ''))
            e = peel(c['args'][-2])
            lim = None
            if e.get('k') == 'bin' and e.get('op') == '+' and var_of(e['a']) == cl.buf:
                lim = constant(e['b'], decl)
            elif e.get('k') == 'bin' and e.get('op') == '-' and var_of(e['a']) == cl.buf and constant(e['b'], decl): lim = 1 << 64
            if m: C.ob(rule, f, lim is not None and lim <= int(m.group(1)), 'the conversion stays inside its buffer', c['l'], unsure=lim is None)
            at = var_of(c['args'][-6])
            again = any(n.get('k') == 'asg' and var_of(n['a']) == at and cl.frm in refs(n['b']) for n in nodes_of(f['body']))
            C.ob(rule, f, at == cl.frm or again, 'a conversion goes on where the last one ended', c['l'], unsure=at is None)
    for f in C.J['functions']:
        if f['name'] != 'translate' or 'choose_codecvt' not in f['qn'] or f.get('body') is None: continue
        S = C.run(f)
        for g, v, st in S.rets:
            ok = v is not None and v[0] == 'std' and v[3:] == tuple(A(i) for i in range(1, len(f['params'])))
            C.ob(rule, S, ok, 'the conversion works on what it is given', unsure=v is None or v[0] != 'std' or murky(v))

def P21(C):
    encoding(C)
    printing(C)
    whole(C)
    casting(C)
    C.borrow([W.traversal], lambda w: 'for_each_instance' in w, what=lambda w: True)
