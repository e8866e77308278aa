#!/usr/bin/env python3
"""check.py <property> [quick|thorough] : decide one property on /repo's current source, without running it.

exit 0: no violation found; 1: violations (one VIOLATION line each); 2/3: the analysis itself could not be carried out"""
import sys, os, json, time, subprocess, importlib, traceback, hashlib
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get('XT_REPO', '/repo')
FLAGS = ['-std=c++17', '-DNDEBUG', '-DXTYPES_EXCEPTIONS', '-I' + REPO + '/include']

def export():
    os.makedirs(os.path.join(ROOT, 'build'), exist_ok=True)
    out = os.path.join(ROOT, 'build', 'prog-%d.json' % os.getpid())
    subprocess.run(['sh', os.path.join(ROOT, 'tool', 'build.sh')], check=True, stdout=subprocess.DEVNULL)
    r = subprocess.run([os.path.join(ROOT, 'build', 'xport'), REPO + '/include', out, os.path.join(ROOT, 'tu', 'inst.cpp'), '--'] + FLAGS,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(out):
        sys.stderr.write(r.stdout[-3000:]); print('analysis broken: the sources do not parse'); sys.exit(3)
    try: return json.load(open(out))
    finally: os.remove(out)

def registry_doc(prop):
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(l)
        if p['id'] == prop:
            return ('Every function listed was read from the current source as a resolved clang syntax tree and summarised: the effects it can have and the value it '
                    'returns, each with the condition under which it happens, calls inlined or kept as symbols. An obligation is one fact the rule requires of such a summary. '
                    'The obligations together decide: ' + p['statement'])
    return prop

def known():
    k, p = {}, os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('known: property='):
                prop, rest = l[len('known: property='):].split(' ', 1)
                key, what = rest.split(' :: ', 1)
                k[(prop, key.strip()[4:] if key.strip().startswith('key=') else key.strip())] = what
    return k

def run(C, prop):
    from core import Missing
    import registry
    entry = registry.PROPS[prop]
    C.prop = prop
    broken = []
    for rule in entry['rules']:
        try: rule(C)
        except Missing as e:
            broken.append('%s: %s' % (rule.__name__, e))
        except Exception as e:
            broken.append('%s: %s: %s' % (rule.__name__, type(e).__name__, e))
            if os.environ.get('XT_DEBUG'): traceback.print_exc()
    return entry, broken

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    import canon
    J = canon.canon(export())
    from core import Ctx
    C = Ctx(J)
    C.repo, C.flags, C.root, C.tier = REPO, FLAGS, ROOT, tier
    entry, broken = run(C, prop)
    by = {}
    for r, w, s, _ in C.oblig:
        d = by.setdefault(r, {'holds': 0, 'violated': 0, 'undecided': 0}); d[s] += 1
    total, held = len(C.oblig), sum(d['holds'] for d in by.values())
    kf = known()
    new, old, shown = [], [], set()
    for f in C.fails:
        (old if (prop, f['key']) in kf else new).append(f)
    for f in old:
        if f['key'] in shown: continue
        shown.add(f['key']); print('KNOWN-FINDING: property=%s %s [%s]' % (prop, kf[(prop, f['key'])], f['where']))
    rd = os.path.join(ROOT, 'build', 'replay'); os.makedirs(rd, exist_ok=True)
    lines = set()
    for f in new:
        if f['key'] in lines: continue
        lines.add(f['key'])
        path = os.path.join(rd, '%s-%s.txt' % (prop, hashlib.sha1(f['key'].encode()).hexdigest()[:10]))
        with open(path, 'w') as o:
            o.write('property: %s\nrule: %s\nconstruct: %s\nwhat fails: %s\nkey: %s\nagain: XT_REPO=%s python3 %s %s\n' % (prop, f['rule'], f['where'], f['what'], f['key'], REPO, os.path.abspath(__file__), prop))
        print('%s: %s' % (f['where'], f['what']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    for b in broken: print('NOTE: not analysed: ' + b)
    if os.environ.get('XT_DEBUG'):
        for o in C.oblig:
            if o[2] == 'undecided': print('undecided: %s' % (o,))
    ev = os.path.join(ROOT, 'evidence'); os.makedirs(ev, exist_ok=True)
    fns = sorted('%s:%d' % (q.replace('eprosima::xtypes::', ''), l) for q, l in C.seen)
    doc = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'coverage': {
            'explanation': entry.get('explain') or registry_doc(prop),
            'obligations': total, 'discharged': held,
            'undecided': sum(d['undecided'] for d in by.values()), 'rules': by,
            'functions_analysed': fns, 'program': {'functions': len(C.P.fn), 'records': len(C.P.rec)},
            'not_analysed': broken, 'undecided_notes': sorted(set(C.notes))[:60],
            'known_findings': sorted({f['key'] for f in old}),
            'violated': [{'rule': f['rule'], 'construct': f['where'], 'what': f['what']} for f in new],
        },
        'assumptions': entry.get('assume', []),
        'violations': len(new),
        'wall_s': round(time.time() - t0, 2),
    }
    with open(os.path.join(ev, prop + '.json'), 'w') as o: json.dump(doc, o, indent=1, sort_keys=True)
    print('%s: %d obligations on %d functions: %d hold, %d violated, %d undecided (%.1f s)' % (prop, total, len(fns), held, len(C.fails), doc['coverage']['undecided'], time.time() - t0))
    if new: return 1
    if held < entry['floor']:
        print('analysis broken: only %d of at least %d obligations could be decided' % (held, entry['floor'])); return 2
    return 0

if __name__ == '__main__':
    try: sys.exit(main())
    except SystemExit: raise
    except Exception:
        traceback.print_exc(); print('analysis broken'); sys.exit(2)
