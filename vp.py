#!/usr/bin/env python3
"""Driver: compiles each harness with the current /repo sources to LLVM IR, runs the symbolic executor,
replays any counterexample natively, writes evidence."""
import sys, os, json, subprocess, time, shutil, re
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
CLANG = '/usr/bin/clang++-18'
OPT = '/usr/bin/opt-18'
BUILD = V + '/build'
ENV = dict(os.environ); ENV.pop('LD_LIBRARY_PATH', None); ENV['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
BASE = ['-std=c++11', '-fno-exceptions', '-fno-threadsafe-statics', '-fno-strict-aliasing', '-fno-delete-null-pointer-checks', '-w', '-I' + V + '/rt', '-I' + REPO, '-D_FORTIFY_SOURCE=0', '-U_FORTIFY_SOURCE', '-fno-stack-protector', '-pthread']

def run(cmd, **kw):
    return subprocess.run(cmd, env=kw.pop('env', ENV), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def ensure_engine():
    r = run(['make', '-s', '-C', V + '/engine', 'BD=' + BUILD])
    if r.returncode: print(r.stdout); return False
    rt = BUILD + '/rt.bc'
    if not os.path.exists(rt) or os.path.getmtime(rt) < os.path.getmtime(V + '/rt/rt.c'):
        r = run(['/usr/bin/clang-18', '-O1', '-fno-builtin', '-emit-llvm', '-c', V + '/rt/rt.c', '-o', rt + '.tmp'])
        if r.returncode: print(r.stdout); return False
        os.replace(rt + '.tmp', rt)
    return True

class H:
    def __init__(self, name, src=None, q=(), t=None, tsan=False, budget=240, tbudget=None, steps=3000000, depth=300, asan=True, what='', quick=True):
        self.name = name; self.src = src or name; self.q = list(q); self.t = list(t) if t is not None else list(q); self.tsan = tsan; self.budget = budget; self.tbudget = tbudget or budget * 10; self.steps = steps; self.depth = depth; self.asan = asan; self.what = what; self.quick = quick

def defs(h, tier):
    return ['-D' + d for d in (h.q if tier == 'quick' else h.t)] + (['-DVP_THOROUGH'] if tier != 'quick' else [])

def compile_ir(h, tier, out):
    src = V + '/harness/' + h.src + '.cpp'
    flags = BASE + defs(h, tier) + ['-DVP_SYMBOLIC', '-include', V + '/rt/nxt.h']
    if h.tsan: flags += ['-fsanitize=thread']
    if h.tsan:
        r = run([CLANG] + flags + ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-inline', '-gline-tables-only', '-emit-llvm', '-c', src, '-o', out])
        return r
    r = run([CLANG] + flags + ['-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-emit-llvm', '-c', src, '-o', out + '.0'])
    if r.returncode: return r
    r = run([BUILD + '/symex', '-prep', out + '.0', out + '.1'])
    if r.returncode: return r
    os.replace(out + '.1', out + '.0')
    r = run([OPT, '-passes=function(sroa,early-cse,simplifycfg,instsimplify,adce),globaldce', out + '.0', '-o', out])
    try: os.remove(out + '.0')
    except OSError: pass
    return r

STUBRE = re.compile(r'\bvp_stub_([A-Za-z0-9_]+)')
def build_replay(h, tier, d, variant):
    """variant: 'asan' or 'plain'"""
    src = V + '/harness/' + h.src + '.cpp'
    san = ['-fsanitize=address', '-fno-omit-frame-pointer'] if (variant == 'asan' and not h.tsan) else []
    o = d + '/h_%s.o' % variant
    flags = BASE + defs(h, tier) + (['-g', '-O0'] if variant == 'memcheck' else ['-g', '-O1', '-ftrivial-auto-var-init=pattern'] + san)
    if h.tsan: flags = BASE + defs(h, tier) + ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-inline', '-gline-tables-only', '-fsanitize=thread']
    r = run([CLANG] + flags + ['-c', src, '-o', o])
    if r.returncode: return None, r.stdout
    nm = run(['/usr/bin/nm', o]).stdout
    ren = []; names = set(l.split()[-1] for l in nm.splitlines() if l.split())
    for n in names:
        m = re.match(r'^vp_stub_(\w+)$', n)
        if m: ren += ['--redefine-sym', m.group(1) + '=' + n]
    for n in ['malloc', 'calloc', 'realloc', 'free', '_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm']:
        if n in names: ren += ['--redefine-sym', n + '=vprt_' + n]
    # symbols both undefined and defined under the same name need a two-step link: keep stubs global
    r = run(['/usr/bin/objcopy'] + ren + [o, o + '.2'])
    if r.returncode: return None, r.stdout
    exe = d + '/replay_' + variant
    r = run([CLANG, '-w', '-O1', '-g'] + san + (['-DVP_TSAN'] if h.tsan else []) + [V + '/rt/replay.cpp', o + '.2', '-o', exe, '-pthread', '-lrt', '-ldl', '-no-pie' if False else '-g'])
    if r.returncode: return None, r.stdout
    return exe, ''

def replay(h, tier, d, vio):
    """returns (reproduced, text)"""
    vals = d + '/values.txt'
    open(vals, 'w').write('\n'.join(str(x) for x in vio['values']) + '\n')
    log = ''
    for variant in (['asan', 'plain'] if not h.tsan else ['plain']):
        exe, err = build_replay(h, tier, d, variant)
        if not exe: log += 'replay build failed (%s): %s\n' % (variant, err[-2000:]); continue
        for fill in ['', '0', '255', '65', '170', '1']:
            env = dict(ENV); env['ASAN_OPTIONS'] = 'detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:alloc_dealloc_mismatch=1:abort_on_error=0:exitcode=99:handle_segv=1'
            if fill: env['VP_FILL'] = fill; env['ASAN_OPTIONS'] += ':max_malloc_fill_size=0'
            try:
                r = run([exe, vals], env=env, timeout=40); rc, out = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, out = -14, 'timeout'
            log += '--- %s fill=%s rc=%s\n%s\n' % (variant, fill or '-', rc, out[-3000:])
            if rc != 0: return True, log, '%s %s' % (exe, vals) if not fill else 'VP_FILL=%s %s %s' % (fill, exe, vals)
    if vio['kind'] == 'uninit' and not h.tsan:
        exe, err = build_replay(h, tier, d, 'memcheck')
        if exe:
            r = run(['/usr/bin/valgrind', '-q', '--error-exitcode=88', '--leak-check=no', exe, vals])
            log += '--- memcheck rc=%s\n%s\n' % (r.returncode, r.stdout[-3000:])
            if r.returncode: return True, log, 'valgrind -q --error-exitcode=88 %s %s' % (exe, vals)
        else: log += 'replay build failed (memcheck): %s\n' % err[-2000:]
    return False, log, ''

def run_harness(h, tier, outd, budget):
    d = outd + '/' + h.name
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t0 = time.time(); bc = d + '/h.bc'
    r = compile_ir(h, tier, bc)
    if r.returncode: return dict(status='error', msg='compile failed: ' + r.stdout[-3000:], name=h.name)
    r = run([BUILD + '/symex', bc, BUILD + '/rt.bc', '-o', d, '-t', str(budget), '-s', str(h.steps), '-d', str(h.depth), '-j', os.environ.get('VP_JOBS', '8')])
    res = dict(name=h.name, status='error', msg=r.stdout[-2000:])
    if os.path.exists(d + '/result.json'):
        j = json.load(open(d + '/result.json')); res.update(j)
        unc = [k for k, v in j['covers'].items() if not v]
        if j['violation']:
            vio = json.load(open(d + '/violation.json'))
            ok, log, how = replay(h, tier, d, vio)
            vio['reproduced'] = ok; vio['replay_log'] = log[-6000:]; vio['how'] = how; vio['harness'] = h.name; vio['source'] = 'harness/%s.cpp' % h.src
            json.dump(vio, open(d + '/replay.json', 'w'), indent=1)
            res['vio'] = vio; res['status'] = 'violation' if ok else 'unreproduced'; res['replay'] = d + '/replay.json'
            res['msg'] = '%s: %s at %s' % (vio['kind'], vio['msg'], ' <- '.join(vio['trace'][:4]))
        elif j['unknown'] or j['incomplete']: res['status'] = 'inconclusive'; res['msg'] = ('solver/engine: ' + j['unkmsg']) if j['unknown'] else 'budget exhausted'
        elif unc: res['status'] = 'vacuous'; res['msg'] = 'unreached witnesses: %s' % unc
        elif r.returncode: pass
        else: res['status'] = 'ok'; res['msg'] = ''
        res['samples'] = [json.loads(l) for l in open(d + '/samples.txt')][:3] if os.path.exists(d + '/samples.txt') else []
    res['total_s'] = time.time() - t0
    if res['status'] == 'ok' and not os.environ.get('VP_KEEP'):
        try: os.remove(bc)
        except OSError: pass
    return res

def main():
    a = sys.argv[1:]
    if a[0] == '--setup': sys.exit(0 if ensure_engine() else 2)
    prop = a[0]; tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    for i, x in enumerate(a):
        if x == '--tier': tier = a[i + 1]
        if x == '--only': only = a[i + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.path.insert(0, V)
    import checks
    P = checks.CHECKS[prop]; t0 = time.time()
    if not ensure_engine(): print('engine build failed'); sys.exit(2)
    outd = V + '/out/' + prop; os.makedirs(outd, exist_ok=True)
    results = []; viol = 0; bad = False
    for h in P['harnesses']:
        if only and h.name != only: continue
        if tier == 'quick' and not h.quick: continue
        r = run_harness(h, tier, outd, max(60, min(600, 780 - (time.time() - t0) - 15 * (len(P['harnesses']) - len(results) - 1))) if tier == 'quick' else h.tbudget); results.append(r)
        print('%-28s %-12s paths=%-7s queries=%-8s z3=%-7s solver=%6.1fs wall=%6.1fs %s' % (h.name, r['status'], r.get('paths'), r.get('queries'), r.get('z3calls'), r.get('solver_s', 0), r.get('total_s', 0), r['msg'])); sys.stdout.flush()
        if r['status'] == 'violation':
            viol += 1; print('VIOLATION property=%s replay=%s' % (prop, r['replay'])); sys.stdout.flush()
            break
        elif r['status'] != 'ok': bad = True
    tot = lambda k: sum(r.get(k, 0) or 0 for r in results)
    funcs = sorted(set(f for r in results for f in r.get('functions', [])))
    ev = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level='model_checking',
        coverage=dict(states=tot('insts'), transitions=tot('paths'), traces_validated_against_impl=sum(1 for r in results if r.get('vio', {}).get('reproduced')),
            paths_explored=tot('paths'), ir_instructions_executed=tot('insts'), assertions_checked=tot('asserts'), assertion_queries=tot('assert_queries'), queries_discharged=tot('queries'), solver_calls=tot('z3calls'), solver_sat=tot('sat'), solver_unsat=tot('unsat'), solver_unknown=tot('unk'), solver_seconds=round(tot('solver_s'), 3),
            functions_encoded=funcs, bounds=(P['bounds'] if isinstance(P.get('bounds', ''), str) else P['bounds'][tier]), outside=P.get('outside', ''),
            harnesses=[dict(name=r['name'], status=r['status'], paths=r.get('paths'), queries=r.get('queries'), solver_calls=r.get('z3calls'), solver_s=r.get('solver_s'), max_path_steps=r.get('max_path_steps'), witnesses=r.get('covers'), wall_s=round(r.get('total_s', 0), 2), note=r['msg'][:300]) for r in results],
            samples=[dict(harness=r['name'], **s) for r in results for s in r.get('samples', [])][:12], explanation='states = IR instructions executed symbolically, transitions = completed symbolic paths; every path covers all inputs satisfying its path condition'),
        assumptions=P.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=viol)
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(V + '/evidence/%s.json' % prop, 'w'), indent=1)
    print('%s: %s in %.1fs' % (prop, 'VIOLATED' if viol else 'INCONCLUSIVE' if bad else 'held', time.time() - t0))
    sys.exit(1 if viol else 2 if bad else 0)
if __name__ == '__main__': main()
