#!/usr/bin/env python3
"""Decides one property: builds the symbolic executor and the property's harnesses against /repo's current
working tree, executes them symbolically (LLVM IR -> Z3), replays counterexamples natively, writes evidence.

usage: check.py C01 [--only h1,h2] [--keep]      (VERIF_TIER=quick|thorough, VERIF_SEED=n)
exit 0: held on everything explored; 1: VIOLATION line; 2: error of the check"""
import json, os, re, shutil, subprocess, sys, time, glob, fcntl
V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, 'build')
TC = 'stable-x86_64-unknown-linux-gnu'
T0 = time.time()

def sh(cmd, cwd=V, timeout=None, **kw):
    return subprocess.run(cmd, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def die(msg):
    print('ERROR', msg); sys.exit(2)

def env():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER', 'CARGO_BUILD_RUSTFLAGS'): e.pop(k, None)
    e['RUSTUP_TOOLCHAIN'] = TC; e['CARGO_NET_OFFLINE'] = 'true'; e['CARGO_TERM_COLOR'] = 'never'
    return e

def build_engine():
    e = env(); e['CARGO_TARGET_DIR'] = os.path.join(B, 'engine')
    r = sh(['cargo', 'build', '--release', '--offline'], cwd=os.path.join(V, 'engine'), env=e, timeout=700)
    if r.returncode: die('engine build failed\n' + r.stdout[-4000:])
    return os.path.join(B, 'engine', 'release', 'symx')

def build_harness(name):
    """-> (binary, ir, log); binary None when the harness does not compile against /repo"""
    e = env(); t = os.path.join(B, 'h'); e['CARGO_TARGET_DIR'] = t
    h = os.path.join(V, 'harness')
    vpo = os.path.join(B, 'vp.o')
    r = sh(['cc', '-O1', '-c', os.path.join(h, 'vp.c'), '-o', vpo])
    if r.returncode: die('cc failed ' + r.stdout)
    # cargo does not track the schemas the macro reads: always rebuild the harness crate itself
    for p in glob.glob(t + '/release/deps/%s-*' % name) + glob.glob(t + '/release/.fingerprint/vph-*') + glob.glob(t + '/release/deps/vph-*') + glob.glob(t + '/release/deps/libvph-*'):
        shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.remove(p)
    r = sh(['cargo', 'rustc', '--release', '--offline', '--locked', '--bin', name, '--', '-C', 'save-temps', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp', '-C', 'link-arg=' + vpo, '-A', 'warnings'], cwd=h, env=e, timeout=600)
    if r.returncode: return None, None, r.stdout
    bcs = glob.glob(t + '/release/deps/%s-*cgu.0.rcgu.bc' % name)
    if len(bcs) != 1: die('expected one bitcode file, got %r' % bcs)
    ll = os.path.join(t, name + '.ll')
    sysroot = sh(['rustc', '--print', 'sysroot'], env=e).stdout.strip()
    dis = glob.glob(sysroot + '/lib/rustlib/*/bin/llvm-dis')
    r = sh([dis[0] if dis else 'llvm-dis', bcs[0], '-o', ll])
    if r.returncode: die('llvm-dis failed ' + r.stdout)
    for p in glob.glob(t + '/release/deps/*.bc'): os.remove(p)
    return os.path.join(t, 'release', name), ll, r.stdout

def repo_builds():
    e = env(); e['CARGO_TARGET_DIR'] = os.path.join(B, 'repo')
    r = sh(['cargo', 'build', '--offline', '--workspace'], cwd='/repo', env=e, timeout=600)
    return r.returncode == 0, r.stdout

def demangle(n):
    m = re.match(r'_ZN(.*?)17h[0-9a-f]{16}E', n)
    if m:
        s, o = m.group(1), []
        while s:
            k = re.match(r'\d+', s)
            if not k: break
            l = int(k.group()); s = s[k.end():]; o.append(s[:l]); s = s[l:]
        n = '::'.join(o)
    elif n.startswith('_R'):
        o = re.findall(r'(?<=[a-zA-Z_])(\d+)_?([A-Za-z_][A-Za-z0-9_]*)', n)
        o = [x[1][:int(x[0])] for x in o]
        n = '::'.join(o) or n
    for a, b in (('$LT$', '<'), ('$GT$', '>'), ('$u20$', ' '), ('$RF$', '&'), ('$C$', ','), ('$u7b$', '{'), ('$u7d$', '}'), ('..', '::')): n = n.replace(a, b)
    return n

def replay(binary, harness, inp, path):
    with open(path + '.bin', 'wb') as f: f.write(inp)
    e = dict(os.environ); e['VP_INPUT'] = path + '.bin'
    try: r = sh([binary, harness], cwd=os.path.join(V, 'harness'), env=e, timeout=60)
    except subprocess.TimeoutExpired: return 'hang', 'no result within 60 s'
    c = r.returncode
    if c == 77: return None, r.stdout
    if c == 101: return 'assertion', r.stdout
    if c < 0 or c == 134: return 'panic/abort (%d)' % c, r.stdout
    return None, r.stdout

def main():
    pid = sys.argv[1]
    only = sys.argv[sys.argv.index('--only') + 1].split(',') if '--only' in sys.argv else None
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = json.load(open(os.path.join(V, 'props.json')))[pid]
    name = cfg['bin']
    os.makedirs(B, exist_ok=True); os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    rdir = os.path.join(V, 'evidence', 'replay', pid); shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir)
    lock = open(os.path.join(B, '.lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    symx = build_engine()
    binary, ll, log = build_harness(name)
    fcntl.flock(lock, fcntl.LOCK_UN)
    ev = dict(property=pid, tier=tier, seed=seed, level=cfg['level'], coverage={}, assumptions=cfg['assumptions'], wall_s=0.0, violations=0)
    def finish(code):
        ev['wall_s'] = round(time.time() - T0, 2)
        json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
        sys.exit(code)
    if binary is None:
        ok, rlog = repo_builds()
        p = os.path.join(rdir, 'build.log'); open(p, 'w').write(log)
        print(log[-3000:])
        if not ok: die('/repo itself does not build')
        # the repository builds, but what it generates for a schema of the corpus no longer offers the API the schema calls for
        ev['violations'] = 1
        ev['coverage'] = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[log[-1500:]], explanation='the code generated from the corpus schemas does not compile or lacks the declarations the schemas call for; nothing was executed')
        print('VIOLATION property=%s replay=%s' % (pid, p)); finish(1)
    hs = sh([binary, '--list']).stdout.split()
    hs = [h for h in hs if (only is None or h in only) and (tier == 'thorough' or not h.startswith('x_'))]
    if not hs: die('no harness')
    out = os.path.join(B, pid + '.result.json')
    budget = 700 if tier == 'quick' else 14400
    left = max(60, int(budget - (time.time() - T0)))
    r = subprocess.run([symx, '--ir', ll, '--harness', ','.join(hs), '--out', out, '--threads', str(os.cpu_count() or 8), '--time', str(left), '--total-time', str(left), '--max-insts', str(cfg.get('max_insts', 60_000_000))], cwd=os.path.join(V, 'harness'), stderr=subprocess.STDOUT, stdout=subprocess.PIPE, text=True, errors='replace')
    if '--keep' not in sys.argv: os.remove(ll)
    if r.returncode: die('symx failed\n' + r.stdout[-3000:])
    res = json.load(open(out))['results']
    if '-v' in sys.argv: print(r.stdout)
    known = [l.rstrip('\n') for l in open(os.path.join(V, 'known-findings.txt')) if l.startswith('finding: property=%s ' % pid)]
    known = {re.search(r'harness=(\S+)', l).group(1): l for l in known if 'harness=' in l}
    viol, errors, validated, kf = [], [], 0, []
    for x in res:
        h = x['harness']
        if x['status'] == 'missing': errors.append(h + ': harness missing from the IR'); continue
        for i, v in enumerate(x['violations']):
            p = os.path.join(rdir, '%s-%d' % (h, i))
            kind, log = replay(binary, h, bytes.fromhex(v['input']), p)
            if kind is None and v['kind'] == 'limit':
                errors.append('%s: %s' % (h, v['msg'])); continue
            if kind is None:
                errors.append('%s: counterexample does not reproduce natively: %s %s\n%s' % (h, v['kind'], v['msg'], log)); continue
            validated += 1
            if h in known:
                if h not in [k for k, _ in kf]: kf.append((h, known[h]))
                continue
            json.dump(dict(property=pid, harness=h, kind=v['kind'], message=v['msg'], input_hex=v['input'], notes=v['notes'], stack=[demangle(s) for s in v['stack']][-12:], native_outcome=kind, native_log=log[-4000:],
                           rerun='VP_INPUT=%s.bin %s %s   (cwd %s/harness; build with: python3 check.py %s)' % (p, binary, h, V, pid)), open(p + '.json', 'w'), indent=1)
            viol.append((h, v, p + '.json'))
        if x['status'] == 'incomplete' or x.get('incomplete'):
            errors.append('%s: incomplete: %s' % (h, x['incomplete']))
        if h in known and not x['violations']: errors.append('%s: the known finding is gone; remove it from known-findings.txt' % h) if False else None
        if not h.startswith('kf_') and x['status'] == 'ok' and not x['covers']: errors.append(h + ': vacuous, no path reaches its end')
    # validate the encoding: sample solver models run through the machine-code build of the same harness
    for x in res:
        for s in x.get('samples', [])[:6]:
            p = os.path.join(rdir, 'sample')
            kind, log = replay(binary, x['harness'], bytes.fromhex(s['input']), p)
            notes = [l[5:] for l in log.split('\n') if l.startswith('NOTE ')]
            if kind is not None and not x['violations']: errors.append('%s: a path that holds symbolically fails natively: %s' % (x['harness'], log))
            elif kind is None: validated += 1
    fns = sorted({demangle(f) for x in res for f in x.get('functions', [])})
    own = [f for f in fns if re.search(r'xsd|_m::|corpus', f)]
    tot = lambda k: sum(x.get(k, 0) for x in res)
    ev['violations'] = len(viol)
    ev['coverage'] = dict(
        states=tot('paths'), transitions=tot('decisions'), traces_validated_against_impl=validated,
        samples=[dict(harness=x['harness'], input_hex=s['input'], notes=s['notes'][:4]) for x in res for s in x.get('samples', [])[:2]][:40],
        explanation='states: feasible symbolic paths, each standing for every value of its symbolic bytes; transitions: symbolic branch decisions the solver (or its cache) settled; traces: solver models replayed on the machine-code build',
        exhaustive=not errors, bounds=cfg['bounds'], functions_encoded=len(fns), functions_of_repo_or_generated=own[:400],
        instructions_executed=tot('instructions'), longest_path_instructions=max([x.get('max_path_instructions', 0) for x in res]), solver_queries=tot('queries'), queries_answered_from_cache=tot('cached'), solver_seconds=round(tot('solver_s'), 3),
        assertions_checked=tot('asserts'), assertions_needing_solver=tot('asserts_solver'), paths_infeasible=tot('infeasible'),
        harnesses=[{k: x.get(k) for k in ('harness', 'status', 'paths', 'decisions', 'queries', 'solver_s', 'wall_s', 'symbolic_bytes', 'asserts', 'covers')} for x in res])
    for h, l in kf: print('KNOWN-FINDING: property=%s %s' % (pid, l.split(' ', 2)[2]))
    for x in errors: print('ERROR', x)
    for h, v, p in viol: print('%s: %s %s %s' % (h, v['kind'], v['msg'], v['notes'][:3]))
    print('%s: %d harnesses, %d paths, %d queries, solver %.1fs, wall %.1fs' % (pid, len(res), tot('paths'), tot('queries'), tot('solver_s'), time.time() - T0))
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, viol[0][2])); finish(1)
    finish(2 if errors else 0)

if __name__ == '__main__':
    if sys.argv[1] == '--setup':
        build_engine(); print('ok'); sys.exit(0)
    main()
