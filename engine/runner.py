"""Runs the deductive verification of one property against the current tree of /repo and reports."""
import os, sys, time, json, re, subprocess, tempfile, shutil, traceback, collections
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
FLAGS = ['-std=c++17', '-O0', '-fno-exceptions', '-fno-access-control', '-Wno-invalid-offsetof',
         '-fno-discard-value-names', '-w', '-include', 'cstdarg']


def declarations(root):
    """(name, declaration with the name left out) of everything that looks like a member declaration in the headers"""
    res = []
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if not f.endswith(('.hpp', '.h')):
                continue
            for l in open(os.path.join(d, f), errors='replace'):
                l = re.sub(r'//.*', '', l).strip()
                m = re.fullmatch(r'((?:[\w:]|<[^;=]*>|[*&]|\s)+?[\s*&])(\w+)\s*((?:\[\w*\])?;|=[^;=]*;|\{[^;]*\};|\([^;]*\)[\w\s=]*;?)', l)
                if m and m.group(1).split()[0] not in (':', ',', 'return', 'using', 'typedef', 'delete', 'else', 'namespace', 'class', 'struct', 'goto'):
                    tail = m.group(3) if m.group(3).startswith('(') else ';'
                    res.append((m.group(2), ' '.join((os.path.relpath(os.path.join(d, f), root) + ': ' + m.group(1) + '@' + tail).split())))
    return res


def adapt(err, specdir, renamed):
    """the contracts name private members: follow one that was merely renamed -> whether anything was done"""
    try:
        base = [tuple(x) for x in json.load(open(os.path.join(VERIF, 'specs', 'names.json')))]
    except OSError:
        return False
    now = declarations(REPO + '/include')
    edits = {}
    for m in re.finditer(r"^([^\s:]+):(\d+):(\d+): error: (?:(?:no member named|use of undeclared identifier) '(\w+)'|only virtual member)", err, re.M):
        if not m.group(1).startswith(specdir):
            continue
        name = m.group(4)
        if not name:
            name = re.findall(r'(\w+)\s*\(', open(m.group(1)).read().split('\n')[int(m.group(2)) - 1][:int(m.group(3)) - 1])
            name = name[-1] if name else ''
        cand = set()
        for d in set(d for n, d in base if n == name):
            # declarations that read the same but for the name, in their order in the file
            gone = [n for n, d2 in base if d2 == d and (n, d2) not in now]
            come = [n for n, d2 in now if d2 == d and (n, d2) not in base]
            if name in gone and len(gone) == len(come):
                cand.add(come[gone.index(name)])
        if len(cand) == 1:
            edits.setdefault(m.group(1), set()).add((int(m.group(2)), int(m.group(3)), name, cand.pop()))
    for f, es in edits.items():
        lines = open(f).read().split('\n')
        for ln, col, a, b in sorted(es, reverse=True):
            l = lines[ln - 1]
            if l[col - 1:col - 1 + len(a)] == a:
                lines[ln - 1] = l[:col - 1] + b + l[col - 1 + len(a):]
            else:
                lines[ln - 1] = re.sub(r'\b%s\b' % a, b, l)
            renamed.add(a + ' -> ' + b)
        open(f, 'w').write('\n'.join(lines))
    return bool(edits)


def compile_ir(spec, out, tmp, renamed):
    """-> (ok, command, errors, the specification file that was compiled)"""
    specdir = VERIF + '/specs'
    for attempt in range(8):
        cmd = ['clang++'] + FLAGS + ['-ferror-limit=0', '-S', '-emit-llvm', '-I' + REPO + '/include', '-I' + specdir, '-o', out, spec]
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=tmp)
        if r.returncode == 0:
            break
        if specdir != tmp + '/specs':
            specdir = tmp + '/specs'
            if not os.path.isdir(specdir):
                shutil.copytree(VERIF + '/specs', specdir)
            spec = os.path.join(specdir, os.path.basename(spec))
        elif not adapt(r.stderr, specdir, renamed):
            break
    return r.returncode == 0, ' '.join(cmd), r.stderr, spec


def covers_of(spec):
    """cover points written in the harness functions themselves"""
    src = open(spec).read()
    res = {}
    for m in re.finditer(r'^void (H_\w+)\(\)', src, re.M):
        line = src[m.end():src.find('\n', m.end())]
        body = line if line.rstrip().endswith('}') else src[m.end():src.find('\n}', m.end())]
        res[m.group(1)] = re.findall(r'vf_cover\("([^"]*)"\)', body)
    return res


_MOD = {}


def one(job):
    """verify one harness function (in a worker process)"""
    llfile, fname, budget, dump, prop = job
    import vc, lib
    t = time.time()
    mod = _MOD[llfile]
    ex = vc.Ex(mod, budget)
    lib.install(ex)
    ex.dump = dump
    ex.prop = prop
    err = None
    try:
        ex.run(fname)
    except vc.Unsupported as e:
        err = 'not within reach: %s (at %s)' % (e, ' > '.join(ex.stack[-4:]))
    except Exception as e:
        err = 'engine error: %r (at %s) %s' % (e, ' > '.join(ex.stack[-4:]), traceback.format_exc(limit=-3))
    return {'harness': fname, 'err': err,
            'obls': [(o.name, o.where, o.status, o.detail, o.ms) for o in ex.obls],
            'nds': [list(o.nds) for o in ex.obls if o.status == 'failed' and o.nds][:20],
            'covers': ex.covers, 'called': ex.called, 'solver_s': ex.solver_s, 'checks': ex.checks,
            'loops': ex.houdini_stats, 'wall': time.time() - t, 'smt': ex.smt}


def known_findings():
    """obligation names listed as genuine, unrepaired defects: {property: [(obligation regex, text)]}"""
    res = collections.defaultdict(list)
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) obligation="([^"]*)" at="([^"]*)" (.*)', l.strip())
            if m:
                res[m.group(1)].append((m.group(2), m.group(3), m.group(4)))
    return res


def cvc5_check(smt):
    """second back end: cvc5 on a dumped obligation"""
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    f.write(smt)
    f.close()
    try:
        r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=10000', '--strings-exp', f.name], capture_output=True, text=True, timeout=20)
        o = r.stdout.strip().split('\n')[0] if r.stdout else 'error'
    except subprocess.TimeoutExpired:
        o = 'timeout'
    os.unlink(f.name)
    return o


SAN = ['-fsanitize=address,undefined', '-fno-sanitize=function', '-fno-sanitize-recover=undefined']
SANENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99', 'UBSAN_OPTIONS': 'print_stacktrace=0:exitcode=99'}


def native_build(spec, tmp, extra, path):
    """the specification as a native program: same contracts, concrete values"""
    exe = os.path.join(tmp, 'native_' + spec.replace('.cpp', ''))
    cmd = ['clang++', '-std=c++17', '-O1', '-g1', '-w', '-fno-exceptions', '-fno-access-control', '-Wno-invalid-offsetof', '-include', 'cstdarg',
           '-DVF_NATIVE', '-DSPEC="%s"' % path] + list(extra) + SAN + \
          ['-I' + REPO + '/include', '-I' + os.path.dirname(path), '-rdynamic', '-o', exe, os.path.join(VERIF, 'replay', 'native.cpp'), '-lpthread', '-ldl']
    return exe, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=tmp)


def native_run(prop, exe, harnesses, scripts, secs, tmp):
    """-> (found, text): runs the harness functions with the verifier's counterexamples, then with pseudo-random values"""
    from concurrent.futures import ThreadPoolExecutor
    env = dict(os.environ)
    env.update(SANENV)
    env['VF_PROP'] = prop

    def go(h):
        a = h
        if scripts.get(h):
            a += '=' + ';'.join(','.join(map(str, l)) for l in scripts[h][:20])
        d = tempfile.mkdtemp(dir=tmp)
        try:
            r = subprocess.run([exe, str(secs), a], capture_output=True, text=True, timeout=secs * 4 + 30, cwd=d, env=env, errors='replace')
            return r.returncode != 0, (r.stdout + r.stderr)[-3000:]
        except subprocess.TimeoutExpired:
            return False, h + ': did not end\n'
    found, texts = False, []
    with ThreadPoolExecutor(8) as tp:
        for h, (bad, t) in zip(harnesses, tp.map(go, harnesses)):
            texts.append(t.strip())
            found |= bad
    return found, '\n'.join(texts)


def replay(prop, conf, tmp, tier, failed, scripts):
    """-> (status, text): 'found' | 'none' | 'broken'"""
    progs = conf.get('replay') or []
    texts = []
    found, ran, broken = False, False, False
    jobs = []
    for src in progs:
        exe = os.path.join(tmp, 'replay_' + os.path.basename(src).replace('.cpp', ''))
        cmd = ['clang++', '-std=c++17', '-O1', '-g1', '-w', '-fno-access-control', '-include', 'cstdarg'] + SAN + \
              ['-I' + REPO + '/include', '-I' + VERIF + '/replay', '-o', exe, os.path.join(VERIF, 'replay', src), '-lpthread']
        jobs.append((src, exe, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=tmp)))
    nat = []
    if conf.get('native', True):
        for spec, pats in conf['harness']:
            exe, p = native_build(spec, tmp, conf.get('native_flags', ()), conf['sources'].get(spec) or os.path.join(VERIF, 'specs', spec))
            nat.append((spec, pats, exe, p))
    for spec, pats, exe, p in nat:
        out = p.communicate()[0]
        if p.returncode != 0:
            texts.append('specs/%s does not build natively against this tree:\n%s' % (spec, out[-2000:]))
            broken = True
            continue
        hs = [h for h in covers_of(os.path.join(VERIF, 'specs', spec)) if any(re.fullmatch(x, h) for x in pats) and '_known_' not in h]
        bad = [o[0] for o in failed]
        hs.sort(key=lambda h: h not in bad)
        f, t = native_run(prop, exe, hs, scripts, (4 if len(hs) > 20 else 8) if tier == 'quick' else 20, tmp)
        texts.append('native execution of the contracts in specs/%s:\n%s' % (spec, t))
        found |= f
        ran = True
    for src, exe, p in jobs:
        out = p.communicate()[0]
        if p.returncode != 0:
            texts.append('replay program %s does not build against this tree:\n%s' % (src, out[-3000:]))
            broken = True
            continue
        ran = True
        env = dict(os.environ)
        env.update(SANENV)
        t = 60 if tier == 'quick' else 240
        d = tempfile.mkdtemp(dir=tmp)
        try:
            r = subprocess.run([exe, prop], capture_output=True, text=True, timeout=t, cwd=d, env=env, errors='replace')
            o = (r.stdout + r.stderr)[-6000:]
            if r.returncode == 0:
                texts.append('$ %s %s\n%s' % (src, prop, o[-800:]))
            else:
                texts.append('$ %s %s   (exit %d)\n%s' % (src, prop, r.returncode, o))
                found = True
        except subprocess.TimeoutExpired as e:
            texts.append('$ %s %s   (did not end within %d s)\n%s' % (src, prop, t, ((e.stdout or b'')[-1500:].decode(errors='replace') if isinstance(e.stdout, bytes) else str(e.stdout))))
            if conf.get('hang_is_failure', True):
                found = True
    return 'found' if found else 'none' if ran else 'broken', '\n'.join(texts)


def run(prop, conf, tier, seed):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vf_%s_' % prop)
    try:
        return run1(prop, conf, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run1(prop, conf, tier, seed, tmp, t0):
    from ir import Module
    jobs = []
    undecided = []
    cmds = []
    renamed = set()
    conf = dict(conf, sources={})
    want = {}
    budget = conf.get('budget', 240) if tier == 'quick' else 700
    for spec, pats in conf['harness']:
        path = os.path.join(VERIF, 'specs', spec)
        ll = os.path.join(tmp, spec.replace('.cpp', '.ll'))
        ok, cmd, err, src = compile_ir(path, ll, tmp, renamed)
        conf['sources'][spec] = src
        cmds.append(cmd.replace(tmp, '$TMP'))
        if not ok:
            undecided.append('the contracts in specs/%s do not fit this tree any more: %s' % (spec, err[:1500]))
            continue
        mod = Module(open(ll).read())
        _MOD[ll] = mod
        cov = covers_of(path)
        try:
            base = json.load(open(os.path.join(VERIF, 'specs', 'covers.json')))
        except OSError:
            base = {}
        names = [f for f in sorted(mod.funcs) if f.startswith('H_') and any(re.fullmatch(p, f) for p in pats)]
        if not names:
            undecided.append('no harness in ' + spec)
        for f in names:
            want[f] = list(dict.fromkeys(cov.get(f, []) + base.get(f, [])))
            jobs.append((ll, f, budget, tier == 'thorough', prop))
    results = []
    t_start = time.time()

    def verify(todo, results, undecided, limit):
        with mp.get_context('fork').Pool(min(8, len(todo))) as pool:
            rs = [(j, pool.apply_async(one, (j,))) for j in todo]
            for j, r in rs:
                try:
                    results.append(r.get(timeout=max(5, limit - (time.time() - t_start))))
                except mp.TimeoutError:
                    undecided.append('%s: no answer within the time limit' % j[1])
            pool.terminate()

    def is_mine(o):
        # a harness may serve several properties: an obligation named after another one is not this check's
        return not re.match(r'C\d\d ', o[0]) or o[0].startswith(prop)

    def unmet(r):
        return [c for c in want[r['harness']] if r['covers'].get(c, 0) == 0]

    def broken(r):
        return bool(r['err'] or unmet(r) or any(o[2] not in ('proved', 'simplified') for o in r['obls'] if is_mine(o)))
    if jobs:
        verify(jobs, results, undecided, budget + 60)
    # where the contracts of helper functions do not hold any more the same property may follow without them
    replaced = []
    early = None
    for spec, group, alt in conf.get('alternatives', []):
        grp = [j for j in jobs if j[0].endswith('/' + spec.replace('.cpp', '.ll')) and re.fullmatch(group, j[1])]
        if not grp:
            continue
        done = [r for r in results if re.fullmatch(group, r['harness'])]
        lost = len(done) < len(grp)
        if not lost and not any(broken(r) for r in done):
            continue
        hard = any(o[2] == 'failed' for r in done for o in r['obls'] if is_mine(o))
        if hard:
            # a failing input settles the question
            early = replay(prop, conf, tmp, tier, [(r['harness'],) for r in done if broken(r)], {r['harness']: r['nds'] for r in results if r['nds']})
            if early[0] == 'found':
                continue
        ll = grp[0][0]
        path = os.path.join(VERIF, 'specs', spec)
        cov = covers_of(path)
        names = [f for f in sorted(_MOD[ll].funcs) if re.fullmatch(alt, f)]
        for f in names:
            want[f] = list(dict.fromkeys(cov.get(f, []) + base.get(f, [])))
        ares, aund = [], []
        alimit = time.time() - t_start + (400 if tier == 'quick' else 2500)
        verify([(ll, f, 2 * budget, tier == 'thorough', prop) for f in names], ares, aund, alimit)
        bad = aund or any(broken(r) for r in ares)
        if not bad or not hard:
            results = [r for r in results if not re.fullmatch(group, r['harness'])]
            undecided = [u for u in undecided if not re.match(group + ':', u)]
            replaced.append(group + ' -> ' + alt)
        results += ares
        undecided += aund
    obls = []
    funcs = collections.Counter()
    for r in results:
        if r['err'] and '_known_' not in r['harness']:
            undecided.append('%s: %s' % (r['harness'], r['err']))
        for o in r['obls']:
            if not is_mine(o):
                continue
            obls.append((r['harness'],) + tuple(o))
        if not r['err']:
            for c in want[r['harness']]:
                ok = r['covers'].get(c, 0) > 0
                obls.append((r['harness'], 'reachable: ' + c, r['harness'], 'proved' if ok else 'failed',
                             '' if ok else 'no execution satisfying the preconditions reaches this point', 0))
        funcs.update(r['called'])
    failed = [o for o in obls if o[3] == 'failed']
    unknown = [o for o in obls if o[3] == 'unknown']
    for o in unknown:
        undecided.append('%s: the solver gave no answer for "%s" at %s' % (o[0], o[1], o[2]))
    # known findings
    kf = known_findings().get(prop, [])
    hit = {}
    real = []
    for o in failed:
        k = next((k for k in kf if k[0] in (o[1], '*') and re.search(k[1], o[0] + ' ' + o[2])), None)
        if k:
            hit[k] = hit.get(k, 0) + 1
        else:
            real.append(o)
    # an unmet cover behind a failed obligation is only a consequence
    discharged = [o for o in obls if o[3] in ('proved', 'simplified')]
    cov = {
        'obligations': len(obls) - (len(failed) - len(real)), 'discharged': len(discharged), 'failed': len(real), 'known_findings_failed': len(failed) - len(real),
        'unknown': len(unknown),
        'obligations_by_simplification': sum(1 for o in obls if o[3] == 'simplified'),
        'obligations_by_z3': sum(1 for o in obls if o[3] == 'proved' and not o[1].startswith('reachable: ')),
        'reachability_checks': sum(1 for o in obls if o[1].startswith('reachable: ')),
        'distinct_obligations': len(set((o[0], o[1], o[2]) for o in obls)),
        'statements_decided': {n: sum(1 for o in obls if o[1] == n) for n in sorted(set(o[1] for o in obls if o[1].startswith(prop + ' ')))},
        'harnesses': [{'name': r['harness'], 'obligations': len(r['obls']), 'solver_s': round(r['solver_s'], 2), 'solver_calls': r['checks'],
                       'loops_with_inferred_invariants': [dict(zip(('function', 'header', 'shapes', 'invariants', 's'), l)) for l in r['loops']],
                       'wall_s': round(r['wall'], 2), 'reached': sorted(r['covers']), 'not_decided': r['err']} for r in results],
        'functions_under_contract': sorted(f for f in funcs if f.startswith('oqpi::')),
        'library_functions_executed': sum(1 for f in funcs if f.startswith(('std::', '__gnu_cxx::'))),
        'solver_s': round(sum(r['solver_s'] for r in results), 2),
        'samples': [{'obligation': o[1], 'in': o[0], 'at': o[2], 'status': o[3]} for o in discharged[:: max(1, len(discharged) // 12)]][:12],
    }
    import lib
    used = sorted(f for f in funcs if f in lib.C or f.startswith(('std::__cxx11::basic_string', 'sem_', 'pthread_', 'sched_', 'clock_', 'nanosleep')))
    cov['checker_cmd'] = '; '.join(cmds) + '; python3-vt check.py ' + prop
    cov['trusted_base'] = ['clang 18 front end at -O0 (C++ to LLVM IR; exception unwinding paths are dropped)',
                           'engine/*.py (verification condition generation, loop invariant checking)', 'z3 5.3.2',
                           'assumed contracts used in this run: ' + ', '.join(used)] + conf.get('trusted', [])
    status = 'proved'
    bounded = None
    rtext = ''
    if tier == 'thorough':
        smts = [s for r in results for s in (r['smt'] or [])]
        uniq = list(dict.fromkeys(smts))
        res = collections.Counter()
        if uniq:
            from concurrent.futures import ThreadPoolExecutor
            import random
            rnd = random.Random(seed)
            if len(uniq) > 600:
                uniq = rnd.sample(uniq, 600)
            with ThreadPoolExecutor(8) as tp:
                for o in tp.map(cvc5_check, uniq):
                    res[o] += 1
        cov['cross_checked_with_cvc5'] = dict(res)
        if res.get('sat'):
            undecided.append('cvc5 disagrees with z3 on %d obligations' % res['sat'])
    viol = None
    if real or undecided:
        scripts = {r['harness']: r['nds'] for r in results if r['nds']}
        st, rtext = early or replay(prop, conf, tmp, tier, real, scripts)
        bounded = {'status': st, 'kind': 'bounded: scenario suite on the real code', 'output': rtext[-2500:]}
        if st == 'found':
            viol = 'found'
        elif real:
            viol = 'none'
        elif st == 'broken':
            status = 'no answer'
        else:
            status = 'bounded'
    if bounded:
        cov['bounded_stand_in'] = bounded
    if renamed:
        cov['members_found_under_another_name'] = sorted(renamed)
    if replaced:
        cov['proved_without_the_contracts_of'] = replaced
    cov['not_decided_by_proof'] = undecided[:20]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov,
          'assumptions': conf.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': 1 if viol else 0}
    if conf.get('level') == 'other':
        ev['level'] = 'other'
        cov['explanation'] = conf.get('explanation', '')
    evdir = os.environ.get('VF_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    json.dump(ev, open(os.path.join(evdir, prop + '.json'), 'w'), indent=1)
    for k, n in hit.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, k[2]))
    print('%s %s: %d obligations, %d discharged, %d failed, %d undecided reasons, %.1f s solver, %.1f s' % (
        prop, 'VIOLATED' if viol else status, cov['obligations'], len(discharged), len(real), len(undecided), cov['solver_s'], time.time() - t0))
    for u in undecided[:6]:
        print('  undecided:', u[:600])
    if viol:
        rp = os.path.join(evdir, prop + '.replay.txt')
        with open(rp, 'w') as f:
            f.write('property %s is violated by the tree in %s\n\nfailed obligations:\n' % (prop, REPO))
            seen = set()
            for o in real:
                if (o[0], o[1], o[2]) in seen:
                    continue
                seen.add((o[0], o[1], o[2]))
                f.write('  [%s] %s\n      at %s\n      %s\n' % (o[0], o[1], o[2], o[4]))
            for u in undecided:
                f.write('  undecided: %s\n' % u)
            f.write('\nreplay against the real code (clang++ -fsanitize=address,undefined -I%s/include -I/verif/replay <program>):\n%s\n' % (REPO, rtext))
        for o in real[:5]:
            print('  failed: [%s] %s at %s %s' % (o[0], o[1], o[2], o[4][:300]))
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if viol == 'found' else ' no-failing-input-found'))
        return 1
    if status == 'no answer':
        print('no answer: the contracts do not fit this tree and the bounded stand-in does not build')
        print(rtext[-1500:])
        return 2
    return 0
