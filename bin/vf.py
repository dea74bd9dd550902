#!/usr/bin/env python3
"""Check driver: compile /repo's current sources + a harness to LLVM bitcode, execute symbolically,
replay every counterexample against a native build, write evidence, decide the exit code.

usage: vf.py check <PROP> [--tier quick|thorough] [--only HARNESS] [--keep]
       vf.py replay <PROP> <HARNESS> <inputs-file>
"""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'bin'))
import checks

NCPU = os.cpu_count() or 8
CLANG = 'clang++-18'
DEFS = ['-DNDEBUG', '-D_HAS_EXCEPTIONS=1', '-D__STDC_CONSTANT_MACROS=1', '-D__STDC_FORMAT_MACROS=1',
        '-D__STDC_LIMIT_MACROS=1', '-Dfptu_EXPORTS', '-DNVALGRIND']
INC = ['-I' + os.path.join(VERIF, 'rt/cfg'), '-I' + REPO, '-I' + os.path.join(VERIF, 'rt'), '-I' + os.path.join(VERIF, 'harness')]
BCFLAGS = ['-std=gnu++20', '-O1', '-g1', '-fno-pic', '-fno-pie', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
           '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fvisibility=hidden', '-w', '-emit-llvm'] + DEFS + INC
NATFLAGS = ['-std=gnu++20', '-O1', '-g1', '-fvisibility=hidden', '-w', '-fsanitize=address', '-fno-omit-frame-pointer'] + DEFS + INC
NATCXX = 'g++'
WRAP = ['-Wl,--wrap=malloc,--wrap=_Znwm,--wrap=_Znam,--wrap=_ZnwmRKSt9nothrow_t,--wrap=_ZnwmSt11align_val_t,--wrap=calloc,--wrap=realloc']


def sources():
    """The library's translation units: what src/CMakeLists.txt compiles, taken from the tree itself."""
    out = []
    for f in sorted(glob.glob(REPO + '/src/*.cxx') + glob.glob(REPO + '/src/1Hippeus/*.cxx')):
        out.append(f)
    return out


def extra_flags(f):
    b = os.path.basename(f)
    if b == 'scan_AVX.cxx':
        return ['-mavx']
    if b == 'scan_AVX2.cxx':
        return ['-mavx2']
    return []


def objname(f):
    return f.replace(REPO + '/src/', '').replace('/', '_')


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout.decode(errors='replace')[-4000:])


def ensure_engine():
    d = os.path.join(VERIF, 'engine')
    os.makedirs(os.path.join(d, 'build'), exist_ok=True)
    with open(os.path.join(d, 'build/.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        run(['make', '-s', '-j4', '-C', d])
    return os.path.join(d, 'build/sx')


def select(files, h):
    want = h.get('only_src')
    if not want:
        return files
    return [f for f in files if os.path.basename(f) in want]


def compile_bc(pool, work, files):
    futs = []
    for f in files:
        o = os.path.join(work, 'bc_' + objname(f) + '.bc')
        futs.append((o, pool.submit(run, [CLANG] + BCFLAGS + extra_flags(f) + ['-c', f, '-o', o])))
    return futs


def compile_native(pool, work, files):
    futs = []
    for f in files:
        o = os.path.join(work, 'nat_' + objname(f) + '.o')
        futs.append((o, pool.submit(run, [NATCXX] + NATFLAGS + extra_flags(f) + ['-c', f, '-o', o])))
    return futs


def hflags(h, tier):
    return ['-DSX_TIER=%d' % (1 if tier == 'thorough' else 0)] + ['-D' + d for d in h.get('defs', [])] + h.get('flags', [])


def write_inputs(path, recs, head):
    with open(path, 'w') as f:
        for l in head:
            f.write('# ' + l.replace('\n', ' ') + '\n')
        for w, v in recs:
            f.write('%d %d\n' % (w, v))


def native_run(binary, inp, obs=None, timeout=30):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1'
    try:
        p = subprocess.run([binary, inp] + ([obs] if obs else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
        return p.returncode, p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 'timeout', 'native run did not terminate in %d s' % timeout


def check(prop, tier, only=None, keep=False):
    t0 = time.time()
    spec = checks.PROPS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    work = tempfile.mkdtemp(prefix='sxv_' + prop + '_')
    status = 0
    try:
        status = check_in(prop, tier, spec, work, seed, t0, only)
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('kept', work)
    return status


def check_in(prop, tier, spec, work, seed, t0, only):
    engine = ensure_engine()
    files = sources()
    harnesses = [h for h in spec['harnesses'] if (only is None or h['name'] == only) and not (h.get('thorough_only') and tier != 'thorough')]
    pool = cf.ThreadPoolExecutor(NCPU)
    bcs = compile_bc(pool, work, files)
    stub = os.path.join(work, 'bc_stubs.bc')
    fstub = pool.submit(run, [CLANG] + BCFLAGS + ['-fno-builtin', '-c', os.path.join(VERIF, 'rt/stubs.cpp'), '-o', stub])
    hb = []
    for h in harnesses:
        o = os.path.join(work, 'h_%s.bc' % h['name'])
        hb.append((h, o, pool.submit(run, [CLANG] + BCFLAGS + hflags(h, tier) + ['-c', os.path.join(VERIF, 'harness', h['src']), '-o', o])))
    for o, f in bcs:
        f.result()
    fstub.result()
    lib = os.path.join(work, 'lib.bc')
    run(['llvm-link-18', '-o', lib] + [o for o, _ in bcs] + [stub])
    for h, o, f in hb:
        f.result()
    # native replay objects build in the background while the solver works (with low priority)
    nats = compile_native(pool, work, files)
    natrt = os.path.join(work, 'native.o')
    fnat = pool.submit(run, [NATCXX] + NATFLAGS + ['-c', os.path.join(VERIF, 'rt/native.cpp'), '-o', natrt])
    nh = []
    for h in harnesses:
        o = os.path.join(work, 'nh_%s.o' % h['name'])
        nh.append((h, o, pool.submit(run, [NATCXX] + NATFLAGS + hflags(h, tier) + ['-c', os.path.join(VERIF, 'harness', h['src']), '-o', o])))
    build_s = time.time() - t0
    results = []
    for h, o, _ in hb:
        linked = os.path.join(work, 'l_%s.bc' % h['name'])
        run(['llvm-link-18', '-o', linked, lib, o])
        lim = h.get(tier, h.get('quick', {}))
        outp = os.path.join(work, 'r_%s' % h['name'])
        cmd = [engine, linked, '--out', outp, '--time', str(lim.get('time', 60)), '--steps', str(lim.get('steps', 2000000)),
               '--workers', str(NCPU), '--split', str(lim.get('split', 192)), '--wit', str(lim.get('wit', 3)),
               '--qto', str(lim.get('qto', 20000))]
        if tier == 'thorough' and os.environ.get('VF_DUMP'):
            os.makedirs(os.path.join(work, 'smt'), exist_ok=True)
            cmd += ['--dump', os.path.join(work, 'smt')]
        ht0 = time.time()
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        parts = []
        for f in sorted(glob.glob(outp + '.*.json')):
            with open(f) as fh:
                parts.append(json.load(fh))
        results.append(dict(h=h, rc=p.returncode, err=p.stderr.decode(errors='replace')[-2000:], parts=parts, wall=time.time() - ht0, limits=lim))
        if os.environ.get('VF_VERBOSE'):
            sys.stderr.write(p.stderr.decode(errors='replace')[-3000:])
    return conclude(prop, tier, spec, work, seed, t0, results, nats, natrt, fnat, nh, build_s, harnesses)


def known_findings(prop):
    """known_findings.txt: 'known: property=<id> harness=<name> msg=<exact assertion text> :: <what fails>' lines."""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for l in open(path):
            if l.startswith('known: property=%s ' % prop):
                head, what = l.strip().split(' :: ', 1)
                rest = head.split(' harness=', 1)[1]
                harness, msg = rest.split(' msg=', 1)
                out.append(dict(harness=harness, msg=msg, what=what, hit=False))
    return out


def conclude(prop, tier, spec, work, seed, t0, results, nats, natrt, fnat, nh, build_s, harnesses):
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    for f in glob.glob(os.path.join(evdir, prop + '.cex*')):
        os.remove(f)
    for o, f in nats:
        f.result()
    fnat.result()
    natbin = {}
    objs = [o for o, _ in nats]
    for h, o, f in nh:
        f.result()
        b = os.path.join(work, 'nb_' + h['name'])
        run([NATCXX, '-fsanitize=address'] + WRAP + ['-o', b, o, natrt] + objs)
        natbin[h['name']] = b
    tot = {}
    violations, unconfirmed, problems, notes = [], [], [], []
    functions, reach_all, samples = set(), {}, []
    validated = 0
    known = known_findings(prop)
    per = []
    for r in results:
        h = r['h']
        agg = {}
        errs, wits, reach, unsup = [], [], {}, {}
        for p in r['parts']:
            for k, v in p.items():
                if isinstance(v, (int, float)) and k not in ('wall', 'solver_max_s'):
                    agg[k] = agg.get(k, 0) + v
                elif k == 'solver_max_s':
                    agg[k] = max(agg.get(k, 0), v)
            errs += p['errors']
            wits += p['witnesses']
            for k, v in p['reach'].items():
                reach[k] = reach.get(k, 0) + v
            for k, v in p['unsupported_msgs'].items():
                unsup[k] = unsup.get(k, 0) + v
            functions.update(x for x in p['functions'] if 'fptu' in x or 'hippeus' in x or 'erthink' in x)
        if r['rc'] != 0 or not r['parts']:
            problems.append('%s: engine failure rc=%s %s' % (h['name'], r['rc'], r['err'][-400:]))
        if unsup:
            notes.append('%s: paths left undecided because they reach code the encoder does not support: %s' % (h['name'], list(unsup.items())[:3]))
            if not agg.get('paths', 0):
                problems.append('%s: unsupported: %s' % (h['name'], list(unsup.items())[:3]))
        seen = {}
        nconf = 0
        for e in errs:
            key = (e['kind'], e['msg'], e['where'].split(' <- ')[0])
            if seen.get(key, 0) >= 3 or seen.get(key) == -1:
                continue
            seen[key] = seen.get(key, 0) + 1
            idx = len(violations) + len(unconfirmed)
            path = os.path.join(evdir, '%s.cex%d.%s.txt' % (prop, idx, h['name']))
            write_inputs(path, e['inputs'], ['property %s harness %s' % (prop, h['name']), '%s: %s' % (e['kind'], e['msg']), 'at ' + e['where'],
                                            'replay: bin/vf.py replay %s %s <this file>' % (prop, h['name'])])
            rc, out = native_run(natbin[h['name']], path)
            kf = [k for k in known if k['harness'] == h['name'] and k['msg'] == e['msg']]
            if kf and rc not in (0, 40, 41):
                kf[0]['hit'] = True
                seen[key] = -1
                os.remove(path)
                continue
            if rc in (0, 40, 41):
                unconfirmed.append((h['name'], e, path, rc))
            else:
                seen[key] = -1
                violations.append((h['name'], e, path, rc, out))
                nconf += 1
            if nconf >= 4 or len(unconfirmed) > 24:
                break
        # witness paths: the native build must observe exactly what the symbolic path predicts
        for i, w in enumerate(wits[:h.get('max_wit', 24)]):
            ip = os.path.join(work, 'w_%s_%d.txt' % (h['name'], i))
            op = ip + '.obs'
            write_inputs(ip, w['in'], [])
            rc, out = native_run(natbin[h['name']], ip, op)
            got = [int(x) for x in open(op).read().split()] if os.path.exists(op) else []
            exp = [v for _, v in w['obs']]
            if rc == 0 and got == exp:
                validated += 1
            elif rc == 0 or rc in (40,):
                if not violations:
                    problems.append('%s: witness %d diverges natively: rc=%s predicted %s observed %s' % (h['name'], i, rc, exp[:12], got[:12]))
            else:
                # the native build fails on a path the encoding calls fine: the real code is the judge
                path = os.path.join(evdir, '%s.cex%d.%s.txt' % (prop, 100 + i, h['name']))
                write_inputs(path, w['in'], ['native failure on witness path', out[-600:]])
                violations.append((h['name'], dict(kind='native', msg='native build fails on a path predicted to pass: ' + out[-300:].replace('\n', ' '), where='', inputs=w['in']), path, rc, out))
            if len(samples) < 3:
                samples.append(dict(harness=h['name'], inputs=w['in'][:40], observed=exp[:20]))
        for lab in h.get('reach', []):
            if not reach.get(lab):
                if not violations:
                    problems.append('%s: vacuity: label %r never reached' % (h['name'], lab))
        if agg.get('paths', 0) == 0 and not errs and not h.get('finding'):
            problems.append('%s: no path reaches the end of the harness' % h['name'])
        if agg.get('unfinished') or agg.get('unknown'):
            notes.append('%s: bounded exploration cut short: %d unfinished path prefixes, %d undecided branches' % (h['name'], agg.get('unfinished', 0), agg.get('unknown', 0)))
        for k, v in agg.items():
            tot[k] = tot.get(k, 0) + v if k != 'solver_max_s' else max(tot.get(k, 0), v)
        reach_all[h['name']] = reach
        per.append(dict(harness=h['name'], bounds=h.get('bounds', ''), limits=r['limits'], wall_s=round(r['wall'], 1), paths=agg.get('paths', 0), instructions=agg.get('insts', 0),
                        asserts=agg.get('asserts', 0), symbolic_asserts=agg.get('assert_queries', 0), memory_checks=agg.get('mem_checks', 0),
                        solver_queries=agg.get('queries', 0), solver_calls=agg.get('z3_calls', 0) + agg.get('sat_calls', 0) + agg.get('cvc5_calls', 0), unsat=agg.get('unsat', 0), solver_s=round(agg.get('solver_s', 0), 2),
                        assumed_away=agg.get('assumed_away', 0), unfinished=agg.get('unfinished', 0), undecided=agg.get('unknown', 0), reach=reach))
    if unconfirmed and not violations:
        for hn, e, path, rc in unconfirmed[:4]:
            problems.append('%s: counterexample not reproduced natively (rc=%s): %s: %s at %s [%s]' % (hn, rc, e['kind'], e['msg'], e['where'], path))
    complete = not notes
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(
                  states=tot.get('paths', 0) + tot.get('assumed_away', 0) + tot.get('err_paths', 0),
                  transitions=tot.get('insts', 0),
                  traces_validated_against_impl=validated,
                  samples=samples,
                  exhaustive=bool(complete),
                  exhaustive_means='every path of every harness within its stated bounds was decided' if complete else 'time budget ended the exploration; see cut_short',
                  cut_short=notes,
                  completed_paths=tot.get('paths', 0),
                  solver_queries=tot.get('queries', 0), solver_calls=tot.get('z3_calls', 0) + tot.get('sat_calls', 0) + tot.get('cvc5_calls', 0), z3_calls=tot.get('z3_calls', 0), cvc5_integer_calls=tot.get('cvc5_calls', 0),
                  bitblast_cdcl_calls=tot.get('sat_calls', 0), unsat_cross_checked_by_z3=tot.get('cross_checked', 0), unsat_answers=tot.get('unsat', 0), sat_answers=tot.get('sat', 0),
                  query_cache_hits=tot.get('cache_hits', 0), solver_seconds=round(tot.get('solver_s', 0), 2), slowest_query_s=round(tot.get('solver_max_s', 0), 2),
                  assertions_checked=tot.get('asserts', 0), memory_safety_checks=tot.get('mem_checks', 0),
                  functions_encoded=sorted(functions)[:400], functions_encoded_count=len(functions),
                  harnesses=per, explanation=spec.get('explain', ''), build_s=round(build_s, 1)),
              assumptions=checks.COMMON_ASSUMPTIONS + spec.get('assumptions', []),
              wall_s=round(time.time() - t0, 1), violations=len(violations))
    tmp = os.path.join(evdir, prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(evdir, prop + '.json'))
    print('%s %s: %d paths, %d instructions, %d solver calls (%.1f s), %d asserts, %d witnesses replayed, %.1f s%s' % (
        prop, tier, tot.get('paths', 0), tot.get('insts', 0), tot.get('z3_calls', 0) + tot.get('sat_calls', 0) + tot.get('cvc5_calls', 0), tot.get('solver_s', 0), tot.get('asserts', 0), validated, time.time() - t0,
        '' if complete else ' [INCOMPLETE within budget]'))
    for p in per:
        print('  %-22s paths %-7d unfinished %-5d undecided %-4d %.1fs' % (p['harness'], p['paths'], p['unfinished'], p['undecided'], p['wall_s']))
    for n in notes:
        print('  note:', n)
    for k in known:
        if k['hit']:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if violations:
        for hn, e, path, rc, out in violations[:6]:
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  harness %s: %s: %s' % (hn, e['kind'], e['msg']))
            print('  at %s' % e['where'])
            print('  native replay: rc=%s %s' % (rc, out.strip().splitlines()[0] if out.strip() else ''))
        return 1
    if problems:
        for p in problems:
            print('ERROR:', p)
        return 2
    return 0


def replay(prop, hname, inp):
    spec = checks.PROPS[prop]
    h = [x for x in spec['harnesses'] if x['name'] == hname][0]
    work = tempfile.mkdtemp(prefix='sxr_')
    try:
        with cf.ThreadPoolExecutor(NCPU) as pool:
            nats = compile_native(pool, work, sources())
            for o, f in nats:
                f.result()
        b = os.path.join(work, 'nb')
        run([NATCXX] + NATFLAGS + WRAP + hflags(h, os.environ.get('VERIF_TIER', 'quick')) + ['-o', b, os.path.join(VERIF, 'harness', h['src']), os.path.join(VERIF, 'rt/native.cpp')] + [o for o, _ in nats])
        rc, out = native_run(b, inp)
        print(out)
        print('rc', rc)
        return 0 if rc == 0 else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    if '--tier' in a:
        i = a.index('--tier')
        tier = a[i + 1]
        del a[i:i + 2]
    only = None
    if '--only' in a:
        i = a.index('--only')
        only = a[i + 1]
        del a[i:i + 2]
    keep = '--keep' in a
    a = [x for x in a if x != '--keep']
    try:
        if a[0] == 'check':
            sys.exit(check(a[1], tier, only, keep))
        elif a[0] == 'replay':
            sys.exit(replay(a[1], a[2], a[3]))
        elif a[0] == 'setup':
            ensure_engine()
            sys.exit(0)
        sys.exit(2)
    except BuildError as e:
        print('ERROR: build failed:\n' + str(e))
        sys.exit(2)
