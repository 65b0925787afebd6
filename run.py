#!/usr/bin/env python3
"""Build the monitors of one property from /repo's working tree, run them, judge.

usage: run.py <property> quick|thorough      (VERIF_SEED selects the random choices)
       run.py --build-all                    (setup: compile everything once)
exit 0: held on everything explored; 1: VIOLATION line; 2: error of the check.
"""
import concurrent.futures as cf
import fcntl, glob, json, os, re, resource, signal, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'harness'))
from specs import SPECS, LIBS  # noqa
BUILD = os.path.join(VERIF, '.build') if REPO == '/repo' else os.path.join(VERIF, '.build-' + re.sub(r'\W', '_', REPO))
CXX = 'g++'
BASE = ['-std=c++17', '-g1', '-O1', '-fno-omit-frame-pointer', '-w', '-pthread']
VARIANTS = {
    'asan': ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-fno-sanitize=vptr'],
    'tsan': ['-fsanitize=thread'],
    'plain': [],
    'ndebug': ['-O2', '-DNDEBUG'],
    'memcheck': ['-DMEMCHECK'],  # run under valgrind
}
ENV = {
    'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=0:handle_abort=1:strict_init_order=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1',
    'TSAN_OPTIONS': 'suppressions=' + os.path.join(VERIF, 'harness', 'tsan.supp') + ':halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4',
    'LC_ALL': 'C.UTF-8', 'GDAL_PAM_ENABLED': 'NO', 'MALLOC_ARENA_MAX': '8',
}
RUN_TIMEOUT = {'quick': 240, 'thorough': 3000}
try:
    JOBS = len(os.sched_getaffinity(0))
except AttributeError:
    JOBS = 8


def pkg(*names):
    r = subprocess.run(['pkg-config', '--cflags', *names], capture_output=True, text=True)
    l = subprocess.run(['pkg-config', '--libs', *names], capture_output=True, text=True)
    return r.stdout.split(), l.stdout.split()


def configure_header():
    d = os.path.join(BUILD, 'generated', 'fern')
    os.makedirs(d, exist_ok=True)
    src = open(os.path.join(REPO, 'source/fern/configure.h.in')).read()
    sub = {'Fern_COPYRIGHT': '2010-now Geoneric', 'Fern_MAJOR_VERSION': '0', 'Fern_MINOR_VERSION': '0',
           'Fern_PATCH_VERSION': '0', 'Fern_PRE_RELEASE_VERSION': '-rc.1', 'Fern_VERSION': '0.0.0-rc.1'}
    src = src.replace('${PROJECT_NAME}', 'Fern')
    txt = re.sub(r'@(\w+)@|\$\{(\w+)\}', lambda m: sub.get(m.group(1) or m.group(2), ''), src)
    f = os.path.join(d, 'configure.h')
    if not os.path.exists(f) or open(f).read() != txt:
        open(f, 'w').write(txt)


def gen_ninja(props):
    configure_header()
    gen = os.path.join(BUILD, 'generated')
    inc = ['-I' + os.path.join(REPO, 'source'), '-I' + gen, '-I' + os.path.join(VERIF, 'harness')]
    o = []
    w = o.append
    w('ninja_required_version = 1.5')
    w('rule cxx\n  command = %s %s %s $flags -MMD -MF $out.d -c $in -o $out\n  description = CXX $out\n  depfile = $out.d\n  deps = gcc' % (CXX, ' '.join(BASE), ' '.join(inc)))
    w('rule ar\n  command = rm -f $out && ar crs $out $in\n  description = AR $out')
    w('rule link\n  command = %s -pthread $flags $in -o $out $libs\n  description = LINK $out' % CXX)
    w('rule xsd\n  command = xsdcxx $mode --output-dir $dir $xargs $in\n')
    made = set()
    targets = {}

    def flags_of(lib, var):
        L = LIBS[lib]
        fl = list(VARIANTS[var])
        fl += L.get('flags', [])
        for p in L.get('pkg', []):
            fl += pkg(p)[0]
        return fl

    def lib(name, var):
        a = '%s/lib/%s/%s.a' % (BUILD, var, name)
        if (name, var) in made:
            return a
        made.add((name, var))
        L = LIBS[name]
        srcs = []
        order = []
        for pat in L.get('src', []):
            got = sorted(glob.glob(os.path.join(REPO, pat)))
            srcs += [s for s in got if os.path.basename(s) not in L.get('exclude', [])]
        for x in L.get('xsd', []):
            out = '%s/%s' % (gen, x['dir'])
            os.makedirs(out, exist_ok=True)
            stem = x['name']
            if x['mode'] == 'tree':
                cxx = '%s/%s.cxx' % (out, stem)
                outs = [cxx, '%s/%s.hxx' % (out, stem)]
                mode = 'cxx-tree --std c++11'
                args = x.get('args', '')
                deps = ''
            else:
                mp = '%s/%s.map' % (out, stem)
                m = open(os.path.join(REPO, 'source', x['dir'], stem + '.map.in')).read()
                if not os.path.exists(mp) or open(mp).read() != m:
                    open(mp, 'w').write(m)
                cxx = '%s/%s-pskel.cxx' % (out, stem)
                outs = [cxx, '%s/%s-pskel.hxx' % (out, stem)]
                mode = 'cxx-parser --std c++11 --xml-parser expat --type-map ' + mp
                args = x.get('args', '')
                deps = ' | ' + mp
            if ('xsd', cxx) not in made:
                made.add(('xsd', cxx))
                w('build %s: xsd %s%s\n  mode = %s\n  dir = %s\n  xargs = %s' % (
                    ' '.join(outs), os.path.join(REPO, 'source', x['dir'], stem + '.xsd'), deps, mode, out, args))
            order += outs
            srcs.append(cxx)
        for d in L.get('gen_deps', []):
            lib(d, var)
            order += gen_outs.get(d, [])
        gen_outs[name] = order
        fl = ' '.join(flags_of(name, var))
        objs = []
        for s in srcs:
            ob = '%s/obj/%s/%s/%s.o' % (BUILD, var, name, re.sub(r'[^\w.]', '_', os.path.relpath(s, '/')))
            w('build %s: cxx %s%s\n  flags = %s' % (ob, s, (' || ' + ' '.join(order)) if order else '', fl))
            objs.append(ob)
        w('build %s: ar %s' % (a, ' '.join(objs)))
        return a
    gen_outs = {}
    for p in props:
        for prog in SPECS[p]['programs']:
            for var in prog['variants']:
                libs = []
                link = []
                fl = list(VARIANTS[var])
                order = []
                for l in prog.get('libs', []):
                    libs.append(lib(l, var))
                    order += gen_outs.get(l, [])
                    fl += LIBS[l].get('flags', [])
                    for q in LIBS[l].get('pkg', []):
                        c, ll = pkg(q)
                        fl += c
                        link += ll
                    link += LIBS[l].get('link', [])
                fl += prog.get('flags', [])
                exe = '%s/bin/%s-%s' % (BUILD, prog['name'], var)
                targets.setdefault(p, []).append((prog, var, exe))
                if exe in made:
                    continue
                made.add(exe)
                objs = []
                for s in prog['src']:
                    ob = '%s/obj/%s/h/%s-%s.o' % (BUILD, var, prog['name'], s)
                    w('build %s: cxx %s%s\n  flags = %s' % (ob, os.path.join(VERIF, 'harness', s),
                                                          (' || ' + ' '.join(order)) if order else '', ' '.join(fl)))
                    objs.append(ob)
                grp = ('-Wl,--start-group ' + ' '.join(libs) + ' -Wl,--end-group ') if libs else ''
                if prog.get('loads'):
                    # It compiles code of its own, and loads that: all of the libraries are there for it.
                    grp = '-rdynamic -Wl,--whole-archive %s -Wl,--no-whole-archive -ldl ' % ' '.join(libs)
                    os.makedirs(os.path.dirname(exe), exist_ok=True)
                    open(exe + '.cmd', 'w').write(' '.join([CXX, '-std=c++17', '-O0', '-w', '-pthread'] + [x for x in fl if 'sanitize' not in x] + inc))
                w('build %s: link %s | %s\n  flags = %s\n  libs = %s%s' % (
                    exe, ' '.join(objs), ' '.join(libs), ' '.join(VARIANTS[var]), grp, ' '.join(link)))
    f = os.path.join(BUILD, 'build-%s.ninja' % ('all' if len(props) > 1 else props[0]))
    txt = '\n'.join(o) + '\n'
    if not os.path.exists(f) or open(f).read() != txt:
        open(f, 'w').write(txt)
    return f, targets


def build(props):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    f, targets = gen_ninja(props)
    exes = sorted({e for p in props for _, _, e in targets[p]})
    k = '0' if len(props) > 1 else '1'
    r = subprocess.run(['ninja', '-C', BUILD, '-f', f, '-j', str(JOBS), '-k', k] + exes,
                       capture_output=True, text=True)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return r.returncode, r.stdout[-6000:] + r.stderr[-3000:], targets


REPORT = re.compile(r'(ERROR: AddressSanitizer:? [^\n]*|WARNING: ThreadSanitizer: [^\n]*|[^\n]*runtime error: [^\n]*|[^\n]*Assertion [^\n]* failed[^\n]*|terminate called[^\n]*|LeakSanitizer: [^\n]*|==\d+== (?:Conditional jump|Use of uninit|Invalid |Syscall param|Jump to|Mismatched|Source and dest)[^\n]*)')


def crash_key(err, rc):
    m = REPORT.search(err)
    what = m.group(1) if m else ('signal %d' % -rc if rc < 0 else 'exit %d' % rc)
    what = re.sub(r'0x[0-9a-f]+', 'ADDR', what)
    what = re.sub(r'==\d+==|\(pid=\d+\)', '', what)
    fr = re.search(r'(?:/source/)(fern/[\w/.-]+?):(\d+)', err)
    where = fr.group(1) if fr else '?'
    kind = 'crash'
    if 'ThreadSanitizer' in what:
        kind = 'race'
    elif 'AddressSanitizer' in what:
        kind = 'asan'
    elif 'runtime error' in what:
        kind = 'ub'
    elif 'Assertion' in what:
        kind = 'assert'
    elif rc == 67:
        kind = 'memcheck'
    return '%s:%s' % (kind, where), what


def run_one(prog, var, exe, tier, seed, outdir, prop, shard):
    tag = '%s-%s-%s' % (os.path.basename(exe), prop, shard)
    outf, cur, errf = [os.path.join(outdir, tag + x) for x in ('.json', '.case', '.err')]
    for f in (outf, cur, errf):
        if os.path.exists(f):
            os.remove(f)
    cmd = [exe, '--seed', str(seed + 7919 * shard), '--out', outf, '--current', cur] + prog.get('args', [])
    if tier == 'thorough':
        cmd.append('--thorough')
    elif prog.get('scale'):
        cmd += ['--scale', str(prog['scale'])]
    env = dict(os.environ)
    env.update(ENV)
    env.update(prog.get('env', {}))
    env['VERIF_REPO'] = REPO
    work = os.path.join(outdir, tag + '.d')
    os.makedirs(work, exist_ok=True)
    full = cmd
    if var == 'tsan':
        full = ['setarch', '-R'] + cmd if can_setarch() else cmd
    if var == 'memcheck':
        full = ['valgrind', '-q', '--tool=memcheck', '--leak-check=no', '--fair-sched=yes', '--error-exitcode=67',
                '--exit-on-first-error=yes', '--fullpath-after=', '--num-callers=24'] + cmd
    res = {'prog': prog['name'], 'variant': var, 'cmd': ' '.join(cmd), 'shard': shard}
    for attempt in (1, 2):
        t0 = time.time()
        with open(errf, 'w') as ef:
            p = subprocess.Popen(full, cwd=work, env=env, stdout=subprocess.DEVNULL, stderr=ef, start_new_session=True)
            try:
                rc = p.wait(timeout=RUN_TIMEOUT[tier])
                hang = False
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc, hang = -9, True
        res['wall'] = round(time.time() - t0, 1)
        if not hang:
            break
    res['rc'] = rc
    res['hang'] = hang
    res['stderr'] = open(errf, errors='replace').read()[:20000]
    try:
        res['case'] = open(cur, 'rb').read().split(b'\0')[0].decode(errors='replace')
    except OSError:
        res['case'] = ''
    res['data'] = None
    if rc == 0 and os.path.exists(outf):
        res['data'] = json.load(open(outf))
    subprocess.run(['rm', '-rf', work])
    return res


_SA = None


def can_setarch():
    global _SA
    if _SA is None:
        _SA = subprocess.run(['setarch', '-R', 'true'], capture_output=True).returncode == 0
    return _SA


def known_findings():
    f = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(f))['findings'] if os.path.exists(f) else []


def main():
    if sys.argv[1:] == ['--build-all']:
        rc, log, _ = build(sorted(SPECS))
        print(log[-3000:])
        # A monitor that does not compile is reported by its own check.
        return 0
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = SPECS[prop]
    rc, log, targets = build([prop])
    if rc:
        print(log)
        print('HARNESS-ERROR property=%s: build failed' % prop)
        return 2
    tb = time.time() - t0
    outdir = os.path.join(BUILD, 'run-' + prop)
    subprocess.run(['rm', '-rf', outdir])
    os.makedirs(outdir)
    todo = []
    for prog, var, exe in targets[prop]:
        if tier == 'quick' and var in prog.get('thorough_variants', []):
            continue
        for shard in range(prog.get('shards', {}).get(tier, 1)):
            todo.append((prog, var, exe, tier, seed, outdir, prop, shard))
    width = spec.get('width', JOBS)
    with cf.ThreadPoolExecutor(width) as ex:
        results = list(ex.map(lambda a: run_one(*a), todo))
    viol, errors = {}, []
    ev = dist = 0
    counters, samples, runs = {}, [], []
    for r in results:
        label = '%s-%s' % (r['prog'], r['variant'])
        runs.append({'program': r['prog'], 'variant': r['variant'], 'shard': r['shard'], 'rc': r['rc'], 'wall_s': r['wall'],
                     'evaluations': r['data']['evaluations'] if r['data'] else None})
        if r['hang']:
            viol.setdefault('hang:' + r['prog'], []).append((label, 'no progress within the watchdog, twice; case: ' + r['case'], r))
        elif r['data'] is not None and r['data'].get('done'):
            d = r['data']
            ev += d['evaluations']
            # the same workload repeated under another sanitizer is not new
            if r['variant'] == r_first(results, r):
                dist += d['distinct']
            for k, v in d['counters'].items():
                counters[k] = counters.get(k, 0) + v
            samples += d['samples']
            for k, v in d['violations'].items():
                viol.setdefault(k, []).extend((label, m, r) for m in v)
            if d['evaluations'] == 0:
                errors.append(label + ': nothing evaluated')
        elif REPORT.search(r['stderr']) or r['rc'] in (-4, -6, -7, -8, -11, 66):
            k, what = crash_key(r['stderr'], r['rc'])
            viol.setdefault(k, []).append((label, what + ' | case: ' + r['case'], r))
        else:
            errors.append('%s: exit %s: %s' % (label, r['rc'], r['stderr'][-800:]))
    known = [k for k in known_findings() if k['property'] == prop and k.get('status') != 'fixed']
    new, listed = {}, {}
    for k, v in viol.items():
        hit = next((f for f in known if f['key'] == k and (not f.get('match') or all(f['match'] in m for _, m, _ in v))), None)
        (listed if hit else new)[k] = v
    wall = time.time() - t0
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    replay = os.path.join(VERIF, 'evidence', 'replay-%s.json' % prop)
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {'evaluations': ev, 'distinct_nontrivial': dist, 'rule': spec['rule'],
                     'samples': samples[:12], 'observed': counters, 'runs': runs, 'build_s': round(tb, 1)},
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(wall, 1), 'violations': len(new),
    }
    json.dump(evidence, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    for k, v in sorted(listed.items()):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, v[0][1][:300]))
    print('%s %s: %d evaluations, %d distinct, %d runs, build %.0fs, total %.0fs' % (prop, tier, ev, dist, len(results), tb, wall))
    if new:
        json.dump({'property': prop, 'seed': seed, 'tier': tier, 'violations': [
            {'key': k, 'witness': [m for _, m, _ in v][:5], 'program': v[0][0], 'replay_cmd': v[0][2]['cmd'],
             'stderr': v[0][2]['stderr'][:6000]} for k, v in sorted(new.items())]}, open(replay, 'w'), indent=1)
        for k, v in sorted(new.items()):
            print('  %s (%s): %s' % (k, v[0][0], v[0][1][:600]))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if errors:
        print('\n'.join(errors))
        print('HARNESS-ERROR property=%s' % prop)
        return 2
    if ev == 0 or dist < spec.get('min_distinct', 2):
        print('HARNESS-ERROR property=%s: too little observed (%d/%d)' % (prop, ev, dist))
        return 2
    return 0


def r_first(results, r):
    for q in results:
        if q['prog'] == r['prog']:
            return q['variant']


if __name__ == '__main__':
    sys.exit(main())
