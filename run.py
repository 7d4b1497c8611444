#!/usr/bin/env python3
"""Driver of the solver-based checks.

  run.py check ID [quick|thorough]     run one property's check
  run.py all [quick|thorough]          run every check in turn
  run.py replay FILE                   replay a saved counterexample against the real code
  run.py setup                         build the symbolic executor

A check compiles /repo's current sources and a harness to LLVM bitcode, runs the symbolic executor (engine/) on it,
replays whatever the solver found against a native build of the same sources, and writes evidence/<ID>.json."""
import sys, os, signal, json, glob, re, subprocess, tempfile, shutil, time, hashlib
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, V)
import checks

CLANG, CLANGXX = 'clang', 'clang++'
LINK = shutil.which('llvm-link-18') or shutil.which('llvm-link') or '/usr/lib/llvm-18/bin/llvm-link'
OPT = shutil.which('opt-18') or shutil.which('opt') or '/usr/lib/llvm-18/bin/opt'
GCCINC = '/usr/lib/gcc/x86_64-linux-gnu/13/include'
JOBS = int(os.environ.get('VF_JOBS', 8))
POOL = ThreadPoolExecutor(JOBS)


class Broken(Exception):
    pass


def sh(cmd, timeout=300, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, text=True,
                         errors='replace', start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise
    return subprocess.CompletedProcess(cmd, p.returncode, out, '')


def must(cmd, timeout=300):
    r = sh(cmd, timeout)
    if r.returncode:
        raise Broken('command failed: ' + ' '.join(cmd) + '\n' + r.stdout[-3000:])
    return r.stdout


# ------------------------------------------------------------------------------------------------ engine
def engine():
    h = hashlib.sha256()
    for f in sorted(glob.glob(V + '/engine/*')):
        if f.endswith(('.cpp', '.h', '.inc', '.sh')):
            h.update(open(f, 'rb').read())
    out = f'{V}/build/vfse-{h.hexdigest()[:16]}'
    if not os.path.exists(out):
        os.makedirs(V + '/build', exist_ok=True)
        tmp = out + '.tmp%d' % os.getpid()
        must(['sh', V + '/engine/build.sh', tmp], 600)
        os.rename(tmp, out)
    return out


# ------------------------------------------------------------------------------------------------ building
def gen_config(dst, cfg):
    """config.h as CMake generates it, from the current config.h.in."""
    vals = {'LABEL_TYPE': 'unsigned int', 'DISTANCE_TYPE': 'double', 'INDEX_TYPE': 'unsigned int',
            'D_MAX': 'DBL_MAX', 'D_MIN': 'DBL_MIN', 'HDBSCAN_MAJOR_VERSION': '5', 'HDBSCAN_MINOR_VERSION': '1',
            'HDBSCAN_PATCH_VERSION': '2', 'HDBSCAN_VERSION': '5.1.2'}
    vals.update(cfg or {})
    s = open(REPO + '/config.h.in').read()
    s = re.sub(r'@(\w+)@', lambda m: vals.get(m.group(1), '0'), s)
    s = re.sub(r'#cmakedefine01\s+(\w+)', r'#define \1 0', s)
    s = re.sub(r'#cmakedefine\s+(\w+).*', lambda m: f'#define {m.group(1)}' if m.group(1) in (cfg or {}) else f'/* #undef {m.group(1)} */', s)
    os.makedirs(dst, exist_ok=True)
    open(dst + '/config.h', 'w').write(s)


def includes(cdir):
    inc = [V + '/rt', V + '/harness', cdir, REPO + '/include', REPO + '/modules/utils/include',
           REPO + '/modules/collections/include']
    return ['-I' + i for i in inc if os.path.isdir(i)]


def c_sources():
    r = []
    for d in ('src', 'modules/collections/src', 'modules/utils/src'):
        r += sorted(glob.glob(f'{REPO}/{d}/*.c'))
    return r


def defs(run):
    return ['-D%s=%s' % (k, v) for k, v in sorted(run['defs'].items())]


def sources(run):
    """(language, path) of everything a run compiles."""
    if run.get('sources'):
        src = [REPO + '/' + s for s in run['sources']]
    else:
        src = c_sources()
        if run.get('cxx'):
            src += sorted(glob.glob(REPO + '/src/*.cpp'))
        src += [REPO + '/' + x for x in run.get('extra', [])]
    return src


OMP = ['-fopenmp', '-I' + V + '/rt/omp']


def compile_flags(run, cdir):
    f = includes(cdir) + ['-g', '-w', '-fno-builtin', '-Wno-error=implicit-function-declaration', '-Wno-error=implicit-int', '-Wno-error=int-conversion'] + list(run.get('cflags', []))
    f += ['-I' + REPO + '/' + x for x in run.get('inc', [])]
    if run.get('py'):
        f += ['-I' + V + '/rt/py', '-I' + V + '/rt/omp']
    if run.get('jni'):
        for d in sorted(glob.glob('/usr/lib/jvm/*/include'))[:1]:
            f += ['-I' + d, '-I' + d + '/linux']
    if run.get('omp'):
        f += OMP
    return f


def bitcode(run, tmp):
    cdir = tmp + '/cfg'
    gen_config(cdir, run.get('config'))
    h = f"{V}/harness/{run['harness']}"
    srcs = sources(run) + [V + '/rt/vf_libc.c', h] + ([V + '/rt/vf_cxx.c'] if run.get('cxx') else []) + ([V + '/rt/vf_omp.c'] if run.get('omp') else [])
    base = compile_flags(run, cdir)

    def one(i_s):
        i, s = i_s
        o = f'{tmp}/{i}.bc'
        cc = [CLANGXX, '-fno-exceptions', '-fno-rtti', '-include', V + '/rt/cxxpre.h'] if s.endswith('.cpp') else [CLANG]
        own = s.startswith(REPO)
        ub = list(run.get('trap', [])) if own else []
        must(cc + ['-O1', '-Xclang', '-disable-llvm-passes', '-c', '-emit-llvm'] + base + ([] if own else defs(run)) + ub + [s, '-o', o])
        return o
    objs = list(POOL.map(one, enumerate(srcs)))
    must([LINK] + objs + ['-o', tmp + '/all.bc'])
    must([OPT, '-passes=' + run.get('passes', 'function(sroa,early-cse,simplifycfg)'), tmp + '/all.bc', '-o',
          tmp + '/o.bc'])
    return tmp + '/o.bc'


SAN = {'asan': ['-fsanitize=address', '-fno-omit-frame-pointer'],
       'ubsan': ['-fsanitize=address', '-fno-omit-frame-pointer'],
       'msan': ['-fsanitize=memory', '-fno-omit-frame-pointer', '-fsanitize-memory-track-origins'],
       'plain': [], 'tsan': ['-fsanitize=thread']}
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=1',
           UBSAN_OPTIONS='halt_on_error=1:exitcode=98', MSAN_OPTIONS='exitcode=97:allocator_may_return_null=1',
           TSAN_OPTIONS='exitcode=66:halt_on_error=0:report_signal_unsafe=0')
ENV.pop('LD_PRELOAD', None)


def native(run, tmp, kind):
    """A native executable of the harness, the replay runtime and /repo's sources."""
    out = f'{tmp}/native-{kind}'
    if os.path.exists(out):
        return out
    cdir = tmp + '/cfg'
    gen_config(cdir, run.get('config'))
    h = f"{V}/harness/{run['harness']}"
    srcs = sources(run) + [V + '/rt/vf_native.c', h]
    if run.get('omp'):
        srcs += [V + '/rt/vf_kmpc.c', V + '/rt/vf_omp.c']
    base = compile_flags(run, cdir)
    wrapped = ['malloc', 'calloc', 'realloc', 'free', 'fopen', 'fclose']
    if run.get('cxx'):
        wrapped += ['_Znwm', '_Znam', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm']
    wrap = ['-Wl,' + ','.join('--wrap=' + x for x in wrapped)]

    def one(i_s):
        i, s = i_s
        o = f'{tmp}/{i}-{kind}.o'
        cc = [CLANGXX] if s.endswith('.cpp') else [CLANG]
        own = s.startswith(REPO)
        fl = list(SAN[kind]) if own or s == h or kind == 'msan' else []
        if kind == 'ubsan' and own:
            t = [x for x in run.get('trap', []) if x.startswith('-fsanitize=')]
            fl += t + ['-fno-sanitize-recover=undefined,float-cast-overflow']
        b = [x for x in base if not (x == '-fopenmp' and s.endswith(('vf_kmpc.c', 'vf_omp.c')))]
        if not own:
            b = b + defs(run) + (['-DVF_CXX'] if run.get('cxx') else [])
        must(cc + ['-O1', '-c'] + b + fl + [s, '-o', o])
        return o
    objs = list(POOL.map(one, enumerate(srcs)))
    ld = CLANGXX if run.get('cxx') else CLANG
    must([ld, *objs, '-o', out, *SAN[kind], *wrap, '-lm', '-lpthread'] +
         (['-fsanitize=undefined'] if kind == 'ubsan' else []))
    return out


# ------------------------------------------------------------------------------------------------ solving
def explore(run, bc, tmp, tier):
    out = tmp + '/out'
    os.makedirs(out)
    lim = run.get('time', 120)
    cmd = [engine(), bc, '-o', out, '-j', str(JOBS), '-t', str(lim), '-max-inst', str(run.get('max_inst', 4000000))]
    cmd += run.get('vo', [])
    env = dict(os.environ)
    if run.get('qfbv'):
        env['VFSE_QFBV'] = '1'
    try:
        r = sh(cmd, lim + 100, env=env)
    except subprocess.TimeoutExpired:
        r = subprocess.CompletedProcess(cmd, 124, 'engine timed out', '')
    t = {k: 0 for k in ('paths', 'killed', 'forks', 'insts', 'queries', 'cached', 'sat', 'unsat', 'unknown', 'solver_s', 'branches',
                        'asserts', 'assert_queries', 'concretizations')}
    t.update(incomplete=False, reasons={}, notes=[], assertions={}, reach={}, violations=[], samples=[], functions={})
    fs = glob.glob(out + '/*.json')
    if r.returncode or not fs:
        t['incomplete'] = True
        t['reasons']['engine-exit-%d' % r.returncode] = 1
        t['notes'].append(r.stdout[-600:])
    for f in fs:
        try:
            j = json.load(open(f))
        except ValueError:
            t['incomplete'] = True
            t['reasons']['truncated-result'] = 1
            continue
        for k in list(t):
            if isinstance(t[k], (int, float)) and not isinstance(t[k], bool):
                t[k] += j.get(k, 0)
        t['incomplete'] |= bool(j['incomplete'])
        for k, v in j['reasons'].items():
            t['reasons'][k] = t['reasons'].get(k, 0) + v
        t['notes'] += [n for n in j['notes'] if n not in t['notes']]
        for k, v in j['assertions'].items():
            t['assertions'][k] = t['assertions'].get(k, 0) + v
        for k, v in j['reach'].items():
            e = t['reach'].setdefault(k, {'n': 0, 'in': []})
            e['n'] += v['n']
            if len(e['in']) < 2:
                e['in'] += v['in'][:2]
        t['violations'] += j['violations']
        t['samples'] += j['samples']
        for k, v in j['functions'].items():
            o = t['functions'].get(k, [v[0], 0])
            t['functions'][k] = [v[0], o[1] + v[1]]
    return t


def write_inputs(path, vals):
    with open(path, 'w') as f:
        f.write('\n'.join(str(x) for x in vals) + '\n')


def run_native(exe, infile, timeout=40, **env):
    try:
        r = sh([exe, infile], timeout, env=dict(ENV, **env), cwd=os.path.dirname(infile))
        return r.returncode, r.stdout[-4000:]
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def outputs(infile):
    try:
        return [l.split() for l in open(infile + '.out').read().split('\n') if l]
    except OSError:
        return []


def confirm(run, tmp, v, idx):
    """Replay one counterexample; returns (confirmed, how, output)."""
    inf = f'{tmp}/cex{idx}.in'
    write_inputs(inf, v['in'])
    kinds = ['asan']
    if v['kind'] == 'uninit':
        kinds = ['msan']
    elif v['kind'] in ('undefined-behaviour', 'unreachable'):
        kinds = ['ubsan', 'asan']
    elif v['kind'] == 'race':
        kinds = ['tsan']
    elif v['kind'] == 'assert':
        kinds = ['asan', 'plain', 'msan'] if not run.get('omp') else ['asan', 'plain']
    elif v['kind'] in ('stack-overflow',):
        kinds = ['plain']
    # the order of threads that the executor chose is reproduced one after another; races need real threads, and several tries
    how = [{'MINIKMPC_SEQ': '1'}, {}] if run.get('omp') else [{}]
    for k, env in [(k, e) for k in kinds for e in ([{}] * 5 if k == 'tsan' else how)]:
        exe = native(run, tmp, k)
        rc, out = run_native(exe, inf, 40 if v['kind'] != 'hang' else 25, **env)
        if rc == 'timeout':
            if v['kind'] == 'hang':
                return True, f'{k}: did not terminate in 25 s', out
            continue
        if rc not in (0, 77):
            return True, f'{k}: exit {rc}', out
    if v['kind'] == 'uninit' and shutil.which('valgrind'):
        exe = native(run, tmp, 'plain')
        r = sh(['valgrind', '-q', '--error-exitcode=99', exe, inf], 120)
        if r.returncode not in (0, 77):
            return True, f'valgrind: exit {r.returncode}', r.stdout[-4000:]
    return False, 'no failure in ' + ','.join(kinds), ''


def validate(run, tmp, t, limit):
    """Run solver-chosen inputs of completed paths through a native build; the observed outputs must be equal."""
    cases = []
    for k, e in sorted(t['reach'].items()):
        for vals in e['in'][:1]:
            cases.append((vals, None, k))
    step = max(1, len(t['samples']) // max(1, limit))
    for s in t['samples'][::step][:limit]:
        cases.append((s['in'], s['out'], None))
    if not cases:
        return 0, [], set()
    exe = native(run, tmp, 'tsan' if run.get('tsan_validate') else 'asan')
    files = []
    for i, c in enumerate(cases):
        f = f'{tmp}/val{i}.in'
        write_inputs(f, c[0])
        files.append(f)
    ok, bad, reached = 0, [], set()
    st = {}
    try:
        args = files if len(files) > 1 else files + files
        r = sh([exe] + args, 300, env=ENV, cwd=tmp)
        for l in r.stdout.split('\n'):
            if l.startswith('RESULT '):
                _, f, s = l.split()
                st[f] = int(s)
    except subprocess.TimeoutExpired:
        pass
    for (vals, want, rid), f in zip(cases, files):
        o = outputs(f)
        got = [int(x[1]) for x in o if x[0] == 'O']
        if st.get(f) == 0:
            for x in o:
                if x[0] == 'R':
                    reached.add(x[1])
        # an input recorded in the middle of a path may end natively where its remaining values are missing
        same = (st.get(f) == 0 or (rid is not None and st.get(f) == 77)) and (want is None or [int(x) for x in want] == got) and \
            (rid is None or any(x[0] == 'R' and x[1] == rid for x in o))
        if same:
            ok += 1
        else:
            bad.append({'in': vals, 'status': st.get(f), 'want': want, 'got': got, 'reach': rid})
    return ok, bad, reached


# ------------------------------------------------------------------------------------------------ checks
def known():
    r = []
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', l)
            if m:
                r.append(m.groups())
    return r


def expand(pid, tier):
    c = checks.CHECKS[pid]
    out = []
    for r in c['runs']:
        tiers = r.get('tier', 'both')
        if tiers not in ('both', tier):
            continue
        q = dict(r)
        q['defs'] = dict(r.get('defs', {}))
        if tier == 'thorough':
            q['defs'].update(r.get('tdefs', {}))
            q.update(r.get('thorough', {}))
        out.append(q)
    return out


def check(pid, tier):
    t0 = time.time()
    c = checks.CHECKS[pid]
    runs = expand(pid, tier)
    budget = 600 if tier == 'quick' else 7000
    findings = []
    viol, kf, unconf, notes = 0, [], [], []
    cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [], 'queries': 0, 'cached': 0, 'sat': 0,
           'unsat': 0, 'unknown': 0, 'solver_s': 0.0, 'asserts_checked': 0, 'instructions': 0, 'functions_encoded': {},
           'runs': [], 'exhaustive': True}
    rdir = f'{V}/evidence/replay'
    lines = []
    shutil.rmtree(f'{rdir}/{pid}', ignore_errors=True)
    for i, run in enumerate(runs):
        if time.time() - t0 > budget:
            notes.append('time budget spent before run %d (%s)' % (i, run['harness']))
            cov['exhaustive'] = False
            break
        if tier == 'quick' and time.time() - t0 > 100 and any(d['confirmed'] for d in findings):
            notes.append('stopped before run %d: a violation is confirmed' % i)
            cov['exhaustive'] = False
            break
        tmp = tempfile.mkdtemp(prefix='vf-')
        try:
            rt0 = time.time()
            bc = bitcode(run, tmp)
            t = explore(run, bc, tmp, tier)
            seen, perid = set(), {}
            for j, v in enumerate(t['violations']):
                key = (v['kind'], v['id'], v['loc'])
                if key in seen and perid.get(key, 0) >= 3:
                    continue
                idn = (v['kind'], v['id'])
                if perid.get(idn, 0) >= 6:
                    continue
                perid[idn] = perid.get(idn, 0) + 1
                perid[key] = perid.get(key, 0) + 1
                if v.get('done') or any(x.get('key') == key and x['confirmed'] for x in findings if x['run'] == i):
                    continue
                seen.add(key)
                okc, how, out = confirm(run, tmp, v, j)
                d = {'key': key, 'run': i, 'confirmed': okc, 'kind': v['kind'], 'id': v['id'], 'loc': v['loc'],
                     'stack': v['stack'], 'in': v['in'], 'how': how}
                findings.append(d)
                if okc:
                    os.makedirs(f'{rdir}/{pid}', exist_ok=True)
                    rp = f'{rdir}/{pid}/{i}-{j}.json'
                    json.dump({'property': pid, 'tier': tier, 'run': i, 'kind': v['kind'], 'id': v['id'],
                               'where': v['loc'], 'stack': v['stack'], 'inputs': v['in'], 'native': how,
                               'output': out}, open(rp, 'w'), indent=1)
                    d['replay'] = rp
            # a counterexample of the same assertion that did not replay is noise only if another one did
            ok, bad, _ = (0, [], set())
            if t['samples'] or t['reach']:
                ok, bad, _ = validate(run, tmp, t, 12 if tier == 'quick' else 24)
            missing = [r for r in run.get('reach', ['end']) if r not in t['reach']]
            rec = {'harness': run['harness'], 'defs': run['defs'], 'config': run.get('config', {}),
                   'bounds': run.get('bounds', ''), 'paths': t['paths'], 'paths_pruned': t['killed'],
                   'queries': t['queries'], 'cached': t['cached'], 'sat': t['sat'], 'unsat': t['unsat'], 'unknown': t['unknown'],
                   'solver_s': round(t['solver_s'], 3), 'assertions': t['assertions'],
                   'assertion_queries': t['assert_queries'],
                   'reached': {k: e['n'] for k, e in t['reach'].items()}, 'unreached': missing,
                   'complete': not t['incomplete'], 'incomplete_because': t['reasons'], 'notes': t['notes'][:8],
                   'replayed_ok': ok, 'replay_mismatch': bad[:3], 'wall_s': round(time.time() - rt0, 2)}
            cov['runs'].append(rec)
            cov['states'] += t['paths']
            cov['transitions'] += t['branches'] + t['concretizations']
            cov['traces_validated_against_impl'] += ok
            for k in ('queries', 'cached', 'sat', 'unsat', 'unknown', 'solver_s'):
                cov[k] += t[k]
            cov['asserts_checked'] += t['asserts']
            cov['instructions'] += t['insts']
            for k, f in t['functions'].items():
                if f[0].startswith(REPO) or (not f[0].startswith('/') and 'vf_' not in f[0]):
                    cov['functions_encoded'][k] = cov['functions_encoded'].get(k, 0) + f[1]
            if t['incomplete']:
                cov['exhaustive'] = False
                lines.append(f'INCOMPLETE property={pid} run={i} {json.dumps(t["reasons"])}')
            if missing:
                lines.append(f'UNREACHED property={pid} run={i} {missing}')
            for b in bad[:2]:
                lines.append(f'REPLAY-MISMATCH property={pid} run={i} {json.dumps(b)[:300]}')
            for s in t['samples'][:2]:
                cov['samples'].append({'run': i, 'inputs': s['in'][:40], 'observed': s['out'][:24]})
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    for d in findings:
        desc = f"{d['kind']} {d['id']} at {d['loc']} inputs={d['in'][:24]}"
        if os.environ.get('VF_STACK'):
            desc += ' ' + str(d.get('stack'))
        if not d['confirmed']:
            if not any(x['confirmed'] and x['id'] == d['id'] and x['kind'] == d['kind'] for x in findings):
                unconf.append(desc)
            continue
        m = [k for k in known() if k[0] == pid and re.search(k[1], f"{d['kind']}:{d['id']}:{d['loc']}")]
        if m:
            s = f'KNOWN-FINDING: property={pid} {m[0][2]}'
            if s not in kf:
                kf.append(s)
        else:
            viol += 1
            lines.append(f"VIOLATION property={pid} replay={d['replay']}  # {desc}")
    for u in unconf:
        lines.append(f'UNCONFIRMED property={pid} {u}')
    if not cov['samples']:
        cov['samples'] = [{'run': r['harness'], 'reached': r['reached']} for r in cov['runs']][:3] or ['none']
    cov['solver_s'] = round(cov['solver_s'], 3)
    cov['unconfirmed'] = unconf
    cov['technique'] = 'symbolic execution of the LLVM bitcode of the current sources; branch and assertion ' \
                       'feasibility decided by z3; counterexamples replayed natively'
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': c.get('level', 'model_checking'),
          'coverage': cov, 'assumptions': c.get('assumptions', []) + checks.COMMON_ASSUMPTIONS + notes,
          'wall_s': round(time.time() - t0, 2), 'violations': viol}
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    for l in kf + lines:
        print(l)
    print(f"{'FAIL' if viol else 'OK'} property={pid} tier={tier} paths={cov['states']} queries={cov['queries']} "
          f"asserts={cov['asserts_checked']} solver_s={cov['solver_s']:.1f} replayed={cov['traces_validated_against_impl']} "
          f"complete={cov['exhaustive']} wall={ev['wall_s']}s")
    sys.stdout.flush()
    return 1 if viol else 0


def replay(path):
    d = json.load(open(path))
    run = expand(d['property'], d['tier'])[d['run']]
    tmp = tempfile.mkdtemp(prefix='vf-')
    try:
        okc, how, out = confirm(run, tmp, {'kind': d['kind'], 'id': d['id'], 'in': d['inputs']}, 0)
        print(out)
        print('reproduced' if okc else 'not reproduced', how)
        return 1 if okc else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main(a):
    if a[:1] == ['setup']:
        engine()
        return 0
    if a[:1] == ['replay']:
        return replay(a[1])
    if a[:1] == ['check']:
        tier = a[2] if len(a) > 2 else os.environ.get('VERIF_TIER', 'quick')
        return check(a[1], tier)
    if a[:1] == ['all']:
        tier = a[1] if len(a) > 1 else 'quick'
        ids = a[2:] or sorted(checks.CHECKS)
        rc = 0
        for p in ids:
            rc |= check(p, tier)
        return rc
    print(__doc__)
    return 1


if __name__ == '__main__':
    try:
        sys.exit(main(sys.argv[1:]))
    except Broken as e:
        print('BROKEN', e)
        sys.exit(3)
