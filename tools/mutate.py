#!/usr/bin/env python3
"""Mutation survey: mutate.py FILE-REGEX [SEED [COUNT [WORKERS]]]

Makes small syntactic changes in copies of /repo (outside /repo and /verif), drops those that do not compile or give the same object
code, and runs the checks that cover the changed function until one reports a violation. Survivors are printed; they are either
equivalent or a gap. Only a development aid: no check uses it."""
import re, sys, os, random, subprocess, shutil, threading, queue
REPO, W = '/repo', '/tmp/mu'
MAP = [  # file, function regex, checks, cheapest first
 ('/list.c', '.*', 'C01 C02 C05 C04 C08'), ('/set.c', '.*', 'C04 C05'), ('hashtable.c', '.*', 'C06 C07 C08'), ('primes.c', '.*', 'C10 C06'),
 ('linkedlist.c', '.*', 'C09'), ('utils.c', '.*', 'C08 C04 C06 N01'), ('logger.c', '.*', 'P01 G02'),
 ('cluster.c', '.*', 'N01 H03'), ('outlier_score.c', '.*', 'N02 H05'), ('constraint.c', '.*', 'L01 C08'),
 ('distance.c', '.*core.*', 'D03 L02'), ('distance.c', '.*get$|.*index.*', 'D02 D01'), ('distance.c', '.*', 'L03 D01'),
 ('undirected_graph.c', '.*sort.*|.*partition.*|.*swap.*|.*pivot.*', 'M02 M03'), ('undirected_graph.c', '.*', 'M03 M01 P01'),
 ('hdbscan.c', '.*(clean|destroy|init|run).*', 'L02 L01 L03'), ('hdbscan.c', '.*dataset_size.*', 'L03 L01'),
 ('hdbscan.c', '.*create_new_cluster|.*compute_hier.*|.*hierarchy_entry', 'E01 H04 H02 H01 H05 L01'),
 ('hdbscan.c', '.*mst.*', 'M01'), ('hdbscan.c', '.*propagate.*', 'H03'), ('hdbscan.c', '.*prominent.*', 'E01'),
 ('hdbscan.c', '.*outlier_scores$', 'H05'), ('hdbscan.c', '.*create_cluster_map', 'A01'), ('hdbscan.c', '.*min_max.*', 'A02 G01'),
 ('hdbscan.c', '.*print.*', 'P01'), ('hdbscan.c', '.*(skew|stats).*', 'A03 A05 A06'), ('hdbscan.c', '.*', 'A06'),
 ('.cpp', '.*Java.*|JNI.*', 'J01'), ('Hdbscan.cpp', '.*', 'J01'), ('.cpp', '.*', 'K01'), ('PyHdbscan.c', '.*', 'Y01 Y02')]
OPS = [(r'<=', '<'), (r'>=', '>'), (r'(?<![<\-])<(?![<=])(?= *[\w(-])', '<='), (r'(?<![>\-])>(?![>=])(?= *[\w(-])', '>='), ('==', '!='), ('!=', '=='),
 (r'\+ 1\b', '+ 0'), (r'- ?1\b', '- 0'), (r'&&', '||'), (r'\|\|', '&&'), (r'\bTRUE\b', 'FALSE'), (r'\bFALSE\b', 'TRUE'),
 (r'(?<=[=(\[,] )0\b', '1'), (r'(?<=[=(\[,] )1\b', '2'), (r'(?<=[=\w\])] )\+(?= [\w(])', '-'), (r'(?<=[\w\])] )-(?= [\w(])', '+'), (r'(?<=[\w\])])\*(?=[\w(])', '/'),
 (r'\+\+;', ';'), (r'--;', ';'), (r'\+=', '='), (r'-=', '='), (r'(?<=if)\s*\((.*)\)(?=\s*\{?$)', r'(!(\1))'), (r'(?<=while)\s*\((.*)\)(?=\s*\{?$)', r'(0)'),
 (r'^(\s+)(?!return|else|case|goto|[a-z_]+_t\b|[A-Za-z_]+ \*?[a-z]\w* ?(=|;)|[A-Za-z_]+\* ?\w+ ?(=|;))(.+);\s*$', r'\1;')]

def sites(path):
    fn = None; incom = False
    for n, l in enumerate(open(path).read().split('\n')):
        s = l.strip()
        if incom: incom = '*/' not in s; continue
        if s.startswith('/*') and '*/' not in s: incom = True; continue
        if s.startswith(('//', '*', '#', '/*')) or not s or 'printf' in s or 'logger_write' in s or 'cout' in s: continue
        m = re.match(r'^[A-Za-z].*?(\w+)\s*\(.*', l)
        if m and not s.endswith(';') and l[0] not in ' \t': fn = m.group(1); continue
        if not fn: continue
        for a, b in OPS:
            for m in re.finditer(a, l):
                t = l[:m.start()] + m.expand(b) + l[m.end():]
                if t != l: yield n, fn, l, t
def cc(src, out, d):
    inc = ['-I' + d + '/' + i for i in ('include', 'modules/collections/include', 'modules/utils/include', '_build', '_build/include')] + ['-I' + os.path.dirname(os.path.abspath(__file__)) + '/../rt/py', '-I/usr/lib/jvm/java-17-openjdk-amd64/include', '-I/usr/lib/jvm/java-17-openjdk-amd64/include/linux', '-I' + d + '/modules/java/include', '-I' + d + '/modules/java/src/main/cpp']
    return subprocess.run(['g++' if src.endswith('.cpp') else 'gcc', '-O2', '-w', '-c', src, '-o', out] + inc, capture_output=True).returncode == 0
def checks_of(f, fn):
    for a, b, c in MAP:
        if f.endswith(a) and re.fullmatch(b, fn): return c.split()
    return []
def worker(k, q, lock):
    d, v = f'{W}/r{k}', f'{W}/v{k}'
    while True:
        try: f, (n, fn, l, t) = q.get_nowait()
        except queue.Empty: return
        p = f'{d}/{f}'; ref = open(f'{REPO}/{f}').read(); lines = ref.split('\n'); lines[n] = t
        open(p, 'w').write('\n'.join(lines)); res = 'SURVIVED'; by = ''
        if not cc(p, f'{W}/m{k}.o', d): res = 'nocompile'
        else:
            cmpo = f'{W}/o{k}.o'; open(p, 'w').write(ref); cc(p, cmpo, d); open(p, 'w').write('\n'.join(lines))
            sec = lambda o: subprocess.run(['objdump', '-d', '-j', '.text', '-r', '-s', '--no-show-raw-insn', o], capture_output=True).stdout.split(b'\n', 3)[-1]
            if sec(f'{W}/m{k}.o') == sec(cmpo): res = 'same'
            else:
                tried = []
                for c in checks_of(f, fn):
                    tried.append(c)
                    try: r = subprocess.run(['python3', 'run.py', 'check', c, 'quick'], cwd=v, env=dict(os.environ, VF_REPO=d), capture_output=True, text=True, timeout=900, errors='replace'); rc, o = r.returncode, r.stdout
                    except subprocess.TimeoutExpired: rc, o = -1, ''
                    if rc == 1 and 'VIOLATION' in o: res = 'killed'; by = c; break
                    if rc != 0 or 'INCOMPLETE' in o or 'UNREACHED' in o or 'UNCONFIRMED' in o: tried[-1] += '?' + (re.search('INCOMPLETE|UNREACHED|UNCONFIRMED', o) or [''])[0]
                by = by or ' '.join(tried)
        open(p, 'w').write(ref)
        with lock: print(f'{res} {by} {f}:{n+1} {fn}: {l.strip()}  ==>  {t.strip()}', flush=True)
if __name__ == '__main__':
    rx = sys.argv[1]; seed = int((sys.argv[2:3] or ['1'])[0]); count = int((sys.argv[3:4] or ['40'])[0]); nw = int((sys.argv[4:5] or ['3'])[0])
    os.makedirs(W, exist_ok=True)
    files = [f for f in subprocess.check_output(['git', '-C', REPO, 'ls-files', 'src', 'modules'], text=True).split() if re.search(rx, f) and re.search(r'\.(c|cpp)$', f)]
    S = [(f, s) for f in files for s in sites(f'{REPO}/{f}') if re.search(os.environ.get('FN', ''), s[1])]  # FN: regex of function names
    print(len(S), 'sites', flush=True)
    random.Random(seed).shuffle(S); q = queue.Queue(); [q.put(s) for s in S[:count]]; lock = threading.Lock(); T = []
    for k in range(nw):
        for x, src in (('r', REPO), ('v', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))):
            shutil.rmtree(f'{W}/{x}{k}', ignore_errors=True); subprocess.check_call(['cp', '-a', src, f'{W}/{x}{k}'])
        T.append(threading.Thread(target=worker, args=(k, q, lock))); T[-1].start()
    [t.join() for t in T]
