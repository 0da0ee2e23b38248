#!/usr/bin/env python3
"""run.py <property> : build the property's harness from /repo's current tree and run it.
Environment: VERIF_SEED, VERIF_TIER. Options: --tier, --seed, --build-only, --replay FILE, --laws a,b, --scale F, --all (build all)."""
import fcntl, argparse, hashlib, json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MML_REPO', '/repo')
BUILD = os.environ.get('MML_BUILD', os.path.join(HERE, 'build'))
sys.path.insert(0, HERE)
import registry

SAN = ['-fsanitize=address,undefined', '-fno-sanitize=null,alignment,vptr,object-size', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']
BASE = ['-std=c++17', '-Og', '-w', '-fno-omit-frame-pointer', '-I' + os.path.join(HERE, 'engine'), '-I' + os.path.join(HERE, 'harness'), '-I' + REPO, '-I' + os.path.join(REPO, 'mml')]

def sha(path):
    with open(path, 'rb') as f: return hashlib.sha256(f.read()).hexdigest()

def deps_of(dfile):
    txt = open(dfile).read().replace('\\\n', ' ')
    return [p for p in txt.split(':', 1)[1].split() if p]

def compile_one(src, obj, flags, cxx='g++'):
    """compile unless every dependency has the recorded content"""
    stamp = obj + '.stamp'; dfile = obj + '.d'
    key = hashlib.sha256((cxx + ' ' + ' '.join(flags)).encode()).hexdigest()
    with open(obj + '.lock', 'w') as lk: # the engine object is shared by builds that run at the same time
        fcntl.flock(lk, fcntl.LOCK_EX)
        return compile_locked(src, obj, flags, cxx, dfile, stamp, key)

def compile_locked(src, obj, flags, cxx, dfile, stamp, key):
    if os.path.exists(stamp) and os.path.exists(obj):
        try:
            st = json.load(open(stamp))
            if st['key'] == key and all(os.path.exists(p) and sha(p) == h for p, h in st['deps'].items()): return 0, ''
        except Exception: pass
    if os.path.exists(stamp): os.unlink(stamp)
    r = subprocess.run([cxx] + flags + ['-c', src, '-o', obj + '.new', '-MMD', '-MF', dfile], capture_output=True, text=True)
    if r.returncode == 0:
        os.replace(obj + '.new', obj)
        sysdeps = [p for p in deps_of(dfile) if not p.startswith('/usr/')]
        json.dump({'key': key, 'deps': {p: sha(p) for p in sysdeps}}, open(stamp, 'w'))
    return r.returncode, r.stderr

_ts = []
def tsan_ok(san):
    """ThreadSanitizer cannot map its shadow on every kernel configuration: fall back to a plain build there (evidence says so)"""
    if san != 'tsan': return san
    if not _ts:
        os.makedirs(BUILD, exist_ok=True)
        src = os.path.join(BUILD, 'tsan_probe.cpp'); exe = src[:-4]
        with open(src, 'w') as f: f.write('#include <thread>\n#include <unistd.h>\n#include <sys/wait.h>\nint main() { for (int i = 0; i < 10; i++) { int st = 0; if (!fork()) { int x = 0; std::thread t([&] { x = 1; }); t.join(); _exit(x != 1); } wait(&st); if (st) return 1; } return 0; }\n')
        ok = subprocess.run(['g++', '-fsanitize=thread', src, '-o', exe, '-lpthread'], capture_output=True).returncode == 0 and all(subprocess.run([exe], capture_output=True).returncode == 0 for _ in range(3))
        _ts.append(ok)
        if not ok: print('ThreadSanitizer unavailable here: building without it')
    return 'tsan' if _ts[0] else False

def build(pid, jobs=8, fuzz=False):
    P = registry.CHECKS[pid]
    san = {True: SAN, False: ['-D_GLIBCXX_ASSERTIONS'], 'tsan': ['-fsanitize=thread', '-D_GLIBCXX_ASSERTIONS']}[tsan_ok(P.get('san', True))]
    cxx = 'g++'
    flags = BASE + san + P.get('flags', [])
    sub = 'tsan' if '-fsanitize=thread' in san else 'asan' if P.get('san', True) else 'plain'
    if fuzz:
        cxx = 'clang++'; sub = 'fuzz'
        flags = BASE + ['-fsanitize=fuzzer-no-link,address', '-DPBT_LIBFUZZER', '-Wno-everything'] + P.get('flags', [])
    tag = hashlib.sha256(' '.join(flags).encode()).hexdigest()[:8]
    bdir = os.path.join(BUILD, pid + '-' + sub); edir = os.path.join(BUILD, 'engine-' + sub + '-' + tag)
    os.makedirs(bdir, exist_ok=True); os.makedirs(edir, exist_ok=True)
    tasks = [(os.path.join(HERE, 'engine', 'pbt_main.cpp'), os.path.join(edir, 'pbt_main.o'))]
    for s in P['src']: tasks.append((os.path.join(HERE, 'harness', s), os.path.join(bdir, os.path.basename(s) + '.o')))
    with cf.ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(lambda t: compile_one(t[0], t[1], flags, cxx), tasks))
    for (src, _), (rc, err) in zip(tasks, res):
        if rc != 0:
            print('BUILD FAILED: %s\n%s' % (src, err[-6000:])); return None
    binp = os.path.join(bdir, pid)
    link = [cxx] + (['-fsanitize=fuzzer,address'] if fuzz else san) + [o for _, o in tasks] + ['-o', binp] + P.get('libs', []) + ['-lquadmath', '-lpthread']
    lk = hashlib.sha256((' '.join(link) + ''.join(sha(o) for _, o in tasks)).encode()).hexdigest()
    lst = binp + '.lstamp'
    if not (os.path.exists(binp) and os.path.exists(lst) and open(lst).read() == lk):
        r = subprocess.run(link, capture_output=True, text=True)
        if r.returncode != 0: print('LINK FAILED\n' + r.stderr[-4000:]); return None
        open(lst, 'w').write(lk)
    return binp

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--build-only', action='store_true'); ap.add_argument('--all', action='store_true')
    ap.add_argument('--replay'); ap.add_argument('--laws'); ap.add_argument('--scale'); ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    if a.all:
        with cf.ThreadPoolExecutor(8) as ex: ok = list(ex.map(lambda p: build(p, 2) is not None, list(registry.CHECKS)))
        sys.exit(0 if all(ok) else 2)
    pid = a.property; P = registry.CHECKS[pid]
    binp = build(pid)
    if binp is None: sys.exit(2)
    if a.build_only: return
    seed = str(int(a.seed) if a.seed.lstrip('-').isdigit() else 1)
    evid = os.path.join(HERE, 'evidence', pid + '.json'); rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True); os.makedirs(os.path.dirname(evid), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='mmlpbt_')
    env = dict(os.environ, PBT_SCRATCH=scratch, LC_ALL='C', OMP_NUM_THREADS='1')
    cmd = [binp, '--property', pid, '--tier', a.tier, '--seed', seed, '--replaydir', rdir, '--known', os.path.join(HERE, 'known_findings.txt'),
           '--rule', P['rule'], '--assume', P.get('assume', ''), '--cpu', str(P.get('cpu', 10)), '--deadline', str(P.get('deadline', 2400 if a.tier == 'thorough' else 600))]
    if not a.no_evidence: cmd += ['--evidence', evid]
    if a.replay: cmd += ['--replay', a.replay]
    if a.laws: cmd += ['--laws', a.laws]
    cmd += ['--scale', str(float(a.scale or 1) * P.get('scale', 1))]
    if P.get('san') == 'tsan': env.update(PBT_RETRIES='200', TSAN_OPTIONS='halt_on_error=1:exitcode=66:report_thread_leaks=0:report_signal_unsafe=0')
    try:
        rc = subprocess.run(cmd, env=env, cwd=scratch).returncode
        if rc == 0 and a.tier == 'thorough' and P.get('fuzz') and not a.replay:
            rc = fuzz_campaign(pid, P, seed, scratch, rdir, evid)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc if rc in (0, 1) else 2)

def fuzz_campaign(pid, P, seed, scratch, rdir, evid):
    """coverage-guided pass over the same laws (libFuzzer drives the choice sequence)"""
    binp = build(pid, fuzz=True)
    if binp is None: print('fuzz build failed: skipped'); return 0
    corp = os.path.join(scratch, 'corpus'); os.makedirs(corp)
    env = dict(os.environ, PBT_SCRATCH=scratch, PBT_PROPERTY=pid, PBT_REPLAYDIR=rdir, PBT_KNOWN=os.path.join(HERE, 'known_findings.txt'), LC_ALL='C', ASAN_OPTIONS='detect_leaks=0')
    runs = P['fuzz'] if isinstance(P['fuzz'], int) else 200000
    r = subprocess.run([binp, '-seed=%d' % (int(seed) or 1), '-runs=%d' % runs, '-max_total_time=240', '-len_control=20', '-max_len=4096', '-rss_limit_mb=6000', '-timeout=60', '-print_final_stats=1', '-artifact_prefix=' + rdir + '/' + pid + '-fuzz-', corp], env=env, cwd=scratch, capture_output=True, text=True, errors='replace')
    out = r.stderr; execs = 0
    for ln in out.splitlines():
        if 'stat::number_of_executed_units' in ln: execs = int(ln.split()[-1])
    try:
        e = json.load(open(evid)); e['coverage']['libfuzzer_executions'] = execs; e['coverage']['libfuzzer_corpus'] = len(os.listdir(corp)); json.dump(e, open(evid, 'w'), indent=1)
    except Exception: pass
    print('%s libFuzzer: executions=%d corpus=%d exit=%d' % (pid, execs, len(os.listdir(corp)), r.returncode))
    fails = [ln for ln in out.splitlines() if ln.startswith('PBT-FUZZ-FAIL')]
    if fails:
        path = [t for t in fails[-1].split() if t.startswith('replay=')][0][7:]
        print(fails[-1][:1500])
        # confirm with the sanitized engine binary before reporting
        b2 = build(pid); ok = sum(subprocess.run([b2, '--property', pid, '--replay', path, '--known', os.path.join(HERE, 'known_findings.txt')], env=env, cwd=scratch, capture_output=True).returncode == 1 for _ in range(3))
        if ok == 3: print('VIOLATION property=%s replay=%s' % (pid, path)); return 1
        print('not reproduced by the engine (%d/3): inconclusive' % ok); return 0
    if r.returncode not in (0,) and ('ERROR: AddressSanitizer' in out or 'deadly signal' in out) and 'timeout' not in out[-3000:]:
        arts = [f for f in os.listdir(rdir) if f.startswith(pid + '-fuzz-crash')]
        print(out[-3000:])
        if arts: print('VIOLATION property=%s replay=%s' % (pid, os.path.join(rdir, sorted(arts)[-1]))); return 1
    return 0

if __name__ == '__main__': main()
