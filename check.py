#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE]

Rebuilds the harness(es) of property ID from /repo's working tree, runs the enumeration sharded over the cores,
writes evidence/ID.json.  Exit 0: held on everything explored.  Exit 1: 'VIOLATION property=ID replay=PATH'.
Exit 2: no answer (the harness did not build or was ended from outside)."""
import sys, os, json, subprocess, hashlib, time, tempfile, shutil, signal
V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
sys.path.insert(0, V)
from registry import CHECKS, COMMON_ASSUMPTIONS

INC = os.path.join(REPO, 'include')
BASE = ['-D_FILE_OFFSET_BITS=64', '-m64', '-march=x86-64-v2', '-U_FORTIFY_SOURCE', '-I' + INC, '-I' + V + '/harness',
        '-I' + REPO + '/../repo/include', '-w', '-g1', '-fno-omit-frame-pointer']
MODES = {
    'asan': ['-O1', '-fsanitize=address', '-fno-sanitize-recover=all'],
    'ubsan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=alignment,shift,vptr,nonnull-attribute', '-fno-sanitize-recover=all'],
    'plain': ['-O2'],
    'tsched': ['-O1', '-fsanitize=thread', '-fno-builtin'],
}

def tree_hash():
    h = hashlib.sha256()
    for root in (INC, os.path.join(V, 'harness')):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode()); h.update(b'\0')
                with open(p, 'rb') as fp: h.update(fp.read())
    return h

def build(prog, th):
    """compile one program; cached by the content of every input"""
    bd = os.path.join(V, 'build'); os.makedirs(bd, exist_ok=True)
    mode = prog.get('mode', 'asan')
    cxx = prog.get('cxx', 'g++')
    std = prog.get('std', 'c++17')
    src = os.path.join(V, 'harness', prog['src'])
    flags = BASE + MODES[mode] + ['-std=' + std] + prog.get('cflags', [])
    libs = prog.get('libs', [])
    wraps = ['-Wl,' + ','.join('--wrap=' + w for w in prog['wrap'])] if prog.get('wrap') else []
    h = th.copy(); h.update(json.dumps([cxx, flags, libs, wraps, prog]).encode())
    exe = os.path.join(bd, prog['name'] + '-' + h.hexdigest()[:16])
    if os.path.exists(exe): return exe, None
    tmp = '%s.%d' % (exe, os.getpid())
    if mode == 'tsched':
        # instrument with -fsanitize=thread, link against our own runtime (the scheduler) instead of libtsan
        objs = []
        jobs = []
        o = tmp + '.o'
        jobs.append(subprocess.Popen([cxx] + flags + ['-c', src, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        for k, (esrc, estd) in enumerate(prog.get('extra', [])):
            eo = tmp + '.x%d.o' % k
            objs.append(eo)
            jobs.append(subprocess.Popen([cxx] + [f for f in flags if not f.startswith('-std=')] + ['-std=' + estd, '-c', os.path.join(V, 'harness', esrc), '-o', eo], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        rt = tmp + '.rt.o'
        rtsrc = os.path.join(V, 'harness', 'sched.cpp')
        jobs.append(subprocess.Popen(['g++', '-O2', '-g1', '-std=c++17', '-w', '-U_FORTIFY_SOURCE', '-I' + V + '/harness', '-c', rtsrc, '-o', rt] + prog.get('rtflags', []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        out = b''
        rc = 0
        for j in jobs:
            out += j.communicate()[0]; rc |= j.returncode
        if rc == 0:
            r = subprocess.run([cxx, '-rdynamic', o] + objs + [rt, '-o', tmp] + wraps + libs + ['-lpthread', '-ldl'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            rc = r.returncode; out += r.stdout
        for f in [o, rt] + objs:
            if os.path.exists(f): os.remove(f)
    else:
        r = subprocess.run([cxx] + flags + [src, '-o', tmp] + wraps + libs + ['-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        rc, out = r.returncode, r.stdout
    if rc:
        return None, out.decode(errors='replace')
    os.rename(tmp, exe)
    # keep the cache small
    olds = sorted((os.path.join(bd, f) for f in os.listdir(bd) if f.startswith(prog['name'] + '-') and '.' not in f), key=os.path.getmtime)
    for f in olds[:-3]:
        try: os.remove(f)
        except OSError: pass
    return exe, None

ENV = dict(os.environ, TZ='UTC', LC_ALL='C.UTF-8',
           ASAN_OPTIONS='detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=4000:hard_rss_limit_mb=6000:detect_stack_use_after_return=0:handle_abort=0',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1')

def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    replay = None
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if '--replay' in a: replay = a[a.index('--replay') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = CHECKS[pid]
    t0 = time.time()
    known = []
    kf = os.path.join(V, 'known_findings.jsonl')
    if os.path.exists(kf):
        for line in open(kf):
            line = line.strip()
            if line:
                k = json.loads(line)
                if k['property'] == pid and k['status'] == 'known': known.append(k)
    scratch = tempfile.mkdtemp(prefix='vc_%s_' % pid)
    try:
        knf = os.path.join(scratch, 'known.txt')
        with open(knf, 'w') as fp:
            for k in known: fp.write(k['key'] + '\n')
        th = tree_hash()
        progs = c['programs']
        only = None
        if replay:
            rp = json.load(open(replay)); progs = [p for p in progs if p['name'] == rp['program']]; only = rp['case']; tier = rp['tier']
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(8) as ex:
            built = list(ex.map(lambda p: build(p, th), progs))
        for p, (exe, err) in zip(progs, built):
            if exe is None:
                print('BUILD FAILED: %s\n%s' % (p['name'], err[-4000:])); return 2
        n = 1 if only else 8
        jobs = []
        for p, (exe, _) in zip(progs, built):
            for i in range(n if not p.get('noshard') else 1):
                jobs.append((p, exe, i, n if not p.get('noshard') else 1))
        timeout = 880 - (time.time() - t0) if tier == 'quick' else 6 * 3600
        deadline = time.time() + timeout
        def run(job):
            p, exe, i, n = job
            out = os.path.join(scratch, '%s.%d.json' % (p['name'], i))
            wd = os.path.join(scratch, 'wd.%s.%d' % (p['name'], i)); os.mkdir(wd)
            cmd = [exe, '--tier', tier, '--shard', str(i), str(n), '--out', out, '--known', knf]
            if only: cmd += ['--only', only]
            log = os.path.join(scratch, '%s.%d.log' % (p['name'], i))
            with open(log, 'wb') as lf:
                pr = subprocess.Popen(cmd, cwd=wd, env=ENV, stdin=subprocess.DEVNULL, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
                try: rc = pr.wait(max(1, deadline - time.time()))
                except subprocess.TimeoutExpired:
                    rc = -1
                try: os.killpg(pr.pid, signal.SIGKILL)
                except OSError: pass
                pr.wait()
            with open(log, 'rb') as lf:
                lf.seek(0, 2); sz = lf.tell(); lf.seek(0); head = lf.read(12000)
            try: res = json.load(open(out))
            except Exception: res = None
            shutil.rmtree(wd, ignore_errors=True)
            return p, rc, res, head.decode(errors='replace')
        with cf.ThreadPoolExecutor(8) as ex:
            results = list(ex.map(run, jobs))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    tot = dict(states=0, transitions=0, evaluations=0, nontrivial=0, validated=0)
    sections, notes, samples, seen, viol = {}, {}, [], {}, []
    noanswer = []
    for p, rc, res, log in results:
        if res is None or res['status'] == 'killed' or rc not in (0, 1):
            noanswer.append('%s: rc=%s %s' % (p['name'], rc, log[-1500:])); 
            if res is None or res['status'] == 'killed': continue
        for k in tot: tot[k] += res[k]
        for k, v in res['sections'].items(): sections[p['name'] + '/' + k] = sections.get(p['name'] + '/' + k, 0) + v
        for k, v in res['notes'].items(): notes[k] = notes.get(k, 0) + v
        for s in res['samples']:
            if len(samples) < 12 and not any(x.split(':')[0] == s.split(':')[0] for x in samples): samples.append(s)
        seen.update(res['known_seen'])
        for f in res['fails']: viol.append((p, f, log))
    for p, rc, res, log in results:
        if res:
            for s in res['samples']:
                if len(samples) < 5 and s not in samples: samples.append(s)
    rc = 0
    vlist = []
    if viol:
        rdir = os.path.join(V, 'replays'); os.makedirs(rdir, exist_ok=True)
        for i, (p, f, log) in enumerate(viol[:5]):
            path = os.path.join(rdir, '%s-%d.json' % (pid, i))
            case = f.split(' | ')[0].split(' ')[-1]
            json.dump(dict(property=pid, program=p['name'], case=case, tier=tier, what=f, log=log[:6000],
                           rerun='python3 /verif/check.py %s --replay %s' % (pid, path)), open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  ' + f[:1500])
            vlist.append(f[:2000])
        rc = 1
    elif noanswer:
        print('NO ANSWER:\n' + '\n'.join(noanswer)); rc = 2
    for k in known:
        if k['key'] in seen:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    ev = dict(property=pid, tier=tier, seed=seed, level=c['level'],
              coverage=dict(states=tot['states'], transitions=tot['transitions'], traces_validated_against_impl=tot['validated'],
                            evaluations=tot['evaluations'], distinct_nontrivial=tot['nontrivial'], rule=c['rule'],
                            exhaustive=True, bounds=c['bounds'], sections=sections, notes=dict(sorted(notes.items(), key=lambda kv: -kv[1])[:25]), samples=samples, violation_details=vlist),
              wall_s=round(time.time() - t0, 2), assumptions=COMMON_ASSUMPTIONS + c.get('assumptions', []), violations=len(vlist))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %s in %.1fs; states=%d transitions=%d executions=%d' % (pid, tier, 'held' if rc == 0 else 'rc=%d' % rc, time.time() - t0, tot['states'], tot['transitions'], tot['evaluations']))
    return rc

if __name__ == '__main__':
    sys.exit(main())
