#!/usr/bin/env python3
"""check.py ID            run the check of one property (tier from VERIF_TIER, seed from VERIF_SEED)
   check.py --replay FILE re-run a saved counterexample: exit 1 if it still fails, 0 otherwise
   check.py --setup       build everything"""
import glob, json, os, random, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
RUN = os.path.join(VERIF, 'lib/run.php')
CONFIG = json.load(open(os.path.join(VERIF, 'props/config.json')))
# One case normally takes milliseconds; a case is called a hang only after this much CPU time, three times over.
HANG_CPU_S = 40
SCRATCH = None
TRUNC_S = 420          # soft wall budget of the search itself


def cpu_of(pid):
    try:
        f = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')
    except OSError:
        return None


class Proc:
    def __init__(self, variant, dirs, args, tag):
        argv, env = B.php_cmd(variant, dirs)
        self.out = os.path.join(SCRATCH, tag)
        self.err = open(self.out + '.stderr', 'wb')
        self.p = subprocess.Popen(argv + [RUN] + [str(a) for a in args], env=env, cwd=SCRATCH,
                                  stdin=subprocess.DEVNULL, stdout=self.err, stderr=subprocess.STDOUT,
                                  start_new_session=True)
        self.last = None
        self.last_cpu = 0.0

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def errtext(self):
        self.err.flush()
        t = open(self.out + '.stderr', 'rb').read()
        return t[-6000:].decode('utf-8', 'replace')


def crash_message(rc, err):
    lines = err.splitlines()
    for l in lines:
        if 'VERIF-ASSERT' in l:
            return 'an assertion of the code under test does not hold (undefined behaviour in a release build): ' + l.split('VERIF-ASSERT')[1].strip()[:300]
    for i, l in enumerate(lines):
        if 'ERROR: AddressSanitizer' in l:
            frames = [x.strip() for x in lines[i + 1:i + 12] if x.strip().startswith('#')]
            return 'memory error: ' + l.split('ERROR: AddressSanitizer:')[1].strip()[:140] + ' | ' + ' '.join(frames[:4])[:500]
    for l in lines:
        if 'Fatal error' in l:
            return 'fatal error: ' + l.strip()[:300]
    if rc is not None and rc < 0:
        return 'killed by signal %d' % -rc + ' ' + ' '.join(lines[-3:])[:300]
    return 'abnormal exit %s: %s' % (rc, ' '.join(lines[-3:])[:300])


def parse_draws(path):
    log, marks, idx = [], [], None
    try:
        for l in open(path):
            l = l.strip()
            if l.startswith('c'):
                idx = int(l[1:])
            elif l == 'm':
                marks.append(len(log))
            elif l:
                log.append(int(l))
    except OSError:
        pass
    return idx, log, marks


def wait_cpu(pr, limit, wall=600):
    """Waits; returns 'exit' or 'hang' (CPU limit) or 'wall'."""
    t0 = time.time()
    while True:
        try:
            pr.p.wait(0.02 if time.time() - t0 < 1 else 0.2)
            return 'exit'
        except subprocess.TimeoutExpired:
            c = cpu_of(pr.p.pid)
            if c is not None and c > limit:
                pr.kill()
                return 'hang'
            if time.time() - t0 > wall:
                pr.kill()
                return 'wall'


def try_candidates(pid, variant, dirs, cands, tag):
    """Replays candidates in order. Returns None or a dict(i, msg, log, marks, lines) for the first failing one."""
    cf = os.path.join(SCRATCH, tag + '.cand')
    json.dump(cands, open(cf, 'w'))
    for x in ('.json', '.draws', '.lines'):
        try:
            os.unlink(os.path.join(SCRATCH, tag + x))
        except OSError:
            pass
    pr = Proc(variant, dirs, ['try', pid, cf, os.path.join(SCRATCH, tag), variant], tag)
    how = wait_cpu(pr, HANG_CPU_S if len(cands) == 1 else HANG_CPU_S + 20)
    if how == 'wall':
        return None
    rf = os.path.join(SCRATCH, tag + '.json')
    if how == 'exit' and os.path.exists(rf) and pr.p.returncode == 0:
        r = json.load(open(rf))
        return r if r['i'] is not None else None
    i, log, marks = parse_draws(os.path.join(SCRATCH, tag + '.draws'))
    if i is None:
        return None
    if how == 'exit' and os.path.exists(rf):
        # the cases ran but the process died at shutdown: blame the last candidate
        i = len(cands) - 1
    lines = []
    try:
        lines = open(os.path.join(SCRATCH, tag + '.lines'), errors='replace').read().splitlines()
        lines = [l for k, l in enumerate(lines) if not l.startswith('(running)') or k == len(lines) - 1]
    except OSError:
        pass
    msg = 'hang: case still running after %d s of CPU time' % HANG_CPU_S if how == 'hang' else crash_message(pr.p.returncode, pr.errtext())
    return dict(i=i, msg=msg, log=log if log else cands[i], marks=marks, lines=lines, crash=True)


def shrink(pid, variant, dirs, best, budget):
    """Greedy choice-sequence shrinking, several candidate batches in parallel."""
    t_end = time.time() + budget
    W = 8

    def attempt(cands):
        # split in order over parallel processes; earliest success wins
        cands = [c for c in cands if len(c) <= len(best['log'])]
        uniq, seen = [], set()
        for c in cands:
            k = tuple(c)
            if k not in seen:
                seen.add(k)
                uniq.append(c)
        if not uniq:
            return None
        step = 8 * 40
        for o in range(0, len(uniq), step):
            if time.time() > t_end:
                return None
            part = uniq[o:o + step]
            n = max(1, min(W, (len(part) + 3) // 4))
            sl = [part[k::n] for k in range(n)]
            with ThreadPoolExecutor(n) as ex:
                rs = list(ex.map(lambda kv: try_candidates(pid, variant, dirs, kv[1], 'shr%d' % kv[0]), enumerate(sl)))
            ok = [r for r in rs if r is not None and 'hang' not in r['msg'][:4]]
            if ok:
                return min(ok, key=lambda r: (len(r['log']), r['log']))
        return None

    rounds = 0
    while time.time() < t_end:
        rounds += 1
        before = (len(best['log']), list(best['log']))
        log, marks = best['log'], [m for m in best.get('marks', []) if m <= len(best['log'])]
        # 1. delete runs of operations
        cands = []
        bounds = marks + [len(log)]
        n = len(marks)
        k = n
        while k >= 1:
            for s in range(0, n, max(1, k)):
                e = min(n, s + k)
                cands.append(log[:bounds[s]] + log[bounds[e]:])
            k //= 2
        r = attempt(cands)
        if r and (len(r['log']), r['log']) < before:
            best = r
            continue
        # 2. delete raw chunks
        cands = []
        for k in (16, 8, 4, 2, 1):
            for s in range(0, max(0, len(log) - k + 1), 1 if len(log) < 400 else k):
                cands.append(log[:s] + log[s + k:])
        r = attempt(cands)
        if r and (len(r['log']), r['log']) < before:
            best = r
            continue
        # 3. make single values smaller
        cands = []
        for s, v in enumerate(log):
            for w in sorted({0, v // 2, v - 1}):
                if 0 <= w < v:
                    cands.append(log[:s] + [w] + log[s + 1:])
        r = attempt(cands)
        if r and (len(r['log']), r['log']) < before:
            best = r
            continue
        break
    best['rounds'] = rounds
    return best


def main_check(pid):
    global SCRATCH
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    conf = CONFIG[pid]
    plan = conf[tier]          # {variant: [workers, cases per worker]}
    plan = {v: list(x) for v, x in plan.items()}
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    dirs = {v: B.build(v) for v in plan}
    dirs['vprobe'] = B.build_vprobe()
    SCRATCH = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        return _check(pid, tier, seed, conf, plan, dirs, scale, t0)
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def _check(pid, tier, seed, conf, plan, dirs, scale, t0):
    budget = TRUNC_S if tier == 'quick' else 3600 * 3
    workers = []
    w = 0
    for v, (n, cases) in plan.items():
        for _ in range(n):
            tag = 'w%d' % w
            workers.append((w, v, Proc(v, dirs, ['run', pid, seed, w, 0, max(1, int(cases * scale)),
                                                os.path.join(SCRATCH, tag), budget, v], tag)))
            w += 1
    failure = None          # (worker, variant, case, msg, kind)
    inconclusive = []
    live = list(workers)
    while live and failure is None:
        time.sleep(0.05)
        for item in list(live):
            wk, v, pr = item
            rc = pr.p.poll()
            try:
                case = int(open(pr.out + '.mark').read().strip() or -1)
            except (OSError, ValueError):
                case = -1
            if rc is None:
                cpu = cpu_of(pr.p.pid) or 0.0
                if case != pr.last:
                    pr.last, pr.last_cpu = case, cpu
                elif cpu - pr.last_cpu > HANG_CPU_S:
                    pr.kill()
                    failure = (wk, v, case, 'hang', 'hang')
                    break
                continue
            live.remove(item)
            if rc != 0 or not os.path.exists(pr.out + '.json'):
                if rc == -signal.SIGKILL:
                    inconclusive.append('worker %d was killed from outside (out of memory?)' % wk)
                    continue
                failure = (wk, v, case, crash_message(rc, pr.errtext()), 'crash')
                break
            r = json.load(open(pr.out + '.json'))
            if r['fail']:
                failure = (wk, v, r['fail']['case'], r['fail']['msg'], 'fail')
                pr.fail = r['fail']
                break
    for _, _, pr in workers:
        if pr.p.poll() is None:
            pr.kill()
    rc = 0
    replay = None
    if failure:
        rc, replay = handle_failure(pid, seed, tier, dirs, workers, failure, inconclusive, plan, scale)
    # ---- evidence
    n = nt = ops = 0
    labels = {}
    hashes = set()
    trunc = False
    slow = [0.0, -1, -1, '']
    for wk, v, pr in workers:
        try:
            r = json.load(open(pr.out + '.json'))
        except (OSError, ValueError):
            continue
        n += r['n']
        nt += r['nt']
        ops += r['ops']
        trunc = trunc or r['trunc']
        if r['slow'][0] > slow[0]:
            slow = [round(r['slow'][0], 2), wk, r['slow'][1], v]
        for k, x in (r['labels'] or {}).items():
            labels[k] = labels.get(k, 0) + x
        try:
            b = open(pr.out + '.bin', 'rb').read()
            hashes.update(b[i:i + 8] for i in range(0, len(b), 8))
        except OSError:
            pass
    samples = []
    if workers and rc == 0:
        for case in range(0, 40):
            if len(samples) >= 3:
                break
            wk, v = workers[0][0], workers[0][1]
            tag = 'sample'
            pr = Proc(v, dirs, ['trace', pid, seed, wk, case, os.path.join(SCRATCH, tag), v], tag)
            wait_cpu(pr, HANG_CPU_S)
            try:
                r = json.load(open(os.path.join(SCRATCH, tag + '.json')))
                os.unlink(os.path.join(SCRATCH, tag + '.json'))
            except (OSError, ValueError):
                continue
            if r['nt']:
                samples.append({'worker': wk, 'case': case, 'choices': r['log'][:400], 'steps': [x[:300] for x in r['lines'][:60]]})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': n, 'distinct_nontrivial': len(hashes),
            'rule': conf['rule'], 'samples': samples,
            'nontrivial_total': nt, 'operations_checked': ops, 'labels': dict(sorted(labels.items())),
            'workers': {v: x for v, x in plan.items()}, 'time_truncated': trunc,
            'slowest_case': {'cpu_s': slow[0], 'worker': slow[1], 'case': slow[2], 'build': slow[3]},
        },
        'wall_s': round(time.time() - t0, 2), 'violations': 1 if rc else 0,
    }
    if inconclusive:
        ev['coverage']['inconclusive'] = inconclusive
    evd = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
    os.makedirs(evd, exist_ok=True)
    p = os.path.join(evd, pid + '.json')
    json.dump(ev, open(p + '.tmp', 'w'), indent=1)
    os.rename(p + '.tmp', p)
    for x in inconclusive:
        print('INCONCLUSIVE: ' + x)
    print_known(pid, dirs)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d operations, %.1f s' % (pid, tier, seed, n, len(hashes), ops, time.time() - t0))
    if rc:
        print('VIOLATION property=%s replay=%s' % (pid, replay))
    return rc


def print_known(pid, dirs):
    """One line per known finding of this property that its demonstrator still shows on this tree."""
    v = 'plain' if 'plain' in dirs else 'asan'
    for f in json.load(open(os.path.join(VERIF, 'known_findings.json')))['known']:
        if pid != f['property'] and pid not in f.get('also', []):
            continue
        argv, env = B.php_cmd(v, dirs)
        try:
            r = subprocess.run(argv + ['-r', f['demo']], env=env, cwd=SCRATCH, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            continue
        if 'PRESENT' in r.stdout:
            print('KNOWN-FINDING: property=%s %s %s' % (pid, f['id'], f['what']))


def handle_failure(pid, seed, tier, dirs, workers, failure, inconclusive, plan, scale):
    wk, v, case, msg, kind = failure
    if case < 0:
        # died before the first case: the extension cannot even be loaded or used at start-up
        rep = save_replay(pid, seed, v, dict(mode='load', msg=msg), msg, [])
        return 1, rep
    tag = 'tr'
    log = None
    for x in workers:
        if x[0] == wk and hasattr(x[2], 'fail'):
            log = x[2].fail['log']
    if log is None:
        pr = Proc(v, dirs, ['trace', pid, seed, wk, case, os.path.join(SCRATCH, tag), v], tag)
        how = wait_cpu(pr, HANG_CPU_S)
        _, log, _ = parse_draws(os.path.join(SCRATCH, tag + '.draws'))
    first = None
    if v != 'asan' and 'asan' in dirs:      # the sanitizer build gives better diagnostics
        first = try_candidates(pid, 'asan', dirs, [log], 'rp')
        if first is not None:
            v = 'asan'
    if first is None:
        first = try_candidates(pid, v, dirs, [log], 'rp')
    if first is not None:
        best = first
        if not first['msg'].startswith('hang'):
            best = shrink(pid, v, dirs, first, 90)
        ok = 0
        final = best
        for _ in range(3):
            r = try_candidates(pid, v, dirs, [best['log']], 'rp')
            if r is not None:
                ok += 1
                final = r
        if ok < 3:
            # fall back to the unshrunk case
            best = first
            ok = sum(1 for _ in range(3) if try_candidates(pid, v, dirs, [log], 'rp') is not None)
            final = dict(first, log=log)
        if ok == 3:
            rep = save_replay(pid, seed, v, dict(mode='choices', choices=final['log']), final['msg'], final.get('lines', []))
            print_failure(final['msg'], final.get('lines', []))
            return 1, rep
    # depends on what earlier cases of the same process left behind: replay the tail of the worker's run
    for back in (20, 300, 10 ** 9):
        frm = max(0, case - back)
        ok, m = 0, None
        for _ in range(2):
            m = rerun_range(pid, seed, wk, frm, case + 1, v, dirs)
            if m is None:
                break
            ok += 1
        if ok == 2:
            rep = save_replay(pid, seed, v, dict(mode='range', seed=seed, worker=wk, **{'from': frm, 'to': case + 1}), m, [])
            print_failure(m, [])
            return 1, rep
        if frm == 0:
            break
    inconclusive.append('a failure of worker %d case %d did not reproduce: %s' % (wk, case, msg[:300]))
    return 0, None


def rerun_range(pid, seed, wk, frm, to, v, dirs):
    tag = 'rg'
    out = os.path.join(SCRATCH, tag)
    for x in ('.json', '.mark'):
        try:
            os.unlink(out + x)
        except OSError:
            pass
    pr = Proc(v, dirs, ['run', pid, seed, wk, frm, to, out, 3600, v], tag)
    how = wait_cpu(pr, HANG_CPU_S + 200, 900)
    if how == 'hang':
        return 'hang'
    if how == 'wall' or pr.p.returncode == -9:
        return None
    if pr.p.returncode != 0 or not os.path.exists(out + '.json'):
        return crash_message(pr.p.returncode, pr.errtext())
    r = json.load(open(out + '.json'))
    return r['fail']['msg'] if r['fail'] else None


def print_failure(msg, lines):
    print('--- minimal failing history:')
    for l in lines[-80:]:
        print('    ' + l[:400])
    print('--- ' + msg[:1500])


def save_replay(pid, seed, variant, how, msg, lines):
    d = os.environ.get('VERIF_REPLAYS', os.path.join(VERIF, 'replays'))
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (pid, time.strftime('%Y%m%d-%H%M%S') + '-%d' % os.getpid()))
    json.dump(dict(property=pid, seed=seed, variant=variant, message=msg, history=lines, how=how,
                   rerun='python3 bin/check.py --replay ' + p), open(p, 'w'), indent=1)
    return p


def main_replay(path):
    global SCRATCH
    r = json.load(open(path))
    v, pid, how = r['variant'], r['property'], r['how']
    dirs = {v: B.build(v), 'vprobe': B.build_vprobe()}
    SCRATCH = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        if how['mode'] == 'choices':
            x = try_candidates(pid, v, dirs, [how['choices']], 'rp')
            m, lines = (x['msg'], x.get('lines', [])) if x else (None, [])
        elif how['mode'] == 'range':
            m, lines = rerun_range(pid, how['seed'], how['worker'], how['from'], how['to'], v, dirs), []
        else:
            m, lines = rerun_range(pid, r['seed'], 0, 0, 1, v, dirs), []
        if m is None:
            print('does not fail on the current tree')
            return 0
        print_failure(m, lines)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)


if __name__ == '__main__':
    try:
        if sys.argv[1] == '--setup':
            for v in B.VARIANTS:
                B.build(v)
            B.build_vprobe()
            sys.exit(0)
        if sys.argv[1] == '--replay':
            sys.exit(main_replay(sys.argv[2]))
        sys.exit(main_check(sys.argv[1]))
    except B.BuildError as e:
        print('BUILD FAILED\n' + str(e)[-3000:])
        sys.exit(2)
