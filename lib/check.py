#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--scale X] [--only PART] | check.py --replay FILE

Decides one property by generated-input search.  Exit 0: held on everything explored.  Exit 1: VIOLATION line.
"""
import argparse, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from config import PROPS

VERIF = B.VERIF
WORKERS = 8


def say(*a):
    print(*a, flush=True)


def known_findings(prop=None):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if prop is None or k['property'] == prop]


class Harness:
    def __init__(self, prop, exe, work, tier):
        self.prop, self.exe, self.work, self.tier = prop, exe, work, tier
        self.known = ','.join(k['id'] for k in known_findings())
        self.env = dict(os.environ, LANG='C.UTF-8', VP_WORK=work, VP_BIN=os.path.join(B.BUILD, 'bin'))
        self.env.pop('ASAN_OPTIONS', None)
        self.env.pop('UBSAN_OPTIONS', None)

    def replay(self, path, timeout=120, known=None):
        """-> (failed, text)"""
        d = tempfile.mkdtemp(dir=self.work)
        try:
            r = subprocess.run([self.exe, '--replay', path, '--known', self.known if known is None else known], cwd=d, env=dict(self.env, VP_WORK=d), stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
            return r.returncode, r.stderr.decode('utf8', 'replace')[-6000:]
        except subprocess.TimeoutExpired:
            return 0, 'timeout: inconclusive'
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def part_name(self, idx):
        r = subprocess.run([self.exe, '--prop-name', str(idx)], stdout=subprocess.PIPE, env=self.env, text=True)
        return r.stdout.strip()

    def worker_cmd(self, i, seed, scale, cap, only):
        base = os.path.join(self.work, 'w%d' % i)
        os.makedirs(base, exist_ok=True)
        cmd = [self.exe, '--prop', self.prop, '--seed', str(seed), '--worker', str(i), '--workers', str(WORKERS), '--tier',
               self.tier, '--scale', str(scale), '--time-cap', str(cap), '--out', base + '.json', '--shm', base + '.shm',
               '--known', self.known]
        if only:
            cmd += ['--only', only]
        return base, cmd

    def start(self, i, seed, scale, cap, only):
        base, cmd = self.worker_cmd(i, seed, scale, cap, only)
        if os.path.exists(base + '.json'):
            os.unlink(base + '.json')
        log = open(base + '.log', 'wb')
        return subprocess.Popen(cmd, cwd=base, env=dict(self.env, VP_WORK=base), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=log)

    def shm_choices(self, i):
        import array
        with open(os.path.join(self.work, 'w%d.shm' % i), 'rb') as f:
            hdr = array.array('Q', f.read(16))
            rec = array.array('Q', f.read(8 * hdr[1]))
        return hdr[0], list(rec)

    def log_tail(self, i, n=4000):
        p = os.path.join(self.work, 'w%d.log' % i)
        with open(p, 'rb') as f:
            f.seek(0, 2)
            size = f.tell()
            f.seek(max(0, size - 20000))
            t = f.read().decode('utf8', 'replace')
        for mark in ('runtime error:', 'ERROR: AddressSanitizer', 'Assertion', 'insist', 'VP-HANG'):
            k = t.find(mark)
            if k >= 0:
                return t[max(0, k - 300):k + n]
        return t[-n:]


def violation(prop, path):
    say('VIOLATION property=%s replay=%s' % (prop, path))


def save_replay(prop, j):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(j.get('choices', j.get('worker', 0))).encode()).hexdigest()[:10]
    p = os.path.join(d, '%s-%s-%s.json' % (prop, j['part'], h))
    with open(p, 'w') as f:
        json.dump(j, f, indent=1)
    return p


def run_harness(prop, cfg, tier, seed, scale, only):
    t0 = time.time()
    exe = B.build([cfg['target']] + cfg.get('tools', []))[cfg['target']]
    t_build = time.time() - t0
    work = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    try:
        return search(prop, cfg, tier, seed, scale, only, exe, work, t0, t_build)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def confirm(h, prop, j, seed, notes):
    """Replays a failing case three times, shrinks it, and prints the violation.  Returns whether it is confirmed."""
    tmp = os.path.join(h.work, 'fail.json')
    json.dump(j, open(tmp, 'w'))
    res = [h.replay(tmp) for _ in range(3)]
    if not all(rc != 0 for rc, _ in res):
        return False
    j['diagnosis'] = res[0][1]
    j['exit'] = [rc for rc, _ in res]
    path = save_replay(prop, j)
    out = os.path.join(h.work, 'shrunk.json')
    try:
        subprocess.run([h.exe, '--shrink', tmp, '--out', out, '--budget', '45', '--cpu-limit', '10', '--known', h.known], cwd=h.work, env=h.env,
                       stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=150)
    except subprocess.TimeoutExpired:
        pass
    if os.path.exists(out):
        s = json.load(open(out))
        tmp2 = os.path.join(h.work, 'fail2.json')
        json.dump(s, open(tmp2, 'w'))
        rc, text = h.replay(tmp2)
        if rc != 0:
            s['diagnosis'] = text
            s['unshrunk_choices'] = len(j['choices'])
            path2 = save_replay(prop, s)
            if path2 != path:
                os.unlink(path)
            path, j = path2, s
    say('--- failing case (%s) ---' % j['part'])
    say(j.get('diagnosis', '')[-3500:])
    violation(prop, path)
    return True


def search(prop, cfg, tier, seed, scale, only, exe, work, t0, t_build):
    h = Harness(prop, exe, work, tier)
    violations = 0
    replayed = 0
    # 1. Saved inputs: one per defect which was repaired, and per known finding.
    for p in sorted(glob.glob(os.path.join(VERIF, 'regress', prop, '*.json'))):
        replayed += 1
        rc, text = h.replay(p)
        if rc != 0 and all(h.replay(p)[0] != 0 for _ in range(2)):
            say(text[-3000:])
            violation(prop, p)
            violations += 1
            break
    for k in known_findings(prop):
        p = os.path.join(VERIF, k['replay'])
        rc, _ = h.replay(p, known=','.join(x['id'] for x in known_findings() if x['id'] != k['id']))
        if rc != 0:
            say('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        else:
            say('note: known finding %s does not fail any more' % k['id'])
    # 2. Search.
    parts, capped = {}, False
    inconclusive = []
    if not violations:
        cap = (float(os.environ.get('VP_CAP', 0)) or (330 if tier == 'quick' else 700))
        procs = {i: h.start(i, seed, scale, cap, only) for i in range(WORKERS)}
        failed = None
        deadline = time.time() + cap + 90
        while procs and failed is None:
            time.sleep(0.05)
            for i, p in list(procs.items()):
                rc = p.poll()
                if rc is None:
                    if time.time() > deadline:
                        p.kill()
                        p.wait()
                        del procs[i]
                        inconclusive.append('worker %d ran out of time' % i)
                    continue
                del procs[i]
                outp = os.path.join(work, 'w%d.json' % i)
                if rc == 0 and os.path.exists(outp):
                    r = json.load(open(outp))
                    if r['failed']:
                        failed = (i, {'property': prop, 'part': r['part'], 'choices': r['choices'], 'key': r['key'],
                                      'message': r['message'], 'seed': seed})
                        break
                    capped |= r['capped']
                    for pj in r['parts']:
                        parts.setdefault(pj['name'], []).append(pj)
                else:
                    idx, choices = h.shm_choices(i)
                    failed = (i, {'property': prop, 'part': h.part_name(idx), 'choices': choices, 'key': 'crash',
                                  'message': 'the process died (status %d)\n%s' % (rc, h.log_tail(i)), 'seed': seed})
                    break
        for p in procs.values():
            p.kill()
            p.wait()
        if failed:
            i, j = failed
            if confirm(h, prop, j, seed, None):
                violations += 1
            else:
                # The case alone does not fail: it needs the cases before it in the same process.  Rerun the worker.
                again = 0
                for _ in range(2):
                    p = h.start(i, seed, scale, cap, only)
                    rc = p.wait()
                    outp = os.path.join(work, 'w%d.json' % i)
                    ok = rc == 0 and os.path.exists(outp) and not json.load(open(outp))['failed']
                    again += not ok
                if again == 2:
                    j['worker'] = {'index': i, 'seed': seed, 'tier': tier, 'scale': scale}
                    say('--- fails only after other cases in the same process ---')
                    say(j['message'][-3000:])
                    violation(prop, save_replay(prop, j))
                    violations += 1
                else:
                    say('note: a failure did not reproduce, and does not count:\n' + j['message'][-3000:])
                    inconclusive.append('a failure did not reproduce: ' + j['key'])
    # 3. Evidence.
    evals = sum(p['evaluations'] for ps in parts.values() for p in ps)
    nontriv, cover, samples = 0, {}, []
    for name, ps in sorted(parts.items()):
        labels = {}
        hashes = set()
        for p in ps:
            hashes.update(p['hashes'])
            for l, n in p['labels'].items():
                labels[l] = labels.get(l, 0) + n
        nontriv += len(hashes)
        e = sum(p['evaluations'] for p in ps)
        cover[name] = {'evaluations': e, 'distinct_nontrivial': len(hashes), 'discarded': sum(p['discarded'] for p in ps),
                       'planned': sum(p['planned'] for p in ps),
                       'mutated_from_corpus': sum(p['mutated'] for p in ps),
                       'coverage_features_max_worker': max(p['features'] for p in ps),
                       'cases_by_class': dict(sorted(labels.items())), 'wall_s': round(max(p['wall_s'] for p in ps), 1)}
        for p in ps[:2]:
            samples += [{'part': name, 'case': s} for s in p['samples'][:1]]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': evals, 'distinct_nontrivial': nontriv, 'rule': cfg['rule'], 'samples': samples[:16] or [{'note': 'stopped early'}],
                       'parts': cover, 'saved_inputs_replayed': replayed, 'stopped_by_time_cap': capped, 'inconclusive': inconclusive,
                       'build_s': round(t_build, 1)},
          'assumptions': cfg.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': violations}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if not violations:
        say('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)%s' %
            (prop, tier, seed, evals, nontriv, time.time() - t0, t_build, ' [time cap]' if capped else ''))
        for n, cc in cover.items():
            say('  %-28s %8d cases %8d non-trivial %7.1f s  %d features' % (n, cc['evaluations'], cc['distinct_nontrivial'], cc['wall_s'], cc['coverage_features_max_worker']))
    return 1 if violations else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--scale', type=float)
    ap.add_argument('--only', default='')
    ap.add_argument('--replay')
    a = ap.parse_args()
    try:
        if a.replay:
            j = json.load(open(a.replay))
            cfg = PROPS[j['property']]
            exe = B.build([cfg['target']] + cfg.get('tools', []))[cfg['target']]
            work = tempfile.mkdtemp(prefix='vp_replay_')
            try:
                h = Harness(j['property'], exe, work, 'quick')
                if 'worker' in j:
                    w = j['worker']
                    h.tier = w['tier']
                    p = h.start(w['index'], w['seed'], w['scale'], 700, '')
                    rc = p.wait()
                    say(h.log_tail(w['index']))
                else:
                    rc, text = h.replay(os.path.abspath(a.replay))
                    say(text)
            finally:
                shutil.rmtree(work, ignore_errors=True)
            say('FAILS' if rc else 'PASSES')
            return 1 if rc else 0
        cfg = PROPS[a.prop]
        scale = a.scale or cfg.get('scale', 1.0)
        return run_harness(a.prop, cfg, a.tier, a.seed, scale, a.only)
    except B.BuildError as e:
        say('BUILD FAILED\n' + str(e)[-6000:])
        return 2


if __name__ == '__main__':
    sys.exit(main())
