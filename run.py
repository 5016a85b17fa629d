#!/usr/bin/env python3
"""Decide one property: build, search, shrink, replay, write evidence.

usage: run.py <property> [quick|thorough]   (tier defaults to $VERIF_TIER)
       run.py --replay <file>               (re-run a recorded case)
"""
import concurrent.futures as cf
import json
import os
import shutil
import signal
import struct
import subprocess
import sys
import threading
import time

import build as B

VERIF = B.VERIF
ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = ('detect_leaks=1:detect_container_overflow=0:detect_odr_violation=0:'
                       'allocator_may_return_null=1:exitcode=66:abort_on_error=0:handle_abort=0:quarantine_size_mb=16:'
                       'hard_rss_limit_mb=3072')
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=67'
ENV['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:handle_abort=0:report_thread_leaks=0'
ENV['LC_ALL'] = 'C'

VALGRIND = ['valgrind', '-q', '--tool=memcheck', '--leak-check=no', '--error-limit=no', '--vgdb=no',
            '--track-origins=no', '--undef-value-errors=yes', '--partial-loads-ok=yes', '--log-fd=9']
# Per property: configurations used and how they are run.
SPECIAL = {
    'C32': dict(configs=['native', 'asan', 'memcheck'], fuzz=True),
    'C33': dict(configs=['native', 'portable'], wrapper=True),
    'C34': dict(configs=['native', 'portable', 'asan'], transcript=True),
    'C36': dict(configs=['native', 'portable', 'tsan', 'tsanlock']),
}
# 'memcheck' is the native build under valgrind; a target's portable share is its share.
SHARE = {'memcheck': 'portable', 'tsan': 'asan', 'tsanlock': 'asan'}
OFFSET = {'native': 0, 'portable': 10**8, 'asan': 2 * 10**8, 'memcheck': 3 * 10**8, 'tsan': 4 * 10**8,
          'tsanlock': 5 * 10**8}
QUICK_LIMIT = 240.0      # safety only: the search is sized by case counts
THOROUGH_LIMIT = 5400.0
CHUNKS = 6


def log(*a):
    print(*a, flush=True)


def build(configs):
    bins = B.build([c for c in configs if c != 'memcheck'])
    bins['memcheck'] = bins.get('native')
    return bins


def wrap_cmd(prop, cfg, cmd):
    if cfg == 'memcheck' or SPECIAL.get(prop, {}).get('wrapper'):
        return ['sh', '-c', 'exec 9>&2; exec "$@"', 'x'] + VALGRIND + cmd
    return cmd


def sh(cmd, timeout=None):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=timeout)
        return r.returncode, r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b'').decode(errors='replace')


def targets(binary, prop):
    rc, out = sh([binary, 'list'])
    ts, rule = [], ''
    for l in out.splitlines():
        f = l.split('\t')
        if f[0] == 'T' and f[1] == prop:
            ts.append(dict(name=f[2], quick=int(f[3]), thorough=int(f[4]), portable=float(f[5]), asan=float(f[6])))
        if f[0] == 'R' and f[1] == prop:
            rule = f[2]
    return ts, rule


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        sp = SPECIAL.get(prop, {})
        self.configs = sp.get('configs', ['native', 'portable', 'asan'])
        self.transcript = sp.get('transcript', False)
        self.work = os.path.join(B.BUILD, 'work', '%s-%d' % (prop, os.getpid()))
        self.fail = None
        self.lock = threading.Lock()
        self.procs = set()
        self.stop = False
        self.notes = []
        self.broken = False

    def job(self, j):
        cfg, t, start, count = j
        if self.stop or time.time() > self.deadline:
            return None
        base = os.path.join(self.work, '%s.%s.%d' % (cfg, t['name'], start))
        cmd = wrap_cmd(self.prop, cfg, [
            self.bins[cfg], 'run', '--prop', self.prop, '--target', t['name'],
            '--seed', str(self.seed), '--start', str(start), '--count', str(count),
            '--out', base, '--tier', self.tier,
            '--limit', '%.0f' % max(1.0, self.deadline - time.time()),
            '--transcript', '1' if self.transcript else '0'])
        with open(base + '.log', 'wb') as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=lf, env=ENV, start_new_session=True)
            with self.lock:
                self.procs.add(p)
            rc = p.wait()
            with self.lock:
                self.procs.discard(p)
        if self.stop:
            return None
        res = dict(cfg=cfg, target=t['name'], start=start, count=count, rc=rc, base=base, cmd=cmd)
        try:
            with open(base + '.json') as f:
                res['stats'] = json.load(f)
        except (OSError, ValueError):
            res['stats'] = None
        if rc != 0:
            with self.lock:
                first = self.fail is None and not self.stop
                if first and not self.is_infra(rc):
                    self.fail = res
                    self.stop = True
                    for q in list(self.procs):
                        try:
                            os.killpg(q.pid, signal.SIGKILL)
                        except OSError:
                            pass
                elif self.is_infra(rc):
                    self.notes.append('worker %s/%s ended by signal/infrastructure status %s' % (cfg, t['name'], rc))
                    if rc != -9:
                        self.broken = True
        return res

    @staticmethod
    def is_infra(rc):
        # killed from outside (OOM killer) or harness usage error
        return rc in (-9, 3, 127, 126)

    # -- failure handling -------------------------------------------------
    def confirm(self, res):
        """Turn a failing worker into a replay file; None if it does not reproduce."""
        cfg, name = res['cfg'], res['target']
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        log(open(res['base'] + '.log', errors='replace').read()[-1500:])
        raw = res['base'] + '.raw'
        if os.path.exists(res['base'] + '.fail'):
            shutil.copy(res['base'] + '.fail', raw)
        else:
            data = open(res['base'] + '.cur', 'rb').read()
            idx, n = struct.unpack_from('<QI', data, 8)
            tape = data[24:24 + n]
            with open(raw, 'w') as f:
                f.write('property %s\ntarget %s\ntape %s\nmessage crash at case %d\n' % (self.prop, name, tape.hex(), idx))
        out = os.path.join(rdir, '%s-%s-%s.txt' % (self.prop, name, cfg))
        single = self.replays(cfg, raw, 1)
        if single:
            hang = 'CPU-time limit' in open(res['base'] + '.log', errors='replace').read()
            final = raw
            if not hang and cfg != 'memcheck' and not SPECIAL.get(self.prop, {}).get('wrapper'):
                rc, o = sh([self.bins[cfg], 'shrink', raw, out, '--limit', '30', '--cpu', '20', '--tier', self.tier], timeout=200)
                if rc == 0:
                    final = out
                    log(o.strip()[-600:])
            if final != out:
                shutil.copy(final, out)
            with open(out, 'a') as f:
                f.write('config %s\ntier %s\nseed %d\n' % (cfg, self.tier, self.seed))
            if hang or self.replays(cfg, out, 3):
                return out
            shutil.copy(raw, out)
            with open(out, 'a') as f:
                f.write('config %s\ntier %s\nseed %d\n' % (cfg, self.tier, self.seed))
            if self.replays(cfg, out, 3):
                return out
        # Needs the preceding cases of the worker: replay the range.
        idx = None
        if res['stats']:
            idx = res['stats'].get('failidx')
        if idx is None:
            data = open(res['base'] + '.cur', 'rb').read()
            idx = struct.unpack_from('<Q', data, 8)[0]
        count = idx - res['start'] + 1
        with open(out, 'w') as f:
            f.write('property %s\ntarget %s\nhistory %d %d\nconfig %s\ntier %s\nseed %d\n' % (
                self.prop, name, res['start'], count, cfg, self.tier, self.seed))
        if any(replay_file(self.bins, out) for _ in range(3)):
            return out
        # Depends on something outside the case (uninitialised memory): accept a
        # failure that comes back at least once.
        if os.path.exists(raw):
            shutil.copy(raw, out)
            with open(out, 'a') as f:
                f.write('config %s\ntier %s\nseed %d\n' % (cfg, self.tier, self.seed))
            if any(self.replays(cfg, out, 1) for _ in range(8)):
                return out
        os.unlink(out)
        return None

    def replays(self, cfg, path, times):
        for _ in range(times):
            rc, o = sh(wrap_cmd(self.prop, cfg, [self.bins[cfg], 'replay', path, '--tier', self.tier]), timeout=900)
            if rc is None or rc == 0 or self.is_infra(rc):
                return False
        return True

    # -- main -------------------------------------------------------------
    def run(self):
        t0 = time.time()
        os.makedirs(self.work, exist_ok=True)
        self.bins = build(self.configs)
        tb = time.time() - t0
        ts, rule = targets(self.bins[self.configs[0]], self.prop)
        if not ts:
            log('no targets for', self.prop)
            return 2
        only = os.environ.get('VERIF_TARGET')
        if only:
            ts = [t for t in ts if t['name'] == only]
        scale = float(os.environ.get('VERIF_SCALE', '1'))
        self.deadline = time.time() + (QUICK_LIMIT if self.tier == 'quick' else THOROUGH_LIMIT)
        jobs = []
        for t in ts:
            n = int(t[self.tier] * scale)
            for cfg in self.configs:
                if self.transcript:
                    k = n
                else:
                    k = n if cfg == 'native' else int(n * t[SHARE.get(cfg, cfg)])
                if k <= 0:
                    continue
                chunks = min(CHUNKS if self.tier == 'quick' else 24, k)
                # configurations explore different cases unless compared
                off = 0 if self.transcript else OFFSET[cfg]
                for c in range(chunks):
                    a, b = k * c // chunks, k * (c + 1) // chunks
                    jobs.append((c, (cfg, t, off + a, b - a)))
        jobs.sort(key=lambda x: x[0])
        verdict, path = 0, None
        for attempt in range(2):
            results = []
            with cf.ThreadPoolExecutor(B.JOBS) as ex:
                for r in ex.map(self.job, [j for _, j in jobs]):
                    if r:
                        results.append(r)
            if self.fail is None:
                break
            path = self.confirm(self.fail)
            if path:
                verdict = 1
                break
            self.notes.append('a failure in %s/%s did not reproduce and was not counted' % (
                self.fail['cfg'], self.fail['target']))
            self.fail, self.stop = None, False
            self.deadline = time.time() + (QUICK_LIMIT if self.tier == 'quick' else THOROUGH_LIMIT)
        if verdict == 0 and self.transcript:
            path = self.compare(results)
            verdict = 1 if path else 0
        fuzz = None
        if verdict == 0 and self.tier == 'thorough' and SPECIAL.get(self.prop, dict(fuzz=True)).get('fuzz'):
            path, fuzz = self.fuzz(ts)
            verdict = 1 if path else 0
        self.evidence(results, rule, time.time() - t0, tb, verdict, fuzz)
        for n in self.notes:
            log('note:', n)
        for l in known(self.prop):
            log('KNOWN-FINDING: property=%s %s' % (self.prop, l))
        if not verdict and (self.broken or not any(r['stats'] and r['stats']['evaluations'] for r in results)):
            log('no verdict for %s: the harness itself failed' % self.prop)
            return 2
        if verdict:
            log('VIOLATION property=%s replay=%s' % (self.prop, path))
        else:
            log('OK %s: %d cases, %.1f s (build %.1f s)' % (
                self.prop, sum(r['stats']['evaluations'] for r in results if r['stats']), time.time() - t0, tb))
        shutil.rmtree(self.work, ignore_errors=True)
        return verdict

    # -- differential between configurations ------------------------------
    def compare(self, results):
        by = {}
        for r in results:
            if r['stats']:
                by.setdefault((r['target'], r['start']), {})[r['cfg']] = r
        for (name, start), d in sorted(by.items()):
            data = {c: open(r['base'] + '.trans', 'rb').read() for c, r in d.items()}
            ref = self.configs[0]
            if ref not in data:
                continue
            for c in self.configs[1:]:
                if c not in data:
                    continue
                n = min(len(data[c]), len(data[ref])) // 8
                for i in range(n):
                    if data[c][8 * i:8 * i + 8] != data[ref][8 * i:8 * i + 8]:
                        return self.confirm_diff(name, start + i, ref, c)
        return None

    def diff_fails(self, path, a, b):
        o = []
        for cfg in (a, b):
            rc, out = sh([self.bins[cfg], 'replay', path, '--tier', self.tier], timeout=600)
            tr = [l for l in out.splitlines() if l.startswith('transcript')]
            if rc is None or self.is_infra(rc):
                return False
            o.append((rc, tr))
        return o[0] != o[1]

    def confirm_diff(self, name, idx, a, b):
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        out = os.path.join(rdir, '%s-%s-%s.txt' % (self.prop, name, b))
        base = os.path.join(self.work, 'one')
        sh([self.bins[a], 'run', '--prop', self.prop, '--target', name, '--seed', str(self.seed),
            '--start', str(idx), '--count', '1', '--out', base, '--tier', self.tier])
        data = open(base + '.cur', 'rb').read()
        n = struct.unpack_from('<I', data, 16)[0]
        tape = data[24:24 + n]

        def put(tp):
            with open(out, 'w') as f:
                f.write('property %s\ntarget %s\ntape %s\ncompare %s %s\ntier %s\nseed %d\n' % (
                    self.prop, name, bytes(tp).hex(), a, b, self.tier, self.seed))
        put(tape)
        if not self.diff_fails(out, a, b):
            self.notes.append('transcript difference in %s did not reproduce' % name)
            return None
        best, t1 = bytearray(tape), time.time()
        k = max(1, len(best) // 2)
        while k and time.time() - t1 < 30:
            i = 0
            while i + k <= len(best) and time.time() - t1 < 30:
                c = best[:i] + best[i + k:]
                put(c)
                if self.diff_fails(out, a, b):
                    best = c
                else:
                    i += k
            k //= 2
        put(best)
        if all(self.diff_fails(out, a, b) for _ in range(3)):
            return out
        return None

    # -- coverage-guided stage (thorough) ----------------------------------
    def fuzz(self, ts):
        info = dict(executions=0, targets=0)
        try:
            fb = B.build(['fuzz'])['fuzz']
        except B.BuildError as e:
            self.notes.append('fuzz build failed: %s' % str(e)[:200])
            return None, info
        per = int(os.environ.get('VERIF_FUZZ_SECONDS', '120'))
        bad = []

        def one(t):
            d = os.path.join(self.work, 'corpus-' + t['name'])
            os.makedirs(d, exist_ok=True)
            env = dict(ENV, PBT_PROP=self.prop, PBT_TARGET=t['name'])
            lf = os.path.join(self.work, 'fuzz-%s.log' % t['name'])
            with open(lf, 'wb') as f:
                rc = subprocess.call([fb, '-max_total_time=%d' % per, '-seed=%d' % (self.seed & 0x7fffffff or 1),
                                      '-max_len=2048', '-rss_limit_mb=4096', '-timeout=300', '-print_final_stats=1',
                                      '-artifact_prefix=%s/fuzz-%s-' % (self.work, t['name']), d],
                                     stdout=f, stderr=f, env=env)
            txt = open(lf, errors='replace').read()
            n = [int(l.split()[-1]) for l in txt.splitlines() if l.startswith('stat::number_of_executed_units')]
            info['executions'] += sum(n)
            info['targets'] += 1
            if rc != 0:
                arts = [p for p in os.listdir(self.work) if p.startswith('fuzz-%s-crash' % t['name'])
                        or p.startswith('fuzz-%s-leak' % t['name'])]
                if arts:
                    bad.append((t, os.path.join(self.work, arts[0]), txt))
        with cf.ThreadPoolExecutor(B.JOBS) as ex:
            list(ex.map(one, ts))
        for t, art, txt in bad:
            base = os.path.join(self.work, 'fz-' + t['name'])
            tape = open(art, 'rb').read()
            with open(base + '.fail', 'w') as f:
                f.write('property %s\ntarget %s\ntape %s\nmessage fuzz\n' % (self.prop, t['name'], tape.hex()))
            with open(base + '.log', 'w') as f:
                f.write(txt[-3000:])
            path = self.confirm(dict(cfg='asan', target=t['name'], base=base, start=0, count=0,
                                     stats=dict(failidx=0), rc=1))
            if path:
                return path, info
        return None, info

    def evidence(self, results, rule, wall, tb, verdict, fuzz):
        seen, ev, disc, nont, labels, samples, per = set(), 0, 0, 0, {}, [], {}
        trunc = False
        for r in results:
            s = r['stats']
            if not s:
                continue
            ev += s['evaluations']
            disc += s['discarded']
            nont += s['nontrivial']
            trunc |= s['truncated']
            k = '%s/%s' % (r['target'], r['cfg'])
            per[k] = per.get(k, 0) + s['evaluations']
            for a, b in s['labels'].items():
                labels[a] = labels.get(a, 0) + b
            try:
                raw = open(r['base'] + '.seen', 'rb').read()
                tag = hash(r['target']) & 0xffff
                seen.update((tag, x) for x in struct.unpack('<%dQ' % (len(raw) // 8), raw))
            except OSError:
                pass
            have = sum(1 for x in samples if x['target'] == r['target'])
            for x in s['samples']:
                if x and have < 3 and len(samples) < 40:
                    samples.append(dict(target=r['target'], config=r['cfg'], case=x[:400]))
                    have += 1
        cov = dict(evaluations=ev, distinct_nontrivial=len(seen), rule=rule or 'every generated case',
                   samples=samples, discarded=disc, nontrivial=nont, per_target=per,
                   classes=dict(sorted(labels.items())[:200]), truncated_by_time=trunc, build_s=round(tb, 1))
        if fuzz:
            cov['coverage_guided'] = fuzz
        doc = dict(property=self.prop, tier=self.tier, seed=self.seed, level='exploration', coverage=cov,
                   wall_s=round(wall, 2), violations=verdict,
                   assumptions=['reference models in /verif/ref and OpenSSL/GMP are correct',
                                'compilers and sanitizers behave as documented'])
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.prop + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(doc, f, indent=1)
        os.replace(p + '.tmp', p)


def known(prop):
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known-findings.txt')):
            l = l.strip()
            if l.startswith('open: property=%s ' % prop):
                out.append(l.split(' ', 2)[2])
    except OSError:
        pass
    return out


def replay_file(bins, path):
    """True if the recorded failure happens again."""
    d = {}
    for l in open(path):
        k, _, v = l.rstrip('\n').partition(' ')
        d[k] = v
    prop, tier = d['property'], d.get('tier', 'quick')
    if 'compare' in d:
        a, b = d['compare'].split()
        r = Runner(prop, tier, int(d.get('seed', '1')))
        r.bins = bins
        return r.diff_fails(path, a, b)
    cfg = d.get('config', 'native')
    if 'history' in d:
        start, count = d['history'].split()
        base = os.path.join(B.BUILD, 'replay.%d' % os.getpid())
        rc, o = sh(wrap_cmd(prop, cfg, [bins[cfg], 'run', '--prop', prop, '--target', d['target'], '--seed', d['seed'],
                                       '--start', start, '--count', count, '--out', base, '--tier', tier]), timeout=1800)
        for ext in ('.cur', '.fail', '.json', '.seen', '.log'):
            try:
                os.unlink(base + ext)
            except OSError:
                pass
    else:
        rc, o = sh(wrap_cmd(prop, cfg, [bins[cfg], 'replay', path, '--tier', tier]), timeout=900)
    sys.stdout.write(o[-3000:])
    return rc is not None and rc != 0 and not Runner.is_infra(rc)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    try:
        if sys.argv[1] == '--replay':
            path = sys.argv[2]
            bins = build(['native', 'portable', 'asan'])
            if replay_file(bins, path):
                log('reproduced')
                return 1
            log('not reproduced')
            return 0
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        return Runner(sys.argv[1], tier, seed).run()
    except B.BuildError as e:
        log('BUILD FAILED (no verdict):', e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
