"""Drives the worker processes, confirms and minimises failures, writes replay and evidence files."""
import json
import os
import queue
import re
import resource
import select
import signal
import subprocess
import sys
import tempfile
import threading
import time

from dst import build, core
from dst.checks import CHECKS

VERIF = build.VERIF
HZ = os.sysconf('SC_CLK_TCK')
SIGNAMES = {int(getattr(signal, n)): n for n in dir(signal) if n.startswith('SIG') and '_' not in n}


class Proc(object):
    """One worker process."""

    def __init__(self, scenario, platform, extra_env=None, cpu_limit=25, wall_limit=150, schemas=True):
        self.scenario, self.platform = scenario, platform
        self.cpu_limit, self.wall_limit = cpu_limit, wall_limit
        env = build.worker_env(platform, build.ensure_schemas(platform) if schemas else None)
        env.update(extra_env or {})
        self.err = tempfile.TemporaryFile()

        def pre():
            if platform in ('cy', 'pure'):
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            if platform == 'asan':
                # the instrumented frames are several times bigger than the real ones, and the limits on recursion
                # (CPython's and capnpy's) are meant for the real ones
                hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
                want = 64 << 20
                resource.setrlimit(resource.RLIMIT_STACK,
                                   (want if hard == resource.RLIM_INFINITY else min(want, hard), hard))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        self.p = subprocess.Popen(['setarch', '-R', build.interpreter(platform), '-m', 'dst.worker', scenario],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env,
                                  cwd=VERIF, preexec_fn=pre, bufsize=0, start_new_session=True)
        self.buf = b''
        self.history = []         # every item run by this process
        self.dead = False
        r = self._line(60, None)
        if r is None or 'ready' not in r:
            raise core.HarnessError('worker %s/%s did not start: %s' % (scenario, platform, self.stderr_tail()))

    def cpu(self):
        try:
            with open('/proc/%d/stat' % self.p.pid) as f:
                s = f.read().rsplit(')', 1)[1].split()
            return (int(s[11]) + int(s[12])) / HZ
        except (OSError, IndexError):
            return 0.0

    def stderr_tail(self, n=6000):
        self.err.seek(0, 2)
        size = self.err.tell()
        self.err.seek(max(0, size - 200000))
        return self.err.read().decode(errors='replace')[-n:]

    def asan_report(self):
        self.err.seek(0)
        s = self.err.read().decode(errors='replace')
        i = s.rfind('ERROR: AddressSanitizer')
        return s[i:i + 3000] if i >= 0 else ''

    def _line(self, wall, cpu0):
        """next JSON line; None on death; 'hang' when a limit is hit"""
        end = time.time() + wall
        while True:
            i = self.buf.find(b'\n')
            if i >= 0:
                line, self.buf = self.buf[:i], self.buf[i + 1:]
                return json.loads(line)
            r, _, _ = select.select([self.p.stdout], [], [], 0.5)
            if r:
                d = os.read(self.p.stdout.fileno(), 1 << 16)
                if not d:
                    return None
                self.buf += d
                continue
            if cpu0 is not None and self.cpu() - cpu0 > self.cpu_limit:
                return 'cpu'
            if time.time() > end:
                return 'wall'

    def batch(self, items, cb):
        """Run items (dicts with i and seed/choices); cb(result) for each.  Returns False when the process is gone."""
        job = json.dumps({'runs': items}) + '\n'
        try:
            self.p.stdin.write(job.encode())
        except OSError:
            pass
        byi = {it['i']: it for it in items}
        cur = None
        cpu0 = self.cpu()
        while True:
            r = self._line(self.wall_limit, cpu0)
            if isinstance(r, dict):
                if 'start' in r:
                    cur = r['start']
                    self.history.append(byi[cur])
                    cpu0 = self.cpu()
                elif 'batch' in r:
                    return True
                else:
                    cur = None
                    cb(r)
                continue
            # hang or death
            v = self.post_mortem(r)
            self.kill()
            if cur is None:
                raise core.HarnessError('worker died between runs: %s\n%s' % (v, self.stderr_tail()))
            cb({'i': cur, 'violation': v, 'died': True})
            return False

    def post_mortem(self, r):
        if r == 'cpu':
            return ('unbounded-work', 'the run used more than %d s of CPU time' % self.cpu_limit)
        if r == 'wall':
            return ('stuck', 'the run made no progress for %d s' % self.wall_limit)
        try:
            rc = self.p.wait(20)
        except subprocess.TimeoutExpired:
            return ('stuck', 'worker closed its output but did not exit')
        rep = self.asan_report()
        if rep:
            m = re.search(r'AddressSanitizer: ([A-Za-z-]+)', rep)
            return ('asan:' + (m.group(1) if m else '?'), rep[:1500])
        if rc < 0:
            return ('process-died:' + SIGNAMES.get(-rc, str(rc)), self.stderr_tail(1500))
        return ('process-exited', 'exit status %d: %s' % (rc, self.stderr_tail(1500)))

    def kill(self):
        self.dead = True
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.p.wait(10)
        except subprocess.TimeoutExpired:
            pass
        self.p.stdout.close()
        try:
            self.p.stdin.close()
        except OSError:
            pass
        self.err.close()

    def close(self):
        if not self.dead:
            self.kill()


def fresh_run(entry, items, keep=False):
    """Run items in a fresh process; result of the last one."""
    p = Proc(entry['scenario'], entry['platform'], cpu_limit=entry.get('cpu', 25))
    out = []
    try:
        its = [dict(it, i=k) for k, it in enumerate(items)]
        its[-1]['keep'] = keep
        p.batch(its, out.append)
    finally:
        p.close()
    return out[-1]


def fails_like(res, cls):
    v = res.get('violation')
    return v is not None and v[0] == cls


class Check(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.spec = CHECKS[pid]
        self.t0 = time.time()
        self.known = load_known(pid)
        self.lock = threading.Lock()
        self.violations = []
        self.harness = []
        self.stop = False
        self.stats = {}
        self.digests = {}
        self.states = set()
        self.faults = {}
        self.probes = {}
        self.samples = []
        self.known_hits = {}
        self.recheck = [0, 0]
        self.simtime = 0
        self.steps = 0
        self.cap = self.spec.get('cap', {}).get(tier, 330 if tier == 'quick' else 760)

    def entries(self):
        res = []
        for n, e in enumerate(self.spec['entries']):
            e = dict(e, n=n)
            e['runs'] = e.get(self.tier, 0)
            scale = os.environ.get('VERIF_SCALE')
            if scale:
                e['runs'] = int(e['runs'] * float(scale))
            if e['runs']:
                res.append(e)
        return res

    # ---- exploration
    def explore(self):
        entries = self.entries()
        for pl in sorted(set(e['platform'] for e in entries)):
            build.ensure(pl)
            build.ensure_schemas(pl)
        self.t_built = time.time()
        chunks = {}
        for e in entries:
            size = e.get('chunk') or max(1, min(60, (e['runs'] + 7) // 8))
            lst = []
            for a in range(0, e['runs'], size):
                lst.append([{'i': i, 'seed': core.derive(self.seed, e['scenario'], e.get('salt', 0), i)}
                            for i in range(a, min(e['runs'], a + size))])
            if lst:
                for it in lst[0][:2]:
                    it['keep'] = True
            chunks[e['n']] = (e, lst)
            self.stats[e['n']] = {'runs': 0, 'discards': 0}
            self.digests[e['n']] = {}
        keys = [e['n'] for e in entries]

        def take(prefer):
            with self.lock:
                if self.stop or time.time() - self.t0 > self.cap:
                    return None
                order = ([prefer] if prefer is not None else []) + sorted(
                    keys, key=lambda k: -len(chunks[k][1]) * chunks[k][0].get('cost', 1))
                for k in order:
                    if chunks[k][1]:
                        return k, chunks[k][0], chunks[k][1].pop(0)
                return None

        def work(tid):
            procs = {}
            last = keys[tid % len(keys)] if keys else None
            try:
                while True:
                    t = take(last)
                    if t is None:
                        return
                    k, e, items = t
                    last = k
                    while items and not self.stop:
                        p = procs.get(k)
                        if p is None or p.dead or len(p.history) > e.get('recycle', 600):
                            if p is not None:
                                p.close()
                            p = procs[k] = Proc(e['scenario'], e['platform'], cpu_limit=e.get('cpu', 25))
                        done = set()
                        # a determinism recheck: the first chunk of each entry is run again with another hash seed

                        def cb(r):
                            done.add(r['i'])
                            self.result(e, p, r)
                        ok = p.batch(items, cb)
                        if ok:
                            break
                        items = [it for it in items if it['i'] not in done]
            except core.HarnessError as ex:
                with self.lock:
                    self.harness.append(str(ex))
                    self.stop = True
            except Exception as ex:
                import traceback
                with self.lock:
                    self.harness.append(traceback.format_exc())
                    self.stop = True
            finally:
                for p in procs.values():
                    p.close()

        ths = [threading.Thread(target=work, args=(i,)) for i in range(int(os.environ.get('VERIF_JOBS', '8')))]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        self.t_explored = time.time()

    def result(self, e, p, r):
        with self.lock:
            st = self.stats[e['n']]
            st['runs'] += 1
            if 'harness' in r:
                self.harness.append('%s/%s run %d:\n%s' % (e['scenario'], e['platform'], r['i'], r['harness']))
                self.stop = True
                return
            if 'discard' in r:
                st['discards'] += 1
            v = r.get('violation')
            if 'digest' in r:
                self.digests[e['n']][r['i']] = r['digest'] if 'discard' not in r else 'discarded'
                self.simtime += r['simtime']
                self.steps += r['steps']
                if len(self.states) < 2000000:
                    self.states.update(r['states'])
                for k, n in r['faults'].items():
                    self.faults[k] = self.faults.get(k, 0) + n
                for k, n in r['probes'].items():
                    self.probes[k] = self.probes.get(k, 0) + n
                if r.get('lines') and len(self.samples) < 4 and r['i'] < 2:
                    self.samples.append({'entry': '%s/%s' % (e['scenario'], e['platform']), 'run': r['i'],
                                         'log': [x[:200] for x in r['lines'][:25]]})
            if v:
                kf = self.is_known(v)
                if kf is not None:
                    self.known_hits[kf['id']] = self.known_hits.get(kf['id'], 0) + 1
                    return
                self.violations.append({'entry': e, 'i': r['i'], 'v': v, 'choices': r.get('choices'),
                                        'history': list(p.history), 'digest': r.get('digest')})
                if len(self.violations) >= 1:
                    self.stop = True

    def is_known(self, v):
        for k in self.known:
            if k['cls'] == v[0] and re.search(k['match'], v[1], re.S):
                return k
        return None

    # ---- differential comparison of platforms (C14)
    def compare_platforms(self):
        groups = {}
        for e in self.entries():
            groups.setdefault((e['scenario'], e.get('salt', 0)), []).append(e)
        n = 0
        for (sc, salt), es in sorted(groups.items()):
            for e in es[1:]:
                a, b = self.digests[es[0]['n']], self.digests[e['n']]
                for i in sorted(set(a) & set(b)):
                    n += 1
                    if a[i] != b[i] and 'discarded' not in (a[i], b[i]):
                        seed = core.derive(self.seed, sc, salt, i)
                        self.violations.append({'diff': [es[0], e], 'entry': e, 'i': i, 'seed': seed,
                                                'v': ('platforms-differ', '')})
                        return n
        return n

    def diff_run(self, es, item, procs):
        outs = []
        for e in es:
            k = (e['scenario'], e['platform'])
            if k not in procs or procs[k].dead:
                procs[k] = Proc(e['scenario'], e['platform'], cpu_limit=e.get('cpu', 25))
            o = []
            procs[k].batch([dict(item, i=0, keep=True)], o.append)
            outs.append(o[-1])
        return outs

    def first_difference(self, es, outs):
        la, lb = [o.get('lines', []) + ['END ' + str(o.get('violation') or '')] for o in outs]
        for x, y in zip(la, lb):
            if x != y:
                return ('platforms-differ', '%s: %s\n%s: %s' % (es[0]['platform'], x[:600], es[1]['platform'], y[:600]))
        return None

    # ---- failures
    def report(self, viol):
        """Confirm, minimise, write the replay file, print the VIOLATION line."""
        e = viol['entry']
        cls, msg = viol['v']
        t_end = time.time() + 60
        if 'diff' in viol:
            return self.report_diff(viol, t_end)
        seed = core.derive(self.seed, e['scenario'], e.get('salt', 0), viol['i'])
        item = {'choices': viol['choices']} if viol['choices'] is not None else {'seed': seed}
        r = fresh_run(e, [item])
        prelude = []
        if not fails_like(r, cls) and r.get('violation') and cls not in ('stuck',):
            # failed differently in a fresh process: take that
            cls, msg = r['violation']
        if not fails_like(r, cls):
            # depends on what the process did before
            hist = [dict((k, h[k]) for k in ('seed', 'choices') if k in h) for h in viol['history'][:-1]]
            r2 = None
            for k in (4, 30, len(hist)):
                pre = hist[-k:]
                r2 = fresh_run(e, pre + [item])
                if fails_like(r2, cls):
                    prelude = pre
                    break
            if not prelude:
                if cls == 'stuck':
                    print('NOTE: a run got stuck once and not when repeated; not reported', file=sys.stderr)
                    return False
                if cls.startswith(('process-died', 'asan:')):
                    prelude = hist
                else:
                    raise core.HarnessError('violation %s (%s) of %s/%s run %d does not repeat' % (
                        cls, msg, e['scenario'], e['platform'], viol['i']))
            # drop prelude items that are not needed
            i = 0
            while i < len(prelude) and time.time() < t_end:
                cand = prelude[:i] + prelude[i + 1:]
                if fails_like(fresh_run(e, cand + [item]), cls):
                    prelude = cand
                else:
                    i += 1
        choices = viol['choices']
        nat = 0
        if choices is None and not prelude:
            choices = self.recover_choices(e, seed, cls)
        if choices is not None and not prelude:
            choices, nat = self.minimise(e, choices, cls, time.time() + 45)
            item = {'choices': choices}
        final = fresh_run(e, prelude + [item], keep=True)
        if final.get('violation'):
            msg = final['violation'][1]
        replay = {'property': self.pid, 'scenario': e['scenario'], 'platform': e['platform'],
                  'verif_seed': self.seed, 'run': viol['i'], 'seed': seed, 'violation': [cls, msg],
                  'prelude': prelude, 'item': item, 'digest': final.get('digest'),
                  'minimise_attempts': nat, 'trace': final.get('lines', [])}
        path = self.write_replay(replay)
        self.printed(cls, msg, path)
        return True

    def report_diff(self, viol, t_end):
        es = viol['diff']
        procs = {}
        try:
            outs = self.diff_run(es, {'seed': viol['seed']}, procs)
            d = self.first_difference(es, outs)
            if d is None:
                if any(o.get('violation') for o in outs):
                    d = ('platforms-differ', str([o.get('violation') for o in outs]))
                else:
                    raise core.HarnessError('difference between platforms does not repeat')
            choices = max((o.get('choices') or [] for o in outs), key=len)

            def attempt(cand):
                o = self.diff_run(es, {'choices': cand}, procs)
                if any('harness' in x or 'discard' in x for x in o):
                    return False, None
                dd = self.first_difference(es, o)
                rec = max((x.get('choices') or [] for x in o), key=len)
                return dd is not None, rec
            if attempt(choices)[0]:
                choices, nat = core.shrink(choices, attempt, 3000, lambda: time.time() > t_end)
                item = {'choices': choices}
            else:
                item = {'seed': viol['seed']}
            outs = self.diff_run(es, item, procs)
            d = self.first_difference(es, outs) or d
        finally:
            for p in procs.values():
                p.close()
        replay = {'property': self.pid, 'diff': [[e['scenario'], e['platform']] for e in es],
                  'verif_seed': self.seed, 'run': viol['i'], 'seed': viol['seed'], 'violation': list(d),
                  'item': item, 'digests': [o.get('digest') for o in outs],
                  'trace': [o.get('lines') for o in outs]}
        path = self.write_replay(replay)
        self.printed(d[0], d[1], path)
        return True

    def recover_choices(self, e, seed, cls):
        """choices of a run that killed its process: repeat it with a file that records them as they are drawn"""
        fd, path = tempfile.mkstemp(prefix='verif-choices-')
        os.close(fd)
        try:
            r = fresh_run(e, [{'seed': seed, 'rec': path}])
            if not fails_like(r, cls):
                return None
            with open(path) as f:
                return [int(x) for x in f.read().split()]
        finally:
            os.unlink(path)

    def minimise(self, e, choices, cls, t_end):
        box = {'p': None}

        def attempt(cand):
            p = box['p']
            if p is None or p.dead:
                p = box['p'] = Proc(e['scenario'], e['platform'], cpu_limit=e.get('cpu', 25))
            out = []
            p.batch([{'i': 0, 'choices': cand}], out.append)
            r = out[-1]
            if fails_like(r, cls):
                return True, r.get('choices')
            return False, None
        try:
            best, n = core.shrink(choices, attempt, 3000, lambda: time.time() > t_end)
        finally:
            if box['p'] is not None:
                box['p'].close()
        if fails_like(fresh_run(e, [{'choices': best}]), cls):
            return best, n
        return choices, n

    def write_replay(self, replay):
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%d.json' % (self.pid, self.tier, replay['run']))
        with open(path, 'w') as f:
            json.dump(replay, f, indent=1)
        return path

    def printed(self, cls, msg, path):
        print('%s: %s' % (cls, msg[:1500]))
        print('VIOLATION property=%s replay=%s' % (self.pid, path))
        sys.stdout.flush()

    # ---- evidence
    def recheck_determinism(self):
        """run a few seeds again in other processes, with another hash seed, and compare the event logs"""
        for e in self.entries()[:3]:
            ds = self.digests[e['n']]
            idx = sorted(ds)[:12]
            if not idx:
                continue
            p = Proc(e['scenario'], e['platform'], extra_env={'PYTHONHASHSEED': '77'}, cpu_limit=e.get('cpu', 25))
            try:
                out = []
                p.batch([{'i': i, 'seed': core.derive(self.seed, e['scenario'], e.get('salt', 0), i)}
                         for i in reversed(idx)], out.append)
                for r in out:
                    if 'digest' in r:
                        self.recheck[0] += 1
                        if r['digest'] != ds[r['i']] and ds[r['i']] != 'discarded':
                            self.recheck[1] += 1
                            print('NOTE: run %d of %s/%s is not deterministic' % (
                                r['i'], e['scenario'], e['platform']), file=sys.stderr)
            finally:
                p.close()

    def evidence(self, nviol):
        runs = sum(s['runs'] for s in self.stats.values())
        disc = sum(s['discards'] for s in self.stats.values())
        dist = set()
        for e in self.entries():
            dist.update((e['scenario'], d) for d in self.digests[e['n']].values())
        wall = time.time() - self.t0
        ex = max(0.001, self.t_explored - self.t_built)
        cov = {
            'evaluations': runs,
            'discarded': disc,
            'distinct_nontrivial': len(dist),
            'rule': self.spec['rule'],
            'runs_per_entry': {'%s/%s' % (e['scenario'], e['platform']): self.stats[e['n']]['runs']
                               for e in self.entries()},
            'runs_per_hour': int(runs / ex * 3600),
            'seeds_per_hour': int(len(dist) / ex * 3600),
            'simulated_time': self.simtime,
            'simulated_time_unit': 'virtual ticks of the event clock',
            'simulator_steps': self.steps,
            'faults_injected': dict(sorted(self.faults.items())),
            'reach_probes': dict(sorted(self.probes.items())),
            'distinct_states': len(self.states),
            'distinct_states_measure': self.spec.get('measure', 'distinct keys reported by the scenario'),
            'real_components': self.spec['real'],
            'stub_components': self.spec['stub'],
            'determinism_rechecks': self.recheck[0],
            'determinism_mismatches': self.recheck[1],
            'build_s': round(self.t_built - self.t0, 1),
            'known_findings_hit': self.known_hits,
            'samples': self.samples or [{'note': 'no run completed'}],
        }
        cov.update(getattr(self, 'extra', {}))
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.spec['level'],
              'coverage': cov, 'assumptions': self.spec.get('assumptions', []), 'wall_s': round(wall, 1),
              'violations': nviol}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, self.pid + '.json.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(d, self.pid + '.json'))

    def main(self):
        try:
            self.explore()
        except build.BuildError as ex:
            print('BUILD FAILED: %s' % ex, file=sys.stderr)
            return 2
        rc = 0
        self.extra = {}
        if self.spec.get('differential') and not self.violations and not self.harness:
            n = self.compare_platforms()
            self.extra['platform_pairs_compared'] = n
        nviol = 0
        if self.violations:
            self.violations.sort(key=lambda v: (v['entry']['n'], v['i']))
            try:
                for v in self.violations:
                    if self.report(v):
                        nviol += 1
                        rc = 1
                        break
            except core.HarnessError as ex:
                self.harness.append(str(ex))
        if self.harness and rc == 0:
            print('HARNESS ERROR\n' + self.harness[0], file=sys.stderr)
            rc = 2
        if rc == 0:
            self.recheck_determinism()
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        self.evidence(nviol)
        runs = sum(s['runs'] for s in self.stats.values())
        print('%s %s: %d runs, %d distinct states, build %.1fs, explore %.1fs, total %.1fs -> exit %d' % (
            self.pid, self.tier, runs, len(self.states), self.t_built - self.t0, self.t_explored - self.t_built,
            time.time() - self.t0, rc))
        for s in sorted(self.probes):
            if os.environ.get('VERIF_VERBOSE'):
                print('   probe %s: %d' % (s, self.probes[s]))
        if os.environ.get('VERIF_VERBOSE'):
            for s in sorted(self.faults):
                print('   fault %s: %d' % (s, self.faults[s]))
            print('   recheck', self.recheck, self.stats)
        return rc


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get('findings', []) if k['property'] == pid]


def replay(pid, path):
    with open(path) as f:
        rp = json.load(f)
    if 'diff' in rp:
        c = Check(pid, 'quick', rp['verif_seed'])
        es = [{'scenario': s, 'platform': p} for s, p in rp['diff']]
        for e in es:
            build.ensure_schemas(e['platform'])
        procs = {}
        try:
            outs = c.diff_run(es, rp['item'], procs)
            d = c.first_difference(es, outs)
        finally:
            for p in procs.values():
                p.close()
        if d is None:
            print('replay: the platforms agree')
            return 0
        print(d[1])
        print('digests %s' % ('equal to the recorded ones' if [o.get('digest') for o in outs] == rp['digests']
                              else 'differ from the recorded ones'))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    build.ensure_schemas(rp['platform'])
    e = {'scenario': rp['scenario'], 'platform': rp['platform']}
    r = fresh_run(e, rp['prelude'] + [rp['item']], keep=True)
    for line in r.get('lines', []):
        print('  ' + line)
    v = r.get('violation')
    if v is None:
        print('replay: no violation')
        return 0
    print('%s: %s' % tuple(v))
    if rp.get('digest'):
        print('event log digest %s (%s)' % (r.get('digest'), 'same as recorded' if r.get('digest') == rp['digest']
                                            else 'recorded: %s' % rp['digest']))
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1
