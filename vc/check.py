#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY: decide one property of Ieme from /repo's current source.

Every public entry point of the property is compiled (clang -O0 LLVM IR) from the current headers and verified against its
contract; every contracted function it calls is verified against its own contract, callers against contracts only."""
import json
import mmap
import os
import pickle
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import driver
import engine
import ir
import search
import targets as TG
from contracts import Registry

VERIF = os.path.dirname(HERE)
NPROC = min(8, os.cpu_count() or 1)


class Pool:
    """forked workers; results come back pickled over a pipe"""

    def __init__(self, n=NPROC):
        self.n = n
        self.run = {}
        self.queue = []

    def add(self, tag, fn, limit, front=False):
        (self.queue.insert(0, (tag, fn, limit)) if front else self.queue.append((tag, fn, limit)))

    def start(self):
        while self.queue and len(self.run) < self.n:
            tag, fn, limit = self.queue.pop(0)
            mm = mmap.mmap(-1, 8192)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    out = fn(mm)
                    data = pickle.dumps(out)
                except BaseException:
                    data = pickle.dumps(dict(crash=traceback.format_exc()))
                try:
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                finally:
                    os._exit(0)
            os.close(w)
            self.run[r] = [pid, tag, b'', time.time() + limit, mm]

    def step(self):
        """-> list of (tag, result, status, mmap)"""
        self.start()
        if not self.run:
            return []
        rd, _, _ = select.select(list(self.run), [], [], 0.2)
        out = []
        for r in list(self.run):
            pid, tag, buf, end, mm = self.run[r]
            if r in rd:
                b = os.read(r, 1 << 20)
                if b:
                    self.run[r][2] = buf + b
                    continue
                os.close(r)
                _, st = os.waitpid(pid, 0)
                del self.run[r]
                try:
                    out.append((tag, pickle.loads(buf), 0, mm))
                except Exception:
                    out.append((tag, None, os.WTERMSIG(st) if os.WIFSIGNALED(st) else -1, mm))
            elif time.time() > end:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del self.run[r]
                out.append((tag, None, 'timeout', mm))
        return out

    def busy(self):
        return bool(self.run or self.queue)

    def stop(self):
        self.queue = []
        for r, e in list(self.run.items()):
            os.kill(e[0], signal.SIGKILL)
            os.waitpid(e[0], 0)
            os.close(r)
        self.run = {}


def mm_input(mm):
    mm.seek(0)
    n = int.from_bytes(mm.read(4), 'little')
    if not n:
        return None
    import ast
    return ast.literal_eval(mm.read(n).decode())


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.reg = Registry()
        self.units = {}       # key -> result
        self.jobs = {}        # key -> job
        self.deps_disabled = set()
        self.failed = {}      # target name -> list of failed obligations
        self.found = None
        self.searches = 0
        self.tried = 0
        self.admissible = 0
        self.samples = []
        self.errors = []
        self.uncompiled = []

    def elapsed(self):
        return time.time() - self.t0

    def left(self, total):
        return total - (time.time() - self.t0)

    def compile(self):
        ts = TG.TARGETS[self.prop](self.tier)
        names = [t.name for t in ts]
        assert len(names) == len(set(names)), [n for n in names if names.count(n) > 1][:3]
        try:
            self.ll = driver.compile_ir(ts, self.d)
        except driver.CompileError as e:
            # find the entry points that no longer compile
            errs = driver.compile_errors(ts, self.d)
            self.uncompiled = [(t, errs[t.name]) for t in ts if t.name in errs]
            ts = [t for t in ts if t.name not in errs]
            if not ts:
                return
            self.ll = driver.compile_ir(ts, self.d)
        self.targets = {t.name: t for t in ts}
        txt = open(self.ll).read()
        self.mod = ir.Module(txt)
        self.dem = driver.demangle(list(self.mod.funcs) + list(self.mod.decls))
        self.consts = search.mine(txt)

    # ---- scheduling
    def vjob(self, key, again=False):
        job = self.jobs[key]
        dis = set(self.reg.disabled)
        scale = self.scale

        def fn(mm):
            # a fresh z3 context per worker: the library was imported but never used in the parent
            verify = engine.verify_again if again else engine.verify
            r = verify(self.mod, self.dem, self.reg, job, budget=20.0 * scale, total=(90.0 if job[0] == 'target' else 45.0) * scale)
            r['disabled'] = dis
            return r
        self.pool.add(('v', key), fn, (240 if job[0] == 'target' else 150) * scale * (3 if again else 1))

    def sjob(self, t, seconds, seed, models, kind='search', maxn=None):
        def fn(mm):
            return search.search(self.so, t, mm, seconds, seed, self.consts, models, maxn)
        self.pool.add((kind, t.name, seed), fn, seconds + 60, front=kind == 'search')

    def bad_obs(self, r):
        out = [o for o in r['obs'] if not o['ok']]
        if r.get('error'):
            out.append(dict(name='%s: within the reach of the verifier (%s)' % (r['title'], r['error']), kind='reach', label='reach', ok=False,
                            time=0, tb=r.get('tb')))
        return out

    def on_result(self, key, r):
        if key not in self.jobs:
            return
        self.units[key] = r
        stale = any(k in self.reg.disabled for k, fn in r['callees'])
        if stale:
            del self.units[key]
            self.vjob(key)
            return
        for k, fname in r['callees']:
            if k not in self.jobs:
                ct = self.reg.find(fname, self.dem[fname])
                self.jobs[k] = ('fn', fname, ct)
                self.vjob(k)
        bad = self.bad_obs(r)
        if key[0] == 'target':
            self.failed.pop(key[1], None)
            if bad:
                self.failed[key[1]] = bad
                t = self.targets[key[1]]
                if self.searches < 40 and self.found is None:
                    self.searches += 1
                    for k in range(2):
                        self.sjob(t, 15, self.seed * 1000 + k, r.get('models', []))
        elif bad:
            # the contract is not established: inline the function in its callers instead
            if key not in self.reg.disabled:
                self.reg.disabled.add(key)
                self.internal_failed[key] = bad
                for k2, r2 in list(self.units.items()):
                    if any(k == key for k, fn in r2['callees']):
                        del self.units[k2]
                        if k2[0] == 'target' and k2[1] in self.failed:
                            del self.failed[k2[1]]
                        self.vjob(k2)

    def confirm(self, t, vals):
        pool = Pool(1)
        pool.add('r', lambda mm: search.replay(self.so, t, vals, mm), 30)
        while True:
            o = pool.step()
            if o:
                tag, res, st, mm = o[0]
                break
        if res is None:
            why = {14: 'does not terminate', 4: 'undefined behaviour (UBSan trap)', 5: 'undefined behaviour (UBSan trap)', 8: 'arithmetic trap (SIGFPE)',
                   11: 'memory fault', 6: 'abort'}.get(st, 'killed: %s' % st)
            return dict(input=vals, clause=why, output=None)
        if 'crash' in res:
            return None
        if res['clause'] and res['pre']:
            return dict(input=vals, clause=res['clause'], output=res['output'])
        return None

    def handle(self, o):
        tag, res, st, mm = o
        if tag[0] == 'v':
            key = tag[1]
            job = self.jobs[key]
            if res is None or 'crash' in res:
                res = dict(title=job[1].title if job[0] == 'target' else job[2].title, obs=[], callees=[], inlined=[], trusted=[], key=key,
                           error='verifier: %s' % (st if res is None else res['crash'][-400:]), models=[], time=0, rets=0)
            self.on_result(key, res)
        else:
            t = self.targets[tag[1]]
            f = None
            if res is None:
                v = mm_input(mm)
                if v is not None and st != 'timeout':
                    f = self.confirm(t, v)
            elif 'crash' in res:
                self.errors.append(res['crash'][-600:])
            else:
                self.tried += res['tried']
                self.admissible += res['admissible']
                if res.get('samples') and len(self.samples) < 12:
                    self.samples += [dict(target=t.title, input=v, output=w) for v, w in res['samples'][:1]]
                if tag[0] == 'conf':
                    self.witness[t.name] = res['admissible']
                if res['found']:
                    f = self.confirm(t, res['found']['input']) or None
            if f and self.found is None:
                self.found = (t, f)

    def run(self):
        self.d = tempfile.mkdtemp(prefix='ieme-verif-')
        try:
            return self.run2()
        finally:
            shutil.rmtree(self.d, ignore_errors=True)

    def loop(self, until):
        while self.pool.busy() and self.left(until) > 0 and self.found is None:
            for o in self.pool.step():
                self.handle(o)
        return not self.pool.busy()

    def run2(self):
        thorough = self.tier == 'thorough'
        self.scale = 2.0 if thorough else 1.0
        self.internal_failed = {}
        self.witness = {}
        self.targets = {}
        self.compile()
        self.pool = Pool()
        complete = True
        if self.targets:
            self.so = driver.compile_so(list(self.targets.values()), self.d)
            # concrete conformance: witnesses for the preconditions, and agreement of the machine code with the contracts; an
            # entry point that disagrees is verified first, so that its failed obligation is reported at once
            for t in self.targets.values():
                self.sjob(t, 2 if not thorough else 20, self.seed, [], 'conf', 400 if not thorough else 20000)
            self.loop(300 if not thorough else 3000)
            if self.found is not None:
                self.pool.stop()
                hit, self.found = self.found, None
                t = hit[0]
                self.searches = 1000
                self.jobs[t.key] = ('target', t)
                self.vjob(t.key)
                self.loop(self.elapsed() + 90)
                self.pool.stop()
                self.found = hit
                return self.report(False)
            for t in self.targets.values():
                self.jobs[t.key] = ('target', t)
                self.vjob(t.key)
            complete = self.loop(480 if not thorough else 5400)
            # a second chance for obligations that only ran out of time
            if self.found is None and self.failed and not self.uncompiled:
                for n in list(self.failed)[:48]:
                    key = ('target', n)
                    self.units.pop(key, None)
                    self.vjob(key, again=True)
                ok = self.loop(720 if not thorough else 12000)
                complete = complete and ok
            self.pool.stop()
        return self.report(complete)

    def cycle(self):
        """a cycle among contracted functions (other than a measured self call) would make the argument circular"""
        g = {k: set(c for c, fn in r['callees'] if c in self.units and c != k) for k, r in self.units.items()}
        state = {}

        def visit(k):
            state[k] = 1
            for c in g[k]:
                if state.get(c) == 1 or (c not in state and visit(c)):
                    return True
            state[k] = 2
            return False
        return any(k not in state and visit(k) for k in g)

    def report(self, complete):
        prop = self.prop
        unfinished = [k for k in self.jobs if k not in self.units]
        live = {k: r for k, r in self.units.items() if k[0] == 'target' or k not in self.reg.disabled}
        obs = [o for r in live.values() for o in r['obs']]
        bad = []
        for n, b in self.failed.items():
            bad += b
        for t, e in self.uncompiled:
            bad.append(dict(name='%s: entry point compiles against the current headers' % t.title, kind='compile', label=e[-800:], ok=False, time=0))
        if self.found is None and unfinished:
            for k in unfinished:
                bad.append(dict(name='%s: verification completed' % (k,), kind='time', label='deadline', ok=False, time=0))
        if self.targets and self.found is None and self.cycle():
            bad.append(dict(name='call graph of the contracted functions is acyclic', kind='termination', label='cycle', ok=False, time=0))
        if self.found is None and not bad:
            for n, a in self.witness.items():
                if not a:
                    bad.append(dict(name='%s: precondition has a concrete witness' % self.targets[n].title, kind='vacuity', label='witness', ok=False,
                                    time=0))
        by = {}
        for o in obs:
            if o['ok']:
                by[o['by']] = by.get(o['by'], 0) + 1
        kinds = {}
        for o in obs:
            kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
        trusted = sorted(set(x for r in live.values() for x in r['trusted']))
        viol = bool(self.found or bad)
        cov = dict(
            obligations=len(obs) + sum(1 for b in bad if b['kind'] in ('reach', 'compile', 'time', 'termination', 'vacuity')),
            discharged=sum(1 for o in obs if o['ok']),
            obligations_by_kind=kinds, discharged_by_backend=by,
            solver_time_s=round(sum(o['time'] for o in obs), 2),
            slowest_obligation_s=max([o['time'] for o in obs] or [0]),
            entry_points_under_contract=len(self.targets),
            internal_functions_under_contract=sorted(r['title'] for k, r in live.items() if k[0] != 'target'),
            functions_verified_inline=sorted(set(x for r in live.values() for x in r['inlined'] if 't_' not in x[:2]))[:300],
            contracts_not_established_inlined_instead={str(k): [b['name'] for b in v][:3] for k, v in self.internal_failed.items()},
            checker_cmd='python3-vt vc/check.py %s %s' % (prop, self.tier),
            trusted_base=TG.TRUST + ['assumed contract: ' + x for x in trusted] + TG.TRUST_BY_PROPERTY.get(prop, []),
            entry_points=sorted(t.title for t in self.targets.values())[:400],
            concrete_conformance=dict(inputs_tried=self.tried, admissible=self.admissible,
                                      note='native runs of the same entry points against the same contracts; not counted as proof'),
            samples=self.samples,
        )
        if self.errors:
            cov['search_errors'] = self.errors[:3]
        level = TG.LEVEL.get(prop, 'proof')
        ev = dict(property=prop, tier=self.tier, seed=self.seed, level=level, coverage=cov, assumptions=TG.ASSUMPTIONS +
                  TG.ASSUME_BY_PROPERTY.get(prop, []), wall_s=round(time.time() - self.t0, 2), violations=1 if viol else 0)
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        known = known_findings(prop)
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
        if viol:
            path = os.path.join(VERIF, 'evidence', 'replay', prop + '.json')
            rp = dict(property=prop, tier=self.tier, failed_obligations=bad[:50])
            if self.found:
                t, f = self.found
                rp.update(target=t.name, title=t.title, wrapper=driver.source([t]), scalars=[n for n, T in engine.flat(t.params)], **f)
            elif self.uncompiled:
                t, e = self.uncompiled[0]
                rp.update(target=t.name, title=t.title, program_that_does_not_compile=driver.source([t]), compiler=e)
            with open(path, 'w') as fh:
                json.dump(rp, fh, indent=1, default=str)
            for b in bad[:8]:
                print('FAILED OBLIGATION: %s' % b['name'])
            if len(bad) > 8:
                print('  ... and %d more' % (len(bad) - 8))
            if self.found:
                t, f = self.found
                print('failing input of %s: %s -> %s: %s' % (t.title, dict(zip(rp['scalars'], f['input'])), f['output'], f['clause']))
                print('VIOLATION property=%s replay=%s' % (prop, path))
            else:
                # where the property is about what the public interface offers, a program over it that stops compiling is the failing input
                concrete = self.uncompiled and prop in TG.INTERFACE
                print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if concrete else ' no-failing-input-found'))
            return 1
        print('%s holds: %d obligations discharged for %d entry points and %d contracted functions, %.1f s' % (
            prop, cov['discharged'], len(self.targets), len(cov['internal_functions_under_contract']), ev['wall_s']))
        return 0


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                out.append(l.split(' ', 2)[2])
    return out


if __name__ == '__main__':
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.exit(Check(prop, tier, seed).run())
