"""Running the obligations of one property and reporting."""
import json
import multiprocessing as mp
import os
import signal
import sys
import threading
import time
import traceback

import build

VERIF = build.VERIF
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


BUDGET_END = time.time() + float(os.environ.get('VERIF_BUDGET', '480' if TIER == 'quick' else '3000'))


class Refuted(Exception):
    """the obligation is false: a witness (of any precision) exists"""

    def __init__(self, msg, witness=None, pc=None):
        Exception.__init__(self, msg)
        self.pc = pc
        self.msg = msg
        self.witness = witness
        self.pair = None          # the two terms that differ, and where
        self.sizes = None         # see hashth.soft


class NotProved(Exception):
    """neither proved nor refuted"""


def bigstack(fn, *a):
    """run fn in a thread with a large stack; returns its value or raises"""
    box = {}

    def go():
        try:
            box['r'] = fn(*a)
        except BaseException as e:
            box['e'] = e
            box['tb'] = traceback.format_exc()
    sys.setrecursionlimit(10 ** 6)
    threading.stack_size(1 << 29)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    if 'e' in box:
        e = box['e']
        e.tbtext = box['tb']
        raise e
    return box.get('r')


def _child(conn, fn, args, memlimit):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (memlimit, memlimit))
    import execu
    import prover
    import irparse
    t0 = time.time()
    res = {'status': 'error', 'msg': '', 'obligations': 0}
    tot = {'ob': 0, 'fn': set(), 'loops': []}
    old = execu.Exec.__init__
    exs = []

    def init(self, *a, **k):
        old(self, *a, **k)
        exs.append(self)
    execu.Exec.__init__ = init
    try:
        r = bigstack(fn, *args)
        res['status'] = 'proved'
        if isinstance(r, dict):
            res.update(r)
        elif isinstance(r, int):
            res['obligations'] = r
    except Refuted as e:
        res.update(status='refuted', msg=e.msg, witness=e.witness)
        if e.sizes is not None:
            res['sizes'] = e.sizes
        if e.witness is None:
            # raised by the mere existence of a path: the path has to be feasible
            try:
                bad = [e.pc] if e.pc is not None else [y.cur.pc for y in exs[-1:] if getattr(y, 'cur', None) is not None]
                if bad and bigstack(prover.feasible, bad[0]) is False:
                    res.update(status='undecided', msg='only on a path that cannot be taken: ' + e.msg)
            except BaseException as e2:
                res['msg'] += ' (feasibility not examined: %s)' % repr(e2)[:100]
    except execu.Violation as e:
        w = None
        try:
            if e.cond is not None:
                ce = bigstack(prover.counterexample, e.cond, e.pc)
                if ce:
                    import terms
                    w = {terms.show(k, 2): v for k, v in list(ce.items())[:40]}
        except BaseException:
            pass
        res.update(status='refuted', msg=str(e), witness=w)
    except (NotProved, execu.Undecided, irparse.Unsupported) as e:
        res.update(status='undecided', msg='%s: %s' % (type(e).__name__, str(e)[:600]))
        if os.environ.get('VERIF_DEBUG'):
            res['tb'] = getattr(e, 'tbtext', '')[-1500:]
    except MemoryError:
        res.update(status='undecided', msg='memory limit')
    except BaseException as e:
        res.update(status='undecided', msg='internal: %r' % e, tb=getattr(e, 'tbtext', traceback.format_exc())[-2500:])
    for ex in exs:
        res['obligations'] += ex.oblig
        tot['fn'] |= ex.used_funcs
        tot['loops'] += [str(x)[:200] for x in ex.loopinfo]
    res['functions'] = sorted(tot['fn'])
    res['loops'] = tot['loops'][:12]
    res['nloops'] = len(tot['loops'])
    res['z3'] = prover.stats['z3']
    res['z3_time'] = round(prover.stats['z3_time'], 3)
    res['time'] = round(time.time() - t0, 3)
    try:
        conn.send(res)
    except Exception as e:
        res['witness'] = repr(res.get('witness'))[:500]
        conn.send(res)
    conn.close()
    os._exit(0)


def isolated(fn, chk, *args):
    """a concrete run of the real code in a process of its own: a crash or an endless loop there is a failing input, not the end of the check"""
    import resource
    build.scratch()
    sys.stdout.flush()
    a, b = mp.get_context('fork').Pipe(False)
    err = os.path.join(build.scratch(), 'stderr_%d' % len(os.listdir(build.scratch())))

    def go():
        lim = 150 if TIER == "quick" else 600
        resource.setrlimit(resource.RLIMIT_CPU, (lim, lim))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.dup2(os.open(err, os.O_WRONLY | os.O_CREAT), 2)
        try:
            r = ('ok', bigstack(fn, chk, *args))
        except BaseException as e:
            r = ('exc', repr(e)[:500])
        b.send(r)
        b.close()
        os._exit(0)
    p = mp.get_context('fork').Process(target=go)
    p.start()
    b.close()
    try:
        r = a.recv()
    except EOFError:
        r = None
    p.join()
    if r is None:
        sig = -p.exitcode if p.exitcode is not None and p.exitcode < 0 else p.exitcode
        why = 'does not finish' if sig == signal.SIGXCPU else 'ends the process (signal %s)' % sig
        msg = open(err, errors='replace').read()[-600:] if os.path.exists(err) else ''
        if sig == signal.SIGKILL:
            raise Exception('killed')
        return 1, [{'what': 'the real code ' + why + ' during the concrete cases', 'seed': SEED, 'stderr': msg}], fn.__name__ + ' (did not complete)'
    if r[0] == 'exc':
        raise Exception(r[1])
    return r[1]


def pool(jobs, njobs=8, memlimit=6 << 30):
    """jobs: list of (key, fn, args, timeout) -> {key: result}"""
    ctx = mp.get_context('fork')
    todo = list(reversed(jobs))
    run = {}
    out = {}
    end = BUDGET_END
    while todo or run:
        if time.time() > end:
            for key, fn, args, tmo in todo:
                out[key] = {'status': 'undecided', 'msg': 'time budget of the check used up', 'obligations': 0}
            todo = []
            for key in run:
                p, a, dl, tmo = run[key]
                run[key] = (p, a, min(dl, end), tmo)
        while todo and len(run) < njobs:
            key, fn, args, tmo = todo.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, fn, args, memlimit))
            p.start()
            b.close()
            run[key] = (p, a, time.time() + tmo, tmo)
        for key in list(run):
            p, a, dl, tmo = run[key]
            if a.poll(0):
                try:
                    out[key] = a.recv()
                except EOFError:
                    out[key] = {'status': 'undecided', 'msg': 'verifier process died', 'obligations': 0}
                p.join()
                del run[key]
                if out[key]['status'] == 'refuted':
                    # the alarm is certain: do not wait long for the rest
                    end = min(end, time.time() + 60)
            elif not p.is_alive() and not a.poll(0.2):
                out[key] = {'status': 'undecided', 'msg': 'verifier process died', 'obligations': 0}
                del run[key]
            elif time.time() > dl:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    p.kill()
                p.join()
                out[key] = {'status': 'undecided', 'msg': 'time limit %ds' % tmo, 'obligations': 0}
                del run[key]
        time.sleep(0.01)
    return out


class Check:
    def __init__(self, pid, backends='irvc term normaliser + z3', assumptions=(), trusted=()):
        self.pid = pid
        self.t0 = time.time()
        self.jobs = []
        self.results = {}
        self.assumptions = list(assumptions)
        self.trusted = list(trusted)
        self.diffs = []
        self.backends = backends
        self.extra = {}
        self.fidelity = []
        self.bounded = []
        self.replay = None
        self.selftest = None
        self.deep = []
        self.names = set()

    def ob(self, name, fn, *args, timeout=240):
        assert name not in self.names, name
        self.names.add(name)
        self.jobs.append((name, fn, args, timeout))

    def differential(self, name, fn, *args):
        """fn(chk) -> (number of cases, list of failures(dict), description)"""
        self.diffs.append((name, fn, args))

    def fail_early(self, name, msg):
        self.names.add(name)
        self.results[name] = {'status': 'undecided', 'msg': msg, 'obligations': 0}

    def run(self, njobs=8):
        if self.jobs:
            if self.selftest is None:
                import fidelity
                self.jobs.insert(0, ('engine self test', fidelity.short, (), 200))
            r = pool(self.jobs, njobs)
            s = r.pop('engine self test', None)
            if s is not None:
                self.selftest = s.get('self_test') or {'not run': s['msg'][:500] + s.get('tb', '')[-1500:]}
            self.results.update(r)
            self.jobs = []

    def finish(self):
        self.run()
        import forms
        if self.pid in forms.FORMS:
            self.diffs.append(('public forms', forms.check, (self.pid,)))
        if self.selftest and 'Failed' in self.selftest.get('not run', ''):
            print('%s: the engine failed its self test, no verdict: %s' % (self.pid, self.selftest['not run']))
            return 3
        R = self.results
        viol = []
        dn = 0
        samples = []
        for name, fn, args in self.diffs:
            try:
                n, fails, desc = isolated(fn, self, *args)
            except Exception as e:
                self.bounded.append('%s: not run: %s' % (name, repr(e)[:300]))
                continue
            dn += n
            samples.append('%s: %s, %d cases' % (name, desc, n))
            for f in fails[:3]:
                viol.append(('differential ' + name, f))
        # sizes beyond any ordinary differential: where an obligation did not go through, and in the thorough tier
        if self.deep and not viol and (TIER == 'thorough' or any(v['status'] != 'proved' for v in R.values())):
            for fn in self.deep:
                try:
                    n, fails, desc = isolated(fn, self)
                except Exception as e:
                    self.bounded.append('large inputs: not run: %s' % repr(e)[:300])
                    continue
                dn += n
                samples.append('large inputs: %s, %d cases' % (desc, n))
                for f in fails[:3]:
                    viol.append(('large inputs', f))
        # an object state that differs from that of the reference history is a violation only if something observable differs:
        # the counterexample's history is replayed on the real code, with continuations
        soft = {k: v for k, v in R.items() if v['status'] == 'refuted' and v.get('sizes')}
        if soft and self.replay and not viol and all(v.get('sizes') for v in R.values() if v['status'] == 'refuted'):
            try:
                n, fails, desc = isolated(self.replay, self, [(k, v['sizes']) for k, v in sorted(soft.items())])
                dn += n
                samples.append('replay of counterexamples: %s, %d cases' % (desc, n))
                for f in fails[:3]:
                    viol.append(('replay of a counterexample', f))
                if not fails:
                    for v in soft.values():
                        v['status'] = 'undecided'
                        v['msg'] = 'the object state differs, but not what the counterexample histories %s return: %s' % (v['sizes'], v['msg'])
            except Exception as e:
                self.bounded.append('replay of counterexamples: not run: %s' % repr(e)[:300])
        refuted = {k: v for k, v in R.items() if v['status'] == 'refuted'}
        undec = {k: v for k, v in R.items() if v['status'] == 'undecided'}
        proved = {k: v for k, v in R.items() if v['status'] == 'proved'}
        code = 0
        rep = None
        if viol or refuted:
            code = 1
            d = os.path.join(os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence'), 'replay')
            os.makedirs(d, exist_ok=True)
            rep = os.path.join(d, self.pid + '.json')
            json.dump({'property': self.pid, 'seed': SEED,
                       'failed_obligations': {k: {'message': v['msg'], 'witness': v.get('witness')} for k, v in refuted.items()},
                       'undecided': {k: v['msg'] for k, v in undec.items()},
                       'failing_inputs': [{'by': a, 'input': b} for a, b in viol]}, open(rep, 'w'), indent=1, default=str)
        nob = sum(max(1, v['obligations']) for v in R.values())
        ndis = sum(max(1, v['obligations']) for v in proved.values())
        ev = {
            'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': 'proof',
            'coverage': {
                'obligations': nob, 'discharged': ndis,
                'checker_cmd': 'python3-vt checks/run.py ' + self.pid,
                'trusted_base': self.trusted,
                'contracts': len(R),
                'contracts_proved': len(proved),
                'contracts_refuted': {k: v['msg'][:300] for k, v in refuted.items()},
                'contracts_undecided_bounded_only': {k: (v['msg'] + v.get('tb', ''))[:1500] for k, v in undec.items()},
                'functions_under_contract': sorted(set(f for v in R.values() for f in v.get('functions', ()))),
                'back_end': self.backends,
                'solver_queries': sum(v.get('z3', 0) for v in R.values()),
                'solver_time_s': round(sum(v.get('z3_time', 0) for v in R.values()), 2),
                'verifier_time_s': round(sum(v.get('time', 0) for v in R.values()), 2),
                'loops_with_inferred_invariants': sum(v.get('nloops', 0) for v in R.values()),
                'per_contract': {k: {'status': v['status'], 'obligations': v['obligations'], 'time_s': v.get('time')} for k, v in sorted(R.items())},
                'evaluations': dn, 'bounded_parts': self.bounded + samples,
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(viol) + len(refuted),
        }
        ev['coverage'].update(self.extra)
        ev['coverage']['engine_self_test'] = self.selftest
        os.makedirs(os.path.join(os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')), exist_ok=True)
        json.dump(ev, open(os.path.join(os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence'), self.pid + '.json'), 'w'), indent=1, default=str)
        print('%s: %d contracts, %d proved, %d refuted, %d undecided; %d obligations, %d discharged; %d concrete cases; %.1fs' % (
            self.pid, len(R), len(proved), len(refuted), len(undec), nob, ndis, dn, time.time() - self.t0))
        for k, v in sorted(undec.items()):
            print('  undecided (bounded only): %s: %s' % (k, v['msg'][:200].replace('\n', ' ')))
        for k, v in sorted(refuted.items()):
            print('  FAILED OBLIGATION %s: %s' % (k, v['msg'][:300].replace('\n', ' ')))
        for a, b in viol[:4]:
            print('  FAILING INPUT (%s): %s' % (a, str(b)[:400]))
        if code:
            print('VIOLATION property=%s replay=%s%s' % (self.pid, rep, '' if viol else ' no-failing-input-found'))
        elif not R or nob == 0:
            print('  note: no obligations were generated')
        sys.stdout.flush()
        return code
