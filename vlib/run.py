"""Driver of one property's check: the prover (thvc) decides; the bounded companion replays its counterexamples
on the real code and stands in, labelled bounded, for what is outside the prover's reach."""
import os, sys, json, time, random, traceback, shutil, signal, glob
import multiprocessing as mp
from . import build, bounded as B
VERIF = build.VERIF
NUM = ['C%02d' % i for i in range(1, 11)]
LIBFN = dict(C11=['c11_case'], C12=['c12_case'], C13=['c13_case'], C14=['c14_case', 'c14_case', 'c14_over_symb'], C15=['c15_case'], C16=[], C17=['c17_case'], C18=['c18_case'])
# number of bounded cases (library, generated class) in the quick and the thorough tier
COUNT = dict(quick=dict(lib=400, gen=16), thorough=dict(lib=4000, gen=400))
BUDGET = dict(quick=dict(lib=25, gen=40), thorough=dict(lib=300, gen=400))

def plan(pid, tier, seed):
    c = COUNT[tier]; base = seed * 1000003
    jobs = []
    if pid in NUM:
        jobs = [('numeric_case', base + k) for k in range(c['lib'])]
        if pid in ('C01', 'C02'): jobs[3:3] = [('chain_case', base + k) for k in range(max(2, c['lib'] // 24))]
        if pid == 'C01': jobs[5:5] = [('badtype_case', base + k) for k in range(6)]
        return jobs, []
    for k in range(c['lib']):
        for f in LIBFN[pid][:1]: jobs.append((f, base + k))
    for f in LIBFN[pid][1:]: jobs += [(f, base + 7 + k) for k in range(c['lib'] // 3)]
    if pid == 'C14': jobs = [j for j in jobs if j[0] == 'c14_case'][:c['lib']] + [('c14_over_symb', base + k) for k in range(c['lib'] // 8)]
    if pid in ('C11', 'C17'): jobs[4:4] = [('genyaml_case', base + k) for k in range(max(4, c['lib'] // 40))]
    ng = c['gen'] * (2 if pid == 'C16' else 1)
    return jobs, [('gen_case', base + k) for k in range(ng)]

def run_case(job):
    """-> (job, kind, info): kind ok | bad | error"""
    pid, fn, seed, over = job
    t0 = time.time()
    try:
        f = getattr(B, fn)
        r = f(pid, seed, over) if over else f(pid, seed)
        return job, 'ok', r, time.time() - t0
    except B.Bad as e:
        return job, 'bad', dict(what=e.what, **{k: _js(v) for k, v in e.kw.items()}), time.time() - t0
    except build.Dead as e:
        return job, 'bad', dict(what=e.what, stderr=e.proc.stderr()[-1500:], commands=e.proc.log[-12:]), time.time() - t0
    except build.BuildError as e:
        return job, 'error', str(e)[:1500], time.time() - t0
    except Exception:
        for p in list(B._P.values()):
            if p.last.startswith('EXC'):
                w = dict(what='the code throws on a valid call: %s -> %s' % (p.log[-1][:300], p.last[:300]), commands=[c[:400] for c in p.log[-12:]])
                return job, 'bad', w, time.time() - t0
        return job, 'error', traceback.format_exc()[-1500:], time.time() - t0

def _js(v):
    try: json.dumps(v); return v
    except TypeError: return v.tolist() if hasattr(v, 'tolist') else repr(v)

class Bounded:
    """runs cases on a pool of worker processes until the list is done or the budget is over"""
    def __init__(self, pid): self.pid = pid; self.ran = 0; self.nontriv = 0; self.samples = []; self.errors = []; self.bad = None; self.byfn = {}
    def run(self, jobs, budget, over=None, nproc=None):
        if not jobs: return
        end = time.time() + budget; unconfirmed = 0
        pool = mp.Pool(nproc or B.NPROC)
        try:
            it = pool.imap_unordered(run_case, [(self.pid, f, s, over) for f, s in jobs])
            for _ in jobs:
                left = end - time.time()
                if left <= 0: break
                try: job, kind, info, dt = it.next(timeout=left)
                except mp.TimeoutError: break
                self.ran += 1; self.byfn[job[1]] = self.byfn.get(job[1], 0) + 1
                if kind == 'ok':
                    if info.get('nontrivial'): self.nontriv += 1
                    if len(self.samples) < 4: self.samples.append(dict(case=job[1], seed=job[2], **{k: v for k, v in info.items() if k != 'nontrivial'}))
                elif kind == 'error': self.errors.append(dict(case=job[1], seed=job[2], error=info))
                else:
                    # once more, in a process of its own, before it is believed (a case that fails only
                    # after the ones its worker ran before is noted, and the search goes on: the cases
                    # with a history of their own show the same thing by themselves)
                    if unconfirmed >= 12: continue
                    with mp.Pool(1) as p1: j2, k2, i2, _ = p1.apply(run_case, (job,))
                    if k2 == 'bad': self.bad = dict(case=job[1], seed=job[2], over=job[3], **i2); return
                    unconfirmed += 1
                    self.errors.append(dict(case=job[1], seed=job[2], error='not reproduced: %s' % info))
        finally:
            pool.terminate(); pool.join()

def replay_file(pid, d):
    rd = os.path.join(VERIF, 'evidence', 'replays'); os.makedirs(rd, exist_ok=True)
    f = os.path.join(rd, '%s_%s.json' % (pid, time.strftime('%H%M%S')))
    d = dict(property=pid, how='python3-vt /verif/check.py --replay %s' % f, **d)
    json.dump(d, open(f, 'w'), indent=1, default=str); return f

def main(argv):
    if argv and argv[0] == '--replay':
        d = json.load(open(argv[1])); j = (d['property'], d['case'], d['seed'], d.get('over'))
        print(json.dumps(run_case(j)[1:3], indent=1, default=str)); return 0
    pid = argv[0]; tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1')); t0 = time.time()
    if tier not in BUDGET: tier = 'quick'
    build.build_lib()
    from thvc import prove
    ctx = mp.get_context('fork'); rq, wq = ctx.Pipe(False)
    pr = ctx.Process(target=_prove, args=(wq, pid, tier)); pr.start(); wq.close()
    jobs, gjobs = plan(pid, tier, seed)
    b = Bounded(pid)
    if gjobs: build.build_cli()
    np_ = max(2, B.NPROC - 1)
    b.run(jobs, BUDGET[tier]['lib'], nproc=np_)
    if not b.bad: b.run(gjobs, BUDGET[tier]['gen'], nproc=np_)
    limit = t0 + (310 if tier == 'quick' else 800)
    A = dict(obligations=[], undecided=['prover: no answer in time'], functions=[], assumptions=[], solver={})
    try:
        if rq.poll(max(1, limit - time.time())): A = rq.recv()
    except EOFError: A['undecided'] = ['prover ended without an answer']
    pr.terminate(); pr.join()
    refuted = [o for o in A['obligations'] if o['status'] == 'refuted']
    if refuted and not b.bad:      # directed: the inputs of the refutation, then a deeper search
        for o in refuted[:6]:
            for fn, over in o.get('replay', []):
                b.run([(fn, seed * 77003 + k) for k in range(24)], 12, over=over)
                if b.bad: break
            if b.bad: break
        if not b.bad: b.run([(f, s + 500000) for f, s in jobs], 40)
        if not b.bad and gjobs: b.run([(f, s + 500000) for f, s in gjobs], 60)
    n = len(A['obligations']); dis = sum(o['status'] == 'discharged' for o in A['obligations'])
    cov = dict(obligations=n, discharged=dis, checker_cmd='python3-vt /verif/check.py %s %s' % (pid, tier),
               trusted_base=prove.TRUSTED_BASE, functions_under_contract=A['functions'], backends=A['solver'],
               undischarged=[dict(name=o['name'], status=o['status'], why=o.get('why', '')[:400]) for o in A['obligations'] if o['status'] != 'discharged'],
               outside_reach=A['undecided'],
               evaluations=b.ran, distinct_nontrivial=b.nontriv,
               rule='bounded companion (never counted as proof): one case = one random robot/file/history run on the real code and compared with an independent reference; non-trivial when the compared quantity is not identically zero / the pattern is not empty',
               bounded_cases=b.byfn, samples=b.samples, bounded_errors=b.errors[:5])
    ev = dict(property=pid, tier=tier, seed=seed, level=prove.LEVEL[pid], coverage=cov, assumptions=A['assumptions'], wall_s=0., violations=0)
    rc = 0
    if b.bad:
        d = dict(b.bad); d['failed_obligations'] = refuted or [o for o in A['obligations'] if o['status'] != 'discharged']
        f = replay_file(pid, d); ev['violations'] = 1; rc = 1
        for o in refuted[:5]: print('failed obligation: %s: %s' % (o['name'], o.get('why', '')[:300]))
        print('counterexample on the real code: %s' % b.bad['what'][:600])
        print('VIOLATION property=%s replay=%s' % (pid, f))
    elif refuted and not all(o.get('real_code_agrees') for o in refuted) and prove.report_unreplayed(refuted):
        f = replay_file(pid, dict(case=None, failed_obligations=refuted)); ev['violations'] = 1; rc = 1
        for o in refuted[:5]: print('failed obligation: %s: %s' % (o['name'], o.get('why', '')[:300]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, f))
    else:
        print('%s: %d/%d obligations discharged over %d functions; %d bounded cases, %d errors' % (pid, dis, n, len(A['functions']), b.ran, len(b.errors)))
        for u in A['undecided'][:8]: print('  outside reach: %s' % u)
        for o in A['obligations']:
            if o['status'] != 'discharged': print('  not discharged: %s (%s)' % (o['name'], o.get('why', '')[:200]))
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open(VERIF + '/evidence/%s.json' % pid, 'w'), indent=1, default=str)
    for d in glob.glob(build.CACHE + '/scratch/w_*'):
        p = d.split('_')[-1]
        if p.isdigit() and not os.path.exists('/proc/' + p): shutil.rmtree(d, ignore_errors=True)
    build.prune()
    return rc

def _prove(conn, pid, tier):
    from thvc import prove
    try: r = prove.run(pid, tier)
    except Exception: r = dict(obligations=[], undecided=['prover error: ' + traceback.format_exc()[-800:]], functions=[], assumptions=[], solver={})
    conn.send(r); conn.close()
