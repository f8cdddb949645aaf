"""Runs one check: proof tasks on all cores, concrete runs next to them,
verdict, evidence, replay file."""
import os, sys, time, json, signal, subprocess, tempfile, shutil, traceback, hashlib
import multiprocessing as mp
from . import ver
from .sym import Fail, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = ver.REPO
SOFT = {'unsupported'}

class Task:
    """a proof task: fn(env, *args) -> Rec"""
    def __init__(s, name, fn, args=(), limit=240):
        s.name = name; s.fn = fn; s.args = args; s.limit = limit

class Rec:
    """what one proof task did"""
    def __init__(s):
        s.recs = []       # (function, configuration, variant, proved, seconds, obligations, error)
        s.fails = []      # (kind, message)
        s.unsup = []      # (function, message)
        s.obl = {}
        s.stats = {}
        s.assumed = set()
        s.hints = []
        s.notes = []
        s.inlined = set()

    def take(s, ctx):
        """collect from a verification context"""
        for r in ctx.results:
            s.recs.append(r)
        for k, v in ctx.obl.items():
            s.obl[k] = s.obl.get(k, 0) + v
        for c in [ctx] + list(ctx.subs.values()):
            for k, v in c.solver.stats.items():
                s.stats[k] = s.stats.get(k, 0) + v
            s.assumed |= c.assumed
            s.inlined |= getattr(c, 'inlined', set())

    def guard(s, what, f, *a):
        """run f; turn exceptions into failures"""
        try:
            return f(*a)
        except Unsupported as e:
            s.unsup.append((what, str(e) + (' @ ' + e.where if e.where else '')))
        except Fail as e:
            (s.unsup if e.kind in SOFT else s.fails).append((what, str(e)) if e.kind in SOFT else (e.kind, '%s: %s%s' % (what, e, ' @ ' + e.where if e.where else '')))
        except (MemoryError, RecursionError, NotImplementedError, AssertionError, KeyError, IndexError, TypeError, ValueError, AttributeError) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            s.unsup.append((what, 'engine: %s %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)))
        return None

ENV = {}

def _work(t, q):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    r = Rec()
    t0 = time.time()
    ENV['deadline'] = t0 + t.limit
    try:
        x = r.guard(t.name, t.fn, ENV, r, *t.args)
    except BaseException as e:
        r.unsup.append((t.name, 'engine: %s' % (e,)))
    r.wall = time.time() - t0
    try:
        q.send(r.__dict__)
    except Exception as e:
        q.send({'recs': [], 'fails': [], 'unsup': [(t.name, 'result not transferable: %s' % e)], 'obl': {}, 'stats': {}, 'assumed': set(),
                'hints': [], 'notes': [], 'inlined': set(), 'wall': r.wall})
    q.close()

def run_tasks(tasks, jobs=8, total=600):
    """every task in a process of its own"""
    out = {}
    todo = list(tasks); run = []
    end = time.time() + total
    ctx = mp.get_context('fork')
    while todo or run:
        while todo and len(run) < jobs:
            t = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_work, args=(t, b), daemon=False)
            p.start(); b.close()
            run.append((t, p, a, time.time()))
        mp.connection.wait([x[2] for x in run], timeout=0.5)
        nxt = []
        for (t, p, a, t0) in run:
            if a.poll():
                r = Rec()
                try:
                    r.__dict__.update(a.recv())
                except EOFError:
                    r.unsup.append((t.name, 'proof task ended abnormally')); r.wall = time.time() - t0
                out[t.name] = r
                p.join(5)
                if p.is_alive():
                    p.kill()
                a.close()
            elif time.time() - t0 > t.limit + 30 or time.time() > end:
                p.kill(); p.join(); a.close()
                r = Rec(); r.wall = time.time() - t0
                r.unsup.append((t.name, 'time limit of this proof task reached'))
                out[t.name] = r
            else:
                nxt.append((t, p, a, t0))
        run = nxt
        if time.time() > end:
            for t in todo:
                r = Rec(); r.wall = 0; r.unsup.append((t.name, 'not started: time budget of the check used up')); out[t.name] = r
            todo = []
    return out

# ---------------------------------------------------------------- concrete runs

SRC = ['params.c', 'hash.c', 'fips202.c', 'hash_address.c', 'wots.c', 'xmss.c', 'xmss_commons.c', 'utils.c']

def sources(fast, randombytes=False):
    """the library's sources: also files a refactoring may have added"""
    s = [f for f in sorted(os.listdir(REPO)) if f.endswith('.c')]
    drop = {'xmss_core.c' if fast else 'xmss_core_fast.c'}
    if not randombytes:
        drop.add('randombytes.c')
    return [os.path.join(REPO, f) for f in s if f not in drop]

class Native:
    """builds and runs the harnesses in /verif/native against /repo"""
    def __init__(s, work):
        s.work = work; s.bins = {}; s.err = {}; s.runs = []

    def build(s, key, src, fast, defs=(), san=False, cc=None, randombytes=False, libs=('-lcrypto',), wrap=(), drop=()):
        if key in s.bins:
            return s.bins[key]
        out = os.path.join(s.work, key)
        cmd = [cc or ('clang' if san else 'gcc'), '-O2' if not san else '-O1', '-g', '-w', '-U_FORTIFY_SOURCE', '-I' + REPO, '-I' + os.path.join(VERIF, 'native'), '-I' + s.work, '-o', out]
        if san:
            cmd += ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=alignment']
        cmd += ['-D' + d for d in defs] + [os.path.join(VERIF, 'native', x) for x in src] + [x for x in sources(fast, randombytes) if os.path.basename(x) not in drop] + list(libs)
        cmd += ['-Wl,--wrap=' + w for w in wrap]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            s.err[key] = p.stderr[-1500:]
            s.bins[key] = None
        else:
            s.bins[key] = out
        return s.bins[key]

    def run_many(s, jobs, limit=300, par=8):
        """jobs: (binary key, args, env).  Returns list of (job, [(tag, detail)], cases)"""
        todo = list(jobs); run = []; out = []
        end = time.time() + limit
        while todo or run:
            while todo and len(run) < par:
                j = todo.pop(0)
                b = s.bins.get(j[0])
                if not b:
                    out.append((j, [], 0)); continue
                e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1')
                e.update(j[2] if len(j) > 2 else {})
                f = tempfile.TemporaryFile('w+', dir=s.work)
                p = subprocess.Popen([b] + [str(x) for x in j[1]], stdout=f, stderr=subprocess.STDOUT, env=e, cwd=s.work)
                run.append((j, p, f, time.time()))
            time.sleep(0.02)
            nxt = []
            for (j, p, f, t0) in run:
                rc = p.poll()
                late = time.time() > end
                if rc is None and not late:
                    nxt.append((j, p, f, t0)); continue
                if rc is None:
                    p.kill(); p.wait()
                f.seek(0); txt = f.read(); f.close()
                fl = []; cases = 0; done = False
                for l in txt.split('\n'):
                    if l.startswith('FAIL '):
                        q = l.split(' ', 2); fl.append((q[1], q[2] if len(q) > 2 else ''))
                    elif l.startswith('DONE '):
                        cases = int(l.split()[1]); done = True
                if rc is not None and not done:
                    tag = 'crash'
                    if 'AddressSanitizer' in txt or 'runtime error' in txt:
                        tag = 'sanitizer'
                    fl.append((tag, 'exit status %s: %s' % (rc, txt[-1500:])))
                s.runs.append({'cmd': [j[0]] + [str(x) for x in j[1]], 'cases': cases, 'fails': len(fl), 'complete': done, 's': round(time.time() - t0, 2)})
                out.append((j, fl, cases))
            run = nxt
            if time.time() > end:
                todo = []
        return out

# ---------------------------------------------------------------- verdict

class Check:
    def __init__(s, pid, tier, seed):
        s.pid = pid; s.tier = tier; s.seed = seed
        s.t0 = time.time()
        s.work = tempfile.mkdtemp(prefix='vx-%s-' % pid)
        s.native = Native(s.work)
        s.recs = {}
        s.bounded = []            # text: what was only explored concretely
        s.extra = {}
        s.assumptions = []
        s.known = []

    def programs(s, *which, extra=(), defs=()):
        for w in which:
            if w not in ENV:
                ENV[w] = ver.Program(w == 'fast', os.path.join(s.work, 'ir'), extra, defs)
        ENV['work'] = s.work
        return ENV

    def prove(s, tasks, total=600):
        s.recs.update(run_tasks(tasks, total=total))

    def fails(s, kinds=None):
        return [(t, k, m) for t, r in s.recs.items() for (k, m) in r.fails if kinds is None or k in kinds]

    def unsup(s):
        return [(t, f, m) for t, r in s.recs.items() for (f, m) in r.unsup]

    def hints(s):
        return [h for r in s.recs.values() for h in r.hints]

    def close(s):
        shutil.rmtree(s.work, ignore_errors=True)

    def finish(s, kinds, hits, level='proof', ignored=()):
        """kinds: failure kinds of the proof that break this property; hits:
        concrete counterexamples [(job, tag, detail)]"""
        rel = s.fails(kinds)
        other = [(t, k, m) for (t, k, m) in s.fails() if k not in kinds]
        uns = s.unsup()
        viol = None
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        rp = os.path.join(VERIF, 'evidence', '%s.replay.json' % s.pid)
        if os.path.exists(rp):
            os.unlink(rp)
        if hits:
            viol = 'concrete'
            json.dump({'property': s.pid, 'kind': 'failing input on the real code',
                       'runs': [{'binary': h[0][0], 'args': [str(x) for x in h[0][1]], 'env': (h[0][2] if len(h[0]) > 2 else {}), 'tag': h[1], 'detail': h[2]} for h in hits[:20]],
                       'how': 'build with vx.run.Native.build as the check does (sources /verif/native + /repo) and run with these arguments',
                       'failed_obligations': [list(x) for x in rel[:20]]}, open(rp, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (s.pid, rp))
        elif rel:
            viol = 'obligation'
            json.dump({'property': s.pid, 'kind': 'failed proof obligation', 'failed_obligations': [list(x) for x in rel[:40]],
                       'undecided': [list(x) for x in uns[:20]]}, open(rp, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (s.pid, rp))
        for t, k, m in (rel + other)[:12]:
            print('  failed obligation [%s] %s: %s' % (t, k, m[:400]))
        for h in hits[:5]:
            print('  failing input [%s] %s: %s' % (' '.join(str(x) for x in [h[0][0]] + list(h[0][1])), h[1], h[2][:300]))
        for t, f, m in uns[:12]:
            print('  not decided by proof [%s] %s: %s' % (t, f, m[:300]))
        s.evidence(rel, other, uns, hits, level)
        print('%s: %s in %.1f s' % (s.pid, 'violated (%s)' % viol if viol else 'holds on everything explored', time.time() - s.t0))
        s.close()
        return 1 if viol else 0

    def evidence(s, rel, other, uns, hits, level):
        fns = {}; obl = {}; stats = {}; assumed = set(); secs = 0.0; inl = set()
        bad = 0
        for t, r in s.recs.items():
            for (fn, cfg, var, ok, sec, n, err) in r.recs:
                d = fns.setdefault(fn, {'variants_proved': 0, 'variants_failed': 0, 'obligations': 0, 'seconds': 0.0})
                d['variants_proved' if ok else 'variants_failed'] += 1
                d['obligations'] += n; d['seconds'] = round(d['seconds'] + sec, 2)
                if not ok:
                    bad += 1
            for k, v in r.obl.items():
                obl[k] = obl.get(k, 0) + v
            for k, v in r.stats.items():
                stats[k] = round(stats.get(k, 0) + v, 2)
            assumed |= set(r.assumed); inl |= set(r.inlined)
            secs += getattr(r, 'wall', 0)
        disc = sum(obl.values())
        und = len(rel) + len(other) + len(uns)
        cov = {
            'obligations': disc + und, 'discharged': disc,
            'checker_cmd': 'python3-vt /verif/check.py %s --tier %s' % (s.pid, s.tier),
            'trusted_base': ['clang 18 front end (C to LLVM IR at -O0) and the IR parser vx/ir.py', 'the verification engine vx/sym.py, vx/terms.py, vx/ver.py',
                             'Z3 4.x / cvc5 1.1.2 where the term normaliser does not decide', 'the specification vx/spec.py (RFC 8391, SP 800-208)'],
            'functions_under_contract': fns, 'obligations_by_kind': obl,
            'back_end': stats, 'proof_cpu_s': round(secs, 1), 'tasks': {t: {'s': round(getattr(r, 'wall', 0), 1), 'proved': not r.fails and not r.unsup} for t, r in s.recs.items()},
            'undischarged': [{'task': t, 'kind': k, 'what': m[:300]} for t, k, m in (rel + other)[:30]] + [{'task': t, 'kind': 'not decided', 'what': f + ': ' + m[:300]} for t, f, m in uns[:30]],
            'inlined_functions': sorted(x for x in inl if not x.startswith('llvm'))[:60],
            'bounded': s.bounded, 'concrete_runs': s.native.runs[:120], 'concrete_cases': sum(x['cases'] for x in s.native.runs),
            'evaluations': sum(x['cases'] for x in s.native.runs),
            'harness_build_errors': s.native.err,
        }
        cov.update(s.extra)
        ev = {'property': s.pid, 'tier': s.tier, 'seed': s.seed, 'level': level, 'coverage': cov,
              'assumptions': sorted(assumed | set(s.assumptions)), 'wall_s': round(time.time() - s.t0, 1), 'violations': 1 if (rel or hits) else 0}
        json.dump(ev, open(os.path.join(VERIF, 'evidence', s.pid + '.json'), 'w'), indent=1)
