#!/opt/veriftools/pyvenv/bin/python3
"""Runner: check.py PROPERTY [--tier quick|thorough] [--only ENTRY-REGEX] [--file REGEX] [-v]

For every contract file of the property: compile it against /repo's current headers to LLVM IR, generate
and discharge all verification conditions of every `check_*` entry, replay counterexamples natively."""
import sys, os, re, json, time, subprocess, tempfile, shutil, traceback, argparse, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'irv'))
from multiprocessing import Pool

CONTRACTS = os.path.join(HERE, 'contracts')


def compile_job(a):
    src, out, defs = a
    import build
    t = time.time()
    try:
        shadow = 'real:' not in open(src).read(200)
        return src, build.compile_ir(src, out, defs=defs, shadow=shadow), None, time.time() - t
    except build.BuildError as e:
        return src, None, str(e), time.time() - t


def entries_of(src):
    t = open(src).read()
    out = []
    for m in re.finditer(r'extern\s+"C"\s+void\s+(check_\w+)\s*\(\s*(?:void)?\s*\)', t): out.append((m.start(), m.group(1)))
    for m in re.finditer(r'^\s*ENTRY\((\w+)\)', t, re.M): out.append((m.start(), 'check_' + m.group(1)))
    for m in re.finditer(r'^\s*(?:\w+_)?ENTRIES_?\w*\((\w+)', t, re.M): pass
    out.sort()
    return [n for _, n in out]


def run_job(a):
    src, ll, entry, opts = a
    sys.setrecursionlimit(20000)
    import irparse, engine
    import z3
    t0 = time.time()
    r = dict(src=os.path.basename(src), entry=entry, ll=ll)
    try:
        m = irparse.Module(open(ll).read())
        eng = engine.Engine(m, dict(opts))
        eng.deadline = t0 + opts.get('budget', 200)
        err = None
        try:
            st = eng.new_state()
            eng.call_fn(st, entry, [])
            eng.explore([st])
        except (engine.Unsupported, engine.Budget, irparse.IRError, engine.LoopFail) as e:
            err = '%s: %s' % (type(e).__name__, e)
        except engine.NeedInv as e:
            err = 'NeedInv escaped'
        except (RecursionError, KeyError, IndexError, AttributeError, TypeError, AssertionError, z3.Z3Exception, ValueError, NotImplementedError) as e:
            err = 'internal: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
        r.update(err=err, obl=eng.obl, fail=eng.fail, covers=eng.covers,
                 stats={k: v for k, v in eng.stats.items()}, called=list(eng.called))
    except Exception as e:
        r.update(err='internal: ' + traceback.format_exc()[-1500:], obl={}, fail=[], covers={}, stats={}, called=[])
    r['time'] = time.time() - t0
    return r


def strings_in(ll, entry):
    return []


def expected_covers(src, entry):
    t = open(src).read()
    m = re.search(r'//\s*covers\s+%s:\s*(.*)' % re.escape(entry), t)
    if m: return [x.strip() for x in m.group(1).split(',') if x.strip()]
    # literal covers inside the entry's own body
    i = t.find(entry + '(')
    if i < 0:
        i = t.find('ENTRY(%s)' % entry[6:])
        if i < 0: return []
    j = len(t)
    for mm in re.finditer(r'extern\s+"C"\s+void\s+check_|^\s*ENTRY\(|^template|^struct', t[i + 10:], re.M):
        j = i + 10 + mm.start(); break
    return sorted(set(re.findall(r'verif_cover\("([^"]*)"\)', t[i:j])))


# ------------------------------------------------------------------ native replay
def build_native(src, entries, out):
    import build
    base = os.path.splitext(os.path.basename(src))[0]
    tab = os.path.join(out, base + '_tab.cpp')
    with open(tab, 'w') as f:
        f.write('struct entry { const char* name; void (*fn)(); };\n')
        for e in entries: f.write('extern "C" void %s();\n' % e)
        f.write('extern entry verif_entries[];\nentry verif_entries[] = {')
        for e in entries: f.write('{"%s", %s},' % (e, e))
        f.write('{nullptr, nullptr}};\n')
    exe = os.path.join(out, base + '.native')
    inc = build.includes(src)
    txt = open(src).read()
    tsan = 'vf_env' in txt or 'verif_monitor' in txt or 'verif_freed' in txt or 'real:' in txt[:200]
    obj = exe + '.o'
    cc = ['clang++-18', '-std=c++20', '-O1', '-g1', '-w', '-fno-access-control', '-DVERIF_NATIVE', '-D_GLIBCXX_ASSERTIONS'] + inc + ['-I', build.REPO]
    # instrumentation only: the call-outs are defined in native_rt.cpp
    r = subprocess.run(cc + (['-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0'] if tsan else []) + ['-c', src, '-o', obj], capture_output=True, text=True)
    if r.returncode: return None, r.stderr[-3000:]
    cmd = cc + (['-DVERIF_TSAN'] if tsan else []) + [obj, tab, os.path.join(HERE, 'irv/native_rt.cpp'), '-o', exe, '-Wl,--wrap=pthread_mutex_lock',
         '-Wl,--wrap=pthread_mutex_unlock', '-Wl,--wrap=pthread_mutex_trylock', '-Wl,--unresolved-symbols=ignore-all', '-lpthread', '-ldl']
    for lib in ('boost_thread', 'boost_system', 'boost_chrono', 'boost_serialization'):
        cmd.append('-l' + lib)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: return None, r.stderr[-3000:]
    return exe, None


def write_values(f, path):
    with open(path, 'w') as o:
        for nm, v in f['inputs']: o.write('in %d %s\n' % (v, nm))
        for nm, u in f['ufs'].items():
            o.write('else %d %s\n' % (u['els'], nm))
            for a, v in u['tab']: o.write('uf %d %d %s %s\n' % (len(a), v, ' '.join(map(str, a)), nm))


def run_native(args, timeout):
    try:
        r = subprocess.run(args, capture_output=True, text=True, timeout=timeout, errors='replace')
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return None, ''


def replay_job(a):
    """confirm a failed/undecided entry natively. returns dict(kind, msg, inputs)"""
    exe, entry, vals, seed, count, secs = a
    for v in vals:
        rc, out = run_native([exe, 'replay', entry, v], 20)
        if out.startswith('FAIL\t') or out.startswith('CRASH\t'):
            p = out.split('\n')[0].split('\t')
            return dict(kind='counterexample replayed', msg=p[1], inputs=p[2], values=open(v).read(), cmd='replay')
    rc, out = run_native([exe, 'random', entry, str(seed), str(count), str(secs)], secs + 30)
    lines = out.split('\n')
    runs = [l for l in lines if l.startswith('RUNS')]
    if out.startswith('FAIL\t') or out.startswith('CRASH\t'):
        p = lines[0].split('\t')
        return dict(kind='failing input found by search', msg=p[1], inputs=p[2] if len(p) > 2 else '', values='', cmd='random %s' % seed,
                    runs=runs[0] if runs else '')
    return dict(kind=None, runs=runs[0] if runs else 'none')


def demangle(names):
    try:
        r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        return r.stdout.split('\n')[:len(names)]
    except Exception:
        return names


def shorten(n):
    # strip template arguments
    out = []; d = 0
    n = n.replace('operator<<', 'operator_shl').replace('operator->', 'operator_arrow').replace('operator<', 'operator_lt').replace('operator>', 'operator_gt')
    for c in n:
        if c == '<': d += 1
        elif c == '>': d = max(0, d - 1)
        elif d == 0: out.append(c)
    r = ''.join(out)
    return r.split('(')[0].split(' ')[-1] if 'lambda' not in r and 'operator' not in r else r[:150]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only'); ap.add_argument('--file'); ap.add_argument('-v', action='store_true'); ap.add_argument('--vv', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--keep', action='store_true')
    A = ap.parse_args()
    A.v = A.v or A.vv
    t0 = time.time()
    import registry
    P = registry.PROPS[A.prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = A.tier == 'thorough'
    files = [os.path.join(CONTRACTS, f) for f in P['files']]
    if A.file: files = [f for f in files if re.search(A.file, f)]
    out = tempfile.mkdtemp(prefix='irv_')
    evdir = os.path.join(HERE, 'evidence')
    repdir = os.path.join(evdir, 'replay')
    os.makedirs(repdir, exist_ok=True)
    for f in os.listdir(repdir):
        if f.startswith(A.prop + '_') and not A.only: os.unlink(os.path.join(repdir, f))
    rc = 0
    try:
        rc = go(A, P, files, out, seed, thorough, evdir, repdir, t0)
    finally:
        if not A.keep: shutil.rmtree(out, ignore_errors=True)
        else: print('kept', out)
    sys.exit(rc)


def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) entry=(\S+) obligation="([^"]*)" (.*)', l)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3), m.group(4).strip()))
    return out


def standins(A, P, results, builderr, files, out, seed, thorough):
    """Native executions on small inputs for contract files which do not compile against the current tree or
    have undecided entries (never counted as proved); in the thorough tier for every file which has one."""
    import registry
    bad = set(os.path.basename(s) for s, _ in builderr)
    for r in results:
        hard = [f for f in r['fail'] if f['result'] == 'sat' and not f['imprecise']]
        if (r['err'] or r['fail'] or r['vacuous']) and not hard and not (r.get('native') or {}).get('kind'): bad.add(r['src'])
    if thorough and not A.only: bad |= set(os.path.basename(f) for f in files)
    use = sorted(set(registry.STANDIN[b] for b in bad if b in registry.STANDIN))
    res = []
    with Pool(A.j) as pool:
        jobs = []
        for u in use:
            src = os.path.join(HERE, 'bounded', u)
            es = [e for e in entries_of(src) if not (P.get('only') and not re.search(P['only'], e)) and not (P.get('exclude') and re.search(P['exclude'], e))]
            exe, err = build_native(src, entries_of(src), out)
            if exe is None:
                res.append(dict(entry='*', file=u, runs='does not compile: ' + err[-600:])); continue
            for e in es: jobs.append((e, u, pool.apply_async(replay_job, ((exe, e, [], seed, 1000000, 20 if thorough else 8),))))
        for e, u, j in jobs:
            x = j.get(); x.update(entry=e, file=u); res.append(x)
    return res


def go(A, P, files, out, seed, thorough, evdir, repdir, t0):
    opts = dict(budget=P.get('budget', 240) * (2 if thorough else 1), solver_timeout_ms=P.get('solver_timeout_ms', 20000) * (3 if thorough else 1))
    opts['depth'] = 3 if thorough else 2
    opts.update(P.get('opts', {}))
    results = []; builderr = []; native = {}
    with Pool(A.j) as pool:
        comp = pool.imap_unordered(compile_job, [(f, out, ()) for f in files])
        pend = []
        ents = {}
        ctime = 0
        for src, ll, err, dt in comp:
            ctime += dt
            if err:
                builderr.append((src, err)); continue
            ents[src] = entries_of_ll(ll)
            for e in ents[src]:
                if A.only and not re.search(A.only, e): continue
                if P.get('only') and not re.search(P['only'], e): continue
                if P.get('exclude') and re.search(P['exclude'], e): continue
                pend.append(pool.apply_async(run_job, ((src, ll, e, opts),)))
        for p in pend: results.append(p.get())
        results.sort(key=lambda r: (r['src'], r['entry']))
        # entries needing native work
        need = {}
        for r in results:
            src = os.path.join(CONTRACTS, r['src'])
            r['expected_covers'] = expected_covers(src, r['entry'])
            r['vacuous'] = [c for c in r['expected_covers'] if not r['covers'].get(c)]
            if r['covers'].get('leaf') and not r['covers'].get('split') and not re.search('_(large|leaf)(_|$)', r['entry']): r['vacuous'].append('split')
            if r['fail'] or r['err'] or r['vacuous'] or r['stats'].get('bounded') or thorough: need.setdefault(src, []).append(r)
        nb = {s: pool.apply_async(build_native, (s, ents[s], out)) for s in need}
        jobs = []
        for s, rs in need.items():
            exe, nerr = nb[s].get()
            if exe is None:
                for r in rs: r['native'] = dict(kind=None, runs='native build failed: ' + nerr)
                continue
            for r in rs:
                vals = []
                for k, f in enumerate(r['fail']):
                    v = os.path.join(out, '%s_%s_%d.val' % (os.path.basename(s), r['entry'], k))
                    write_values(f, v); vals.append(v)
                secs = 30 if thorough else (20 if (r['fail'] or r['err']) else 8)
                jobs.append((r, pool.apply_async(replay_job, ((exe, r['entry'], vals, seed, 1000000, secs),))))
        for r, j in jobs: r['native'] = j.get()
    # ---------------------------------------------------------------- bounded stand-ins
    sres = standins(A, P, results, builderr, files, out, seed, thorough)
    # ---------------------------------------------------------------- verdicts
    known = known_findings(A.prop)
    nviol = 0
    oblig = dis = 0
    und = []
    covers = 0
    names = {}
    called = set()
    qtime = 0.0; queries = 0; bounded = []; kf = []
    printed = set()
    nruns = 0
    for r in results:
        qtime += r['stats'].get('qtime', 0); queries += r['stats'].get('queries', 0)
        covers += sum(1 for c in r['covers'] if r['covers'][c])
        called.update(r['called'])
        for b in r['stats'].get('bounded', []): bounded.append('%s: %s' % (r['entry'], b))
        for k, o in r['obl'].items():
            oblig += o['checked']; dis += o['checked'] - min(o['checked'], o['failed'])
            names.setdefault(k, [0, 0]); names[k][0] += o['checked']; names[k][1] += o['failed']
        nat = r.get('native') or {}
        m = re.match(r'RUNS\t(\d+)\t(\d+)', nat.get('runs', '') or '')
        if m: nruns += int(m.group(2))
        hard = [f for f in r['fail'] if f['result'] == 'sat' and not f['imprecise']]
        if nat.get('kind') or hard:
            # violation, with or without failing input
            obls = sorted(set(f['obligation'] for f in r['fail'])) or [nat['msg']]
            k = [x for x in known if x[0] == r['entry'] and x[1] in obls + [nat.get('msg')]]
            if k:
                kf.append(k[0]); print('KNOWN-FINDING: property=%s %s' % (A.prop, k[0][2])); continue
            nviol += 1
            path = os.path.join(repdir, '%s_%s.json' % (A.prop, r['entry']))
            json.dump(dict(property=A.prop, contract=r['src'], entry=r['entry'], failed_obligations=obls, native=nat,
                           verifier_output=r['fail'], verifier_error=r['err'],
                           how='contracts/%s compiled natively against /repo with irv/native_rt.cpp; inputs listed in order' % r['src']),
                      open(path, 'w'), indent=1)
            print('  obligation failed in %s (%s): %s' % (r['entry'], r['src'], '; '.join(obls)))
            if nat.get('kind'): print('    %s: %s | %s' % (nat['kind'], nat['msg'], nat['inputs'][:300]))
            print('VIOLATION property=%s replay=%s%s' % (A.prop, path, '' if nat.get('kind') else ' no-failing-input-found'))
        elif r['err'] or r['fail'] or r['vacuous']:
            what = r['err'] or ('; '.join(sorted(set('%s (%s%s)' % (f['obligation'], f['result'], ', abstracted loop' if f['imprecise'] else '') for f in r['fail'])))) or ('uncovered: ' + ','.join(r['vacuous']))
            und.append(dict(entry=r['entry'], why=what, standin='native executions of the same contract: %s' % nat.get('runs')))
            print('  undecided %s: %s | bounded stand-in: %s' % (r['entry'], what.split('\n')[0][:300], nat.get('runs')))
            if A.v: print(what)
        if A.v:
            print('%-50s %-40s %.1fs %s obl=%d fail=%d paths=%s q=%.1fs loops=%s covers=%s bounded=%d' % (
                r['src'], r['entry'], r['time'], 'ERR' if r['err'] else 'ok ', sum(o['checked'] for o in r['obl'].values()), len(r['fail']),
                r['stats'].get('paths'), r['stats'].get('qtime', 0), r['stats'].get('loops'), r['covers'], len(r['stats'].get('bounded', []))))
            for f in r['fail'][:(9 if A.vv else 2)]:
                print('      FAIL', f['obligation'], f['result'], 'imprecise' if f['imprecise'] else '', f['inputs'], f['ufs'])
                for w in [w for w in f['where'] if A.vv or '/include/' not in w and 'shadow/' not in w][:8]: print('           ', w[:None if A.vv else 150])
                if A.vv: print('           path', f['path'][-12:])
    for x in sres:
        m = re.match(r'RUNS\t(\d+)\t(\d+)', x.get('runs', '') or '')
        if m: nruns += int(m.group(2))
        if x.get('kind'):
            nviol += 1
            path = os.path.join(repdir, '%s_bounded_%s.json' % (A.prop, x['entry']))
            json.dump(dict(property=A.prop, standin=x['file'], entry=x['entry'], failed=x['msg'], native=x,
                           undecided=[u for u in [dict(file=b[0], why=b[1][-3000:]) for b in builderr]] + [dict(entry=r['entry'], why=str(r['err'])[:500]) for r in results if r['err']],
                           how='bounded/%s compiled natively against /repo with irv/native_rt.cpp; inputs listed in order' % x['file']),
                      open(path, 'w'), indent=1)
            print('  bounded stand-in %s (%s) failed: %s | %s' % (x['entry'], x['file'], x['msg'], x['inputs'][:300]))
            print('VIOLATION property=%s replay=%s' % (A.prop, path))
        elif A.v: print('  bounded stand-in %s: %s' % (x['entry'], x.get('runs')))
    for s, e in builderr:
        print('undecided: contract %s does not compile against the current tree (its entries are not checked):\n%s' % (s, e[-2500:]))
        und.append(dict(entry=os.path.basename(s), why='does not compile against the current tree: ' + e[-1500:], standin='none'))
    dm = demangle(sorted(called))
    funcs = sorted(set(shorten(x) for x in dm if 'boost::asynchronous' in x))
    cov = dict(obligations=oblig, discharged=dis, named_obligations={k: dict(instances=v[0], failed=v[1]) for k, v in sorted(names.items())},
               checker_cmd='python3-vt /verif/check.py %s --tier %s' % (A.prop, A.tier),
               backend='z3 %s (quantifier-free integer arithmetic with uninterpreted functions)' % z3version(),
               solver_queries=queries, solver_time_s=round(qtime, 2), compile_time_s=round(ctime, 1),
               contract_entries=len(results), contract_files=[os.path.basename(f) for f in files],
               functions_under_contract=funcs, n_functions=len(funcs), reachability_covers=covers,
               loops_with_inferred_invariants=sum(r['stats'].get('loop_inv', 0) for r in results),
               bounded_loops=bounded, undecided=und, bounded_entries=P.get('bounded', {}),
               bounded_standins=[dict(entry=x['entry'], file=x['file'], runs=x.get('runs'), failed=x.get('msg')) for x in sres], native_cross_check_executions=nruns,
               trusted_base=registry_tb() + P.get('trusted', []))
    ev = dict(property=A.prop, tier='thorough' if thorough else 'quick', seed=seed, level=P.get('level', 'proof'), coverage=cov,
              assumptions=P.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=nviol)
    if not A.only and not A.file:
        json.dump(ev, open(os.path.join(evdir, A.prop + '.json'), 'w'), indent=1)
    print('%s: %d entries, %d obligations, %d discharged, %d undecided entries, %d violations, %d bounded loops, %.1fs (solver %.1fs)' % (
        A.prop, len(results), oblig, dis, len(und), nviol, len(bounded), time.time() - t0, qtime))
    if nviol: return 1
    if builderr and not results: return 2
    if not results or oblig == 0:
        print('no obligations generated'); return 2
    return 0


def entries_of_ll(ll):
    return sorted(set(re.findall(r'^define [^@\n]*@(check_\w+)\(', open(ll).read(), re.M)))


def registry_tb():
    import registry
    return registry.TRUSTED


def z3version():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    main()
