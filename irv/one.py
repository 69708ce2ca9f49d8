import sys, time, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import irparse, engine, build

def run_entry(module, entry, opts=None):
    eng = engine.Engine(module, opts or {})
    t0 = time.time()
    eng.deadline = t0 + eng.opts.get('budget', 300)
    err = None
    try:
        st = eng.new_state()
        if eng.opts.get('ctors', True):
            pass
        eng.call_fn(st, entry, [])
        eng.explore([st])
    except (engine.Unsupported, engine.Budget, irparse.IRError, engine.LoopFail) as e:
        err = '%s: %s' % (type(e).__name__, e)
    except engine.NeedInv as e:
        err = 'NeedInv escaped'
    return eng, err, time.time() - t0

if __name__ == '__main__':
    src = sys.argv[1]
    os.makedirs('/tmp/irv', exist_ok=True)
    t0 = time.time()
    ll = build.compile_ir(src, '/tmp/irv')
    t1 = time.time()
    m = irparse.Module(open(ll).read())
    print('compile %.1fs parse %.1fs, %d functions' % (t1 - t0, time.time() - t1, len(m.funcs)))
    names = sys.argv[2:] or sorted(f for f in m.funcs if f.startswith('check_'))
    for n in names:
        eng, err, dt = run_entry(m, n, {'debug': False, 'budget': 200})
        print('== %s  %.1fs err=%s paths=%d steps=%d queries=%d qtime=%.1f loops=%d bounded=%s covers=%s' % (n, dt, err, eng.stats['paths'], eng.stats['steps'], eng.stats['queries'], eng.stats['qtime'], eng.stats['loops'], eng.stats['bounded'], eng.covers))
        for k, o in eng.obl.items(): print('   ', 'FAIL' if o['failed'] else 'ok  ', k, o['checked'], o['failed'])
        for f in eng.fail[:6]:
            print('   FAILURE', f['obligation'], f['result'], f['inputs'], f['ufs'], 'imprecise' if f['imprecise'] else '')
            for w in f['where'][:8]: print('        ', w)
            print('        path', f['path'][-12:])
