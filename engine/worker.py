"""Verify one harness: worker.py MODULE.bc HARNESS OPTS.json OUT.json"""
import json
import os
import resource
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    bc, harness, opts, out = sys.argv[1:5]
    opts = json.loads(opts)
    lim = int(opts.pop('mem', 10)) << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    import threading
    threading.stack_size(1 << 30)
    res = {}

    def run():
        res.update(verify(bc, harness, opts))
    t = threading.Thread(target=run)
    t.start()
    t.join()
    with open(out, 'w') as f:
        json.dump(res, f)


def verify(bc, harness, opts):
    """opts['hint']: loops that needed an invariant last time (only saves the unrolling that finds them).
    Where the obligations are not discharged with the hint, the harness is run again without it."""
    opts = dict(opts)
    hint = opts.pop('hint', None)
    if hint:
        t0 = time.time()
        o = dict(opts)
        o['cut'] = hint
        o['budget'] = opts.get('budget', 600) * 0.5
        r = verify1(bc, harness, o)
        if not r['error'] and all(x['status'] == 'discharged' for x in r['obs']):
            return r
        opts['budget'] = opts.get('budget', 600) - (time.time() - t0)
    return verify1(bc, harness, opts)


def verify1(bc, harness, opts):
    import z3
    import sym
    from llvmir import Module
    t0 = time.time()
    total = opts.get('budget', 600)
    res = {'harness': harness, 'error': None, 'errkind': None, 'obs': [], 'covers': {}, 'paths': 0, 'restarts': 0}
    eng = None
    cut = set(tuple(x) for x in opts.pop('cut', []))
    try:
        mod = Module(bc)
        while True:
            o = dict(opts)
            o['budget'] = max(5, total - (time.time() - t0))
            o['nocover'] = 0
            eng = sym.Engine(mod, o)
            eng.cut = cut
            for kv in opts.get('contracts', []):
                eng.B.add_contract(*kv)
            try:
                st = sym.State()
                if opts.get('ctors') and 'llvm.global_ctors' in mod.gvptr:
                    # dynamic initialisation of the translation units, in the order of the linked module
                    import llvmir
                    L = llvmir.lib()
                    ctors = eng.const(mod.operand(L.LLVMGetInitializer(mod.gvptr['llvm.global_ctors'])))
                    for c in ctors:
                        rs = [r for r in eng.call_function(st, c[1].r.fn if hasattr(c[1], "r") else None, [], 0) if r[0] == 'ret']
                        if len(rs) != 1:
                            raise sym.Unsupported('static initialiser')
                        st = rs[0][1]
                outs = eng.call_function(st, harness, [], 0)
            except sym.NeedInvariant as e:
                cut.add((e.fn, e.h))
                res['restarts'] += 1
                if res['restarts'] > 40:
                    raise sym.Unsupported('too many loops')
                continue
            break
        normal = 0
        for r in outs:
            if r[0] == 'throw':
                if eng.feasible(r[1]):
                    eng.curinst = None
                    eng.oblige(r[1], False, 'no exception escapes (%s)' % (r[2],), 'exception')
            elif r[0] == 'ret':
                if eng.check(r[1].pc, 20000) != 'unsat':
                    normal += 1
        res['paths'] = normal
        res['cut'] = sorted(cut)
        eng.solve_all()
    except sym.Unsupported as e:
        res['error'], res['errkind'] = str(e) + ' at ' + (eng.loc() if eng else ''), 'unsupported'
    except sym.BudgetExceeded:
        res['error'], res['errkind'] = 'time budget exceeded at ' + eng.loc(), 'budget'
    except (MemoryError, z3.Z3Exception) as e:
        res['error'], res['errkind'] = repr(e)[:300] + ' at ' + (eng.loc() if eng else ''), 'budget' if 'memory' in repr(e).lower() else 'unsupported'
        if os.environ.get('VP_TRACE'):
            traceback.print_exc()
    except Exception as e:
        res['error'], res['errkind'] = 'internal: %r at %s' % (e, eng.loc() if eng else ''), 'internal'
        res['trace'] = traceback.format_exc()
        if os.environ.get('VP_TRACE'):
            traceback.print_exc()
    if eng is not None:
        for o in eng.obs:
            d = {'name': o.name, 'kind': o.kind, 'loc': o.loc, 'fn': o.fnname, 'status': o.status, 'backend': o.backend, 'time': round(o.time, 4)}
            if o.status != 'discharged':
                d['detail'] = o.detail[:3000]
                if o.inputs:
                    d['inputs'] = [(i[0], i[1], (i[2].hex() if isinstance(i[2], bytes) else i[2])) for i in o.inputs]
            res['obs'].append(d)
        res['covers'] = eng.covers
        st = dict(eng.stats)
        st['loops_unrolled'] = 0
        res['stats'] = st
        res['trivial'] = eng.trivial_by_kind
        res['externals'] = sorted(eng.externals_used)
        res['contracts_used'] = sorted(eng.contracts_used)
        res['invs'] = eng.invs_used
        fns = []
        for n in sorted(eng.funcs_seen):
            f = eng.mod.function(n)
            fl = ''
            for b in f.blocks:
                for i in b.insts:
                    if i.file:
                        fl = i.file
                        break
                if fl:
                    break
            fns.append((n, fl))
        res['funcs'] = fns
    res['wall'] = time.time() - t0
    return res


if __name__ == '__main__':
    main()
