#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--verbose]

Decides one property: compiles the harnesses of /verif/harness/<PROPERTY>*.cpp together with /repo's current
sources to LLVM IR, generates and discharges every obligation, and replays counterexamples natively.
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
GCCDIR = '--gcc-install-dir=/usr/lib/gcc/x86_64-linux-gnu/9'
CFLAGS = ['-std=c++14', '-msse4', '-DNDEBUG', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fwrapv', '-fno-strict-aliasing',
          '-I' + REPO, '-I' + V + '/harness', '-w']
CLANG = ['clang++-18' if shutil.which('clang++-18') else 'clang++', GCCDIR, '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only',
         '-emit-llvm', '-c', '-DVP_ENGINE', '-fno-inline', '-fno-threadsafe-statics']
OPT = shutil.which('opt') or '/usr/lib/llvm-18/bin/opt'
LINK = shutil.which('llvm-link') or '/usr/lib/llvm-18/bin/llvm-link'
PASSES = 'function(sroa,mem2reg,early-cse,instsimplify,simplifycfg<no-switch-to-lookup;no-switch-range-to-icmp>,dce,loop-simplify,lcssa)'
VENV = '/opt/veriftools/pyvenv/bin/python3'


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


class CompileError(Exception):
    pass


def directives(src):
    srcs, opts, flags, bounded = [], {}, [], {}
    for m in re.finditer(r'^//vp-src:\s*(.+)$', src, re.M):
        srcs += m.group(1).split()
    for m in re.finditer(r'^//vp-flags:\s*(.+)$', src, re.M):
        flags += m.group(1).replace('${REPO}', REPO).split()
    for m in re.finditer(r'^//vp:\s*(\S+)\s+(.+)$', src, re.M):
        d = opts.setdefault(m.group(1), {})
        for kv in m.group(2).split():
            k, v = kv.split('=', 1)
            if k == 'contract':
                d.setdefault('contracts', []).append(v.split(':', 1))
            elif k == 'bounded_note':
                bounded[m.group(1)] = v
            else:
                d[k] = int(v) if re.fullmatch(r'-?\d+', v) else v
    return srcs, opts, flags, bounded


def build_ir(hfile, work):
    src = open(hfile).read()
    srcs, opts, flags, bounded = directives(src)
    stem = os.path.basename(hfile)[:-4]
    jobs = [(hfile, os.path.join(work, stem + '.h.bc'))]
    for s in srcs:
        jobs.append((os.path.join(REPO, s), os.path.join(work, stem + '.' + s.replace('/', '_') + '.bc')))

    def one(j):
        r = sh(CLANG + CFLAGS + flags + [j[0], '-o', j[1]])
        if r.returncode:
            raise CompileError('compilation of %s failed:\n%s' % (j[0], r.stderr[-3000:]))
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    bc = os.path.join(work, stem + '.bc')
    r = sh([LINK, '-o', bc + '.l'] + [j[1] for j in jobs])
    if r.returncode:
        raise CompileError('link failed: ' + r.stderr[-2000:])
    nm = sh([shutil.which('llvm-nm') or '/usr/lib/llvm-18/bin/llvm-nm', '--defined-only', '--format=just-symbols', bc + '.l']).stdout.split()
    hs = sorted(x for x in nm if x.startswith('H_'))
    r = sh([OPT, '-passes=internalize,globaldce,' + PASSES, '--internalize-public-api-list=' + ','.join(hs), bc + '.l', '-o', bc])
    if r.returncode:
        raise CompileError('opt failed: ' + r.stderr[-2000:])
    return bc, hs, opts, bounded


def build_native(hfile, work):
    src = open(hfile).read()
    srcs, opts, flags, _ = directives(src)
    stem = os.path.basename(hfile)[:-4]
    exe = os.path.join(work, stem + '.native')
    objs = []
    cc = ['g++-9', '-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer']

    def one(j):
        f, o = j
        r = sh(cc + CFLAGS + flags + ['-c', f, '-o', o])
        if r.returncode:
            return r.stderr
        return None
    jobs = [(hfile, exe + '.h.o'), (V + '/harness/vp_native.cpp', exe + '.rt.o')]
    for s in srcs:
        jobs.append((os.path.join(REPO, s), exe + '.' + s.replace('/', '_') + '.o'))
    with cf.ThreadPoolExecutor(8) as ex:
        for e in ex.map(one, jobs):
            if e:
                return None, e
    r = sh(cc + ['-rdynamic'] + [j[1] for j in jobs] + ['-o', exe, '-ldl', '-lpthread'])
    if r.returncode:
        return None, r.stderr
    return exe, None


ENVN = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_odr_violation=0:print_summary=1:alloc_dealloc_mismatch=0')


def native_replay(exe, h, f):
    try:
        r = subprocess.run([exe, h[2:], 'replay', f], capture_output=True, text=True, timeout=60, env=ENVN, errors='replace')
    except subprocess.TimeoutExpired:
        return True, 'timeout'
    out = r.stdout + r.stderr
    if 'VPFAIL' in r.stdout:
        return True, out[-6000:]
    if r.returncode != 0:
        return True, out[-6000:]
    return False, out[-2000:]


def native_random(exe, h, seed, secs, outf, maxruns=None):
    cmd = [exe, h[2:], 'random', str(seed), str(secs), outf] + ([str(maxruns)] if maxruns else [])
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=secs + 60, env=ENVN, errors='replace')
    except subprocess.TimeoutExpired:
        return False, 'timeout', 0
    m = re.search(r'VPOK runs=(\d+) complete=(\d+)', r.stdout)
    if 'VPFAIL' in r.stdout and os.path.exists(outf):
        return True, (r.stdout + r.stderr)[-6000:], 0
    return False, (r.stdout + r.stderr)[-2000:], int(m.group(2)) if m else 0


def run_worker(bc, h, opts, work, tag=''):
    out = os.path.join(work, h + tag + '.json')
    if os.path.exists(out):
        os.unlink(out)
    budget = opts.get('budget', 600)
    try:
        r = subprocess.run([VENV, os.path.join(V, 'engine', 'worker.py'), bc, h, json.dumps(opts), out], capture_output=True, text=True,
                           timeout=budget + 120)
        err = r.stderr[-3000:]
    except subprocess.TimeoutExpired:
        err = 'worker timeout'
    if os.path.exists(out):
        return json.load(open(out))
    return {'harness': h, 'error': 'worker died: ' + err, 'errkind': 'budget', 'obs': [], 'covers': {}, 'paths': 0, 'stats': {}, 'funcs': [],
            'externals': [], 'invs': {}, 'trivial': {}, 'contracts_used': [], 'wall': 0, 'restarts': 0}


def write_replay(path, h, ob, extra=''):
    with open(path, 'w') as f:
        f.write('# harness %s\n# failed obligation: %s [%s] at %s in %s\n# status %s\n' % (h[2:], ob['name'], ob['kind'], ob['loc'], ob['fn'], ob['status']))
        for i in ob.get('inputs') or []:
            if i[0] == 'u':
                f.write('u %s %x\n' % (i[1], i[2]))
            elif i[0] == 'b':
                f.write('b %s %s\n' % (i[1], i[2]))
        for l in (ob.get('detail') or '').split('\n')[:80]:
            f.write('# model: %s\n' % l)
        for l in extra.split('\n')[:120]:
            f.write('# native: %s\n' % l)


def known(pid):
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'known: property=(\S+) match=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    verbose = '--verbose' in sys.argv
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if '--only' in sys.argv:
        only = sys.argv[sys.argv.index('--only') + 1].split(',')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    work = os.path.join(V, 'build', '%s.%d' % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        rc = go(pid, tier, only, verbose, seed, work, t0)
    finally:
        if '--keep' not in sys.argv:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def go(pid, tier, only, verbose, seed, work, t0):
    files = sorted(glob.glob(os.path.join(V, 'harness', pid + '*.cpp')))
    if not files:
        print('no harness for', pid)
        return 2
    tasks = []
    try:
        with cf.ThreadPoolExecutor(4) as ex:
            built = list(ex.map(lambda f: build_ir(f, work), files))
    except CompileError as e:
        print('ERROR: %s' % e)
        return 2
    hintf = os.path.join(V, 'hints', pid + '.json')
    hints = json.load(open(hintf)) if os.path.exists(hintf) and '--learn' not in sys.argv else {}
    boundednotes = {}
    for f, (bc, hs, opts, bnotes) in zip(files, built):
        for h in hs:
            o = dict(opts.get('*', {}))
            o.update(opts.get(h[2:], {}))
            if h[2:] in bnotes:
                boundednotes[h] = bnotes[h[2:]]
            if tier == 'quick' and o.pop('thorough', 0):
                continue
            o.pop('thorough', 0)
            if only and h[2:] not in only:
                continue
            o.setdefault('timeout', 40)
            o.setdefault('budget', 500)
            if h in hints:
                o['hint'] = hints[h]
            tasks.append((f, bc, h, o))
    tasks.sort(key=lambda t: -t[3].pop('cost', 0))
    if not tasks:
        print('no harness functions')
        return 2
    t1 = time.time()
    with cf.ThreadPoolExecutor(int(os.environ.get('VP_JOBS', '8'))) as ex:
        results = list(ex.map(lambda t: run_worker(t[1], t[2], t[3], work), tasks))
    if '--learn' in sys.argv:
        learned = {t[2]: r['cut'] for t, r in zip(tasks, results) if r.get('cut') and not r['error']}
        if only and os.path.exists(hintf):
            learned = dict(json.load(open(hintf)), **learned)
        if learned:
            os.makedirs(os.path.dirname(hintf), exist_ok=True)
            json.dump(learned, open(hintf, 'w'), indent=1, sort_keys=True)
        elif os.path.exists(hintf):
            os.unlink(hintf)
    kf = known(pid)
    bad = []
    kfhit = {}
    nob = ndis = ntriv = 0
    solver = 0.0
    queries = 0
    for t, r in zip(tasks, results):
        h = t[2]
        problems = []
        for o in r['obs']:
            nob += 1
            if o['status'] == 'discharged':
                ndis += 1
                continue
            k = [x for x in kf if x[0] == '%s:%s' % (h[2:], o['name'].replace(' ', '_'))]
            if k:
                kfhit[k[0]] = kfhit.get(k[0], 0) + 1
                continue
            problems.append(o)
        n = sum(r.get('trivial', {}).values())
        nob += n
        ndis += n
        ntriv += n
        solver += r.get('stats', {}).get('solver_s', 0)
        queries += r.get('stats', {}).get('queries', 0)
        if r['error']:
            problems.append({'name': 'harness not decided: ' + r['error'], 'kind': 'undecided', 'loc': '', 'fn': h, 'status': 'unknown', 'detail': r.get('trace', '')})
        else:
            if not r['paths'] and not problems:
                problems.append({'name': 'vacuous: no execution of the harness reaches its end', 'kind': 'vacuity', 'loc': '', 'fn': h, 'status': 'unknown'})
            if not any(o['kind'] == 'assert' for o in r['obs']) and not r.get('trivial', {}).get('assert') and not problems:
                problems.append({'name': 'vacuous: no assertion reached', 'kind': 'vacuity', 'loc': '', 'fn': h, 'status': 'unknown'})
            for c, v in r['covers'].items():
                if not v and not problems:
                    problems.append({'name': 'vacuous: cover point %s unreachable' % c, 'kind': 'vacuity', 'loc': '', 'fn': h, 'status': 'unknown'})
        if problems:
            bad.append((t, r, problems))
        if verbose or os.environ.get('VP_V'):
            nt = sum(r.get('trivial', {}).values())
            print('%-34s %-4s obs=%d triv=%d paths=%d restarts=%d wall=%.1f solver=%.1f q=%d cuts=%s' %
                  (h, 'OK' if not problems else 'BAD', len(r['obs']), nt, r['paths'], r['restarts'], r['wall'], r.get('stats', {}).get('solver_s', 0),
                   r.get('stats', {}).get('queries', 0), len(r.get('invs', {}))))
            for o in problems[:12]:
                print('     %s %s %s %s %s' % (o['status'], o['kind'], o['name'], o['loc'], [(i[1], i[2][:80] if isinstance(i[2], str) else hex(i[2])) for i in (o.get('inputs') or [])][:12]))
            sys.stdout.flush()
    rc = 0
    viol = 0
    natinfo = {}
    exes = {}
    cmderr = None
    if bad:
        rc, viol, cmderr = report(pid, bad, work, seed, t0, exes, only)
    if tier == 'thorough' and not bad:
        for f in sorted(set(t[0] for t in tasks)):
            exe, err = build_native(f, work)
            if not exe:
                print('ERROR: native build failed', err[-2000:])
                return 2
            hs = [t for t in tasks if t[0] == f]

            def nat(t):
                o = os.path.join(work, t[2] + '.rnd')
                return t, native_random(exe, t[2], seed, 20, o), o
            with cf.ThreadPoolExecutor(8) as ex:
                for t, (failed, out, n), o in ex.map(nat, hs):
                    natinfo[t[2]] = n
                    if failed and not any(k[0].startswith(t[2][2:] + ':') for k in kf):
                        rp = save_replay(pid, t[2], open(o).read() + '\n' + '\n'.join('# native: ' + l for l in out.split('\n')))
                        print('VIOLATION property=%s replay=%s' % (pid, rp))
                        rc = 1
                        viol += 1
    for (k, txt) in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, txt))
    if not only:
        evidence(pid, tier, seed, tasks, results, boundednotes, nob, ndis, ntriv, solver, queries, natinfo, t0, viol, kfhit)
    if rc == 0:
        print('%s: %d obligations, %d discharged (%d by simplification), %d harnesses, %.1fs' % (pid, nob, ndis, ntriv, len(tasks), time.time() - t0))
    return rc


def save_replay(pid, h, text):
    d = os.path.join(V, 'build', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s_%s.txt' % (pid, h[2:]))
    with open(p, 'w') as f:
        f.write(text)
    return p


def report(pid, bad, work, seed, t0, exes, only):
    """confirm failures against the real code"""
    viol = 0
    deadline = t0 + 780
    first = None
    nbuild = {}
    for t, r, problems in bad:
        f = t[0]
        if f not in nbuild:
            nbuild[f] = build_native(f, work)
    confirmed = False
    # 1. verifier counterexamples   2. random search   3. bounded symbolic search
    for t, r, problems in bad:
        exe, err = nbuild[t[0]]
        h = t[2]
        if not exe:
            continue
        tried = 0
        for o in problems:
            if o.get('inputs') is not None and tried < 6:
                tried += 1
                p = os.path.join(work, 'cex.txt')
                write_replay(p, h, o)
                ok, out = native_replay(exe, h, p)
                if ok:
                    write_replay(p, h, o, out)
                    rp = save_replay(pid, h, open(p).read())
                    print('failed obligation: %s [%s] at %s (harness %s)' % (o['name'], o['kind'], o['loc'], h[2:]))
                    print('VIOLATION property=%s replay=%s' % (pid, rp))
                    viol += 1
                    confirmed = True
                    break
    if not confirmed:
        cands = [b for b in bad if nbuild[b[0][0]][0]]

        def rnd(b):
            t = b[0]
            o = os.path.join(work, t[2] + '.rnd')
            return b, native_random(nbuild[t[0]][0], t[2], seed, 15, o), o
        with cf.ThreadPoolExecutor(8) as ex:
            for b, (failed, out, n), o in ex.map(rnd, cands[:16]):
                if failed and not confirmed:
                    p = b[2][0]
                    print('failed obligation: %s [%s] at %s (harness %s)' % (p['name'], p['kind'], p['loc'], b[0][2][2:]))
                    rp = save_replay(pid, b[0][2], open(o).read() + '# obligation: %s\n' % p['name'] + '\n'.join('# native: ' + l for l in out.split('\n')[:100]))
                    print('VIOLATION property=%s replay=%s' % (pid, rp))
                    viol += 1
                    confirmed = True
    if not confirmed and time.time() < deadline - 100:
        def bounded(b):
            t = b[0]
            o = dict(t[3])
            o.pop('hint', None)
            o.update(bounded=1, limit=4, budget=min(150, max(20, deadline - time.time() - 60)), inv=0, timeout=15)
            return b, run_worker(t[1], t[2], o, work, '.b')
        with cf.ThreadPoolExecutor(8) as ex:
            for b, r in ex.map(bounded, [b for b in bad if nbuild[b[0][0]][0]][:8]):
                if confirmed:
                    continue
                for o in r['obs']:
                    if o['status'] == 'failed' and o.get('inputs') is not None:
                        h = b[0][2]
                        p = os.path.join(work, 'cexb.txt')
                        write_replay(p, h, o)
                        ok, out = native_replay(nbuild[b[0][0]][0], h, p)
                        if ok:
                            write_replay(p, h, o, out)
                            rp = save_replay(pid, h, open(p).read())
                            print('failed obligation: %s [%s] at %s (harness %s)' % (o['name'], o['kind'], o['loc'], h[2:]))
                            print('VIOLATION property=%s replay=%s' % (pid, rp))
                            viol += 1
                            confirmed = True
                            break
    if not confirmed:
        for t, r, problems in bad:
            for o in problems:
                if o['kind'] == 'vacuity' or 'internal' in o['name']:
                    print('ERROR: %s (%s)' % (o['name'], t[2]))
                    print(o.get('detail', ''))
                    return 2, 0, None
        t, r, problems = bad[0]
        problems = sorted(problems, key=lambda o: o['status'] != 'failed')
        o = problems[0]
        p = os.path.join(work, 'nofail.txt')
        err = nbuild[t[0]][1]
        write_replay(p, t[2], o, ('native build failed: ' + err[-1500:]) if err else '')
        with open(p, 'a') as fh:
            for tt, rr, pp in bad:
                for q in pp:
                    fh.write('# undischarged: %s %s [%s] %s at %s\n' % (tt[2], q['name'], q['kind'], q['status'], q['loc']))
        rp = save_replay(pid, t[2], open(p).read())
        print('undischarged obligation: %s [%s] at %s (harness %s)' % (o['name'], o['kind'], o['loc'], t[2][2:]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        viol += 1
    return 1, viol, None


def evidence(pid, tier, seed, tasks, results, bnotes, nob, ndis, ntriv, solver, queries, natinfo, t0, viol, kfhit):
    fns = {}
    ext, con, invs, harn, backs = set(), set(), {}, [], {}
    kinds = {}
    for t, r in zip(tasks, results):
        for n, fl in r.get('funcs', []):
            if fl.startswith(REPO + '/'):
                fns[n] = fl[len(REPO) + 1:]
        ext |= set(r.get('externals', []))
        con |= set(r.get('contracts_used', []))
        for k, v in r.get('invs', {}).items():
            invs[k] = max(invs.get(k, 0), len(v))
        for o in r['obs']:
            backs[o['backend']] = backs.get(o['backend'], 0) + 1
            kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
        for k, v in r.get('trivial', {}).items():
            kinds[k] = kinds.get(k, 0) + v
        harn.append({'name': t[2][2:], 'obligations': len(r['obs']) + sum(r.get('trivial', {}).values()), 'wall_s': round(r['wall'], 2),
                     'loops_cut_by_invariant': len(r.get('invs', {})), 'fp': t[3].get('fp', 'uf'), 'error': r['error']})
    names = sorted(fns)
    dem = sh(['c++filt'], input='\n'.join(names)).stdout.split('\n') if names else []
    flist = sorted(set('%s: %s' % (fns[n], d) for n, d in zip(names, dem)))
    fps = set(t[3].get('fp', 'uf') for t in tasks)
    assumptions = [
        'clang 18 lowers the C++ sources to LLVM IR faithfully, and the IR has the meaning of the code g++-9 -O3 emits (signed overflow wraps; no strict aliasing; type punning as written)',
        'LLVM passes sroa, mem2reg, early-cse, instsimplify, simplifycfg preserve meaning',
        'the verification-condition generator /verif/engine and the SMT solvers are correct',
        'distinct objects do not overlap; objects are smaller than 2^46 bytes; inputs sized below 2^40 bytes',
        'loops iterate fewer than 2^62 times; termination is not proved',
    ]
    if ext:
        assumptions.append('contracts of external functions: ' + ', '.join(sorted(ext)))
    if con:
        assumptions.append('callee contracts used instead of bodies: ' + ', '.join(sorted(con)))
    if 'real' in fps:
        assumptions.append('floating point arithmetic treated as exact real arithmetic in the harnesses marked fp=real')
    if 'uf' in fps:
        assumptions.append('floating point operations, where they occur in harnesses marked fp=uf, are uninterpreted functions of their operands (so results hold for any rounding)')
    if bnotes:
        assumptions.append('bounded stand-ins: ' + '; '.join('%s: %s' % (k[2:], v) for k, v in bnotes.items()))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': nob, 'discharged': ndis,
            'checker_cmd': './check %s --tier %s' % (pid, tier),
            'trusted_base': ['clang 18 front end', '/verif/engine (VC generator, loop-invariant inference by Houdini)', 'z3 5.3.2 / cvc5 1.1.2', 'contracts of external functions listed in assumptions'],
            'obligations_by_kind': kinds, 'discharged_by_simplification': ntriv, 'solver_backends': backs,
            'solver_queries': queries, 'solver_seconds': round(solver, 2),
            'harnesses': harn, 'functions_verified': flist,
            'loop_invariants': {k: v for k, v in invs.items()},
            'bounded_standins': {k[2:]: v for k, v in bnotes.items()},
            'known_findings_hit': ['%s' % (k[1],) for k in kfhit],
            'native_random_runs': natinfo,
        },
        'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': viol,
    }
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    main()
