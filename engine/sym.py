"""Deductive verification-condition generator over LLVM IR.

Executes the IR the compiler produced from the real sources on symbolic inputs (forward strongest
postconditions), path by path with merging at post-dominators, cuts loops whose trip count is not
bounded by a constant with inductive invariants (templates + Houdini), and hands every obligation to
an SMT solver.  See DESIGN.md for what is assumed.
"""
import struct
import sys
import os
import time
import math
import z3
from bvx import *
import bvx as X
from llvmir import Reg, Cst

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    pass


class NeedInvariant(Exception):
    def __init__(self, fn, h):
        self.fn, self.h = fn, h


class BudgetExceeded(Exception):
    pass


class _Undef:
    def __repr__(self):
        return 'undef'


UNDEF = _Undef()


class Region:
    _n = 0

    def __init__(self, name, size, kind, writable=True):
        Region._n += 1
        self.id = Region._n
        self.name = name
        self.size = size
        self.kind = kind      # stack heap global input func stream
        self.writable = writable
        self._addr = None
        self.fresh = None
        self.fn = None
        self.align = 16

    def __repr__(self):
        return '<%s#%d>' % (self.name, self.id)

    def base(self):
        if self.fresh is None:
            self.fresh = z3.Array('mem!%s!%d' % (self.name, self.id), z3.BitVecSort(64), z3.BitVecSort(8))
        return self.fresh


class Ptr:
    __slots__ = ('r', 'off')

    def __init__(self, r, off):
        self.r, self.off = r, off

    def __repr__(self):
        return 'Ptr(%r,%s)' % (self.r, str(self.off)[:60])


class RealV:
    """a float value in real-arithmetic mode (exact reals; width only for memory layout)"""
    __slots__ = ('e', 'w')

    def __init__(self, e, w):
        self.e, self.w = e, w


class RawReal(RealV):
    """a float given by its bits; only turned into a real where arithmetic is done on it"""
    __slots__ = ('raw', 'eng')

    def __init__(self, raw, w, eng):
        self.raw, self.w, self.eng = raw, w, eng

    @property
    def e(self):
        if isinstance(self.raw, int):
            return self.eng.realconst(self.raw, self.w).e
        return self.eng.real_of_bits(self.raw, self.w).e


class RealBits:
    """bits of a RealV reinterpreted as an integer, e.g. for sign-mask operations; g: condition under which they
    can be other than zero (masks)"""
    __slots__ = ('v', 'w', 'g')

    def __init__(self, v, w, g=None):
        self.v, self.w, self.g = v, w, g


def rbits(x):
    if isinstance(x, RawReal):
        return x.raw
    return RealBits(x, x.w) if isinstance(x, RealV) else x


class MemObj:
    __slots__ = ('cells', 'base', 'flushed', 'last')

    def __init__(self, base=None):
        self.cells = {}
        self.base = base
        self.flushed = None
        self.last = None      # (array, offset, size, value) of the newest store at a symbolic offset

    def clone(self):
        m = MemObj(self.base)
        m.cells = dict(self.cells)
        m.flushed = self.flushed
        m.last = self.last
        return m


class Fold:
    pass


class Inv:
    pass


class All:
    """for all ix < n: f(ix), used at the indices at which region r (from off) is read"""
    def __init__(self, r, off, n, py=None, fn=None, ctx=None, st=None):
        self.st = st      # f speaks about the state in which it was assumed
        self.r, self.off, self.n, self.py, self.fn, self.ctx = r, off, n, py, fn, ctx


class Stream:
    __slots__ = ('data', 'size', 'g', 'p', 'fail')

    def clone(self):
        s = Stream()
        s.data, s.size, s.g, s.p, s.fail = self.data, self.size, self.g, self.p, self.fail
        return s


class State:
    __slots__ = ('mem', 'own', 'pc', 'ghosts', 'freed', 'streams', 'symcnt', 'tags', 'feas', 'alls', 'insts', 'touched')

    def __init__(self):
        self.mem = {}
        self.own = set()
        self.pc = []
        self.ghosts = []
        self.freed = frozenset()
        self.streams = {}
        self.symcnt = {}
        self.alls = ()
        self.touched = ()
        self.insts = frozenset()
        self.tags = {}
        self.feas = True

    def fork(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        self.own = set()
        s.own = set()
        s.pc = list(self.pc)
        s.ghosts = list(self.ghosts)
        s.freed = self.freed
        s.streams = {k: v.clone() for k, v in self.streams.items()}
        s.symcnt = dict(self.symcnt)
        s.alls = self.alls
        s.touched = self.touched
        s.insts = self.insts
        s.tags = dict(self.tags)
        s.feas = self.feas
        return s

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                self.pc.append(z3.BoolVal(False))
                self.feas = False
            return
        self.pc.append(c)


class Act:
    """one activation of a function"""
    _n = 0

    def __init__(self, fn, depth):
        Act._n += 1
        self.id = Act._n
        self.fn = fn
        self.depth = depth
        self.cuts = {}
        self.limitset = None


class Ob:
    __slots__ = ('name', 'kind', 'loc', 'status', 'backend', 'time', 'inputs', 'detail', 'fnname', 'q')


def _get_id(self):
    d = self.__dict__
    i = d.get('_gid')
    if i is None:
        i = d['_gid'] = z3.Z3_get_ast_id(z3.main_ctx().ref(), self.as_ast())
    return i


for _c in (z3.AstRef, z3.ExprRef, z3.SortRef, z3.FuncDeclRef, z3.QuantifierRef):
    if 'get_id' in _c.__dict__:
        _c.get_id = _get_id


class Engine:
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.opts = {'fp': 'uf', 'limit': 70, 'merge': 1, 'timeout': 20, 'feas_ms': 2000, 'budget': 600,
                     'maxdepth': 200, 'bounded': 0, 'conc': 0, 'affine': 0, 'frame': 0, 'prune': 0, 'inv': 1, 'uninit': 1, 'maxinst': 20000000}
        if opts:
            self.opts.update(opts)
        self.fp = self.opts['fp']
        self.obs = []
        self.hq = {}
        self.ain = {}
        self.hd = {}
        self.absd = {}
        self.wt = {}
        self.in_all = False
        self._keepix = []
        self.covers = {}
        self.inputs = []
        self.incount = {}
        self.sizes = set()
        self.regions = {}
        self.gregions = {}
        self.fregions = {}
        self.addrs = {}
        self.axioms = []
        self.suppress = 0
        self.wlog = None
        self.wlogx = None
        self.frames = {}
        self.framedmemo = {}
        self.cut = set()
        self.fresh_n = 0
        self.funcs_seen = set()
        self.contracts_used = set()
        self.externals_used = set()
        self.invs_used = {}
        self.stats = {'queries': 0, 'solver_s': 0.0, 'inst': 0, 'trivial': 0, 'paths': 0, 'loops_cut': 0, 'loops_unrolled': set()}
        self.trivial_by_kind = {}
        self.t0 = time.time()
        self.gcache = {}
        self.hooks = {}
        self.ufs = {}
        self.curinst = None
        self.loopstack = []
        self.fail_fast = False
        self.deadline = self.t0 + self.opts['budget']
        import builtins_ir
        self.B = builtins_ir.Builtins(self)

    # ------------------------------------------------------------------ util
    def fresh(self, name, w):
        self.fresh_n += 1
        if w == 1:
            return z3.Bool('%s!%d' % (name, self.fresh_n))
        return z3.BitVec('%s!%d' % (name, self.fresh_n), w)

    def region(self, name, size, kind, writable=True):
        r = Region(name, size, kind, writable)
        self.regions[r.id] = r
        return r

    def addr(self, r):
        if r is None:
            return 0
        if r._addr is None:
            r._addr = z3.BitVec('addr!%s!%d' % (r.name, r.id), 64)
            self.addrs[r._addr.get_id()] = r
            a = r._addr
            sz = bv(r.size if r.size is not None else 64, 64)
            self.axioms.append((r, z3.And(z3.ULT(a, z3.BitVecVal(1 << 46, 64)), z3.UGT(a, z3.BitVecVal(4095, 64)),
                                      z3.Extract(3, 0, a) == 0, z3.ULT(sz, z3.BitVecVal(1 << 46, 64)))))
        return r._addr

    def axiom(self, y, fact):
        """a fact about the term y, part of every query that mentions y"""
        if y.get_id() not in self.addrs:
            d = Region.__new__(Region)
            self.fresh_n += 1
            d.id, d.size = 'ax%d' % self.fresh_n, 1
            self.addrs[y.get_id()] = d
            self._keepix.append(y)
            self.axioms.append((d, fact))

    def addrs_in(self, c):
        """address constants occurring in c"""
        h = self.ain.get(c.get_id())
        if h is not None:
            return h[1]
        r = set()
        todo, seen = [c], set()
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if i in self.addrs:
                r.add(self.addrs[i].id)
            if z3.is_quantifier(x):
                todo.append(x.body())
            else:
                todo.extend(x.children())
        self.ain[c.get_id()] = (c, r)
        return r

    def feed(self, s, cons):
        """assert cons and the address axioms they need, without duplicates"""
        ctx, h = s.ctx.ref(), s.solver
        used, done = set(), set()
        raw = z3.Z3_solver_assert
        for c in cons:
            if isinstance(c, bool):
                c = z3.BoolVal(c)
            i = c.get_id()
            if i in done:
                continue
            done.add(i)
            raw(ctx, h, c.as_ast())
            if self.axioms:
                used |= self.addrs_in(c)
        for r, x in self.axioms:
            if r.id in used or not (r.size is None or isinstance(r.size, int)):
                z3.Z3_solver_assert(ctx, h, x.as_ast())


    def loc(self):
        i = self.curinst
        if i is None:
            return '?'
        return '%s:%d' % ((i.file or '?').replace('/repo/', ''), i.line)

    def check(self, cons, ms=None, want_model=False, first=1200, mbqi=True):
        """returns 'sat','unsat','unknown' (+model).  z3 in process first, then other solvers side by side."""
        if time.time() > self.deadline:
            raise BudgetExceeded()
        ms = int(ms or self.opts['timeout'] * 1000)
        if any(self.has_div(c) for c in cons if not isinstance(c, bool)):
            acons = self.abstract_div(cons)
            s = z3.Solver()
            s.set('timeout', min(ms, 4000))
            self.feed(s, acons)
            t = time.time()
            r = self._api(s)
            dt = time.time() - t
            self.stats['queries'] += 1
            self.stats['solver_s'] += dt
            if r == 'unsat' or not want_model and ms <= 2500:
                self.last_backend = 'z3'
                return (r, None, dt, s) if want_model else r
        s = z3.Solver()
        s.set('timeout', min(ms, first))
        if not mbqi:
            s.set('smt.mbqi', False)
        self.feed(s, cons)
        t = time.time()
        r, be = self._api(s), 'z3'
        if r == 'unknown' and ms > first:
            timed_out = time.time() - t >= min(ms, first) / 1000.0 * 0.9
            if timed_out or mbqi:
                r, be = self.portfolio(s, ms)
                if r == 'sat' and want_model or r == 'unknown' and be is None:
                    s.set('timeout', ms)
                    r2 = self._api(s)
                    if r2 != 'unknown':
                        r, be = r2, 'z3'
        dt = time.time() - t
        self.stats['queries'] += 1
        self.stats['solver_s'] += dt
        self.last_backend = be or 'z3'
        if want_model:
            m = None
            if r == 'sat':
                try:
                    m = s.model()
                except z3.Z3Exception:
                    m = None
            return r, m, dt, s
        return r

    DIVS = (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I, z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I)

    def has_div(self, c):
        """c divides by something that is not a constant"""
        h = self.hd.get(c.get_id())
        if h is not None:
            return h[1]
        r = False
        todo, seen = [c], set()
        while todo and not r:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                todo.append(x.body())
            elif z3.is_app(x):
                if x.decl().kind() in self.DIVS and not z3.is_bv_value(x.arg(1)):
                    r = True
                todo.extend(x.children())
        self.hd[c.get_id()] = (c, r)
        return r

    def abstract_div(self, cons):
        """the constraints with division by variables replaced by uninterpreted functions and some of their
        properties: a weaker set, whose unsatisfiability carries over"""
        side = {}

        def rw(x):
            h = self.absd.get(x.get_id())
            if h is not None:
                side.update(h[2])
                return h[1]
            if z3.is_quantifier(x) or z3.is_var(x):
                y, sd = x, {}
            else:
                before = dict(side)
                side.clear()
                ch = [rw(a) for a in x.children()]
                k = x.decl().kind()
                if k in self.DIVS and not z3.is_bv_value(x.arg(1)):
                    w = x.size()
                    so = z3.BitVecSort(w)
                    rem = k in self.DIVS[:2]
                    y = z3.Function('%s!%d' % ('urem' if rem else 'udiv', w), so, so, so)(*ch)
                    a, b = ch
                    if rem:
                        f = z3.And(z3.Implies(b != 0, z3.ULT(y, b)), z3.ULE(y, a), z3.Implies(z3.ULT(a, b), y == a))
                    else:
                        f = z3.Implies(b != 0, z3.And(z3.ULE(y, a), z3.Implies(z3.ULT(a, b), y == 0)))
                    side[y.get_id()] = f
                elif not ch:
                    y = x
                else:
                    same = all(p.get_id() == q.get_id() for p, q in zip(ch, x.children()))
                    y = x if same else x.decl()(*ch)
                sd = dict(side)
                side.update(before)
            self.absd[x.get_id()] = (x, y, sd)
            return y
        out = []
        for c in cons:
            if isinstance(c, bool):
                c = z3.BoolVal(c)
            out.append(rw(c) if self.has_div(c) else c)
        return out + list(side.values())

    def _api(self, s):
        try:
            return str(s.check())
        except z3.Z3Exception:
            return 'unknown'

    def portfolio(self, s, ms):
        """(answer, backend); backend None where no other solver could take the query"""
        import subprocess
        import tempfile
        try:
            txt = s.to_smt2().replace('(set-info :status', '; (set-info :status')
        except z3.Z3Exception:
            return 'unknown', None
        procs = []
        f1 = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
        f1.write(txt)
        f1.close()
        f2 = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
        f2.write('(set-logic ALL)\n' + txt)
        f2.close()
        ans, be = 'unknown', None
        secs = max(1, int(ms / 1000 + 0.5))
        try:
            for name, cmd in (('z3-4.8.12', ['z3', '-T:%d' % secs, '-memory:4000', f1.name]),
                              ('cvc5', ['cvc5', '--tlimit=%d' % ms, '--lang=smt2', f2.name])):
                try:
                    procs.append((name, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
                except OSError:
                    pass
            end = time.time() + ms / 1000.0 + 3
            live = list(procs)
            while live and time.time() < end and ans == 'unknown':
                time.sleep(0.01)
                for np in list(live):
                    if np[1].poll() is not None:
                        live.remove(np)
                        o = np[1].stdout.read().strip().split('\n')[0]
                        if o in ('sat', 'unsat'):
                            ans, be = o, np[0]
                            break
                        if o in ('timeout', 'unknown') or 'interrupted' in o:
                            be = be or np[0]
        finally:
            for _, p in procs:
                if p.poll() is None:
                    p.kill()
                p.wait()
                p.stdout.close()
            os.unlink(f1.name)
            os.unlink(f2.name)
        return ans, be

    def feasible(self, st, extra=None):
        cons = [c for c in st.pc if not self.has_quant(c)]
        if extra is not None:
            if isinstance(extra, bool):
                if not extra:
                    return False
            elif not self.has_quant(extra):
                cons.append(extra)
        small = [c for c in cons if self.weight(c) <= 60]
        if len(small) < len(cons) and any(self.weight(c) > 300 for c in cons):
            # dropping premises can only make more paths look feasible
            if self.check(small, 300, first=99999) == 'unsat':
                return False
            if extra is not None and not isinstance(extra, bool) and self.weight(extra) <= 60:
                return True
        return self.check(cons, self.opts['feas_ms'], first=99999) != 'unsat'

    def simpc(self, c):
        if isinstance(c, bool):
            return c
        return lift(z3.simplify(c))

    # ----------------------------------------------------------- obligations
    def oblige(self, st, cond, name, kind):
        """obligation: cond holds in st.  Afterwards cond is assumed."""
        if isinstance(cond, bool) and cond:
            if not self.suppress:
                self.stats['trivial'] += 1
                self.trivial_by_kind[kind] = self.trivial_by_kind.get(kind, 0) + 1
            return
        if self.suppress:
            st.assume(cond)
            return
        c = self.simpc(cond)
        if isinstance(c, bool) and c:
            self.stats['trivial'] += 1
            self.trivial_by_kind[kind] = self.trivial_by_kind.get(kind, 0) + 1
            return
        o = Ob()
        o.name, o.kind, o.loc = name, kind, self.loc()
        o.fnname = self.curinst.fn.name if self.curinst is not None else ''
        o.inputs = None
        o.detail = ''
        neg = z3.BoolVal(True) if isinstance(c, bool) else z3.Not(c)
        o.q = (list(st.pc), neg, list(self.inputs))
        o.status, o.backend, o.time = 'unknown', None, 0.0
        o.detail = 'not attempted (time budget)'
        self.obs.append(o)
        st.assume(c)

    def solve_all(self):
        """discharge the obligations collected along the exploration"""
        for o in self.obs:
            if o.q is not None:
                self.solve_ob(o)
                o.q = None

    def solve_ob(self, o):
        pc, neg, inputs = o.q
        qf = [c for c in pc if not self.has_quant(c)]
        o.time = 0.0
        r = 'unknown'
        o.backend = 'z3'
        m = None
        small = [c for c in qf if self.weight(c) <= 60]
        if len(small) < len(pc) and self.weight(neg) <= 200 and any(self.weight(c) > 300 for c in qf):
            # premises of a large term (contents, spec functions) are mostly not needed
            r, m, dt, s = self.check(small + [neg], 1500, want_model=True, first=99999)
            o.time += dt
            if r == 'unsat':
                o.status, o.detail, o.backend = 'discharged', '', self.last_backend
                return
            r, m = 'unknown', None
        if len(qf) != len(pc):
            r, m, dt, s = self.check(qf + [neg], 5000, want_model=True)
            o.time += dt
            if r != 'unsat':
                r = 'unknown'
        if r == 'unknown':
            r, m, dt, s = self.check(pc + [neg], want_model=True)
            o.time += dt
        o.backend = self.last_backend
        if r == 'unsat':
            o.status, o.detail = 'discharged', ''
        elif r == 'sat':
            o.status, o.detail = 'failed', ''
            if m is not None:
                for bound in (40, 4096):
                    small = [z3.ULE(t, bound) for (nm, kd, t, sz) in inputs if kd == 'u' and nm in self.sizes and not isinstance(t, int)]
                    if not small or len(qf) != len(pc):
                        break
                    r3, m3, _, _ = self.check(pc + [neg] + small, 8000, want_model=True)
                    if m3 is not None:
                        m = m3
                        break
                o.inputs = self.model_inputs(m, inputs)
                o.detail = self.model_text(m)
        else:
            o.status = 'unknown'
            o.detail = 'solver gave no answer'

    def weight(self, c):
        """number of distinct subterms (capped)"""
        h = self.wt.get(c.get_id())
        if h is not None:
            return h[1]
        todo, seen = [c], set()
        while todo and len(seen) < 400:
            x = todo.pop()
            i = x.get_id()
            if i not in seen:
                seen.add(i)
                if z3.is_app(x):
                    todo.extend(x.children())
                else:
                    seen |= set(range(-500, 0))
        self.wt[c.get_id()] = (c, len(seen))
        return len(seen)

    def has_quant(self, c):
        h = self.hq.get(c.get_id())
        if h is not None:
            return h[1]
        r = False
        todo, seen = [c], set()
        while todo and not r:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                if not x.is_lambda():
                    r = True
            elif z3.is_app(x):
                k = self.hq.get(i)
                if k is not None:
                    r = r or k[1]
                    continue
                todo.extend(x.children())
        self.hq[c.get_id()] = (c, r)
        return r

    def model_inputs(self, m, inputs):
        out = []
        for (name, kind, term, size) in inputs:
            try:
                if kind == 'u':
                    v = m.eval(bv(term, size), model_completion=True).as_long() if not isinstance(term, int) else term
                    out.append(('u', name, v))
                elif kind == 'b':
                    n = size if isinstance(size, int) else m.eval(size, model_completion=True).as_long()
                    n2 = min(n, 1 << 13)
                    bs = bytes(m.eval(z3.Select(term, z3.BitVecVal(i, 64)), model_completion=True).as_long() for i in range(n2))
                    out.append(('b', name, bs, n))
            except Exception as e:
                out.append(('x', name, str(e)))
        return out

    def model_text(self, m):
        try:
            return str(m)[:4000]
        except Exception:
            return ''

    # ---------------------------------------------------------------- memory
    def alloc(self, st, name, size, kind, writable=True):
        r = self.region(name, size, kind, writable)
        st.mem[r.id] = MemObj()
        st.own.add(r.id)
        return r

    def mobj(self, st, r, write=False):
        m = st.mem.get(r.id)
        if m is None:
            m = MemObj()
            if r.kind in ('global',):
                self.B.init_global(st, r, m)
            st.mem[r.id] = m
            st.own.add(r.id)
        if write and r.id not in st.own:
            m = m.clone()
            st.mem[r.id] = m
            st.own.add(r.id)
        return m

    def vbytes(self, v, size):
        """value -> list of byte terms, little endian"""
        if isinstance(v, int):
            return [(v >> (8 * i)) & 255 for i in range(size)]
        if isinstance(v, bool):
            return [int(v)]
        if isinstance(v, Ptr):
            v = self.p2i(v)
            if isinstance(v, int):
                return self.vbytes(v, size)
            return [extract(v, 8 * i + 7, 8 * i, 64) for i in range(size)]
        if v is UNDEF:
            return [self.fresh('undef', 8) for _ in range(size)]
        if isinstance(v, (RealV, RealBits)):
            raise Unsupported('byte view of a real-mode float')
        w = v.size()
        return [extract(v, 8 * i + 7, 8 * i, w) for i in range(size)]

    def split_cell(self, m, o):
        sz, v = m.cells.pop(o)
        for i, b in enumerate(self.vbytes(v, sz)):
            m.cells[o + i] = (1, b)

    def read_byte(self, r, m, off):
        c = m.cells.get(off)
        if c is not None:
            sz, v = c
            if sz == 1:
                return v if not isinstance(v, Ptr) else None
            return self.vbytes(v, sz)[0]
        for k in range(1, 16):
            c = m.cells.get(off - k)
            if c is not None:
                if c[0] > k:
                    return self.vbytes(c[1], c[0])[k]
        return self.base_byte(r, m, off)

    def base_byte(self, r, m, off):
        b = m.base
        if b is None:
            b = r.base()
        elif isinstance(b, (bytes, bytearray)):
            return b[off] if 0 <= off < len(b) else 0
        if self.frames:
            return self.select(b, off)
        e = z3.simplify(z3.Select(b, z3.BitVecVal(off, 64)))
        return lift(e)

    def framed(self, arr):
        """does the array term rest on a loop's partly changed region?"""
        i = arr.get_id()
        v = self.framedmemo.get(i)
        if v is None:
            if i in self.frames:
                v = True
            elif z3.is_quantifier(arr):
                v = False
            elif kind(arr) == z3.Z3_OP_STORE:
                v = self.framed(arr.arg(0))
            elif kind(arr) == z3.Z3_OP_ITE:
                v = self.framed(arr.arg(1)) or self.framed(arr.arg(2))
            else:
                v = False
            self.framedmemo[i] = v
            self._keepix.append(arr)
        return v

    def select(self, arr, ix):
        """byte of an array; where a loop has changed only [lo, lo+len) the others come from before the loop"""
        b = bv(ix, 64)
        if not self.framed(arr):
            return lift(z3.simplify(z3.Select(arr, b))) if isinstance(ix, int) else lift(z3.Select(arr, b))
        f = self.frames.get(arr.get_id())
        if f is not None:
            inside = cmp('ult', sub(ix, f[1], 64), f[2], 64)
            if not isinstance(inside, bool):
                inside = simp(inside)
            if isinstance(inside, bool):
                return lift(z3.Select(arr, b)) if inside else self.select(f[3], ix)
            return ite(inside, lift(z3.Select(arr, b)), self.select(f[3], ix), 8)
        if kind(arr) == z3.Z3_OP_STORE:
            e = simp(cmp('eq', lift(arr.arg(1)), ix, 64)) if not (isinstance(lift(arr.arg(1)), int) and isinstance(ix, int)) else lift(arr.arg(1)) == ix & X.mask(64)
            if isinstance(e, bool):
                return lift(arr.arg(2)) if e else self.select(arr.arg(0), ix)
            return ite(e, lift(arr.arg(2)), self.select(arr.arg(0), ix), 8)
        return ite(lift(arr.arg(0)), self.select(arr.arg(1), ix), self.select(arr.arg(2), ix), 8)

    def read(self, st, r, off, size):
        m = self.mobj(st, r)
        if isinstance(off, int):
            off = X.sgn(off, 64)
            c = m.cells.get(off)
            if c is not None and c[0] == size:
                return c[1]
            # several whole cells of non-integer content -> bytes
            bs = [self.read_byte(r, m, off + i) for i in range(size)]
            if size == 1:
                return bs[0]
            return concat([(b, 8) for b in reversed(bs)])
        l = m.last
        if l is not None and l[0] is m.base and not m.cells and l[2] == size and z3.eq(bv(l[1], 64), bv(off, 64)):
            return l[3]
        arr = self.flush(r, m)
        if self.frames and self.framed(arr):
            bs = [self.select(arr, add(off, i, 64)) for i in range(size)]
        else:
            bs = [lift(z3.Select(arr, bv(add(off, i, 64), 64))) for i in range(size)]
        if isinstance(m.base, (bytes, bytearray)) and not m.cells:
            pass
        if size == 1:
            return bs[0]
        return concat([(b, 8) for b in reversed(bs)])

    def flush(self, r, m):
        """array term for the current contents (pointer cells become their integer addresses)"""
        if m.flushed is not None:
            return m.flushed
        b = m.base
        if b is None:
            b = r.base()
        elif isinstance(b, (bytes, bytearray)):
            a = self.gcache.get(('carr', r.id))
            if a is None:
                a = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8))
                for i, x in enumerate(b):
                    if x:
                        a = z3.Store(a, z3.BitVecVal(i, 64), z3.BitVecVal(x, 8))
                self.gcache[('carr', r.id)] = a
            b = a
        for o in sorted(m.cells):
            sz, v = m.cells[o]
            if isinstance(v, (RealV, RealBits)):
                raise Unsupported('symbolic index into real-mode floats')
            for i, x in enumerate(self.vbytes(v, sz)):
                b = z3.Store(b, z3.BitVecVal((o + i) & X.mask(64), 64), bv(x, 8))
        m.flushed = b
        return b

    def clear_range(self, m, off, size):
        for k in range(1, 16):
            c = m.cells.get(off - k)
            if c is not None and c[0] > k:
                self.split_cell(m, off - k)
        i = 0
        while i < size:
            c = m.cells.get(off + i)
            if c is not None:
                if c[0] > size - i:
                    self.split_cell(m, off + i)
                    c = m.cells[off + i]
                del m.cells[off + i]
                i += c[0]
            else:
                i += 1

    def write(self, st, r, off, size, v):
        m = self.mobj(st, r, True)
        if self.wlog is not None:
            self.wlog.append((r.id, X.sgn(off, 64) if isinstance(off, int) else None, size))
        if self.wlogx is not None:
            self.wlogx.append((r.id, off, size))
        if isinstance(off, int):
            off = X.sgn(off, 64)
            c = m.cells.get(off)
            if c is None or c[0] != size:
                self.clear_range(m, off, size)
            m.cells[off] = (size, v)
            m.flushed = None
            return
        ptrs = {o: c for o, c in m.cells.items() if isinstance(c[1], Ptr)}
        for o, c in list(ptrs.items()):
            # keep pointer cells that provably do not overlap
            ov = z3.And(z3.ULT(bv(off, 64), z3.BitVecVal(o + 8, 64)), z3.ULT(z3.BitVecVal(o, 64), bv(off, 64) + size))
            if self.check(st.pc + [ov], 3000) != 'unsat':
                del ptrs[o]
        arr = self.flush(r, m)
        for i, b in enumerate(self.vbytes(v, size)):
            arr = z3.Store(arr, bv(add(off, i, 64), 64), bv(b, 8))
        m.base = arr
        m.cells = dict(ptrs)
        m.flushed = arr if not ptrs else None
        m.last = (arr, off, size, v) if not isinstance(v, Ptr) else None

    def set_array(self, st, r, arr, keep=None):
        """replace whole contents by an array term (range unknown)"""
        m = self.mobj(st, r, True)
        if self.wlog is not None:
            self.wlog.append((r.id, None, 1))
        if self.wlogx is not None:
            self.wlogx.append((r.id, None, 1))
        m.base = arr
        m.cells = dict(keep) if keep else {}
        m.flushed = arr if not keep else None

    def access(self, st, p, size, write, what=None):
        """memory safety obligation for an access; returns region"""
        if p is UNDEF:
            self.oblige(st, False, 'access through an undefined pointer', 'memory')
            return None
        if not isinstance(p, Ptr):
            raise Unsupported('access through non-pointer %r' % (p,))
        r = p.r
        if r is None:
            self.oblige(st, False, 'null/invalid pointer dereference', 'memory')
            return None
        if r.kind == 'func':
            raise Unsupported('data access to function')
        if r.id in st.freed:
            self.oblige(st, False, 'use after free of ' + r.name, 'memory')
        if write and not r.writable:
            self.oblige(st, False, 'write to read-only ' + r.name, 'memory')
        off = p.off
        if isinstance(off, int) and isinstance(size, int) and isinstance(r.size, int):
            ok = 0 <= X.sgn(off, 64) and X.sgn(off, 64) + size <= r.size
            self.oblige(st, ok, 'in-bounds %s of %s' % ('write' if write else 'read', r.name), 'memory')
        else:
            n = bv(size, 64)
            o = bv(off, 64)
            s = bv(r.size, 64)
            if isinstance(size, int) and size == 1:
                c = z3.ULT(o, s)
            else:
                c = z3.And(z3.ULE(n, s), z3.ULE(o, s - n))
            self.oblige(st, c, 'in-bounds %s of %s' % ('write' if write else 'read', r.name), 'memory')
        return r

    def p2i(self, p):
        if p is UNDEF:
            return self.fresh('undef', 64)
        if p.r is None:
            return p.off
        return add(self.addr(p.r), p.off, 64) if not isinstance(p.off, int) or p.off else self.addr(p.r)

    def i2p(self, v):
        if isinstance(v, int):
            return Ptr(None, v)
        v = lift(z3.simplify(v))
        if isinstance(v, int):
            return Ptr(None, v)
        r = self.addrs.get(v.get_id())
        if r is not None:
            return Ptr(r, 0)
        if kind(v) == z3.Z3_OP_BADD:
            for i in range(v.num_args()):
                a = v.arg(i)
                r = self.addrs.get(a.get_id())
                if r is not None:
                    off = lift(z3.simplify(v - a))
                    return Ptr(r, off)
        return Ptr(None, v)

    # type-directed load/store
    def load(self, st, p, ty):
        k = ty.kind
        if k == 'vector':
            es = ty.elem.store
            return [self.load(st, Ptr(p.r, add(p.off, i * es, 64)), ty.elem) for i in range(ty.n)]
        if k == 'struct':
            return [self.load(st, Ptr(p.r, add(p.off, o, 64)), t) for o, t in zip(ty.offs, ty.fields)]
        if k == 'array':
            return [self.load(st, Ptr(p.r, add(p.off, i * ty.elem.size, 64)), ty.elem) for i in range(ty.n)]
        n = ty.store
        r = self.access(st, p, n, False)
        if r is None:
            return UNDEF
        if n == 8 and self.fp == 'real' and isinstance(p.off, int):
            m = st.mem.get(r.id)
            cs = [m.cells.get(p.off + i) for i in (0, 4)] if m is not None else [None]
            if all(c is not None and c[0] == 4 for c in cs) and any(isinstance(c[1], (RealV, RealBits)) for c in cs):
                # two adjacent floats moved as one
                return PackedReal([rbits(c[1]) for c in cs], 32)
        v = self.read(st, r, p.off, n)
        if st.alls and not self.in_all:
            self.instantiate(st, r, p.off, n)
        return self.from_mem(v, ty, n)

    def add_alls(self, st, *gs):
        st.alls = st.alls + gs
        for r, off in st.touched:
            self.instantiate(st, r, off, 1)

    def instantiate(self, st, r, off, n):
        """universally quantified assumptions of the harness, at the index being read"""
        for g in st.alls:
            if g.r is not r:
                continue
            for b in range(n):
                ix = sub(add(off, b, 64), g.off, 64)
                if not isinstance(ix, int):
                    ix = simp(ix)
                key = (id(g), ix if isinstance(ix, int) else ix.get_id())
                if key in st.insts:
                    continue
                guard = cmp('ult', ix, g.n, 64)
                if isinstance(guard, bool) and not guard:
                    continue
                self.in_all = True
                try:
                    f = g.py(ix) if g.py else self.eval_bool(g.st if g.st is not None else st, g.fn, [g.ctx, ix])
                finally:
                    self.in_all = False
                st.insts = st.insts | {key}
                self._keepix.append(ix)
                st.assume(bor_(bnot(guard), f))

    def from_mem(self, v, ty, n):
        k = ty.kind
        if v is UNDEF:
            return v
        if k == 'ptr':
            if isinstance(v, Ptr):
                return v
            return self.i2p(v)
        if k == 'int':
            if isinstance(v, Ptr):
                v = self.p2i(v)
            if isinstance(v, RawReal):
                return v.raw
            if isinstance(v, RealV):
                return RealBits(v, v.w)
            if isinstance(v, RealBits):
                return v
            if ty.width == 1:
                if isinstance(v, bool):
                    return v
                if isinstance(v, int):
                    return bool(v & 1)
                return cmp('ne', extract(v, 0, 0, 8), 0, 1)
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, z3.BoolRef):
                return ite(v, 1, 0, n * 8)
            if ty.width < n * 8:
                return trunc(v, n * 8, ty.width)
            return v
        if ty.is_fp:
            if self.fp == 'real':
                if isinstance(v, RealV):
                    return v
                if isinstance(v, RealBits):
                    return v.v
                if isinstance(v, int):
                    try:
                        return self.realconst(v, ty.width)
                    except Unsupported:
                        pass
                return RawReal(v, ty.width, self)
            if isinstance(v, Ptr):
                v = self.p2i(v)
            return v
        raise Unsupported('load of ' + ty.name)

    def real_of_bits(self, v, w):
        """reading a float whose bytes are symbolic in real mode: uninterpreted bits->real"""
        f = self.uf('bits2real%d' % w, [z3.BitVecSort(w)], z3.RealSort())
        return RealV(f(v), w)

    def realconst(self, bits, w):
        d = struct.unpack('<f', struct.pack('<I', bits))[0] if w == 32 else struct.unpack('<d', struct.pack('<Q', bits))[0]
        if d != d or d in (float('inf'), float('-inf')):
            raise Unsupported('non-finite constant in real mode')
        from fractions import Fraction
        fr = Fraction(d)
        # decimal literals written in the source are rounded by the compiler; keep the exact double
        return RealV(z3.Q(fr.numerator, fr.denominator), w)

    def uf(self, name, dom, rng):
        f = self.ufs.get(name)
        if f is None:
            f = z3.Function(name, *dom, rng)
            self.ufs[name] = f
        return f

    def store(self, st, p, v, ty):
        k = ty.kind
        if k == 'vector':
            es = ty.elem.store
            if ty.elem.kind == 'int' and ty.elem.width == 1:
                raise Unsupported('store of i1 vector')
            for i in range(ty.n):
                self.store(st, Ptr(p.r, add(p.off, i * es, 64)), v[i] if v is not UNDEF else UNDEF, ty.elem)
            return
        if k == 'struct':
            for i, (o, t) in enumerate(zip(ty.offs, ty.fields)):
                self.store(st, Ptr(p.r, add(p.off, o, 64)), v[i] if v is not UNDEF else UNDEF, t)
            return
        if k == 'array':
            for i in range(ty.n):
                self.store(st, Ptr(p.r, add(p.off, i * ty.elem.size, 64)), v[i] if v is not UNDEF else UNDEF, ty.elem)
            return
        n = ty.store
        r = self.access(st, p, n, True)
        if r is None:
            return
        if isinstance(v, PackedReal):
            for i, x in enumerate(v.parts):
                self.write(st, r, add(p.off, i * v.w // 8, 64), v.w // 8, x.v if isinstance(x, RealBits) else x)
            return
        if isinstance(v, RawReal):
            v = v.raw
        if v is UNDEF:
            v = self.fresh('undef', n * 8)
        elif k == 'int' and not isinstance(v, (RealV, RealBits)):
            if ty.width == 1:
                v = ite(v, 1, 0, 8) if not isinstance(v, bool) else int(v)
            elif ty.width < n * 8:
                v = zext(v, ty.width, n * 8)
        if k == 'ptr' and isinstance(v, Ptr) and v.r is None:
            v = v.off
        self.write(st, r, p.off, n, v)

    # ------------------------------------------------------------- constants
    def const(self, c):
        if c.cache is not None and c.cache[0] is self:
            return c.cache[1]
        v = self._const(c)
        if c.kind not in ('undef',):
            c.cache = (self, v)
        return v

    def _const(self, c):
        k, t = c.kind, c.ty
        if k == 'int':
            if t.kind == 'int' and t.width == 1:
                return bool(c.data)
            if t.is_fp and self.fp == 'real':
                try:
                    return self.realconst(c.data, t.width)
                except Unsupported:
                    return RawReal(c.data, t.width, self)
            return c.data
        if k == 'null':
            return Ptr(None, 0)
        if k == 'undef':
            if t.kind in ('vector', 'array', 'struct'):
                return [UNDEF] * t.n
            return UNDEF
        if k == 'zero':
            return self.zero(t)
        if k == 'global':
            return Ptr(self.gregion(c.data), 0)
        if k == 'func':
            return Ptr(self.fregion(c.data), 0)
        if k == 'agg':
            return [self.const(x) for x in c.data]
        if k == 'bytes':
            n = t.elem.store
            if n == 1:
                return list(c.data)
            return [int.from_bytes(c.data[i:i + n], 'little') for i in range(0, len(c.data), n)]
        if k == 'expr':
            op, ops, x = c.data
            vs = [self.const(o) for o in ops]
            return self.cexpr(op, vs, ops, x, t)
        if k in ('meta', 'asm', 'bb'):
            return UNDEF
        if k == 'fpother':
            raise Unsupported('fp constant ' + str(c.data))
        raise Unsupported('const ' + k)

    def zero(self, t):
        if t.kind in ('array', 'vector'):
            if t.n > 65536:
                raise Unsupported('huge zero')
            z = self.zero(t.elem)
            return [z] * t.n
        if t.kind == 'struct':
            return [self.zero(f) for f in t.fields]
        if t.kind == 'ptr':
            return Ptr(None, 0)
        if t.kind == 'int' and t.width == 1:
            return False
        if t.is_fp and self.fp == 'real':
            return RealV(z3.RealVal(0), t.width)
        return 0

    def cexpr(self, op, vs, ops, x, t):
        if op == 'gep':
            return self.gep(vs[0], x, vs[1:], [o.ty for o in ops[1:]])
        if op == 'ptrtoint':
            return trunc(self.p2i(vs[0]), 64, t.width)
        if op == 'inttoptr':
            return self.i2p(vs[0])
        if op in ('bitcast', 'addrspacecast'):
            return vs[0]
        if op in ('add', 'sub', 'xor', 'trunc', 'and', 'or', 'mul'):
            if op == 'trunc':
                return trunc(vs[0], ops[0].ty.width, t.width)
            return getattr(X, {'and': 'band', 'or': 'bor'}.get(op, op))(vs[0], vs[1], t.width)
        if op == 'icmp':
            return self.icmp(x, vs[0], vs[1], ops[0].ty, None)
        raise Unsupported('constant expression ' + op)

    def gregion(self, name):
        r = self.gregions.get(name)
        if r is None:
            from llvmir import lib
            p = self.mod.gvptr[name]
            t = self.mod.ty(lib().LLVMGlobalGetValueType(p))
            r = self.region('@' + name, t.size, 'global', not lib().LLVMIsGlobalConstant(p))
            r.gname = name
            r.gty = t
            self.gregions[name] = r
        return r

    def fregion(self, name):
        r = self.fregions.get(name)
        if r is None:
            r = self.region('fn:' + name, 1, 'func', False)
            r.fn = name
            self.fregions[name] = r
        return r

    # -------------------------------------------------------------- evaluate
    def val(self, regs, o):
        if type(o) is Reg:
            return regs[o.id]
        return self.const(o)

    def num(self, v, w):
        """materialise undef / pointers as integers"""
        if v is UNDEF:
            return self.fresh('undef', w)
        if isinstance(v, Ptr):
            return self.p2i(v)
        return v

    def gep(self, p, ety, idx, itys):
        if p is UNDEF:
            return UNDEF
        off = p.off
        t = None
        for n, (i, it) in enumerate(zip(idx, itys)):
            if i is UNDEF:
                return UNDEF
            if n == 0:
                t = ety
                sz = t.size
            elif t.kind == 'struct':
                off = add(off, t.offs[i], 64)
                t = t.fields[i]
                continue
            else:
                t = t.elem
                sz = t.size
            if isinstance(i, list):
                raise Unsupported('vector gep')
            i = sext(i, it.width, 64)
            off = add(off, mul(i, sz, 64), 64)
        if not isinstance(off, int):
            off = lift(z3.simplify(off))
        return Ptr(p.r, off)

    def icmp(self, pred, a, b, ty, st):
        if ty.kind == 'vector':
            return [self.icmp(pred, x, y, ty.elem, st) for x, y in zip(a, b)]
        if ty.kind == 'ptr':
            if a is UNDEF or b is UNDEF:
                return self.fresh('undefcmp', 1)
            if a.r is b.r:
                if a.r is not None and pred not in ('eq', 'ne'):
                    pred = 's' + pred[1:]
                return cmp(pred, a.off, b.off, 64)
            if pred in ('eq', 'ne'):
                if a.r is not None and b.r is not None:
                    return pred == 'ne'
                q = b if a.r is None else a
                n = a if a.r is None else b
                if isinstance(n.off, int) and n.off < 4096:
                    return pred == 'ne'
                return cmp(pred, self.p2i(a), self.p2i(b), 64)
            return cmp(pred, self.p2i(a), self.p2i(b), 64)
        w = ty.width
        if isinstance(a, RealBits) or isinstance(b, RealBits):
            return self.realbits_cmp(pred, a, b)
        a, b = self.num(a, w), self.num(b, w)
        if w == 1:
            if pred == 'eq':
                return bnot(bxor_(a, b))
            if pred == 'ne':
                return bxor_(a, b)
            a, b = ite(a, 1, 0, 1), ite(b, 1, 0, 1)
        return cmp(pred, a, b, w)

    def realbits_cmp(self, pred, a, b):
        raise Unsupported('integer comparison of float bits in real mode')

    def binop(self, op, a, b, ty, st):
        if ty.kind == 'vector':
            if a is UNDEF:
                a = [UNDEF] * ty.n
            if b is UNDEF:
                b = [UNDEF] * ty.n
            return [self.binop(op, x, y, ty.elem, st) for x, y in zip(a, b)]
        w = ty.width
        if isinstance(a, (RealBits, PackedReal)) or isinstance(b, (RealBits, PackedReal)):
            return self.realbits_op(op, a, b, w)
        a, b = self.num(a, w), self.num(b, w)
        if w == 1:
            if op == 'and':
                return band_(a, b)
            if op == 'or':
                return bor_(a, b)
            if op in ('xor', 'add', 'sub'):
                return bxor_(a, b)
            a, b = ite(a, 1, 0, 1), ite(b, 1, 0, 1)
            r = getattr(self, 'o_' + op)(a, b, w, st)
            return cmp('ne', r, 0, 1)
        return getattr(self, 'o_' + op)(a, b, w, st)

    def constbits(self, a):
        e = a.v.e
        if a.g is None and z3.is_rational_value(e) and a.w == 32:
            from fractions import Fraction
            fr = Fraction(e.numerator_as_long(), e.denominator_as_long())
            try:
                b = struct.pack('<f', float(fr))
            except OverflowError:
                return a
            if Fraction(struct.unpack('<f', b)[0]) == fr:
                return struct.unpack('<I', b)[0]
        return a

    def realbits_op(self, op, a, b, w):
        if isinstance(a, PackedReal) or isinstance(b, PackedReal):
            if not isinstance(a, PackedReal):
                a, b = b, a
            k, pw = len(a.parts), a.w
            bs = b.parts if isinstance(b, PackedReal) else [extract(b, (i + 1) * pw - 1, i * pw, w) for i in range(k)]
            out = []
            for x, y in zip(a.parts, bs):
                if isinstance(x, RealBits) or isinstance(y, RealBits):
                    out.append(self.realbits_op(op, x, y, pw))
                else:
                    out.append(getattr(self, 'o_' + op)(x, y, pw, None))
            return PackedReal(out, pw)
        if isinstance(b, RealBits) and not isinstance(a, RealBits):
            a, b = b, a
        if isinstance(b, RealBits):
            a, b = self.constbits(a), self.constbits(b)
            if not isinstance(a, RealBits):
                a, b = b, a
            if not isinstance(a, RealBits):
                return getattr(self, 'o_' + op)(a, b, w, None)
        if op == 'xor' and isinstance(b, int):
            if b == 0:
                return a
            if b == 1 << (a.w - 1):
                return RealBits(RealV(-a.v.e, a.w), a.w)
        if op == 'and' and isinstance(b, int):
            if b == X.mask(w):
                return a
            if b == 0:
                return 0
            if b == X.mask(a.w - 1):
                e = a.v.e
                return RealBits(RealV(z3.If(e < 0, -e, e), a.w), a.w)
        if op in ('or', 'xor', 'add') and isinstance(b, int) and b == 0:
            return a
        if op == 'and' and not isinstance(b, (int, RealBits)):
            on = z3.simplify(b == z3.BitVecVal(X.mask(w), w))
            if z3.is_true(z3.simplify(z3.Or(on, b == 0))) or self.check([z3.Not(z3.Or(on, b == 0))], 2000) == 'unsat':
                return RealBits(RealV(z3.If(on, a.v.e, 0), a.w), a.w, on if a.g is None else z3.And(on, a.g))
        if op == 'or' and isinstance(b, RealBits) and a.g is not None and b.g is not None:
            if self.check([a.g, b.g], 2000) == 'unsat':
                return RealBits(RealV(z3.If(a.g, a.v.e, b.v.e), a.w), a.w, z3.Or(a.g, b.g))
        raise Unsupported('%s on float bits in real mode (%s, %s)' % (op, type(a).__name__, str(b)[:200]))

    def o_add(self, a, b, w, st): return add(a, b, w)

    def o_sub(self, a, b, w, st):
        if w == 64 and not isinstance(a, int) and not isinstance(b, int):
            return lift(z3.simplify(a - b))
        return sub(a, b, w)

    def o_mul(self, a, b, w, st): return mul(a, b, w)
    def o_and(self, a, b, w, st): return band(a, b, w)
    def o_or(self, a, b, w, st): return bor(a, b, w)
    def o_xor(self, a, b, w, st): return xor(a, b, w)

    def _sh(self, b, w, st):
        if isinstance(b, int):
            self.oblige(st, b < w, 'shift amount below width', 'shift')
        else:
            self.oblige(st, cmp('ult', b, w, w), 'shift amount below width', 'shift')

    def o_shl(self, a, b, w, st):
        self._sh(b, w, st)
        return shl(a, b, w)

    def o_lshr(self, a, b, w, st):
        self._sh(b, w, st)
        if isinstance(b, int) and 0 < b <= 4 and w == 64:
            d = self.lindiv(st, a, 1 << b, w)
            if d:
                return d[0]
        return lshr(a, b, w)

    def o_ashr(self, a, b, w, st):
        self._sh(b, w, st)
        return ashr(a, b, w)

    def _dz(self, b, w, st):
        self.oblige(st, cmp('ne', b, 0, w), 'divisor not zero', 'division')

    def lindiv(self, st, a, c, w):
        """a == c*q + r with q, r given syntactically and proved free of overflow, or None"""
        if isinstance(a, int) or not isinstance(c, int) or c < 2:
            return None
        terms, k = {}, 0
        todo = [(z3.simplify(a, som=True), 1)]
        n = 0
        while todo:
            t, m = todo.pop()
            n += 1
            if n > 64:
                return None
            kd = t.decl().kind()
            if kd == z3.Z3_OP_BNUM:
                k += m * t.as_long()
            elif kd == z3.Z3_OP_BADD:
                todo += [(x, m) for x in t.children()]
            elif kd == z3.Z3_OP_BNEG:
                todo.append((t.arg(0), -m))
            elif kd == z3.Z3_OP_BSUB:
                todo.append((t.arg(0), m))
                todo += [(x, -m) for x in t.children()[1:]]
            elif kd == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
                todo.append((t.arg(1), m * t.arg(0).as_long()))
            elif kd == z3.Z3_OP_CONCAT and t.num_args() == 2 and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long() == 0 and \
                    t.arg(0).decl().kind() == z3.Z3_OP_EXTRACT and t.arg(0).params()[1] == 0 and t.arg(0).arg(0).size() == w:
                todo.append((t.arg(0).arg(0), m << t.arg(1).size()))
            else:
                terms[t.get_id()] = (t, terms.get(t.get_id(), (t, 0))[1] + m)
        M = mask(w)
        ts = []
        for t, m in terms.values():
            m &= M
            if m == 0:
                continue
            if m > M // 2:
                m -= M + 1
            if m % c:
                return None
            ts.append((t, m // c))
        if not ts:
            return None
        k &= M
        if k > M // 2:
            k -= M + 1
        r = k % c
        q = (k // c) & M
        for t, m in ts:
            q = add(q, mul(t, m & M, w), w)
        if isinstance(q, int):
            return q, r
        key = ('lindiv', q.get_id(), c, len(st.pc))
        if self.check([x for x in st.pc if not self.has_quant(x)] + [z3.UGT(q, z3.BitVecVal((M - r) // c, w))], 2000) != 'unsat':
            return None
        return q, r

    def o_udiv(self, a, b, w, st):
        self._dz(b, w, st)
        d = self.lindiv(st, a, b, w)
        return d[0] if d else udiv(a, b, w)

    def o_urem(self, a, b, w, st):
        self._dz(b, w, st)
        d = self.lindiv(st, a, b, w)
        return d[1] if d else urem(a, b, w)

    def o_sdiv(self, a, b, w, st):
        self._dz(b, w, st)
        return sdiv(a, b, w)

    def o_srem(self, a, b, w, st):
        self._dz(b, w, st)
        return srem(a, b, w)

    # ------------------------------------------------------------ statements
    def call_function(self, st, name, args, depth):
        """returns list of outcomes ('ret',st,val) / ('throw',st,info)"""
        F = self.mod.function(name)
        self.funcs_seen.add(name)
        act = Act(F, depth)
        if F.irreducible:
            raise Unsupported('irreducible control flow in ' + name)
        if depth > self.opts['maxdepth']:
            raise Unsupported('call depth (recursion) in ' + name)
        regs = {}
        for r, a in zip(F.args, args):
            regs[r] = a
        return self.enter_block(st, act, regs, F.blocks[0], None, None)

    def eval_phis(self, st, regs, bb, prev):
        if not bb.phis:
            return
        vals = []
        for ph in bb.phis:
            for pb, o in ph.x:
                if pb is prev:
                    vals.append((ph.id, self.val(regs, o)))
                    break
            else:
                raise Unsupported('phi without incoming edge')
        for i, v in vals:
            regs[i] = v

    def enter_block(self, st, act, regs, bb, prev, stop):
        self.eval_phis(st, regs, bb, prev)
        return self.at_block(st, act, regs, bb, stop)

    def at_block(self, st, act, regs, bb, stop):
        if stop is not None and bb.idx == stop:
            return [('stop', st, regs)]
        if act.limitset is not None and bb.idx not in act.limitset:
            return [('exit', st, regs, bb)]
        F = act.fn
        if bb.idx in F.loops:
            cut = act.cuts.get(bb.idx)
            if cut is not None:
                cut.backedge(st, regs)
                return []
            if (F.name, bb.idx) in self.cut:
                return self.cut_loop(st, act, regs, bb, stop)
            if self.opts['conc'] and not self.opts['bounded']:
                k = (act.id, bb.idx, 'conc')
                st.symcnt[k] = st.symcnt.get(k, 0) + 1
                if st.symcnt[k] > self.opts['conc']:
                    raise NeedInvariant(F.name, bb.idx)
        return self.run(st, act, regs, bb, 0, stop)

    def run(self, st, act, regs, bb, i, stop):
        out = []
        while True:
            insts = bb.insts
            n = len(insts)
            nxt = None
            while i < n:
                I = insts[i]
                i += 1
                self.stats['inst'] += 1
                if self.stats['inst'] & 4095 == 0:
                    if time.time() > self.deadline or self.stats['inst'] > self.opts['maxinst']:
                        raise BudgetExceeded()
                op = I.op
                self.curinst = I
                if op == 'br':
                    if not I.ops:
                        nxt = bb.succs[0]
                        break
                    c = self.val(regs, I.ops[0])
                    if c is UNDEF:
                        c = self.fresh('undefbr', 1)
                    if not isinstance(c, bool):
                        c = self.simpc(c)
                    if isinstance(c, bool):
                        nxt = bb.succs[0] if c else bb.succs[1]
                        break
                    return out + self.branch(st, act, regs, bb, [(c, bb.succs[0]), (bnot(c), bb.succs[1])], stop)
                if op == 'switch':
                    v = self.val(regs, I.ops[0])
                    w = I.ops[0].ty.width if isinstance(I.ops[0], Cst) else act.fn.regty[I.ops[0].id].width
                    v = self.num(v, w)
                    if not isinstance(v, int):
                        v = simp(v)
                    dflt, cases = I.x
                    if isinstance(v, int):
                        nxt = dflt
                        for cv, b in cases:
                            if cv == v:
                                nxt = b
                        break
                    alts = {}
                    order = []
                    for cv, b in cases:
                        c = cmp('eq', v, cv, w)
                        if b.idx not in alts:
                            order.append(b)
                            alts[b.idx] = c
                        else:
                            alts[b.idx] = bor_(alts[b.idx], c)
                    d = and_all([cmp('ne', v, cv, w) for cv, b in cases])
                    if dflt.idx in alts:
                        alts[dflt.idx] = bor_(alts[dflt.idx], d)
                    else:
                        order.append(dflt)
                        alts[dflt.idx] = d
                    return out + self.branch(st, act, regs, bb, [(alts[b.idx], b) for b in order], stop)
                if op == 'ret':
                    v = self.val(regs, I.ops[0]) if I.ops else None
                    out.append(('ret', st, v))
                    return out
                if op == 'unreachable':
                    self.oblige(st, False, 'unreachable code reached', 'unreachable')
                    return out
                if op in ('call', 'invoke'):
                    res = self.do_call(st, act, regs, I)
                    conts = []
                    for r in res:
                        if r[0] == 'ret':
                            conts.append(r)
                        elif r[0] == 'throw' and op == 'invoke':
                            kd = act.fn.unwind.get(bb.idx)
                            if kd == 'terminate':
                                self.oblige(r[1], False, 'no exception leaves a noexcept function', 'exception')
                            elif kd != 'propagate':
                                if self.feasible(r[1]):
                                    raise Unsupported('exception caught by the code under verification')
                            else:
                                out.append(r)
                        else:
                            out.append(r)
                    if not conts:
                        return out
                    for (_, s2, v2) in conts[:-1]:
                        rg = dict(regs)
                        rg[I.id] = v2
                        if op == 'invoke':
                            out += self.enter_block(s2, act, rg, bb.succs[0], bb, stop)
                        else:
                            out += self.run(s2, act, rg, bb, i, stop)
                    _, st, v = conts[-1]
                    regs[I.id] = v
                    if op == 'invoke':
                        nxt = bb.succs[0]
                        break
                    continue
                r = self.step(st, act, regs, I)
                if r is not None:      # forked: list of (state, value)
                    for s2, v2 in r[:-1]:
                        rg = dict(regs)
                        rg[I.id] = v2
                        out += self.run(s2, act, rg, bb, i, stop)
                    st, v = r[-1]
                    regs[I.id] = v
            # jump
            self.eval_phis(st, regs, nxt, bb)
            if stop is not None and nxt.idx == stop:
                out.append(('stop', st, regs))
                return out
            if act.limitset is not None and nxt.idx not in act.limitset:
                out.append(('exit', st, regs, nxt))
                return out
            if nxt.idx in act.fn.loops:
                return out + self.at_block(st, act, regs, nxt, stop)
            bb = nxt
            i = 0

    def branch(self, st, act, regs, bb, alts, stop):
        F = act.fn
        inloop = bb.idx in F.inloop
        innermost = None
        if inloop:
            for h, body in F.loops.items():
                if bb.idx in body and (innermost is None or len(body) < len(F.loops[innermost])):
                    innermost = h
        live = []
        for c, b in alts:
            if isinstance(c, bool) and not c:
                continue
            if inloop or self.loopstack or self.opts['prune'] or act.depth > 40 or len(alts) > 2:
                if len(alts) == 2 and not live and b is alts[1][1] and c is alts[1][0]:
                    pass      # the other side is impossible
                elif not self.feasible(st, c):
                    continue
            live.append((c, b))
        if not live:
            return []
        if innermost is not None and innermost not in act.cuts:
            body = F.loops[innermost]
            if any(b.idx not in body for _, b in alts) and any(b.idx in body for _, b in live):
                k = (act.id, innermost)
                st.symcnt[k] = st.symcnt.get(k, 0) + 1
                lim = self.opts['limit']
                if not self.opts['bounded'] and any(h in body and h != innermost and (F.name, h) in self.cut for h in F.loops):
                    lim = min(lim, 4)
                if st.symcnt[k] > lim:
                    if self.opts['bounded']:
                        # bounded search: drop longer executions
                        live = [(c, b) for c, b in live if b.idx not in body]
                    elif self.opts['inv']:
                        raise NeedInvariant(F.name, innermost)
                    else:
                        raise Unsupported('loop bound exceeded in ' + F.name)
        if len(live) == 1:
            c, b = live[0]
            st.assume(c)
            return self.enter_block(st, act, regs, b, bb, stop)
        P = F.ipdom.get(bb.idx)
        if not self.opts['merge'] or P is None:
            out = []
            for n, (c, b) in enumerate(live):
                s2 = st.fork() if n < len(live) - 1 else st
                rg = dict(regs) if n < len(live) - 1 else regs
                s2.assume(c)
                out += self.enter_block(s2, act, rg, b, bb, stop)
            return out
        base = len(st.pc)
        target = None if P == -1 else P
        results = []
        for n, (c, b) in enumerate(live):
            s2 = st.fork() if n < len(live) - 1 else st
            rg = dict(regs) if n < len(live) - 1 else regs
            s2.assume(c)
            # an outer stop block inside the region still has to stop us
            results += self.enter_block(s2, act, rg, b, bb, target)
        out = []
        if P == -1:
            rets = [r for r in results if r[0] == 'ret']
            out = [r for r in results if r[0] != 'ret']
            return out + self.merge_rets(rets, base, F.retty)
        stops = [r for r in results if r[0] == 'stop']
        out = [r for r in results if r[0] != 'stop']
        merged = self.merge_stops(stops, base, F.blocks[P])
        for _, s2, rg in merged:
            if stop is not None and P == stop:
                out.append(('stop', s2, rg))
            else:
                out += self.at_block(s2, act, rg, F.blocks[P], stop)
        return out

    # ---------------------------------------------------------------- merging
    def merge_rets(self, rets, base, ty=None):
        if len(rets) <= 1:
            return rets
        acc = []
        for r in rets:
            for k, a in enumerate(acc):
                m = self.try_merge(a[1], r[1], base, [(a[2], r[2], ty)] if a[2] is not None else [])
                if m is not None:
                    st, vals = m
                    acc[k] = ('ret', st, vals[0] if vals else None)
                    break
            else:
                acc.append(r)
        return acc

    def merge_stops(self, stops, base, P):
        if len(stops) <= 1:
            return stops
        ids = [ph.id for ph in P.phis]
        tys = [ph.ty for ph in P.phis]
        acc = []
        for r in stops:
            for k, a in enumerate(acc):
                m = self.try_merge(a[1], r[1], base, [(a[2][i], r[2][i], t) for i, t in zip(ids, tys)])
                if m is not None:
                    st, vals = m
                    rg = a[2]
                    for i, v in zip(ids, vals):
                        rg[i] = v
                    acc[k] = ('stop', st, rg)
                    break
            else:
                acc.append(r)
        return acc

    class NoMerge(Exception):
        pass

    def mval(self, c, a, b):
        if a is b:
            return a
        if a is UNDEF or b is UNDEF:
            if a is UNDEF and b is UNDEF:
                return UNDEF
            o = b if a is UNDEF else a
            if isinstance(o, (Ptr, RealV, RealBits)):
                return o if True else None
            if isinstance(o, list):
                return [self.mval(c, UNDEF if a is UNDEF else x, UNDEF if b is UNDEF else x) for x in o]
            if isinstance(o, (bool, z3.BoolRef)):
                f = self.fresh('undef', 1)
            elif isinstance(o, z3.BitVecRef):
                f = self.fresh('undef', o.size())
            else:
                return ('needf', c, a, b)
            a, b = (f, b) if a is UNDEF else (a, f)
        if isinstance(a, list):
            return [self.mval(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
                return Ptr(a.r, ite(c, a.off, b.off, 64))
            raise Engine.NoMerge()
        if isinstance(a, RawReal) and isinstance(b, RawReal):
            return RawReal(ite(c, a.raw, b.raw, a.w), a.w, self)
        if isinstance(a, RealV) and isinstance(b, RealV):
            if a.e.eq(b.e):
                return a
            return RealV(z3.If(c, a.e, b.e), a.w)
        if isinstance(a, RealBits) and isinstance(b, RealBits):
            return RealBits(self.mval(c, a.v, b.v), a.w)
        if isinstance(a, PackedReal) and isinstance(b, PackedReal):
            return PackedReal([self.mval(c, x, y) for x, y in zip(a.parts, b.parts)], a.w)
        if isinstance(a, (RealV, RealBits, PackedReal)) or isinstance(b, (RealV, RealBits, PackedReal)):
            raise Engine.NoMerge()
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            return itb(c, a, b)
        if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
            raise Engine.NoMerge()
        if isinstance(a, int) and isinstance(b, int):
            if a == b:
                return a
            return ('needw', c, a, b)
        w = a.size() if not isinstance(a, int) else b.size()
        return ite(c, a, b, w)

    def try_merge(self, s1, s2, base, pairs):
        try:
            if s1.freed != s2.freed or len(s1.ghosts) != len(s2.ghosts):
                return None
            if s1.tags != s2.tags:
                return None
            c1 = and_all(s1.pc[base:])
            c2 = and_all(s2.pc[base:])
            c = c1 if not isinstance(c1, bool) else z3.BoolVal(c1)

            vals = [self.mvalt(c, x, y, t) for x, y, t in pairs]
            mem = {}
            for rid in s1.mem.keys() | s2.mem.keys():
                m1, m2 = s1.mem.get(rid), s2.mem.get(rid)
                if m1 is None or m2 is None:
                    if self.regions[rid].kind == 'global':
                        # lazily created in one branch only: the other has its initial contents
                        m1, m2 = self.mobj(s1, self.regions[rid]), self.mobj(s2, self.regions[rid])
                    else:
                        mem[rid] = m1 or m2     # allocated in one branch only
                        continue
                if m1 is m2:
                    mem[rid] = m1
                    continue
                mem[rid] = self.merge_mem(c, rid, m1, m2)
            if s1.streams or s2.streams:
                if s1.streams.keys() != s2.streams.keys():
                    return None
                for k in s1.streams:
                    a, b = s1.streams[k], s2.streams[k]
                    a.data = a.data if a.data.eq(b.data) else z3.If(c, a.data, b.data)
                    a.size = ite(c, a.size, b.size, 64)
                    a.g = ite(c, a.g, b.g, 64)
                    a.p = ite(c, a.p, b.p, 64)
                    a.fail = itb(c, a.fail, b.fail)
            s1.mem = mem
            s1.own = set()
            s1.insts = s1.insts & s2.insts
            if s1.alls is not s2.alls:
                n = 0
                while n < min(len(s1.alls), len(s2.alls)) and s1.alls[n] is s2.alls[n]:
                    n += 1
                s1.alls = s1.alls[:n]
            pre = s1.pc[:base]
            d = bor_(c1, c2)
            d = self.simpc(d)
            s1.pc = pre
            if not (isinstance(d, bool) and d):
                s1.pc.append(tob(d))
            for k, v in s2.symcnt.items():
                s1.symcnt[k] = max(v, s1.symcnt.get(k, 0))
            return s1, vals
        except Engine.NoMerge:
            return None

    def mvalt(self, c, a, b, ty):
        if a is b:
            return a
        if ty.kind in ('vector', 'array', 'struct'):
            if a is UNDEF or b is UNDEF:
                return b if a is UNDEF else a
            return [self.mvalt(c, x, y, ty.fields[i] if ty.kind == 'struct' else ty.elem) for i, (x, y) in enumerate(zip(a, b))]
        v = self.mval(c, a, b)
        if isinstance(v, tuple) and v[0] == 'needf':
            f = self.fresh('undef', ty.width)
            v = (0, c, f if a is UNDEF else a, f if b is UNDEF else b)
        if isinstance(v, tuple):
            v = ite(v[1], v[2], v[3], ty.width)
        return v

    def merge_mem(self, c, rid, m1, m2):
        r = self.regions[rid]
        out = MemObj()
        same_base = (m1.base is m2.base) or (m1.base is not None and m2.base is not None and
                                             not isinstance(m1.base, (bytes, bytearray)) and not isinstance(m2.base, (bytes, bytearray))
                                             and m1.base.eq(m2.base))
        if not same_base:
            # whole-array ite, keeping pointer cells that agree
            keep = {}
            for o, cc in m1.cells.items():
                if isinstance(cc[1], (Ptr, RealV)):
                    d = m2.cells.get(o)
                    if d is None:
                        raise Engine.NoMerge()
                    keep[o] = (8 if isinstance(cc[1], Ptr) else cc[0], self.mval(c, cc[1], d[1]))
            a1, a2 = self.flush(r, m1), self.flush(r, m2)
            out.base = a1 if a1.eq(a2) else z3.If(c, a1, a2)
            out.cells = keep
            return out
        out.base = m1.base
        if m1.cells.keys() != m2.cells.keys() or any(m1.cells[o][0] != m2.cells[o][0] for o in m1.cells):
            m1, m2 = m1.clone(), m2.clone()
            # align cell structure
            for o in sorted(set(m1.cells) | set(m2.cells)):
                a, b = m1.cells.get(o), m2.cells.get(o)
                if a is not None and b is not None and a[0] == b[0]:
                    continue
                if a is None and b is None:
                    continue
                if a is not None and b is None:
                    self._align(r, m2, o, a)
                elif b is not None and a is None:
                    self._align(r, m1, o, b)
                else:
                    if a[0] > 1 and not isinstance(a[1], (Ptr, RealV)):
                        self.split_cell(m1, o)
                    if b[0] > 1 and not isinstance(b[1], (Ptr, RealV)):
                        self.split_cell(m2, o)
            if m1.cells.keys() != m2.cells.keys() or any(m1.cells[o][0] != m2.cells[o][0] for o in m1.cells):
                for m in (m1, m2):
                    for o in list(m.cells):
                        if m.cells[o][0] > 1 and not isinstance(m.cells[o][1], (Ptr, RealV)):
                            self.split_cell(m, o)
                for o in set(m1.cells) | set(m2.cells):
                    if o not in m1.cells:
                        m1.cells[o] = (1, self.read_byte(r, m1, o))
                    if o not in m2.cells:
                        m2.cells[o] = (1, self.read_byte(r, m2, o))
        for o, (sz, a) in m1.cells.items():
            sz2, b = m2.cells[o]
            if sz != sz2:
                raise Engine.NoMerge()
            if isinstance(a, Ptr) != isinstance(b, Ptr) and not (a is UNDEF or b is UNDEF):
                if isinstance(a, Ptr) and isinstance(b, int) or isinstance(b, Ptr) and isinstance(a, int):
                    raise Engine.NoMerge()
                # uninitialised bytes against a pointer: keep the pointer only if the other is undefined memory
                u = b if isinstance(a, Ptr) else a
                if self.is_uninit(r, o, u):
                    out.cells[o] = (sz, a if isinstance(a, Ptr) else b)
                    continue
                raise Engine.NoMerge()
            if isinstance(a, RealV) != isinstance(b, RealV):
                u = b if isinstance(a, RealV) else a
                if u is not UNDEF and self.is_uninit(r, o, u):
                    out.cells[o] = (sz, a if isinstance(a, RealV) else b)
                    continue
                raise Engine.NoMerge()
            v = self.mval(c, a, b)
            if isinstance(v, tuple):
                v = ite(v[1], v[2], v[3], sz * 8)
            out.cells[o] = (sz, v)
        return out

    def is_uninit(self, r, off, v):
        if r.kind not in ('stack', 'heap') or r.fresh is None or isinstance(v, (int, bool, Ptr)):
            return False
        if not r.fresh.decl().name().startswith('mem!'):
            return False    # an input: its bytes are defined
        # value mentions only the region's fresh base
        e = v
        while kind(e) in (z3.Z3_OP_CONCAT, z3.Z3_OP_EXTRACT):
            e = e.arg(0)
        return kind(e) == z3.Z3_OP_SELECT and e.arg(0).eq(r.fresh)

    def _align(self, r, m, o, cellother):
        sz, v = cellother
        for i in range(sz):
            if (o + i) in m.cells or any((o + i - k) in m.cells and m.cells[o + i - k][0] > k for k in range(1, 16)):
                # overlaps something: bytes
                return
        bs = [self.base_byte(r, m, o + i) for i in range(sz)]
        m.cells[o] = (sz, concat([(b, 8) for b in reversed(bs)]) if sz > 1 else bs[0])

    # ------------------------------------------------------------------ calls
    def do_call(self, st, act, regs, I):
        callee = I.x
        if isinstance(callee, Cst) and callee.kind == 'func':
            name = callee.data
        elif isinstance(callee, Cst) and callee.kind == 'asm':
            return [('ret', st, None)]
        else:
            p = self.val(regs, callee)
            if p is UNDEF or not isinstance(p, Ptr) or p.r is None or p.r.kind != 'func':
                self.oblige(st, False, 'call through a valid function pointer', 'memory')
                return []
            name = p.r.fn
        if name in self.mod.alias:
            name = self.mod.alias[name]
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.experimental.noalias'):
            return [('ret', st, None)]
        args = [self.val(regs, o) for o in I.ops]
        h = self.B.lookup(name)
        if h is not None:
            save = self.curinst
            r = h(st, args, I, act)
            self.curinst = save
            if isinstance(r, list) and r and isinstance(r[0], tuple) and r[0] and r[0][0] in ('ret', 'throw', 'end'):
                return [x for x in r if x[0] != 'end']
            if isinstance(r, str) and r == 'dead':
                return []
            return [('ret', st, r)]
        if not self.mod.has_body(name):
            raise Unsupported('call to external function ' + name)
        save = self.curinst
        r = self.call_function(st, name, args, act.depth + 1)
        self.curinst = save
        return r

    # ------------------------------------------------------- plain instructions
    def step(self, st, act, regs, I):
        op = I.op
        ops = I.ops
        if op == 'load':
            p = self.val(regs, ops[0])
            regs[I.id] = self.load(st, p, I.ty)
            return
        if op == 'store':
            v, p = self.val(regs, ops[0]), self.val(regs, ops[1])
            t = act.fn.regty[ops[0].id] if type(ops[0]) is Reg else ops[0].ty
            self.store(st, p, v, t)
            return
        if op == 'gep':
            p = self.val(regs, ops[0])
            idx = [self.val(regs, o) for o in ops[1:]]
            tys = [act.fn.regty[o.id] if type(o) is Reg else o.ty for o in ops[1:]]
            regs[I.id] = self.gep(p, I.x, idx, tys)
            return
        if op in _BIN:
            regs[I.id] = self.binop(op, self.val(regs, ops[0]), self.val(regs, ops[1]), I.ty, st)
            return
        if op == 'icmp':
            t = act.fn.regty[ops[0].id] if type(ops[0]) is Reg else ops[0].ty
            regs[I.id] = self.icmp(I.x, self.val(regs, ops[0]), self.val(regs, ops[1]), t, st)
            return
        if op == 'alloca':
            t = I.x
            n = self.val(regs, ops[0])
            if not isinstance(n, int):
                raise Unsupported('vla')
            r = self.alloc(st, 'stk%s_%d' % (I.fn.name[:20], I.id), t.size * n, 'stack')
            regs[I.id] = Ptr(r, 0)
            return
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'addrspacecast'):
            t = act.fn.regty[ops[0].id] if type(ops[0]) is Reg else ops[0].ty
            regs[I.id] = self.cast(op, self.val(regs, ops[0]), t, I.ty, st)
            return
        if op == 'select':
            c = self.val(regs, ops[0])
            a, b = self.val(regs, ops[1]), self.val(regs, ops[2])
            return self.do_select(st, regs, I, c, a, b, I.ty)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            regs[I.id] = self.fbin(op, self.val(regs, ops[0]), self.val(regs, ops[1]), I.ty)
            return
        if op == 'fneg':
            regs[I.id] = self.fneg(self.val(regs, ops[0]), I.ty)
            return
        if op == 'fcmp':
            t = act.fn.regty[ops[0].id] if type(ops[0]) is Reg else ops[0].ty
            regs[I.id] = self.fcmp(I.x, self.val(regs, ops[0]), self.val(regs, ops[1]), t)
            return
        if op == 'extractvalue':
            v = self.val(regs, ops[0])
            for k in I.x:
                v = v[k] if v is not UNDEF else UNDEF
            regs[I.id] = v
            return
        if op == 'insertvalue':
            regs[I.id] = self.insval(self.val(regs, ops[0]), self.val(regs, ops[1]), I.x, I.ty)
            return
        if op == 'extractelement':
            v, i = self.val(regs, ops[0]), self.val(regs, ops[1])
            if v is UNDEF:
                regs[I.id] = UNDEF
                return
            if not isinstance(i, int):
                iw = act.fn.regty[ops[1].id].width
                self.oblige(st, cmp('ult', i, len(v), iw), 'vector index in range', 'memory')
                r = v[0]
                for k in range(1, len(v)):
                    r = self.mvalw(cmp('eq', i, k, iw), v[k], r, I.ty)
                regs[I.id] = r
                return
            regs[I.id] = v[i]
            return
        if op == 'insertelement':
            v, e, i = [self.val(regs, o) for o in ops]
            if v is UNDEF:
                v = [UNDEF] * I.ty.n
            if not isinstance(i, int):
                iw = act.fn.regty[ops[2].id].width
                self.oblige(st, cmp('ult', i, len(v), iw), 'vector index in range', 'memory')
                regs[I.id] = [self.mvalw(cmp('eq', i, k, iw), e, v[k], I.ty.elem) for k in range(len(v))]
                return
            v = list(v)
            v[i] = e
            regs[I.id] = v
            return
        if op == 'shufflevector':
            a, b = self.val(regs, ops[0]), self.val(regs, ops[1])
            t = act.fn.regty[ops[0].id] if type(ops[0]) is Reg else ops[0].ty
            if a is UNDEF:
                a = [UNDEF] * t.n
            if b is UNDEF:
                b = [UNDEF] * t.n
            ab = list(a) + list(b)
            regs[I.id] = [UNDEF if k < 0 else ab[k] for k in I.x]
            return
        if op == 'freeze':
            v = self.val(regs, ops[0])
            if v is UNDEF and I.ty.kind == 'int':
                v = self.fresh('frozen', I.ty.width)
            regs[I.id] = v
            return
        if op == 'fence':
            return
        if op == 'landingpad':
            regs[I.id] = UNDEF
            return
        if op == 'atomicrmw':
            p, v = self.val(regs, ops[0]), self.val(regs, ops[1])
            old = self.load(st, p, I.ty)
            f = {0: lambda a, b: b, 1: lambda a, b: add(a, b, I.ty.width), 2: lambda a, b: sub(a, b, I.ty.width)}.get(I.x)
            if f is None:
                raise Unsupported('atomicrmw')
            self.store(st, p, f(old, v), I.ty)
            regs[I.id] = old
            return
        raise Unsupported('instruction ' + op)

    def mvalw(self, c, a, b, ty):
        v = self.mval(c if not isinstance(c, bool) else z3.BoolVal(c), a, b)
        if isinstance(v, tuple):
            v = ite(v[1], v[2], v[3], ty.width)
        return v

    def insval(self, agg, v, ix, ty):
        a = [UNDEF] * ty.n if agg is UNDEF else list(agg)
        if len(ix) == 1:
            a[ix[0]] = v
        else:
            sub_ = ty.fields[ix[0]] if ty.kind == 'struct' else ty.elem
            a[ix[0]] = self.insval(a[ix[0]], v, ix[1:], sub_)
        return a

    def do_select(self, st, regs, I, c, a, b, ty):
        if c is UNDEF:
            c = self.fresh('undefsel', 1)
        if isinstance(c, list):
            if a is UNDEF:
                a = [UNDEF] * ty.n
            if b is UNDEF:
                b = [UNDEF] * ty.n
            regs[I.id] = [x if ci is True else y if ci is False else self.mvalw(ci, x, y, ty.elem) for ci, x, y in zip(c, a, b)]
            return
        c = self.simpc(c)
        if isinstance(c, bool):
            regs[I.id] = a if c else b
            return
        if ty.kind == 'ptr':
            if a is not UNDEF and b is not UNDEF and a.r is b.r:
                regs[I.id] = Ptr(a.r, ite(c, a.off, b.off, 64))
                return
            s2 = st.fork()
            s2.assume(c)
            st.assume(bnot(c))
            return [(s2, a), (st, b)]
        if isinstance(a, list):
            regs[I.id] = self.mvalt(c, a, b, ty)
            return
        regs[I.id] = self.mvalw(c, a, b, ty)

    def cast(self, op, v, t, t2, st):
        if op == 'bitcast':
            return self.bitcast(v, t, t2)
        if t.kind == 'vector':
            if v is UNDEF:
                v = [UNDEF] * t.n
            return [self.cast(op, x, t.elem, t2.elem, st) for x in v]
        if op == 'ptrtoint':
            return trunc(self.p2i(v), 64, t2.width) if t2.width <= 64 else zext(self.p2i(v), 64, t2.width)
        if op == 'inttoptr':
            return self.i2p(zext(self.num(v, t.width), t.width, 64))
        if op == 'addrspacecast':
            return v
        if op in ('zext', 'sext', 'trunc'):
            if isinstance(v, RealBits):
                if op == 'zext' and t2.width == v.w:
                    return v
                raise Unsupported('cast of float bits in real mode')
            v = self.num(v, t.width)
            if t.width == 1:
                return ite(v, X.mask(t2.width) if op == 'sext' else 1, 0, t2.width)
            if op == 'zext':
                return zext(v, t.width, t2.width)
            if op == 'sext':
                return sext(v, t.width, t2.width)
            if t2.width == 1:
                return cmp('ne', extract(v, 0, 0, t.width), 0, 1)
            return trunc(v, t.width, t2.width)
        if op in ('sitofp', 'uitofp'):
            v = self.num(v, t.width)
            if t.width == 1:
                v = ite(v, 1, 0, 8)
                return self.B.i2f(op, v, 8, t2.width)
            return self.B.i2f(op, v, t.width, t2.width)
        if op in ('fptosi', 'fptoui'):
            return self.B.f2i(op, self.fval(v, t.width), t.width, t2.width, st)
        if op in ('fpext', 'fptrunc'):
            return self.B.f2f(self.fval(v, t.width), t.width, t2.width)
        raise Unsupported(op)

    def fval(self, v, w):
        if v is UNDEF:
            if self.fp == 'real':
                self.fresh_n += 1
                return RealV(z3.Real('undef!%d' % self.fresh_n), w)
            return self.fresh('undef', w)
        return v

    def bitcast(self, v, t, t2):
        if t.kind == 'ptr' and t2.kind == 'ptr' or t is t2:
            return v
        if v is UNDEF:
            return UNDEF if t2.kind != 'vector' else [UNDEF] * t2.n
        # flatten to list of lanes msb-last
        lanes = v if t.kind == 'vector' else [v]
        lt = t.elem if t.kind == 'vector' else t
        rt = t2.elem if t2.kind == 'vector' else t2
        lw, rw = lt.width, rt.width
        if lw == 1 or rw == 1:
            if lw == 1 and rw > 1 and t2.kind != 'vector':
                bits = [(ite(x, 1, 0, 1) if x is not UNDEF else self.fresh('undef', 1)) for x in lanes]
                bits = [b if not isinstance(b, z3.BoolRef) else z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for b in bits]
                return concat([(b, 1) for b in reversed(bits)])
            raise Unsupported('bitcast of i1 vector')
        if lw == rw:
            out = []
            for x in lanes:
                if isinstance(x, RealV) and not rt.is_fp:
                    x = rbits(x)
                elif isinstance(x, RealBits) and rt.is_fp:
                    x = x.v
                elif rt.is_fp and self.fp == 'real' and not isinstance(x, RealV) and x is not UNDEF:
                    x = RawReal(x, rw, self)
                out.append(x)
        else:
            if any(isinstance(x, (RealV, RealBits)) for x in lanes):
                if lw > rw:
                    raise Unsupported('bitcast split of real-mode float')
                # widen: carry lanes as a tuple object
                k = rw // lw
                out = [PackedReal([rbits(x) for x in lanes[i:i + k]], lw) for i in range(0, len(lanes), k)]
            elif any(isinstance(x, PackedReal) for x in lanes):
                out = []
                for x in lanes:
                    if isinstance(x, PackedReal):
                        out += x.parts
                    else:
                        out += [extract(x, (i + 1) * rw - 1, i * rw, lw) for i in range(lw // rw)]
                out = [(x.v if isinstance(x, RealBits) and rt.is_fp else x) for x in out]
                if rt.is_fp and self.fp == 'real':
                    out = [x if isinstance(x, RealV) else RawReal(x, rw, self) for x in out]
            else:
                lanes = [self.num(x, lw) for x in lanes]
                if lw < rw:
                    k = rw // lw
                    out = [concat([(x, lw) for x in reversed(lanes[i:i + k])]) for i in range(0, len(lanes), k)]
                else:
                    k = lw // rw
                    out = []
                    for x in lanes:
                        out += [extract(x, (i + 1) * rw - 1, i * rw, lw) for i in range(k)]
                if rt.is_fp and self.fp == 'real':
                    out = [RawReal(x, rw, self) for x in out]
        return out if t2.kind == 'vector' else out[0]

    # ---------------------------------------------------------------- floats
    def fbin(self, op, a, b, ty):
        if ty.kind == 'vector':
            if a is UNDEF:
                a = [UNDEF] * ty.n
            if b is UNDEF:
                b = [UNDEF] * ty.n
            return [self.fbin(op, x, y, ty.elem) for x, y in zip(a, b)]
        w = ty.width
        return self.B.fop(op, self.fval(a, w), self.fval(b, w), w)

    def fneg(self, a, ty):
        if ty.kind == 'vector':
            return [self.fneg(x, ty.elem) for x in a]
        a = self.fval(a, ty.width)
        if isinstance(a, RealV):
            return RealV(-a.e, a.w)
        return xor(a, 1 << (ty.width - 1), ty.width)

    def fcmp(self, pred, a, b, ty):
        if ty.kind == 'vector':
            return [self.fcmp(pred, x, y, ty.elem) for x, y in zip(a, b)]
        return self.B.fcmp(pred, self.fval(a, ty.width), self.fval(b, ty.width), ty.width)


class PackedReal:
    def __init__(self, parts, w):
        self.parts, self.w = parts, w


_BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}

import loops  # noqa: E402  (adds cut_loop to Engine)
loops.install(Engine)
