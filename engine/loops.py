"""Loop cutting: inductive invariants from templates, filtered to an inductive set (Houdini).

Nothing assumed here is taken on trust: a candidate is used after the loop only if it was proved on
entry and proved preserved by every path through the body, assuming only the surviving candidates.
"""
import os
import time
import z3
from bvx import *
import bvx as X


class Var:
    """something the loop modifies: name, value at entry, value at header (havocked), getter, width"""
    __slots__ = ('name', 'v0', 'vh', 'get', 'w', 'stride', 'delta', 'vh0', 'isptr', 'put', 'subst')


class Cand:
    __slots__ = ('name', 'entry', 'head', 'at', 'tmpl')   # at(st, regs, k) -> Bool


class Collector:
    def __init__(self):
        self.back = []

    def backedge(self, st, regs):
        self.back.append((st, dict(regs)))


class Drop:
    def backedge(self, st, regs):
        pass


def _atoms(e, out, seen):
    if e.get_id() in seen:
        return
    seen.add(e.get_id())
    if z3.is_and(e) or z3.is_or(e) or z3.is_not(e) or (z3.is_app(e) and kind(e) in (z3.Z3_OP_XOR, z3.Z3_OP_IMPLIES)):
        for i in range(e.num_args()):
            _atoms(e.arg(i), out, seen)
        return
    if z3.is_app(e) and kind(e) == z3.Z3_OP_ITE and z3.is_bool(e):
        for i in range(3):
            _atoms(e.arg(i), out, seen)
        return
    out.append(e)


def _mentions(e, ids, memo):
    st = [e]
    vis = set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in vis:
            continue
        vis.add(i)
        if i in ids:
            return True
        if z3.is_app(x):
            st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())
    return False


def install(Engine):
    from sym import Ptr, UNDEF, RealV, MemObj, Ob, Unsupported

    def fresh_like(self, v, ty_w, name):
        if isinstance(v, Ptr):
            if v.r is None:
                return v
            return Ptr(v.r, self.fresh(name, 64))
        if isinstance(v, list):
            return [fresh_like(self, x, None, name) for x in v]
        if isinstance(v, RealV):
            self.fresh_n += 1
            return RealV(z3.Real('%s!%d' % (name, self.fresh_n)), v.w)
        if isinstance(v, (bool, z3.BoolRef)):
            return self.fresh(name, 1)
        if isinstance(v, z3.BitVecRef):
            return self.fresh(name, v.size())
        if ty_w:
            return self.fresh(name, ty_w)
        raise Unsupported('havoc of %r' % (v,))

    def fresh_ty(self, v, ty, name):
        if ty.kind == 'vector':
            vs = v if v is not UNDEF else [UNDEF] * ty.n
            return [fresh_ty(self, x, ty.elem, name) for x in vs]
        if ty.kind == 'struct':
            return [fresh_ty(self, x, t, name) for x, t in zip(v, ty.fields)]
        if ty.kind == 'ptr':
            if v is UNDEF:
                return v
            return fresh_like(self, v, None, name)
        if ty.is_fp and self.fp == 'real':
            self.fresh_n += 1
            return RealV(z3.Real('%s!%d' % (name, self.fresh_n)), ty.width)
        return self.fresh(name, ty.width)

    def havoc(self, st, regs, bb, mods):
        st = st.fork()
        regs = dict(regs)
        for ph in bb.phis:
            regs[ph.id] = fresh_ty(self, regs[ph.id], ph.ty, 'phi')
        whole = {rid for (rid, off, sz) in mods if off is None and isinstance(rid, int)}
        conc = {}
        for (rid, off, sz) in mods:
            if off is not None and isinstance(rid, int):
                conc.setdefault(rid, set()).add((off, sz))
        for rid in whole:
            r = self.regions[rid]
            m = self.mobj(st, r, True)
            keep = {o: c for o, c in m.cells.items() if isinstance(c[1], Ptr) and not any(o2 < o + 8 and o < o2 + s2 for o2, s2 in conc.get(rid, ()))}
            self.fresh_n += 1
            m.base = z3.Array('hav!%s!%d' % (r.name, self.fresh_n), z3.BitVecSort(64), z3.BitVecSort(8))
            m.cells = keep
            m.flushed = None
        for rid, s in conc.items():
            if rid in whole:
                # pointers written concretely in a symbolically written region
                r = self.regions[rid]
                m0 = self.mobj(st, r)
                continue
            r = self.regions[rid]
            rngs = sorted(s)
            bad = set()
            for i, (o, n) in enumerate(rngs):
                for (o2, n2) in rngs[i + 1:]:
                    if o2 < o + n:
                        bad.add((o, n)); bad.add((o2, n2))
            for (o, n) in rngs:
                if (o, n) in bad:
                    for b in range(n):
                        m = self.mobj(st, r, True)
                        self.clear_range(m, o + b, 1)
                        m.cells[o + b] = (1, self.fresh('hav', 8))
                        m.flushed = None
                    continue
                m = self.mobj(st, r)
                c = m.cells.get(o)
                old = c[1] if c is not None and c[0] == n else None
                if isinstance(old, Ptr) and old.r is None and isinstance(old.off, int) and old.off == 0:
                    raise Unsupported('loop changes a pointer that starts null')
                nv = fresh_like(self, old, n * 8, 'hav') if old is not None and not isinstance(old, int) else self.fresh('hav', n * 8)
                m = self.mobj(st, r, True)
                self.clear_range(m, o, n)
                m.cells[o] = (n, nv)
                m.flushed = None
        if any(rid == 'stream' for (rid, o, s) in mods):
            for sid in sorted({o for (rid, o, s) in mods if rid == 'stream'}):
                kinds = {k for (rid, o, k) in mods if rid == 'stream' and o == sid}
                s = st.streams[sid]
                self.fresh_n += 1
                lim = z3.BitVecVal(1 << 60, 64)
                new = []
                if kinds & {0, 1}:
                    s.data = z3.Array('hstream!%d' % self.fresh_n, z3.BitVecSort(64), z3.BitVecSort(8))
                    s.size = self.fresh('hssize', 64)
                    s.p = self.fresh('hsp', 64)
                    new += [s.size, s.p]
                if kinds & {0, 2}:
                    s.g = self.fresh('hsg', 64)
                    s.fail = self.fresh('hsfail', 1)
                    new += [s.g]
                for t in new:
                    st.assume(z3.ULT(t, lim))
        return st, regs

    def eval_bool(self, st, fptr, args):
        """run a pure C++ closure and return its truth as a formula"""
        s2 = st.fork()
        base = len(s2.pc)
        self.suppress += 1
        wl, self.wlog = self.wlog, None
        wx, self.wlogx = self.wlogx, None
        try:
            outs = self.call_function(s2, fptr.r.fn, args, 1)
        finally:
            self.suppress -= 1
            self.wlog = wl
            self.wlogx = wx
        parts = []
        for o in outs:
            if o[0] != 'ret':
                continue
            v = o[2]
            if not isinstance(v, (bool, z3.BoolRef)):
                v = cmp('ne', v, 0, v.size() if not isinstance(v, int) else 8)
            parts.append(band_(and_all(o[1].pc[base:]), v))
        r = False
        for p in parts:
            r = bor_(r, p)
        return r

    def fold_lemma(self, fold, idx):
        """F(idx+1) == step(F(idx), idx), the step taken from the spec closure"""
        key = idx if isinstance(idx, int) else idx.get_id()
        if key in fold.lemmas:
            return fold.lemmas[key][0]
        st = fold.st.fork()
        base = len(st.pc)
        self.suppress += 1
        wl, self.wlog = self.wlog, None
        wx, self.wlogx = self.wlogx, None
        try:
            tmp = self.alloc(st, 'foldtmp', fold.words * fold.wsz, 'stack')
            for j in range(fold.words):
                self.write(st, tmp, j * fold.wsz, fold.wsz, fold.F[j](bv(idx, 64)))
            outs = self.call_function(st, fold.fn.r.fn, [fold.ctx, Ptr(tmp, 0), idx], 1)
        finally:
            self.suppress -= 1
            self.wlog = wl
            self.wlogx = wx
        nxt = bv(add(idx, 1, 64), 64)
        fs = []
        for o in outs:
            if o[0] != 'ret':
                continue
            s = o[1]
            eq = [fold.F[j](nxt) == bv(self.read(s, tmp, j * fold.wsz, fold.wsz), fold.wsz * 8) for j in range(fold.words)]
            g = and_all(s.pc[base:])
            e = and_all(eq)
            fs.append(tob(e) if isinstance(g, bool) and g else z3.Implies(tob(g), tob(e)))
        r = and_all(fs)
        fold.lemmas[key] = (tob(r), idx)
        return tob(r)

    def cut_loop(self, st, act, regs, bb, stop):
        F = act.fn
        body = F.loops[bb.idx]
        self.stats['loops_cut'] += 1
        eng = self
        maxrid = max(self.regions) if self.regions else 0
        saved_limit = act.limitset
        # ---- which memory does the body modify
        mods = set()
        back = []
        for it in range(12):
            hst, hregs = havoc(self, st, regs, bb, mods)
            col = Collector()
            act.cuts[bb.idx] = col
            act.limitset = body
            self.suppress += 1
            owl, self.wlog = self.wlog, []
            owx, self.wlogx = self.wlogx, []
            nested0 = self.stats['loops_cut']
            try:
                outs = self.run(hst.fork(), act, dict(hregs), bb, 0, None)
            finally:
                self.suppress -= 1
                wl, self.wlog = self.wlog, owl
                wx, self.wlogx = self.wlogx, owx
                act.limitset = saved_limit
                del act.cuts[bb.idx]
            nested = self.stats['loops_cut'] != nested0
            new = set()
            for (rid, off, sz) in wl:
                if rid == 'stream':
                    if (rid, off, sz) not in mods:
                        new.add((rid, off, sz))
                    continue
                if rid > maxrid and self.regions[rid].kind in ('stack', 'heap'):
                    continue
                if (rid, None, 1) in mods:
                    if off is not None and isinstance(self._cellptr(st, rid, off), Ptr) and (rid, off, sz) not in mods:
                        new.add((rid, off, sz))
                    continue
                e = (rid, off, sz) if off is not None else (rid, None, 1)
                if e not in mods:
                    new.add(e)
            if not new:
                break
            mods |= new
        else:
            raise Unsupported('modified memory does not stabilise')
        if self.wlog is not None:
            self.wlog.extend(mods)
        if self.wlogx is not None:
            self.wlogx.extend((m[0], m[1], m[2]) for m in mods)
        back = col.back
        # ---- variables
        vars_ = []
        hids = set()

        def addvar(name, v0, vh, get, w, isptr=False):
            v = Var()
            v.name, v.v0, v.vh, v.get, v.w, v.isptr = name, v0, vh, get, w, isptr
            v.vh0 = vh
            v.stride = None
            v.delta = None
            v.put = None
            v.subst = False
            vars_.append(v)

        def reg_vh(t):
            if not isc(t) and isinstance(t, z3.ExprRef):
                hids.add(t.get_id())
        for ph in bb.phis:
            a, h = regs[ph.id], hregs[ph.id]
            if ph.ty.kind == 'ptr':
                if a is UNDEF or a.r is None:
                    for s, r in back:
                        b = r[ph.id]
                        if a is UNDEF or b is UNDEF or b.r is not None or not (isc(b.off) and isc(a.off) and a.off == b.off):
                            raise Unsupported('loop over a null/unknown pointer')
                    continue
                for s, r in back:
                    b = r[ph.id]
                    if b is UNDEF or b.r is not a.r:
                        raise Unsupported('pointer changes object in loop')
                reg_vh(h.off)
                addvar('p%d' % ph.id, a.off, h.off, (lambda i: lambda s, r: r[i].off)(ph.id), 64, True)

                def put(x, i=ph.id, rg=h.r):
                    hregs[i] = Ptr(rg, x)
                vars_[-1].put = put
            elif ph.ty.kind == 'int':
                reg_vh(h)
                if a is UNDEF:
                    continue
                addvar('v%d' % ph.id, a, h, (lambda i: lambda s, r: r[i])(ph.id), ph.ty.width)

                def put(x, i=ph.id):
                    hregs[i] = x
                vars_[-1].put = put
            elif ph.ty.kind == 'vector':
                if a is UNDEF:
                    continue
                for l in range(ph.ty.n):
                    reg_vh(h[l])
                    if a[l] is UNDEF or isinstance(a[l], RealV):
                        continue
                    addvar('v%d.%d' % (ph.id, l), a[l], h[l], (lambda i, l: lambda s, r: r[i][l])(ph.id, l), ph.ty.elem.width)
            elif ph.ty.is_fp and self.fp != 'real':
                reg_vh(h)
                addvar('f%d' % ph.id, a, h, (lambda i: lambda s, r: r[i])(ph.id), ph.ty.width)
        for (rid, off, sz) in sorted((m for m in mods if m[1] is not None and isinstance(m[0], int)), key=str):
            if (rid, None, 1) in mods:
                continue
            r_ = self.regions[rid]
            a = self.read(st, r_, off & X.mask(64), sz)
            h = self.read(hst, r_, off & X.mask(64), sz)
            if isinstance(a, RealV):
                continue
            if isinstance(h, Ptr):
                reg_vh(h.off)
                for s, rr in back:
                    b = self.read(s, r_, off & X.mask(64), sz)
                    if not isinstance(b, Ptr) or b.r is not h.r:
                        raise Unsupported('pointer cell changes object in loop')
                addvar('m%d+%d' % (rid, off), a.off, h.off, (lambda r_, off, sz: lambda s, r: eng.read(s, r_, off & X.mask(64), sz).off)(r_, off, sz), 64, True)
            else:
                reg_vh(h)
                if isinstance(a, Ptr):
                    a = self.p2i(a)
                addvar('m%d+%d' % (rid, off), a, h, (lambda r_, off, sz: lambda s, r: eng.num(eng.read(s, r_, off & X.mask(64), sz), sz * 8))(r_, off, sz), sz * 8)
        for sid in sorted({o for (rid, o, _) in mods if rid == 'stream'}):
            kinds = {k for (rid, o, k) in mods if rid == 'stream' and o == sid}
            a, h = st.streams[sid], hst.streams[sid]
            for f in (('g',) if kinds & {0, 2} else ()) + (('p', 'size') if kinds & {0, 1} else ()):
                reg_vh(getattr(h, f))
                addvar('s%d.%s' % (sid, f), getattr(a, f), getattr(h, f), (lambda sid, f: lambda s, r: getattr(s.streams[sid], f))(sid, f), 64)
            if kinds & {0, 2}:
                reg_vh(h.fail)
        for m in mods:
            if m[1] is None and isinstance(m[0], int):
                hm = self.mobj(hst, self.regions[m[0]])
                if hm.base is not None and isinstance(hm.base, z3.ExprRef):
                    hids.add(hm.base.get_id())
        k = self.fresh('iter', 64)
        hids.add(k.get_id())
        bhids = set(hids)      # the body was run before closed forms replaced the counters
        # ---- strides
        for v in vars_:
            if v.w == 1:
                continue
            d = None
            ok = bool(back)
            for s, r in back:
                b = v.get(s, r)
                x = simp(sub(b, v.vh, v.w)) if b is not UNDEF else None
                if x is not None and not isinstance(x, int) and v.w == 64 and not _mentions(x, hids, {}):
                    if v.delta is None:
                        v.delta = x
                if not isinstance(x, int) or (d is not None and d != x):
                    ok = False
                    break
                d = x
            if ok:
                v.stride = d
                if v.w == 64 and v.put is not None and self.opts['affine']:
                    # every path round the loop adds d: the value is v0 + d*k by induction on k
                    hids.discard(v.vh.get_id())
                    v.vh = add(v.v0, mul(k, d, 64), 64)
                    v.put(v.vh)
                    v.subst = True
        # ---- the part of a region the first k rounds can have changed: writes that advance by a fixed step
        closed = [(v.vh0, bv(add(v.v0, mul(k, v.stride, 64), 64), 64)) for v in vars_
                  if v.w == 64 and v.stride is not None and isinstance(v.vh0, z3.ExprRef)]
        shift = [(k, bv(add(k, 1, 64), 64))]
        zero = [(k, z3.BitVecVal(0, 64))]
        for rid in {m[0] for m in mods if m[1] is None and isinstance(m[0], int)}:
            if not self.opts['frame']:
                break
            r_ = self.regions[rid]
            ws = {(o if not isinstance(o, z3.ExprRef) else o.get_id(), n): (o, n) for (i, o, n) in wx if i == rid}
            if len(ws) > 64 or any(o is None or isinstance(o, int) or not isinstance(n, int) for o, n in ws.values()):
                continue
            m0 = self.mobj(st, r_)
            if any(isinstance(c[1], Ptr) for c in m0.cells.values()):
                continue
            lo, ends, D, good = None, [], None, True
            for o, n in ws.values():
                t = z3.substitute(o, *closed) if closed else o
                d = lift(z3.simplify(z3.substitute(t, (k, z3.BitVecVal(1, 64))) - z3.substitute(t, *zero)))
                if isinstance(d, int) and self.check([z3.substitute(t, *shift) - t != d], 2000) != 'unsat':
                    d = None
                if not isinstance(d, int) or not 0 < d < (1 << 20) or (D is not None and d != D):
                    good = False
                    break
                D = d
                z = lift(z3.simplify(z3.substitute(t, *zero)))
                if _mentions(bv(z, 64), hids, {}):
                    good = False
                    break
                if lo is None:
                    lo = z
                c = simp(sub(z, lo, 64))
                if not isinstance(c, int):
                    good = False
                    break
                ends.append((X.sgn(c, 64), n))
            if os.environ.get("VP_FR"): print("FRAME", r_.name, good, lo, D, ends, list(ws.values())[:3], closed)
            if not good or lo is None:
                continue
            first = min(c for c, n in ends)
            if max(c + n for c, n in ends) - first > D:
                continue
            hm = self.mobj(hst, r_)
            if not isinstance(hm.base, z3.ExprRef) or hm.cells:
                continue
            self.frames[hm.base.get_id()] = (hm.base, add(lo, first & X.mask(64), 64), mul(k, D, 64), self.flush(r_, m0))
            self.framedmemo = {}
            self.stats['loop_frames'] = self.stats.get('loop_frames', 0) + 1
        # ---- candidates
        cands = []

        def cand(name, mk):
            """mk(get, k) -> formula, get(var) value"""
            c = Cand()
            c.name = name
            c.tmpl = False
            try:
                c.entry = mk(lambda v: v.v0, 0)
                c.head = mk(lambda v: v.vh, k)
            except Unsupported:
                return
            if isinstance(c.head, bool) and c.head:
                return
            c.at = lambda s, r, kk: mk(lambda v: v.get(s, r), kk)
            cands.append(c)
        for v in vars_:
            if v.stride is not None and not v.subst:
                def mk(g, kk, v=v):
                    t = trunc(kk, 64, v.w) if v.w <= 64 else zext(kk, 64, v.w)
                    return cmp('eq', g(v), add(bv(v.v0, v.w), mul(t, v.stride, v.w), v.w), v.w)
                cand('%s affine' % v.name, mk)
        # variables that advance by a step fixed outside the loop: they advance together
        dv = [v for v in vars_ if v.stride is None and v.delta is not None]
        for a in range(len(dv)):
            for b in range(a):
                cand('%s and %s advance together' % (dv[b].name, dv[a].name),
                     lambda g, kk, p=dv[a], q=dv[b]: cmp('eq', sub(g(p), p.v0, 64), sub(g(q), q.v0, 64), 64))
        # bounds from comparisons seen in the body
        bounds = {}
        atoms = []
        seen = set()
        nb = len(st.pc)
        for s in [x[0] for x in back] + [o[1] for o in outs if o[0] in ('exit', 'ret')]:
            for c in s.pc[nb:]:
                _atoms(c, atoms, seen)
        memo = {}
        for a in atoms:
            if not z3.is_app(a) or a.num_args() != 2:
                continue
            x, y = a.arg(0), a.arg(1)
            if not isinstance(x, z3.BitVecRef):
                continue
            for p, q in ((x, y), (y, x)):
                if not _mentions(p, bhids, memo) and _mentions(q, bhids, memo):
                    p2 = lift(p)
                    bounds[p.get_id()] = (p2, p.size())
                    if 48 <= p.size() < 64:
                        z = zext(p2, p.size(), 64)      # a 64 bit comparison the simplifier has narrowed
                        bounds[bv(z, 64).get_id()] = (z, 64)
                    # q = var + const  =>  also bound-const
                    if kind(q) == z3.Z3_OP_BADD and q.num_args() == 2:
                        for c0 in (q.arg(0), q.arg(1)):
                            if isinstance(c0, z3.BitVecNumRef):
                                b2 = sub(p2, c0.as_long(), p.size())
                                bb2 = bv(b2, p.size())
                                bounds[bb2.get_id()] = (b2, p.size())
        self._keep = getattr(self, '_keep', [])
        blist = list(bounds.values())
        for v in vars_:
            if v.w == 1:
                continue
            for B, w in blist:
                if w != v.w:
                    continue
                for op in ('ule', 'uge', 'sle', 'sge'):
                    cand('%s %s %s' % (v.name, op, str(B)[:30]), lambda g, kk, v=v, B=B, op=op: cmp(op, g(v), B, v.w))
            if v.stride is not None or True:
                for op in ('ule', 'uge', 'sle', 'sge', 'eq'):
                    if op == 'eq' and v.stride is not None:
                        continue
                    cand('%s %s entry' % (v.name, op), lambda g, kk, v=v, op=op: cmp(op, g(v), v.v0, v.w))
        for B, w in blist:
            if w == 64:
                cand('iter <= %s' % str(B)[:30], lambda g, kk, B=B: cmp('ule', kk, B, 64))
            elif 16 <= w < 48:
                Z = zext(B, w, 64)
                cand('iter <= zext %s' % str(B)[:30], lambda g, kk, Z=Z: cmp('ule', kk, Z, 64))
        # relations between pairs of 64 bit variables with equal/opposite strides come from the affine forms
        # index terms
        folds = [g for g in st.ghosts if g.__class__.__name__ == 'Fold']
        def idxterms(g, kk):
            out = [('k', kk)]
            for v in vars_:
                if v.w == 64:
                    out.append((v.name, g(v)))
                    out.append(('e-' + v.name, sub(v.v0, g(v), 64)))
                    out.append((v.name + '-e', sub(g(v), v.v0, 64)))
                elif v.w == 32:
                    out.append((v.name, zext(eng.num(g(v), 32), 32, 64)))
            for c in ((3, 4, 8, 12) if folds else ()):
                out.append(('%dk' % c, mul(kk, c, 64)))
            return out
        names = [n for n, _ in idxterms(lambda v: v.v0, 0)]
        outer = list(self.loopstack)
        invs = [g for g in st.ghosts if g.__class__.__name__ == 'Inv']
        for fo in folds:
            fw = fo.wsz * 8
            for j in range(fo.words):
                for v in vars_:
                    if v.w < fw or v.w == 1 or v.isptr:
                        continue
                    if v.stride is not None and v.w == 64 and fw != 64:
                        continue
                    for n in (['k'] if fo.name.endswith('@k') else names):
                        def mk(g, kk, v=v, n=n, fo=fo, j=j, fw=fw):
                            ix = dict(idxterms(g, kk))[n]
                            return cmp('eq', eng.num(g(v), v.w), zext(fo.F[j](bv(ix, 64)), fw, v.w), v.w)
                        cand('%s == fold%s.%d(%s)' % (v.name, fo.name, j, n), mk)
        # templates from the harness
        tm = []
        for iv in invs:
            if iv.holes == 0:
                tm.append((iv, None, None))
            elif iv.holes == 1:
                for n in names:
                    tm.append((iv, n, None))
                for on, ot in outer:
                    tm.append((iv, ('outer', on, ot), None))
            else:
                for n in names:
                    for on, ot in outer:
                        tm.append((iv, n, ('outer', on, ot)))
                    for n2 in names:
                        if n2 != n:
                            tm.append((iv, n, n2))

        def hole(h, g, kk):
            if h is None:
                return 0
            if isinstance(h, tuple):
                return h[2]
            return dict(idxterms(g, kk))[h]
        for (iv, h1, h2) in tm:
            c = Cand()
            c.tmpl = True
            c.name = '%s(%s,%s)' % (iv.name, h1 if not isinstance(h1, tuple) else h1[1], h2 if not isinstance(h2, tuple) else h2[1])
            def at(s, r, kk, iv=iv, h1=h1, h2=h2):
                g = lambda v: v.get(s, r)
                return eval_bool(eng, s, iv.fn, [iv.ctx, hole(h1, g, kk), hole(h2, g, kk)])
            c.at = at
            c.entry = at(st, regs, 0)
            if isinstance(c.entry, bool) and not c.entry:
                continue
            c.head = at(hst, hregs, k)
            cands.append(c)
        if len(cands) > 4000:
            raise Unsupported('too many candidate invariants')
        # ---- entry check
        cands = self._houdini_filter(st.pc, cands, lambda c: c.entry)
        # ---- fold lemmas at header
        lem = []
        usedidx = {}
        for fo in folds:
            for n, t in idxterms(lambda v: v.vh, k):
                tag = ('%s(%s)' % (fo.name, n))
                if not any(c.name.endswith('fold' + tag) or ('fold%s.' % fo.name in c.name and c.name.endswith('(%s)' % n)) for c in cands) and not invs:
                    continue
                if not any(('fold%s.' % fo.name in c.name and c.name.endswith('(%s)' % n)) for c in cands):
                    continue
                d = 1
                if n.endswith('k') and n != 'k':
                    d = int(n[:-1])
                for v in vars_:
                    if n in (v.name, 'e-' + v.name, v.name + '-e') and v.stride is not None:
                        dd = v.stride if not n.startswith('e-') else (-v.stride) & X.mask(64)
                        if dd <= 16:
                            d = dd
                for q in range(d):
                    lem.append(fold_lemma(self, fo, add(t, q, 64) if not isc(t) else t + q))
        # ---- Houdini
        rounds = 0
        base = [z3.ULT(k, z3.BitVecVal(1 << 42, 64))] + lem
        pending_back = None
        while True:
            rounds += 1
            if rounds > 40:
                raise Unsupported('houdini does not converge')
            if pending_back is None or nested:
                s0 = hst.fork()
                for b in base:
                    s0.assume(b)
                if nested:
                    for c in cands:
                        s0.assume(c.head)
                nb0 = len(s0.pc)
                col = Collector()
                act.cuts[bb.idx] = col
                act.limitset = body
                self.suppress += 1
                owl, self.wlog = self.wlog, None
                owx, self.wlogx = self.wlogx, None
                self.loopstack.append(('k@%d' % bb.idx, k))
                nadd = 1
                for v in vars_:
                    if v.w == 64:
                        self.loopstack.append((v.name, v.vh))
                        nadd += 1
                try:
                    self.run(s0, act, dict(hregs), bb, 0, None)
                finally:
                    self.suppress -= 1
                    self.wlog = owl
                    self.wlogx = owx
                    act.limitset = saved_limit
                    del act.cuts[bb.idx]
                    del self.loopstack[-nadd:]
                pending_back = [(s, r, s.pc[nb0:], s.pc[:len(hst.pc)]) for s, r in col.back]
            n0 = len(cands)
            for s, r, suffix, _ in pending_back:
                if not cands:
                    break
                pc = list(hst.pc) + base + [tob(c.head) for c in cands] + suffix
                nk = add(k, 1, 64)
                for c in cands:
                    c.entry = c.at(s, r, nk)
                cands = self._houdini_filter(pc, cands, lambda c: c.entry)
            if len(cands) == n0:
                break
        # ---- final pass with obligations
        for c in cands:
            if not self.suppress:
                o = Ob()
                o.name = 'loop invariant: ' + c.name
                o.kind = 'invariant'
                o.loc = self.loc()
                o.fnname = F.name
                o.status = 'discharged'
                o.backend = 'z3'
                o.time = 0.0
                o.inputs = None
                o.detail = ''
                o.q = None
                self.obs.append(o)
        key = '%s#%d' % (F.name, bb.idx)
        if not self.suppress:
            self.invs_used[key] = [c.name for c in cands]
        fs = hst
        for b in base:
            fs.assume(b)
        for c in cands:
            fs.assume(c.head)
        act.cuts[bb.idx] = Drop()
        act.limitset = body
        base_n = len(fs.pc)
        nadd = 1
        self.loopstack.append(('k@%d' % bb.idx, k))
        for v in vars_:
            if v.w == 64:
                self.loopstack.append((v.name, v.vh))
                nadd += 1
        try:
            res = self.run(fs, act, dict(hregs), bb, 0, stop)
        finally:
            del act.cuts[bb.idx]
            act.limitset = saved_limit
            del self.loopstack[-nadd:]
        # continue behind the loop, one continuation per exit block where states merge
        fin = [r for r in res if r[0] != 'exit']
        exits = {}
        for r in res:
            if r[0] == 'exit':
                exits.setdefault(r[3].idx, []).append(r)
        for lst in exits.values():
            tgt = lst[0][3]
            ms = [('stop', r[1], r[2]) for r in lst]
            if self.opts['merge']:
                ms = self.merge_stops(ms, base_n, tgt)
            for _, s2, rg in ms:
                if folds:
                    self.trip_count(s2, k, [fo.n for fo in folds])
                fin += self.at_block(s2, act, rg, tgt, stop)
        return fin

    def trip_count(self, st, k, terms):
        """add the fact  k == T  for a term T it follows for"""
        pc = [c for c in st.pc if not self.has_quant(c) and self.weight(c) <= 60]
        for T in terms:
            e = k == bv(T, 64)
            if self.check(pc + [z3.Not(e)], 2500, first=99999) == 'unsat':
                st.assume(e)
                return

    def _cellptr(self, st, rid, off):
        m = st.mem.get(rid)
        if m is None:
            return None
        c = m.cells.get(off)
        return c[1] if c else None

    def _houdini_filter(self, pc, cands, get):
        """largest subset whose formulas are implied by pc (each individually)"""
        out = []
        todo = []
        dead = None
        for c in cands:
            f = get(c)
            if isinstance(f, bool):
                if not f and c.tmpl and dead is None:
                    # a path that cannot be taken preserves everything
                    dead = self.check(list(pc), self.opts.get('one_ms', 6000)) == 'unsat'
                if f or dead:
                    out.append(c)
                continue
            todo.append((c, f))
        if todo:
            qf = [c for c in pc if not self.has_quant(c)]
            plain = [x for x in todo if not self.has_quant(x[1])]
            rest = [x for x in todo if self.has_quant(x[1])]
            ok, bad = _hfilter(self, qf, plain)
            out += ok
            if len(qf) != len(pc):
                rest += [x for x in bad if x[0].tmpl]
            out += self._one_by_one(pc, rest)
        order = {id(c): i for i, c in enumerate(cands)}
        out.sort(key=lambda c: order[id(c)])
        return out

    def _hfilter(self, pc, todo):
        out, bad = [], []
        while todo:
            s = z3.Solver()
            s.set('timeout', 1500)
            self.feed(s, list(pc) + [z3.Or(*[z3.Not(f) for _, f in todo])])
            t = time.time()
            r = s.check()
            self.stats['queries'] += 1
            self.stats['solver_s'] += time.time() - t
            if time.time() > self.deadline:
                from sym import BudgetExceeded
                raise BudgetExceeded()
            if r == z3.unsat:
                out += [c for c, _ in todo]
                break
            if r == z3.sat:
                m = s.model()
                keep = []
                for c, f in todo:
                    v = m.eval(f, model_completion=True)
                    if z3.is_false(v):
                        bad.append((c, f))
                        continue
                    keep.append((c, f))
                if len(keep) == len(todo):
                    ok = self._one_by_one(pc, todo)
                    out += ok
                    oks = {id(c) for c in ok}
                    bad += [x for x in todo if id(x[0]) not in oks]
                    break
                todo = keep
            else:
                ok = self._one_by_one(pc, todo)
                out += ok
                oks = {id(c) for c in ok}
                bad += [x for x in todo if id(x[0]) not in oks]
                break
        return out, bad

    def _one_by_one(self, pc, todo):
        out = []
        if not todo:
            return out
        quant = any(self.has_quant(c) for c in pc) or any(self.has_quant(f) for _, f in todo)
        for c, f in todo:
            r = self.check(list(pc) + [z3.Not(f)], self.opts.get('one_ms', 6000), mbqi=not quant)
            if r == 'unsat':
                out.append(c)
        return out

    Engine.cut_loop = cut_loop
    Engine.eval_bool = eval_bool
    Engine.fold_lemma = fold_lemma
    Engine._houdini_filter = _houdini_filter
    Engine._one_by_one = _one_by_one
    Engine._cellptr = _cellptr
    Engine.trip_count = trip_count
