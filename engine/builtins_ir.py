"""Contracts of everything outside the code under verification: C library memory functions, allocation,
exceptions, stream I/O (a ghost byte file), LLVM intrinsics, floating point, and the harness hooks.
"""
import math
import struct
import z3
from bvx import *
import bvx as X
import sym as S

RNE = None


def f2b(d, w):
    try:
        return struct.unpack('<I', struct.pack('<f', d))[0] if w == 32 else struct.unpack('<Q', struct.pack('<d', d))[0]
    except OverflowError:
        return (0xff800000 if d < 0 else 0x7f800000)


def b2f(b, w):
    return struct.unpack('<f', struct.pack('<I', b))[0] if w == 32 else struct.unpack('<d', struct.pack('<Q', b))[0]


def fsort(w):
    return {16: z3.FPSort(5, 11), 32: z3.FPSort(8, 24), 64: z3.FPSort(11, 53), 80: z3.FPSort(15, 64)}[w]


class Builtins:
    def __init__(self, eng):
        self.e = eng
        self.cache = {}
        self.table = {}
        for n in dir(self):
            if n.startswith('h_'):
                self.table[n[2:]] = getattr(self, n)
        T = self.table
        T['_Znwm'] = T['_Znam'] = T['malloc'] = self.b_malloc
        T['_ZnwmSt11align_val_t'] = self.b_malloc
        T['_ZdlPv'] = T['_ZdaPv'] = T['free'] = T['_ZdlPvm'] = T['_ZdaPvm'] = self.b_free
        T['_ZdlPvSt11align_val_t'] = T['_ZdlPvmSt11align_val_t'] = self.b_free
        T['bcmp'] = T['memcmp']
        for n in ('_ZSt17__throw_bad_allocv', '_ZSt20__throw_length_errorPKc', '_ZSt19__throw_logic_errorPKc',
                  '_ZSt20__throw_out_of_rangePKc', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt28__throw_bad_array_new_lengthv',
                  '_ZSt24__throw_invalid_argumentPKc', '_ZSt16__throw_bad_castv', '_ZSt25__throw_bad_function_callv', '__cxa_rethrow',
                  '_ZSt21__throw_runtime_errorPKc', '__cxa_bad_cast', '__cxa_throw_bad_array_new_length', '__cxa_throw'):
            T[n] = (lambda nm: lambda st, a, I, act: [('throw', st, nm)])(n)
        T['_ZNSi4readEPcl'] = self.s_read
        T['_ZNKSt9basic_iosIcSt11char_traitsIcEE3eofEv'] = self.s_eof
        T['_ZNSo5writeEPKcl'] = self.s_write
        T['_ZNSi5seekgElSt12_Ios_Seekdir'] = lambda st, a, I, act: self.s_seek(st, a, 'g')
        T['_ZNSo5seekpElSt12_Ios_Seekdir'] = lambda st, a, I, act: self.s_seek(st, a, 'p')
        T['_ZNSi5seekgESt4fposI11__mbstate_tE'] = lambda st, a, I, act: self.s_seek(st, [a[0], a[1], 0], 'g')
        T['_ZNSo5seekpESt4fposI11__mbstate_tE'] = lambda st, a, I, act: self.s_seek(st, [a[0], a[1], 0], 'p')
        T['_ZNSi5tellgEv'] = lambda st, a, I, act: self.s_tell(st, a, 'g')
        T['_ZNSo5tellpEv'] = lambda st, a, I, act: self.s_tell(st, a, 'p')
        T['_ZNSi3getEv'] = self.s_get
        T['_ZNSo3putEc'] = self.s_put

    def lookup(self, name):
        h = self.cache.get(name)
        if h is not None:
            return h
        if name in self.cache:
            return None
        h = self._lookup(name)
        self.cache[name] = h
        return h

    def _lookup(self, name):
        if name in self.e.hooks:
            return self.e.hooks[name]
        h = self.table.get(name)
        if h is not None:
            if not name.startswith('vp_'):
                nm = name

                def wrapped(st, a, I, act, h=h, nm=nm):
                    self.e.externals_used.add(nm)
                    return h(st, a, I, act)
                return wrapped
            return h
        if name.startswith('llvm.'):
            return self.intrinsic(name)
        return None

    # ------------------------------------------------------------- globals
    def init_global(self, st, r, m):
        from llvmir import lib
        L = lib()
        p = self.e.mod.gvptr[r.gname]
        init = L.LLVMGetInitializer(p)
        if not init:
            self.e.externals_used.add('extern data ' + r.gname)
            return
        c = self.e.mod.operand(init)
        self.put_const(r, m, 0, c, r.gty)

    def put_const(self, r, m, off, c, t):
        e = self.e
        if c.kind == 'bytes':
            if off == 0 and len(c.data) == r.size and t.elem.store == 1:
                m.base = bytes(c.data)
                return
            n = t.elem.store
            for i in range(0, len(c.data), n):
                m.cells[off + i] = (n, int.from_bytes(c.data[i:i + n], 'little'))
            return
        if c.kind == 'zero':
            if off == 0 and t.size == r.size and t.kind != 'ptr':
                m.base = bytes(t.size)
                return
            self.put_zero(m, off, t)
            return
        if c.kind == 'undef':
            return
        if c.kind == 'agg':
            if t.kind == 'struct':
                for o, f, x in zip(t.offs, t.fields, c.data):
                    self.put_const(r, m, off + o, x, f)
            else:
                for i, x in enumerate(c.data):
                    self.put_const(r, m, off + i * t.elem.size, x, t.elem)
            return
        v = e.const(c)
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, S.Ptr) and v.r is None:
            v = v.off
        m.cells[off] = (t.store, v)

    def put_zero(self, m, off, t):
        if t.kind in ('array', 'vector'):
            for i in range(t.n):
                self.put_zero(m, off + i * t.elem.size, t.elem)
        elif t.kind == 'struct':
            for o, f in zip(t.offs, t.fields):
                self.put_zero(m, off + o, f)
        else:
            v = 0
            if t.is_fp and self.e.fp == 'real':
                v = S.RealV(z3.RealVal(0), t.width)
            m.cells[off] = (t.store, v)

    # --------------------------------------------------------------- harness
    def cstr(self, st, p):
        m = self.e.mobj(st, p.r)
        out = bytearray()
        i = p.off
        while True:
            b = self.e.read_byte(p.r, m, i)
            if not isinstance(b, int):
                raise S.Unsupported('symbolic C string where a literal is needed')
            if b == 0:
                return out.decode()
            out.append(b)
            i += 1

    def inname(self, st, p):
        n = self.cstr(st, p)
        c = self.e.incount.get(n, 0)
        return n, n

    def _in(self, st, a, w):
        name = self.cstr(st, a[0])
        key = name
        # the same input read twice in one run gets a suffix (replay does the same)
        k = st.tags.get(('in', name), 0)
        st.tags[('in', name)] = k + 1
        if k:
            key = '%s#%d' % (name, k)
        self.e.lastkey = key
        for (n, kd, t, s) in self.e.inputs:
            if n == key and kd == 'u':
                return t
        t = z3.BitVec('in!' + key, w)
        self.e.inputs.append((key, 'u', t, w))
        return t

    def h_vp_u8(self, st, a, I, act): return self._in(st, a, 8)
    def h_vp_u16(self, st, a, I, act): return self._in(st, a, 16)
    def h_vp_u32(self, st, a, I, act): return self._in(st, a, 32)
    def h_vp_u64(self, st, a, I, act): return self._in(st, a, 64)

    def h_vp_range(self, st, a, I, act):
        t = self._in(st, a, 64)
        if isinstance(a[1], int) and isinstance(a[2], int) and a[2] - a[1] > 100000:
            self.e.sizes.add(self.e.lastkey)
        st.assume(cmp('uge', t, a[1], 64))
        st.assume(cmp('ule', t, a[2], 64))
        return t

    def h_vp_choose(self, st, a, I, act):
        t = self._in(st, a, 64)
        out = []
        for k in range(a[1], a[2] + 1):
            s = st.fork()
            s.assume(cmp('eq', t, k, 64))
            s.tags[('choose', self.cstr(st, a[0]))] = k
            out.append(('ret', s, k))
        return out

    def h_vp_real(self, st, a, I, act):
        """a float input; a free real in real mode, free bits otherwise"""
        e = self.e
        if e.fp == 'real':
            name = self.cstr(st, a[0])
            k = st.tags.get(('in', name), 0)
            st.tags[('in', name)] = k + 1
            key = name if not k else '%s#%d' % (name, k)
            for (n, kd, t, s) in e.inputs:
                if n == key:
                    return S.RealV(t, 32)
            t = z3.Real('in!' + key)
            e.inputs.append((key, 'r', t, 32))
            return S.RealV(t, 32)
        return self._in(st, a, 32)

    def h_vp_buf(self, st, a, I, act):
        name = self.cstr(st, a[0])
        n = a[1]
        k = st.tags.get(('in', name), 0)
        st.tags[('in', name)] = k + 1
        key = name if not k else '%s#%d' % (name, k)
        arr = z3.Array('inbuf!' + key, z3.BitVecSort(64), z3.BitVecSort(8))
        r = self.e.alloc(st, name, n if isinstance(n, int) else n, 'heap')
        r.fresh = arr
        m = st.mem[r.id]
        m.base = arr
        if not any(i[0] == key for i in self.e.inputs):
            self.e.inputs.append((key, 'b', arr, n))
        if isinstance(n, z3.BitVecRef):
            st.assume(z3.ULT(n, z3.BitVecVal(1 << 40, 64)))
        return S.Ptr(r, 0)

    def h_vp_assume(self, st, a, I, act):
        c = a[0]
        c = self.e.simpc(c if not isinstance(c, int) or isinstance(c, bool) else bool(c))
        if isinstance(c, bool):
            if c:
                return None
            return 'dead'
        st.assume(c)
        return None

    def h_vp_assert(self, st, a, I, act):
        c = a[0]
        self.e.oblige(st, c, self.cstr(st, a[1]), 'assert')
        return None

    def h_vp_cover(self, st, a, I, act):
        n = self.cstr(st, a[0])
        if self.e.suppress:
            return None
        if not self.e.covers.get(n):
            self.e.covers[n] = self.e.check(st.pc, 8000) != 'unsat'
        return None

    def h_vp_is_freed(self, st, a, I, act):
        return a[0].r is not None and a[0].r.id in st.freed

    def h_vp_live_heap(self, st, a, I, act):
        """number of live heap objects allocated through malloc/new on this path"""
        n = 0
        for rid in st.mem:
            r = self.e.regions[rid]
            if r.kind == 'heap' and rid not in st.freed and getattr(r, 'dyn', False):
                n += 1
        return n

    def h_vp_forall(self, st, a, I, act):
        raise S.Unsupported('vp_forall')

    def h_vp_fold_hook(self, st, a, I, act):
        e = self.e
        f = S.Fold()
        f.name = self.cstr(st, a[0])
        sp = a[1]
        f.words, f.wsz, n = a[2], a[3], a[4]
        f.fn, f.ctx = a[5], a[6]
        f.n = n
        f.lemmas = {}
        f.st = st.fork()
        key = 'fold!%s!%d' % (f.name, e.fresh_n)
        e.fresh_n += 1
        f.F = []
        for j in range(f.words):
            F = z3.Function('%s.%d' % (key, j), z3.BitVecSort(64), z3.BitVecSort(f.wsz * 8))
            f.F.append(F)
            init = e.read(st, sp.r, add(sp.off, j * f.wsz, 64), f.wsz)
            st.assume(F(z3.BitVecVal(0, 64)) == bv(init, f.wsz * 8))
            e.write(st, sp.r, add(sp.off, j * f.wsz, 64), f.wsz, F(bv(n, 64)))
        if isinstance(n, int) and n <= 64:
            for i in range(n):
                st.assume(e.fold_lemma(f, i))
        st.ghosts.append(f)
        return None

    def h_vp_fold_at_hook(self, st, a, I, act):
        """value of an earlier fold at an index, with the lemma leading to it (id, out, idx)"""
        e = self.e
        n = self.cstr(st, a[0])
        for g in st.ghosts:
            if isinstance(g, S.Fold) and g.name == n:
                for j in range(g.words):
                    e.write(st, a[1].r, add(a[1].off, j * g.wsz, 64), g.wsz, g.F[j](bv(a[2], 64)))
                if a[3] is True or a[3] == 1:
                    st.assume(e.fold_lemma(g, a[2]))
                return None
        raise S.Unsupported('unknown fold ' + n)

    def h_vp_bij(self, st, a, I, act):
        """an arbitrary bijection of the 64 bit words: E, with D(E(x)) == x at each x used"""
        e = self.e
        S64 = z3.BitVecSort(64)
        E, D = e.uf('bij.E', [S64], S64), e.uf('bij.D', [S64], S64)
        y = E(bv(a[0], 64))
        e.axiom(y, D(y) == bv(a[0], 64))
        return y

    def h_vp_bij_inv(self, st, a, I, act):
        e = self.e
        S64 = z3.BitVecSort(64)
        E, D = e.uf('bij.E', [S64], S64), e.uf('bij.D', [S64], S64)
        y = D(bv(a[0], 64))
        e.axiom(y, E(y) == bv(a[0], 64))
        return y

    def h_vp_inv_hook(self, st, a, I, act):
        iv = S.Inv()
        iv.name = self.cstr(st, a[0])
        iv.fn, iv.ctx = a[1], a[2]
        iv.holes = a[3]
        st.ghosts.append(iv)
        return None

    def h_vp_all_hook(self, st, a, I, act):
        self.e.add_alls(st, S.All(a[0].r, a[0].off, a[1], fn=a[2], ctx=a[3], st=st.fork()))
        return None

    def h_vp_touch(self, st, a, I, act):
        if a[0].r is not None:
            st.touched = st.touched + ((a[0].r, a[0].off),)
            self.e.instantiate(st, a[0].r, a[0].off, 1)
        return None

    def h_vp_inv_clear(self, st, a, I, act):
        st.ghosts = [g for g in st.ghosts if not isinstance(g, S.Inv)]
        return None

    def h_vp_throws_hook(self, st, a, I, act):
        """run closure; true if it threw"""
        e = self.e
        outs = e.call_function(st, a[0].r.fn, [a[1]], act.depth + 1)
        res = []
        for o in outs:
            if o[0] == 'throw':
                res.append(('ret', o[1], True))
            else:
                res.append(('ret', o[1], False))
        if not res:
            return 'dead'
        return res

    def h_vp_all_eq(self, st, a, I, act):
        """forall t < n: p[t] == q[t]"""
        e = self.e
        n = a[2] if isinstance(a[2], int) else simp(a[2])
        if isinstance(n, int) and n <= 64:
            if n == 0:
                return True
            return and_all([cmp('eq', e.read(st, a[0].r, add(a[0].off, i, 64), 1), e.read(st, a[1].r, add(a[1].off, i, 64), 1), 8) for i in range(n)])
        t = z3.BitVec('q!t%d' % e.fresh_n, 64)
        e.fresh_n += 1
        A = e.flush(a[0].r, e.mobj(st, a[0].r))
        B = e.flush(a[1].r, e.mobj(st, a[1].r))
        oa, ob, n = bv(a[0].off, 64), bv(a[1].off, 64), bv(n, 64)
        # absolute indices, so that a select is a usable trigger
        f1 = z3.ForAll([t], z3.Implies(z3.ULT(t - oa, n), z3.Select(A, t) == z3.Select(B, z3.simplify(t - oa + ob))))
        f2 = z3.ForAll([t], z3.Implies(z3.ULT(t - ob, n), z3.Select(B, t) == z3.Select(A, z3.simplify(t - ob + oa))))
        return z3.And(f1, f2)

    def h_vp_exists_byte(self, st, a, I, act):
        """exists t < n: p[t] == c"""
        e = self.e
        n = a[1] if isinstance(a[1], int) else simp(a[1])
        c = a[2]
        if isinstance(n, int) and n <= 64:
            r = False
            for i in range(n):
                r = bor_(r, cmp('eq', e.read(st, a[0].r, add(a[0].off, i, 64), 1), c, 8))
            return r
        t = z3.BitVec('q!t%d' % e.fresh_n, 64)
        e.fresh_n += 1
        A = e.flush(a[0].r, e.mobj(st, a[0].r))
        return z3.Exists([t], z3.And(z3.ULT(z3.simplify(t - bv(a[0].off, 64)), bv(n, 64)), z3.Select(A, t) == bv(c, 8)))

    def h_vp_stream_ios(self, st, a, I, act): return a[0]

    # ---------------------------------------------------------------- memory
    def b_malloc(self, st, a, I, act):
        n = a[0]
        n = n if isinstance(n, int) else simp(n)
        if not isinstance(n, int):
            self.e.oblige(st, z3.ULT(n, z3.BitVecVal(1 << 46, 64)), 'allocation size is sane', 'memory')
        r = self.e.alloc(st, 'heap%s_%d' % (I.fn.name[:16], I.id), n, 'heap')
        r.dyn = True
        return S.Ptr(r, 0)

    def h_calloc(self, st, a, I, act):
        p = self.b_malloc(st, [mul(a[0], a[1], 64)], I, act)
        st.mem[p.r.id].base = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8))
        return p

    def b_free(self, st, a, I, act):
        p = a[0]
        if p is S.UNDEF:
            self.e.oblige(st, False, 'free of an undefined pointer', 'memory')
            return None
        if p.r is None:
            if isinstance(p.off, int) and p.off == 0:
                return None
            self.e.oblige(st, False, 'free of an invalid pointer', 'memory')
            return None
        ok = p.r.kind == 'heap'
        self.e.oblige(st, ok, 'freed memory came from the allocator', 'memory')
        self.e.oblige(st, cmp('eq', p.off, 0, 64), 'freed pointer is the start of its block', 'memory')
        self.e.oblige(st, p.r.id not in st.freed, 'memory freed once', 'memory')
        st.freed = st.freed | {p.r.id}
        return None

    def h_memcpy(self, st, a, I, act):
        self.copy(st, a[0], a[1], a[2])
        return a[0]

    h_memmove = h_memcpy

    def copy(self, st, d, s, n):
        e = self.e
        n = n if isinstance(n, int) else simp(n)
        if isinstance(n, int) and n == 0:
            return
        if not isinstance(n, int):
            # a zero length copy may have any pointers
            if (d.r is None or s.r is None):
                e.oblige(st, cmp('eq', n, 0, 64), 'copy with a null pointer has length 0', 'memory')
                return
        rd = e.access(st, s, n, False)
        wr = e.access(st, d, n, True)
        if rd is None or wr is None:
            return
        so, do = s.off, d.off
        if isinstance(n, int) and n <= 4096 and isinstance(so, int) and isinstance(do, int):
            m = e.mobj(st, rd)
            vals = []
            i = 0
            so = X.sgn(so, 64)
            while i < n:
                c = m.cells.get(so + i)
                if c is not None and c[0] <= n - i:
                    vals.append((i, c[0], c[1]))
                    i += c[0]
                else:
                    # take the largest aligned word not covered by cells
                    step = 1
                    for wsz in (8, 4, 2):
                        if i % wsz == 0 and i + wsz <= n and not any((so + i + q) in m.cells for q in range(wsz)) and \
                                not any(m.cells.get(so + i - q, (0,))[0] > q for q in range(1, 16)):
                            step = wsz
                            break
                    vals.append((i, step, e.read(st, rd, add(so & X.mask(64), i, 64), step)))
                    i += step
            for i, sz, v in vals:
                e.write(st, wr, add(do, i, 64), sz, v)
            return
        if isinstance(n, int) and n <= 64:
            vals = [e.read(st, rd, add(so, i, 64), 1) for i in range(n)]
            for i, v in enumerate(vals):
                e.write(st, wr, add(do, i, 64), 1, v)
            return
        A = e.flush(rd, e.mobj(st, rd))
        m2 = e.mobj(st, wr, True)
        keep = {}
        for o, c in m2.cells.items():
            if isinstance(c[1], S.Ptr):
                ov = z3.And(z3.ULT(bv(do, 64), z3.BitVecVal(o + 8, 64)), z3.ULT(z3.BitVecVal(o, 64), bv(do, 64) + bv(n, 64)))
                if e.check(st.pc + [ov], 3000) == 'unsat':
                    keep[o] = c
        B = e.flush(wr, m2)
        i = z3.BitVec('cp!i', 64)
        rel = i - bv(do, 64)
        L = z3.Lambda([i], z3.If(z3.ULT(rel, bv(n, 64)), z3.Select(A, rel + bv(so, 64)), z3.Select(B, i)))
        e.set_array(st, wr, L, keep)

    def h_memset(self, st, a, I, act):
        e = self.e
        d, v, n = a[0], a[1], a[2]
        v = trunc(e.num(v, 32), 32, 8) if not isinstance(v, int) else v & 255
        self.fill(st, d, v, n)
        return d

    def fill(self, st, d, v, n):
        e = self.e
        n = n if isinstance(n, int) else simp(n)
        if isinstance(n, int) and n == 0:
            return
        r = e.access(st, d, n, True)
        if r is None:
            return
        if isinstance(n, int) and n <= 8192 and isinstance(d.off, int):
            i = 0
            if e.fp == 'real' and v == 0:
                z = S.RealV(z3.RealVal(0), 32)
                for i in range(0, n, 4):
                    e.write(st, r, add(d.off, i, 64), 4, 0)
                return
            while i < n:
                w = 8 if n - i >= 8 else 1
                e.write(st, r, add(d.off, i, 64), w, concat([(v, 8)] * w))
                i += w
            return
        if isinstance(n, int) and n <= 64:
            for i in range(n):
                e.write(st, r, add(d.off, i, 64), 1, v)
            return
        B = e.flush(r, e.mobj(st, r, True))
        i = z3.BitVec('ms!i', 64)
        L = z3.Lambda([i], z3.If(z3.ULT(i - bv(d.off, 64), bv(n, 64)), bv(v, 8), z3.Select(B, i)))
        e.set_array(st, r, L)

    def h_memcmp(self, st, a, I, act):
        e = self.e
        p, q, n = a
        n = n if isinstance(n, int) else simp(n)
        if isinstance(n, int) and n == 0:
            return 0
        if not isinstance(n, int) and (p.r is None or q.r is None):
            e.oblige(st, cmp('eq', n, 0, 64), 'compare with a null pointer has length 0', 'memory')
            return 0
        r1, r2 = e.access(st, p, n, False), e.access(st, q, n, False)
        if r1 is None or r2 is None:
            return 0
        if isinstance(n, int) and n <= 64:
            res = 0
            for i in reversed(range(n)):
                x, y = e.read(st, r1, add(p.off, i, 64), 1), e.read(st, r2, add(q.off, i, 64), 1)
                d = sub(zext(bv(x, 8), 8, 32), zext(bv(y, 8), 8, 32), 32)
                res = ite(cmp('eq', x, y, 8), res, d, 32)
            return res
        A, B = e.flush(r1, e.mobj(st, r1)), e.flush(r2, e.mobj(st, r2))
        res = e.fresh('memcmp', 32)
        d = e.fresh('memcmpd', 64)
        nb = bv(n, 64)
        at = lambda R, o, x: z3.Select(R, bv(add(x, o, 64), 64))
        f = lambda t: at(A, p.off, t) == at(B, q.off, t)
        st.assume(z3.ULE(d, nb))
        st.assume(z3.Implies(d == nb, res == 0))
        st.assume(z3.Implies(d != nb, z3.And(at(A, p.off, d) != at(B, q.off, d), res == z3.ZeroExt(24, at(A, p.off, d)) - z3.ZeroExt(24, at(B, q.off, d)))))
        e.instantiate(st, r1, add(p.off, d, 64), 1)
        e.instantiate(st, r2, add(q.off, d, 64), 1)
        e.add_alls(st, S.All(r1, p.off, d, py=f), S.All(r2, q.off, d, py=f))
        return res

    def h_strlen(self, st, a, I, act):
        e = self.e
        p = a[0]
        if p.r is None:
            e.oblige(st, False, 'strlen of a valid string', 'memory')
            return 'dead'
        m = e.mobj(st, p.r)
        if isinstance(p.off, int) and isinstance(p.r.size, int) and p.r.size <= 4096:
            # concrete prefix walk
            n = 0
            while p.off + n < p.r.size:
                b = e.read_byte(p.r, m, p.off + n)
                if isinstance(b, int) and b == 0:
                    return n
                if not isinstance(b, int):
                    break
                n += 1
        A = e.flush(p.r, m)
        n = e.fresh('strlen', 64)
        t = z3.BitVec('sl!t%d' % e.fresh_n, 64)
        off, sz = bv(p.off, 64), bv(p.r.size, 64)
        nul = e.fresh('nulpos', 64)
        # precondition: some NUL inside the object.  Checked by refutation: no NUL anywhere must be impossible
        e.oblige(st, z3.Not(z3.ForAll([t], z3.Implies(z3.ULT(t, sz - off), z3.Select(A, t + off) != 0))), 'string is terminated inside its object', 'memory')
        st.assume(z3.And(z3.ULT(n, sz - off), z3.Select(A, n + off) == 0))
        e.instantiate(st, p.r, add(p.off, n, 64), 1)
        self.e.add_alls(st, S.All(p.r, p.off, n, py=lambda x: z3.Select(A, bv(add(x, p.off, 64), 64)) != 0))
        return n

    def h_memchr(self, st, a, I, act):
        e = self.e
        p, c, n = a
        n = n if isinstance(n, int) else simp(n)
        if isinstance(n, int) and n == 0:
            return S.Ptr(None, 0)
        r = e.access(st, p, n, False)
        if r is None:
            return 'dead'
        c = trunc(e.num(c, 32), 32, 8)
        A = e.flush(r, e.mobj(st, r))
        t = z3.BitVec('mh!t%d' % e.fresh_n, 64)
        off, nb = bv(p.off, 64), bv(n, 64)
        d = e.fresh('memchr', 64)
        s2 = st.fork()
        f = lambda x: z3.Select(A, bv(add(x, p.off, 64), 64)) != bv(c, 8)
        self.e.add_alls(s2, S.All(r, p.off, nb, py=f))
        st.assume(z3.ULT(d, nb))
        st.assume(z3.Select(A, d + off) == bv(c, 8))
        e.instantiate(st, r, add(p.off, d, 64), 1)
        self.e.add_alls(st, S.All(r, p.off, d, py=f))
        return [('ret', st, S.Ptr(r, add(p.off, d, 64))), ('ret', s2, S.Ptr(None, 0))]

    # ------------------------------------------------------------ exceptions
    def h___cxa_allocate_exception(self, st, a, I, act):
        r = self.e.alloc(st, 'exc', a[0], 'heap')
        return S.Ptr(r, 0)

    def h___cxa_free_exception(self, st, a, I, act): return None
    def h__ZSt9terminatev(self, st, a, I, act):
        self.e.oblige(st, False, 'terminate not reached', 'exception')
        return 'dead'

    def h_abort(self, st, a, I, act):
        self.e.oblige(st, False, 'abort not reached', 'exception')
        return 'dead'

    def h___clang_call_terminate(self, st, a, I, act):
        self.e.oblige(st, False, 'terminate not reached', 'exception')
        return 'dead'

    def h___cxa_guard_acquire(self, st, a, I, act):
        b = self.e.read(st, a[0].r, a[0].off, 1)
        return ite(cmp('eq', b, 0, 8), 1, 0, 32)

    def h___cxa_guard_release(self, st, a, I, act):
        self.e.write(st, a[0].r, a[0].off, 1, 1)
        return None

    def h___cxa_atexit(self, st, a, I, act): return 0
    def h___assert_fail(self, st, a, I, act):
        self.e.oblige(st, False, 'assertion in the code under verification', 'assert')
        return 'dead'
    def h__ZNSt16invalid_argumentC1EPKc(self, st, a, I, act): return None
    def h__ZNSt16invalid_argumentC2EPKc(self, st, a, I, act): return None
    def h__ZNSt13runtime_errorC1EPKc(self, st, a, I, act): return None
    def h__ZNSt13runtime_errorC2EPKc(self, st, a, I, act): return None
    def h__ZNSt11logic_errorC1EPKc(self, st, a, I, act): return None
    def h__ZNSt11logic_errorC2EPKc(self, st, a, I, act): return None
    def h__ZNSt12out_of_rangeC1EPKc(self, st, a, I, act): return None
    def h__ZNSt11range_errorC1EPKc(self, st, a, I, act): return None
    def h__ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(self, st, a, I, act): return None
    def h__ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(self, st, a, I, act): return None

    # --------------------------------------------------------------- streams
    def h_vp_stream_hook(self, st, a, I, act):
        """ghost stream: contents = inbuf name of given size; cursor positions 0"""
        e = self.e
        name = self.cstr(st, a[0])
        n = a[1]
        r = e.alloc(st, 'stream_' + name, 512, 'stream')
        s = S.Stream()
        s.data = z3.Array('inbuf!' + name, z3.BitVecSort(64), z3.BitVecSort(8))
        if not any(i[0] == name for i in e.inputs):
            e.inputs.append((name, 'b', s.data, n))
        s.size, s.g, s.p, s.fail = n, 0, 0, False
        if isinstance(n, z3.BitVecRef):
            st.assume(z3.ULT(n, z3.BitVecVal(1 << 40, 64)))
        st.streams[r.id] = s
        # virtual base offsets (ios at +24 from the istream part)
        vt = e.alloc(st, 'vtable_stream', 64, 'global', False)
        st.mem[vt.id].cells[0] = (8, 24)
        st.mem[vt.id].cells[32] = (8, 8)
        st.mem[r.id].cells[0] = (8, S.Ptr(vt, 24))
        st.mem[r.id].cells[16] = (8, S.Ptr(vt, 56))
        st.mem[r.id].cells[24 + 32] = (4, 0)     # ios_base::_M_streambuf_state == goodbit
        return S.Ptr(r, 0)

    def strm(self, st, p):
        if p is S.UNDEF or p.r is None or p.r.id not in st.streams:
            raise S.Unsupported('operation on an unknown stream')
        return st.streams[p.r.id]

    def wl(self, p, kind=0):
        """kind: 1 what writing changes (data, size, put position), 2 what reading changes (get position,
        failure), 0 everything"""
        if self.e.wlog is not None:
            self.e.wlog.append(('stream', p.r.id, kind))

    def h_vp_stream_size(self, st, a, I, act): return self.strm(st, a[0]).size
    def h_vp_stream_gpos(self, st, a, I, act): return self.strm(st, a[0]).g
    def h_vp_stream_ppos(self, st, a, I, act): return self.strm(st, a[0]).p
    def h_vp_stream_failed(self, st, a, I, act): return self.strm(st, a[0]).fail
    def h_vp_stream_at(self, st, a, I, act):
        return simp(z3.Select(self.strm(st, a[0]).data, bv(a[1], 64)))

    def h_vp_stream_setg(self, st, a, I, act):
        self.strm(st, a[0]).g = a[1]
        self.wl(a[0])
        return None

    def h_vp_stream_setp(self, st, a, I, act):
        self.strm(st, a[0]).p = a[1]
        self.wl(a[0])
        return None

    def sput(self, s, i, v):
        s.data = z3.Store(s.data, bv(i, 64), bv(v, 8))

    def at_eof(self, st, p, s):
        """an extraction met the end of the file: eofbit and failbit"""
        if isinstance(s.fail, bool) and not s.fail:
            self.e.write(st, p.r, 24 + 32, 4, 6)
        elif not (isinstance(s.fail, bool) and s.fail):
            self.e.write(st, p.r, 24 + 32, 4, ite(s.fail, self.e.read(st, p.r, 24 + 32, 4), 6, 32))

    def s_eof(self, st, a, I, act):
        v = self.e.read(st, a[0].r, 24 + 32, 4)
        c = cmp('eq', X.band(v, 2, 32), 0, 32)
        return bnot(c)

    def s_read(self, st, a, I, act):
        e = self.e
        p, n = a[1], a[2]
        n = n if isinstance(n, int) else simp(n)
        e.oblige(st, cmp('sge', n, 0, 64), 'stream read length is not negative', 'memory')
        s = self.strm(st, a[0])
        self.wl(a[0], 2)
        if isinstance(n, int) and n == 0:
            return a[0]
        okc = band_(bnot(s.fail), cmp('ule', add(s.g, n, 64), s.size, 64))
        okc = e.simpc(okc)
        outs = []
        if not (isinstance(okc, bool) and okc):
            if e.feasible(st, bnot(okc)):
                bad = st.fork()
                bad.assume(bnot(okc))
                s2 = bad.streams[a[0].r.id]
                self.at_eof(bad, a[0], s2)
                s2.fail = True
                # contents of the target are unspecified up to n bytes: havoc
                if isinstance(p.off, int) and isinstance(n, int) and n <= 64:
                    r = e.access(bad, p, n, True)
                    for i in range(n):
                        e.write(bad, r, add(p.off, i, 64), 1, e.fresh('short', 8))
                else:
                    r = e.access(bad, p, n, True)
                    e.fresh_n += 1
                    e.set_array(bad, r, z3.Array('shortread!%d' % e.fresh_n, z3.BitVecSort(64), z3.BitVecSort(8)))
                outs.append(('ret', bad, a[0]))
            if isinstance(okc, bool) and not okc:
                return outs
            st.assume(okc)
        r = e.access(st, p, n, True)
        if r is None:
            return outs or 'dead'
        if isinstance(n, int) and n <= 4096:
            i = 0
            while i < n:
                w = 8 if n - i >= 8 else 4 if n - i >= 4 else 2 if n - i >= 2 else 1
                bs = [simp(z3.Select(s.data, bv(add(s.g, i + q, 64), 64))) for q in range(w)]
                e.write(st, r, add(p.off, i, 64), w, concat([(b, 8) for b in reversed(bs)]) if w > 1 else bs[0])
                i += w
        else:
            B = e.flush(r, e.mobj(st, r, True))
            i = z3.BitVec('rd!i', 64)
            rel = i - bv(p.off, 64)
            L = z3.Lambda([i], z3.If(z3.ULT(rel, bv(n, 64)), z3.Select(s.data, rel + bv(s.g, 64)), z3.Select(B, i)))
            e.set_array(st, r, L)
        s.g = add(s.g, n, 64) if isinstance(n, int) else add(bv(s.g, 64), n, 64)
        return [('ret', st, a[0])] + outs

    def s_write(self, st, a, I, act):
        e = self.e
        p, n = a[1], a[2]
        n = n if isinstance(n, int) else simp(n)
        e.oblige(st, cmp('sge', n, 0, 64), 'stream write length is not negative', 'memory')
        s = self.strm(st, a[0])
        self.wl(a[0], 1)
        if isinstance(n, int) and n == 0:
            return a[0]
        if p.r is None and not isinstance(n, int):
            e.oblige(st, cmp('eq', n, 0, 64), 'write from a null pointer has length 0', 'memory')
            return a[0]
        r = e.access(st, p, n, False)
        if r is None:
            return 'dead'
        if not (isinstance(s.fail, bool) and not s.fail):
            raise S.Unsupported('write to a stream that may have failed')
        if isinstance(n, int) and n <= 4096:
            for i in range(n):
                self.sput(s, add(s.p, i, 64), e.read(st, r, add(p.off, i, 64), 1))
        else:
            A = e.flush(r, e.mobj(st, r))
            i = z3.BitVec('wr!i', 64)
            rel = i - bv(s.p, 64)
            s.data = z3.Lambda([i], z3.If(z3.ULT(rel, bv(n, 64)), z3.Select(A, rel + bv(p.off, 64)), z3.Select(s.data, i)))
        s.p = add(s.p, n, 64) if isinstance(n, int) else add(bv(s.p, 64), n, 64)
        s.size = ite(cmp('ugt', s.p, s.size, 64), s.p, s.size, 64)
        if not isinstance(s.size, int):
            s.size = lift(z3.simplify(s.size))
        return a[0]

    def s_get(self, st, a, I, act):
        s = self.strm(st, a[0])
        self.wl(a[0], 2)
        okc = self.e.simpc(band_(bnot(s.fail), cmp('ult', s.g, s.size, 64)))
        outs = []
        if not (isinstance(okc, bool) and okc):
            bad = st.fork()
            bad.assume(bnot(okc))
            self.at_eof(bad, a[0], bad.streams[a[0].r.id])
            bad.streams[a[0].r.id].fail = True
            outs.append(('ret', bad, X.mask(32)))
            if isinstance(okc, bool):
                return outs
            st.assume(okc)
        v = z3.Select(s.data, bv(s.g, 64))
        s.g = add(s.g, 1, 64)
        return [('ret', st, zext(v, 8, 32))] + outs

    def s_put(self, st, a, I, act):
        s = self.strm(st, a[0])
        self.wl(a[0], 1)
        self.sput(s, s.p, a[1])
        s.p = add(s.p, 1, 64)
        s.size = ite(cmp('ugt', s.p, s.size, 64), s.p, s.size, 64)
        return a[0]

    def s_seek(self, st, a, which):
        e = self.e
        s = self.strm(st, a[0])
        self.wl(a[0])
        off, d = a[1], a[2]
        if not isinstance(d, int):
            raise S.Unsupported('symbolic seek direction')
        base = {0: 0, 1: getattr(s, which), 2: s.size}[d]
        np_ = add(base, off, 64) if isinstance(off, int) else add(bv(base, 64), off, 64)
        if not isinstance(np_, int):
            np_ = lift(z3.simplify(np_))
        okc = e.simpc(band_(bnot(s.fail), cmp('sge', np_, 0, 64)))
        outs = []
        if not (isinstance(okc, bool) and okc):
            if e.feasible(st, bnot(okc)):
                bad = st.fork()
                bad.assume(bnot(okc))
                bad.streams[a[0].r.id].fail = True
                outs.append(('ret', bad, a[0]))
            if isinstance(okc, bool):
                return outs or 'dead'
            st.assume(okc)
        setattr(s, which, np_)
        return [('ret', st, a[0])] + outs

    def s_tell(self, st, a, which):
        s = self.strm(st, a[0])
        v = getattr(s, which)
        v = ite(s.fail, X.mask(64), v, 64)
        return [v, 0]

    # ------------------------------------------------------------ intrinsics
    def intrinsic(self, name):
        e = self.e
        p = name.split('.')
        b = p[1]
        if b in ('memcpy', 'memmove'):
            return lambda st, a, I, act: self.copy(st, a[0], a[1], a[2])
        if b == 'memset':
            return lambda st, a, I, act: self.fill(st, a[0], a[1], a[2])
        if b in ('lifetime', 'dbg', 'assume', 'prefetch', 'donothing', 'invariant'):
            return lambda st, a, I, act: None
        if b in ('stacksave',):
            return lambda st, a, I, act: S.Ptr(None, 0)
        if b in ('stackrestore',):
            return lambda st, a, I, act: None
        if b == 'threadlocal':
            return lambda st, a, I, act: a[0]      # the calling thread's copy
        if b == 'expect':
            return lambda st, a, I, act: a[0]
        if b == 'trap':
            def f(st, a, I, act):
                e.oblige(st, False, 'trap not reached', 'exception')
                return 'dead'
            return f
        if b == 'is' and p[2] == 'constant':
            return lambda st, a, I, act: False
        if b == 'objectsize':
            return lambda st, a, I, act: X.mask(64)
        if b == 'eh':
            return lambda st, a, I, act: 1
        if b == 'vector' and p[2] == 'reduce':
            op = p[3]

            def red(st, a, I, act):
                v = a[0] if op not in ('fadd', 'fmul') else a[1]
                w = I.ty.width
                acc = v[0] if op not in ('fadd', 'fmul') else self.fop(op, a[0], v[0], w)
                for x in v[1:]:
                    if op in ('fadd', 'fmul'):
                        acc = self.fop(op, acc, x, w)
                    elif w == 1:
                        acc = {'and': band_, 'or': bor_, 'xor': bxor_}[op](acc, x)
                    else:
                        acc = {'and': band, 'or': bor, 'xor': xor, 'add': add, 'mul': mul}[op](acc, x, w)
                return acc
            return red
        scal = getattr(self, 'i_' + b, None)
        if scal is not None:
            def f(st, a, I, act):
                if I.ty.kind == 'vector':
                    n = I.ty.n
                    av = [x if isinstance(x, list) else [x] * n for x in a]
                    return [scal(st, [x[i] for x in av], I.ty.elem) for i in range(n)]
                return scal(st, a, I.ty)
            return f
        if b in ('uadd', 'usub', 'sadd', 'ssub', 'umul', 'smul'):
            if p[2] == 'with':
                def f(st, a, I, act):
                    w = I.ty.fields[0].width
                    x, y = bv(e.num(a[0], w), w), bv(e.num(a[1], w), w)
                    ext = z3.ZeroExt if b[0] == 'u' else z3.SignExt
                    k = w if b.endswith('mul') else 1
                    xx, yy = ext(k, x), ext(k, y)
                    r = xx + yy if b.endswith('add') else xx - yy if b.endswith('sub') else xx * yy
                    lo = z3.Extract(w - 1, 0, r)
                    return [simp(lo), e.simpc(ext(k, lo) != r)]
                return f
            if p[2] == 'sat':
                def f1(st, a, ty):
                    w = ty.width
                    x, y = e.num(a[0], w), e.num(a[1], w)
                    if b == 'usub':
                        return ite(cmp('ult', x, y, w), 0, sub(x, y, w), w)
                    if b == 'uadd':
                        s_ = add(x, y, w)
                        return ite(cmp('ult', s_, x, w), X.mask(w), s_, w)
                    raise S.Unsupported(name)

                def f(st, a, I, act):
                    if I.ty.kind == 'vector':
                        return [f1(st, [x, y], I.ty.elem) for x, y in zip(a[0], a[1])]
                    return f1(st, a, I.ty)
                return f
        if b == 'x86':
            h = getattr(self, 'x_' + '_'.join(p[2:]), None)
            if h is not None:
                return h

        def unk(st, a, I, act):
            raise S.Unsupported('intrinsic ' + name)
        return unk

    def i_bswap(self, st, a, ty):
        w = ty.width
        v = self.e.num(a[0], w)
        return concat([(extract(v, i + 7, i, w), 8) for i in range(0, w, 8)])

    def i_ctpop(self, st, a, ty):
        w = ty.width
        v = self.e.num(a[0], w)
        if isinstance(v, int):
            return bin(v).count('1')
        r = 0
        for i in range(w):
            r = add(r, zext(extract(v, i, i, w), 1, w), w)
        return r

    def i_ctlz(self, st, a, ty):
        w = ty.width
        v = self.e.num(a[0], w)
        if isinstance(v, int):
            return w - v.bit_length()
        r = w
        for i in range(w):
            r = ite(cmp('eq', extract(v, i, i, w), 1, 1), w - 1 - i, r, w)
        return r

    def i_cttz(self, st, a, ty):
        w = ty.width
        v = self.e.num(a[0], w)
        r = w
        for i in reversed(range(w)):
            r = ite(cmp('eq', extract(v, i, i, w), 1, 1), i, r, w)
        return r

    def i_fshl(self, st, a, ty):
        w = ty.width
        x, y, s = [self.e.num(t, w) for t in a]
        s = urem(s, w, w)
        if isinstance(s, int):
            return bor(shl(x, s, w), lshr(y, w - s, w), w) if s else x
        return bor(shl(x, s, w), ite(cmp('eq', s, 0, w), 0, lshr(y, sub(w, s, w), w), w), w)

    def i_fshr(self, st, a, ty):
        w = ty.width
        x, y, s = [self.e.num(t, w) for t in a]
        s = urem(s, w, w)
        if isinstance(s, int):
            return bor(lshr(y, s, w), shl(x, w - s, w), w) if s else y
        return bor(lshr(y, s, w), ite(cmp('eq', s, 0, w), 0, shl(x, sub(w, s, w), w), w), w)

    def _mm(self, a, ty, p):
        w = ty.width
        x, y = self.e.num(a[0], w), self.e.num(a[1], w)
        return ite(cmp(p, x, y, w), x, y, w)

    def i_umin(self, st, a, ty): return self._mm(a, ty, 'ult')
    def i_umax(self, st, a, ty): return self._mm(a, ty, 'ugt')
    def i_smin(self, st, a, ty): return self._mm(a, ty, 'slt')
    def i_smax(self, st, a, ty): return self._mm(a, ty, 'sgt')

    def i_abs(self, st, a, ty):
        w = ty.width
        x = self.e.num(a[0], w)
        return ite(cmp('slt', x, 0, w), neg(x, w), x, w)

    def i_fabs(self, st, a, ty):
        v = self.e.fval(a[0], ty.width)
        if isinstance(v, S.RealV):
            return S.RealV(z3.If(v.e < 0, -v.e, v.e), v.w)
        return band(v, X.mask(ty.width - 1), ty.width)

    def i_copysign(self, st, a, ty):
        w = ty.width
        x, y = self.e.fval(a[0], w), self.e.fval(a[1], w)
        if isinstance(x, S.RealV):
            raise S.Unsupported('copysign in real mode')
        return bor(band(x, X.mask(w - 1), w), band(y, 1 << (w - 1), w), w)

    def i_sqrt(self, st, a, ty): return self.fun1('sqrt', a[0], ty.width, st)
    def i_floor(self, st, a, ty): return self.fun1('floor', a[0], ty.width, st)
    def i_ceil(self, st, a, ty): return self.fun1('ceil', a[0], ty.width, st)
    def i_trunc(self, st, a, ty): return self.fun1('trunc', a[0], ty.width, st)
    def i_rint(self, st, a, ty): return self.fun1('rint', a[0], ty.width, st)
    def i_nearbyint(self, st, a, ty): return self.fun1('rint', a[0], ty.width, st)
    def i_round(self, st, a, ty): return self.fun1('round', a[0], ty.width, st)

    def i_fmuladd(self, st, a, ty):
        w = ty.width
        return self.fop('fadd', self.fop('fmul', self.e.fval(a[0], w), self.e.fval(a[1], w), w), self.e.fval(a[2], w), w)

    def i_minnum(self, st, a, ty):
        w = ty.width
        x, y = a
        c = self.fcmp('olt', x, y, w)
        return self.e.mvalw(c, x, y, ty) if not isinstance(c, bool) else (x if c else y)

    def i_maxnum(self, st, a, ty):
        w = ty.width
        x, y = a
        c = self.fcmp('ogt', x, y, w)
        return self.e.mvalw(c, x, y, ty) if not isinstance(c, bool) else (x if c else y)

    def h_sqrtf(self, st, a, I, act): return self.fun1('sqrt', a[0], 32, st)
    def h_sqrt(self, st, a, I, act): return self.fun1('sqrt', a[0], 64, st)
    def h_fabsf(self, st, a, I, act): return self.i_fabs(st, a, I.ty)

    # libstdc++ hash tables: buckets asked for n elements (the load factor is 1)
    def h__ZNKSt8__detail20_Prime_rehash_policy19_M_bkt_for_elementsEm(self, st, a, I, act): return a[1]

    def h___cxa_thread_atexit(self, st, a, I, act): return 0      # destructors at thread end are not run

    def h_log2(self, st, a, I, act):
        d = b2f(a[0], 64) if isinstance(a[0], int) else 0.0
        if d > 0 and math.frexp(d)[0] == 0.5:
            return f2b(float(math.frexp(d)[1] - 1), 64)      # exact for powers of two
        raise S.Unsupported('log2')

    def h_pow(self, st, a, I, act):
        if isinstance(a[1], int) and b2f(a[1], 64) == 2.0 or isinstance(a[1], S.RealV) and z3.is_rational_value(a[1].e) and a[1].e.as_long() == 2:
            return self.fop('fmul', a[0], a[0], 64)
        raise S.Unsupported('pow')

    def fun1(self, n, x, w, st=None):
        e = self.e
        x = e.fval(x, w)
        if isinstance(x, S.RealV):
            if n == 'sqrt':
                if z3.is_rational_value(x.e):
                    pass
                e.fresh_n += 1
                r = z3.Real('sqrt!%d' % e.fresh_n)
                if st is not None:
                    e.oblige(st, x.e >= 0, 'square root of a non-negative number', 'float')
                    st.assume(r >= 0)
                    st.assume(r * r == x.e)
                return S.RealV(r, w)
            raise S.Unsupported(n + ' in real mode')
        if isinstance(x, int):
            d = b2f(x, w)
            if n == 'sqrt' and d >= 0 and d != math.inf:
                return f2b(math.sqrt(d), w)
            if n in ('floor', 'ceil', 'trunc') and d == d and abs(d) != math.inf:
                return f2b(float(getattr(math, n)(d)), w)
        if e.fp == 'fp':
            f = self.tofp(x, w)
            rm = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'rint': z3.RNE(), 'round': z3.RNA()}
            r = z3.fpSqrt(z3.RNE(), f) if n == 'sqrt' else z3.fpRoundToIntegral(rm[n], f)
            return z3.fpToIEEEBV(r)
        return e.uf('%s%d' % (n, w), [z3.BitVecSort(w)], z3.BitVecSort(w))(bv(x, w))

    # ------------------------------------------------------------------- fp
    def tofp(self, b, w):
        if isinstance(b, int):
            return z3.simplify(z3.fpBVToFP(z3.BitVecVal(b, w), fsort(w)))
        if kind(b) == z3.Z3_OP_FPA_TO_IEEE_BV:
            return b.arg(0)
        return z3.fpBVToFP(b, fsort(w))

    def fop(self, op, a, b, w):
        e = self.e
        if isinstance(a, S.RealV) or isinstance(b, S.RealV):
            x, y = a.e, b.e
            r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}.get(op)
            if r is None:
                raise S.Unsupported(op)
            if op == 'fdiv' and not z3.is_rational_value(y):
                pass
            return S.RealV(z3.simplify(r()) if z3.is_rational_value(x) and z3.is_rational_value(y) else r(), w)
        if isinstance(a, int) and isinstance(b, int):
            x, y = b2f(a, w), b2f(b, w)
            try:
                r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op]()
                if r == r and abs(r) != math.inf:
                    return f2b(r, w)
            except (ZeroDivisionError, KeyError, OverflowError):
                pass
        if e.fp == 'fp' and op != 'frem':
            x, y = self.tofp(a, w), self.tofp(b, w)
            r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](z3.RNE(), x, y)
            return z3.fpToIEEEBV(r)
        a, b = bv(a, w), bv(b, w)
        if op in ('fadd', 'fmul') and a.get_id() > b.get_id():
            a, b = b, a
        return e.uf('%s%d' % (op, w), [z3.BitVecSort(w)] * 2, z3.BitVecSort(w))(a, b)

    def fcmp(self, pred, a, b, w):
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        if isinstance(a, S.RealV) or isinstance(b, S.RealV):
            x, y = a.e, b.e
            p = pred[1:]
            if pred == 'ord':
                return True
            if pred == 'uno':
                return False
            r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y}[p]()
            return lift(z3.simplify(r))
        if isinstance(a, int) and isinstance(b, int):
            x, y = b2f(a, w), b2f(b, w)
            un = x != x or y != y
            if pred == 'ord':
                return not un
            if pred == 'uno':
                return un
            if un:
                return pred[0] == 'u'
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]]
        x, y = self.tofp(a, w), self.tofp(b, w)
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        if pred == 'uno':
            return un
        if pred == 'ord':
            return z3.Not(un)
        p = pred[1:]
        r = {'eq': z3.fpEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}.get(p)
        if p == 'ne':
            c = z3.Not(z3.fpEQ(x, y))
            return c if pred[0] == 'u' else z3.And(c, z3.Not(un))
        c = r(x, y)
        return z3.Or(c, un) if pred[0] == 'u' else c

    def i2f(self, op, v, w, fw):
        e = self.e
        sgn_ = op == 'sitofp'
        if isinstance(v, int):
            x = X.sgn(v, w) if sgn_ else v
            if e.fp == 'real':
                return S.RealV(z3.RealVal(x), fw)
            if fw == 32 and abs(x) > 1 << 53:
                pass
            else:
                return f2b(float(x), fw)
        if e.fp == 'real':
            return S.RealV(z3.ToReal(z3.BV2Int(bv(v, w), sgn_)), fw)
        if e.fp == 'fp':
            r = (z3.fpSignedToFP if sgn_ else z3.fpUnsignedToFP)(z3.RNE(), bv(v, w), fsort(fw))
            return z3.fpToIEEEBV(r)
        # a zero extended signed conversion is the unsigned one: keep one symbol per source value
        v = bv(v, w)
        if kind(v) == z3.Z3_OP_ZERO_EXT:
            v = v.arg(0)
            w = v.size()
            sgn_ = False
        elif sgn_ and kind(v) == z3.Z3_OP_SIGN_EXT:
            v = v.arg(0)
            w = v.size()
        v64 = zext(v, w, 64) if not sgn_ else sext(v, w, 64)
        return e.uf('i2f_%s_%d' % ('s' if sgn_ else 'u', fw), [z3.BitVecSort(64)], z3.BitVecSort(fw))(bv(v64, 64))

    def f2i(self, op, v, fw, w, st):
        e = self.e
        if isinstance(v, S.RealV):
            i = z3.ToInt(v.e)
            i = z3.If(v.e >= 0, i, -z3.ToInt(-v.e))
            return z3.Int2BV(i, w)
        if isinstance(v, int):
            d = b2f(v, fw)
            if d == d and abs(d) < 2.0 ** 63:
                return int(d) & X.mask(w)
        if e.fp == 'fp':
            f = self.tofp(v, fw)
            return (z3.fpToSBV if op == 'fptosi' else z3.fpToUBV)(z3.RTZ(), f, z3.BitVecSort(w))
        return e.uf('%s_%d_%d' % (op, fw, w), [z3.BitVecSort(fw)], z3.BitVecSort(w))(bv(v, fw))

    def f2f(self, v, w, w2):
        e = self.e
        if isinstance(v, S.RealV):
            return S.RealV(v.e, w2)
        if isinstance(v, int) and w in (32, 64) and w2 in (32, 64):
            d = b2f(v, w)
            if d == d:
                return f2b(d, w2)
        if e.fp == 'fp':
            return z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), self.tofp(v, w), fsort(w2)))
        return e.uf('fcvt_%d_%d' % (w, w2), [z3.BitVecSort(w)], z3.BitVecSort(w2))(bv(v, w))

    # ------------------------------------------------------------ x86 vectors
    def x_sse_cmp_ps(self, st, a, I, act):
        p = {0: 'oeq', 1: 'olt', 2: 'ole', 3: 'uno', 4: 'une', 5: 'uge', 6: 'ugt', 7: 'ord'}[a[2] & 7]
        out = []
        for x, y in zip(a[0], a[1]):
            c = self.fcmp(p, x, y, 32)
            out.append(ite(c, X.mask(32), 0, 32))
        return out

    def x_sse_movmsk_ps(self, st, a, I, act):
        bits = []
        for x in a[0]:
            if isinstance(x, S.RealV):
                bits.append((ite(lift(z3.simplify(x.e < 0)), 1, 0, 1), 1))
            else:
                x = self.e.num(x, 32)
                bits.append((extract(x, 31, 31, 32), 1))
        return zext(concat(list(reversed(bits))), len(bits), 32)

    def x_sse2_pmovmskb_128(self, st, a, I, act):
        bits = [(extract(self.e.num(x, 8), 7, 7, 8), 1) for x in a[0]]
        return zext(concat(list(reversed(bits))), 16, 32)

    def x_sse2_movmsk_pd(self, st, a, I, act):
        bits = [(extract(self.e.num(x, 64), 63, 63, 64), 1) for x in a[0]]
        return zext(concat(list(reversed(bits))), 2, 32)

    def _rt(self, v):
        e = self.e
        if isinstance(v, S.RealV):
            raise S.Unsupported('round to int in real mode')
        if e.fp == 'fp':
            f = self.tofp(v, 32)
            r = z3.fpToSBV(z3.RNE(), f, z3.BitVecSort(32))
            bad = z3.Or(z3.fpIsNaN(f), z3.fpIsInf(f), z3.fpGEQ(f, z3.FPVal(2.0 ** 31, fsort(32))), z3.fpLT(f, z3.FPVal(-2.0 ** 31, fsort(32))))
            return z3.If(bad, z3.BitVecVal(0x80000000, 32), r)
        return e.uf('cvtps2dq', [z3.BitVecSort(32)], z3.BitVecSort(32))(bv(v, 32))

    def x_sse2_cvtps2dq(self, st, a, I, act): return [self._rt(self.e.fval(x, 32)) for x in a[0]]

    def x_sse2_cvttps2dq(self, st, a, I, act):
        e = self.e
        out = []
        for v in a[0]:
            v = e.fval(v, 32)
            if e.fp == 'fp' and not isinstance(v, int):
                f = self.tofp(v, 32)
                r = z3.fpToSBV(z3.RTZ(), f, z3.BitVecSort(32))
                bad = z3.Or(z3.fpIsNaN(f), z3.fpIsInf(f), z3.fpGEQ(f, z3.FPVal(2.0 ** 31, fsort(32))), z3.fpLT(f, z3.FPVal(-2.0 ** 31, fsort(32))))
                out.append(z3.If(bad, z3.BitVecVal(0x80000000, 32), r))
            else:
                out.append(self.f2i('fptosi', v, 32, 32, st))
        return out

    def x_sse41_dpps(self, st, a, I, act):
        m = a[2]
        zero = S.RealV(z3.RealVal(0), 32) if self.e.fp == 'real' else 0
        t = [self.fop('fmul', self.e.fval(a[0][i], 32), self.e.fval(a[1][i], 32), 32) if m >> (4 + i) & 1 else zero for i in range(4)]
        # hardware order: (t0+t1)+(t2+t3)
        s = self.fop('fadd', self.fop('fadd', t[0], t[1], 32), self.fop('fadd', t[2], t[3], 32), 32)
        return [s if m >> i & 1 else zero for i in range(4)]

    def _pt(self, a):
        x = [self.e.num(v, 64) for v in a[0]]
        y = [self.e.num(v, 64) for v in a[1]]
        return x, y

    def x_sse41_ptestz(self, st, a, I, act):
        x, y = self._pt(a)
        c = and_all([cmp('eq', band(p, q, 64), 0, 64) for p, q in zip(x, y)])
        return ite(c, 1, 0, 32)

    def x_sse41_ptestc(self, st, a, I, act):
        x, y = self._pt(a)
        c = and_all([cmp('eq', band(xor(p, X.mask(64), 64), q, 64), 0, 64) for p, q in zip(x, y)])
        return ite(c, 1, 0, 32)

    def x_sse_rsqrt_ps(self, st, a, I, act):
        return [self.fun1('rsqrt_approx', x, 32) for x in a[0]]

    def x_sse_rcp_ps(self, st, a, I, act):
        return [self.fun1('rcp_approx', x, 32) for x in a[0]]

    def x_sse_min_ps(self, st, a, I, act):
        return [self._fmm(x, y, 'olt') for x, y in zip(a[0], a[1])]

    def x_sse_max_ps(self, st, a, I, act):
        return [self._fmm(x, y, 'ogt') for x, y in zip(a[0], a[1])]

    def _fmm(self, x, y, p):
        c = self.fcmp(p, x, y, 32)
        if isinstance(c, bool):
            return x if c else y
        if isinstance(x, S.RealV):
            return S.RealV(z3.If(c, x.e, y.e), 32)
        return ite(c, x, y, 32)

    def _shift(self, w, op):
        def f(st, a, I, act):
            n = self.e.num(a[1], 32)
            out = []
            for x in a[0]:
                x = self.e.num(x, w)
                if isinstance(n, int):
                    out.append({'l': shl, 'r': lshr, 'a': ashr}[op](x, n, w))
                else:
                    big = cmp('uge', n, w, 32)
                    nn = n if w == 32 else trunc(n, 32, w) if w < 32 else zext(n, 32, w)
                    r = {'l': shl, 'r': lshr, 'a': ashr}[op](x, nn, w)
                    out.append(ite(big, ashr(x, w - 1, w) if op == 'a' else 0, r, w))
            return out
        return f

    @property
    def x_sse2_pslli_d(self): return self._shift(32, 'l')
    @property
    def x_sse2_psrli_d(self): return self._shift(32, 'r')
    @property
    def x_sse2_psrai_d(self): return self._shift(32, 'a')
    @property
    def x_sse2_pslli_w(self): return self._shift(16, 'l')
    @property
    def x_sse2_psrli_w(self): return self._shift(16, 'r')
    @property
    def x_sse2_psrai_w(self): return self._shift(16, 'a')
    @property
    def x_sse2_pslli_q(self): return self._shift(64, 'l')
    @property
    def x_sse2_psrli_q(self): return self._shift(64, 'r')

    # horizontal, shuffle, pack and blend operations
    def x_sse3_hadd_ps(self, st, a, I, act): return self._hf(a, 'fadd')
    def x_sse3_hsub_ps(self, st, a, I, act): return self._hf(a, 'fsub')

    def _hf(self, a, op):
        x, y = [[self.e.fval(q, 32) for q in v] for v in a[:2]]
        return [self.fop(op, v[i], v[i + 1], 32) for v in (x, y) for i in (0, 2)]

    def _hi(self, a, w, f):
        out = []
        for v in a[:2]:
            v = [self.e.num(q, w) for q in v]
            out += [f(v[i], v[i + 1], w) for i in range(0, len(v), 2)]
        return out

    def x_ssse3_phadd_d_128(self, st, a, I, act): return self._hi(a, 32, add)
    def x_ssse3_phadd_w_128(self, st, a, I, act): return self._hi(a, 16, add)
    def x_ssse3_phsub_d_128(self, st, a, I, act): return self._hi(a, 32, sub)
    def x_ssse3_phsub_w_128(self, st, a, I, act): return self._hi(a, 16, sub)

    def x_ssse3_pshuf_b_128(self, st, a, I, act):
        src = [self.e.num(q, 8) for q in a[0]]
        out = []
        for m in a[1]:
            m = self.e.num(m, 8)
            if isinstance(m, int):
                out.append(0 if m & 0x80 else src[m & 15])
            else:
                lo = extract(m, 3, 0, 8)
                r = src[15]
                for i in reversed(range(15)):
                    r = ite(cmp('eq', lo, i, 4), src[i], r, 8)
                out.append(ite(cmp('eq', extract(m, 7, 7, 8), 1, 1), 0, r, 8))
        return out

    def _sat(self, v, w, nw, lo, hi):
        """clamp a signed w bit value to [lo, hi], as nw bits"""
        t = trunc(v, w, nw) if not isinstance(v, int) else v & X.mask(nw)
        return ite(cmp('slt', v, lo & X.mask(w), w), lo & X.mask(nw), ite(cmp('sgt', v, hi, w), hi, t, nw), nw)

    def _pack(self, a, w, lo, hi):
        return [self._sat(self.e.num(q, w), w, w // 2, lo, hi) for v in a[:2] for q in v]

    def x_sse2_packssdw_128(self, st, a, I, act): return self._pack(a, 32, -32768, 32767)
    def x_sse2_packsswb_128(self, st, a, I, act): return self._pack(a, 16, -128, 127)
    def x_sse2_packuswb_128(self, st, a, I, act): return self._pack(a, 16, 0, 255)
    def x_sse41_packusdw(self, st, a, I, act): return self._pack(a, 32, 0, 65535)

    def x_sse2_pmadd_wd(self, st, a, I, act):
        x, y = [[sext(self.e.num(q, 16), 16, 32) for q in v] for v in a[:2]]
        p = [mul(i, j, 32) for i, j in zip(x, y)]
        return [add(p[i], p[i + 1], 32) for i in range(0, 8, 2)]

    def _pmulh(self, a, ext):
        x, y = [[ext(self.e.num(q, 16), 16, 32) for q in v] for v in a[:2]]
        return [extract(mul(i, j, 32), 31, 16, 32) for i, j in zip(x, y)]

    def x_sse2_pmulh_w(self, st, a, I, act): return self._pmulh(a, sext)
    def x_sse2_pmulhu_w(self, st, a, I, act): return self._pmulh(a, zext)

    def x_sse41_insertps(self, st, a, I, act):
        d, s, m = list(a[0]), a[1], a[2]
        d[(m >> 4) & 3] = s[m >> 6]
        zero = S.RealV(z3.RealVal(0), 32) if self.e.fp == 'real' else 0
        return [zero if m >> i & 1 else d[i] for i in range(4)]

    def x_sse41_blendvps(self, st, a, I, act):
        e = self.e
        out = []
        for x, y, m in zip(*a[:3]):
            if isinstance(m, S.RealV):
                raise S.Unsupported('blend by the sign of a real')
            m = e.num(m, 32)
            c = cmp('eq', extract(m, 31, 31, 32), 1, 1)
            if isinstance(c, bool):
                out.append(y if c else x)
            elif isinstance(x, S.RealV) or isinstance(y, S.RealV):
                out.append(S.RealV(z3.If(c, e.fval(y, 32).e, e.fval(x, 32).e), 32))
            else:
                out.append(ite(c, e.num(y, 32), e.num(x, 32), 32))
        return out

    def x_sse41_pblendvb(self, st, a, I, act):
        e = self.e
        return [ite(cmp('eq', extract(e.num(m, 8), 7, 7, 8), 1, 1), e.num(y, 8), e.num(x, 8), 8) for x, y, m in zip(*a[:3])]

    def x_sse41_round_ps(self, st, a, I, act):
        n = {0: 'rint', 1: 'floor', 2: 'ceil', 3: 'trunc', 4: 'rint'}[a[1] & 7]
        return [self.fun1(n, x, 32) for x in a[0]]
