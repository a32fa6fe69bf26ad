"""Terms: Python ints (concrete) or z3 terms, with cheap local rewriting.

ints are kept unsigned and masked to their width.  i1 values are Python bools or z3 Bools.
"""
import z3

BVRef = z3.BitVecRef
_K = z3


def isc(a):
    return isinstance(a, (int, bool))


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def bv(v, w):
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    return v


def kind(e):
    return e.decl().kind()


def tob(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def simp(e):
    """simplify; return int/bool if constant"""
    if isc(e):
        return e
    e = z3.simplify(e)
    return lift(e)


def lift(e):
    if isinstance(e, z3.BitVecNumRef):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


# ---- xor with cancellation -------------------------------------------------
_xs = {}


def _xset(e):
    r = _xs.get(e.get_id())
    if r is not None:
        return r[1], r[2]
    return {e.get_id(): e}, 0


def xor(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    if isinstance(a, int):
        a, b = b, a
    d, c = _xset(a)
    d = dict(d)
    if isinstance(b, int):
        c ^= b
    else:
        d2, c2 = _xset(b)
        c ^= c2
        for k, v in d2.items():
            if k in d:
                del d[k]
            else:
                d[k] = v
    if not d:
        return c
    if c == mask(w) and len(d) == 1:
        e = ~next(iter(d.values()))
        _xs[e.get_id()] = (e, d, c)
        return e
    it = [d[k] for k in sorted(d)]
    e = it[0]
    for x in it[1:]:
        e = e ^ x
    if c:
        e = e ^ z3.BitVecVal(c, w)
    if len(it) > 1 or c:
        _xs[e.get_id()] = (e, d, c)
    return e


def add(a, b, w):
    if isinstance(a, int):
        if isinstance(b, int):
            return (a + b) & mask(w)
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return a
        if kind(a) == z3.Z3_OP_BADD and a.num_args() == 2:
            x = a.arg(1)
            if isinstance(x, z3.BitVecNumRef):
                return add(a.arg(0), (x.as_long() + b) & mask(w), w)
        return a + z3.BitVecVal(b, w)
    return a + b


def neg(a, w):
    return (-a) & mask(w) if isinstance(a, int) else -a


def sub(a, b, w):
    if isinstance(b, int):
        return add(a, (-b) & mask(w), w)
    if isinstance(a, int):
        return z3.BitVecVal(a, w) - b
    if a.eq(b):
        return 0
    return a - b


def mul(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a * b) & mask(w)
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return shl(a, b.bit_length() - 1, w)
        return a * z3.BitVecVal(b, w)
    return a * b


def udiv(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a // b if b else mask(w)
    if b == 1 if isinstance(b, int) else False:
        return a
    return z3.UDiv(bv(a, w), bv(b, w))


def urem(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a % b if b else a
    if isinstance(b, int) and b and b & (b - 1) == 0:
        return band(a, b - 1, w)
    return z3.URem(bv(a, w), bv(b, w))


def sdiv(a, b, w):
    if isinstance(a, int) and isinstance(b, int) and b:
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return q & mask(w)
    return bv(a, w) / bv(b, w)


def srem(a, b, w):
    if isinstance(a, int) and isinstance(b, int) and b:
        x, y = sgn(a, w), sgn(b, w)
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & mask(w)
    return z3.SRem(bv(a, w), bv(b, w))


def band(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == mask(w):
            return a
        n = b.bit_length()
        if b == mask(n):
            return zext(extract(a, n - 1, 0, w), n, w)
        lo = (b & -b).bit_length() - 1
        if b == mask(n) ^ mask(lo):   # contiguous mask
            parts = []
            if n < w:
                parts.append((0, w - n))
            parts.append((extract(a, n - 1, lo, w), n - lo))
            if lo:
                parts.append((0, lo))
            return concat(parts)
        return a & z3.BitVecVal(b, w)
    if a.eq(b):
        return a
    return a & b


def _zeros(e, w):
    """mask of bits of e that are known zero (cheap: concat / zext shapes only)"""
    if isinstance(e, int):
        return mask(w) & ~e
    k = kind(e)
    if k == z3.Z3_OP_ZERO_EXT:
        n = e.arg(0).size()
        return (mask(w) ^ mask(n)) | _zeros(e.arg(0), n)
    if k == z3.Z3_OP_CONCAT:
        r = 0
        for i in range(e.num_args()):
            x = e.arg(i)
            n = x.size()
            r = (r << n) | _zeros(x.as_long() if isinstance(x, z3.BitVecNumRef) else x, n)
        return r
    return 0


def _parts(e, w):
    """msb-first list of (term,width) for concat/zext shapes"""
    if isinstance(e, int):
        return [(e, w)]
    k = kind(e)
    if k == z3.Z3_OP_ZERO_EXT:
        x = e.arg(0)
        return [(0, w - x.size())] + _parts(x, x.size())
    if k == z3.Z3_OP_CONCAT:
        r = []
        for i in range(e.num_args()):
            x = e.arg(i)
            r += _parts(lift(x), x.size())
        return r
    return [(e, w)]


def bor(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return a
        if b == mask(w):
            return b
    elif a.eq(b):
        return a
    za, zb = _zeros(a, w), _zeros(b, w)
    if za | zb == mask(w):
        # disjoint: splice by pieces
        cuts = {0, w}
        for e in (a, b):
            p = w
            for t, n in _parts(e, w):
                p -= n
                cuts.add(p)
        if isinstance(b, int):
            z = zb
            for i in range(1, w):
                if (z >> i & 1) != (z >> (i - 1) & 1):
                    cuts.add(i)
        cs = sorted(cuts, reverse=True)
        out = []
        ok = True
        for hi, lo in zip(cs, cs[1:]):
            m = mask(hi - lo) << lo
            if za & m == m:
                out.append((extract(b, hi - 1, lo, w), hi - lo))
            elif zb & m == m:
                out.append((extract(a, hi - 1, lo, w), hi - lo))
            else:
                ok = False
                break
        if ok:
            return concat(out)
    if isinstance(b, int):
        return a | z3.BitVecVal(b, w)
    return a | b


def shl(a, b, w):
    if isinstance(b, int):
        if b >= w:
            return 0
        if isinstance(a, int):
            return (a << b) & mask(w)
        if b == 0:
            return a
        return concat([(extract(a, w - 1 - b, 0, w), w - b), (0, b)])
    return bv(a, w) << bv(b, w)


def lshr(a, b, w):
    if isinstance(b, int):
        if b >= w:
            return 0
        if isinstance(a, int):
            return a >> b
        if b == 0:
            return a
        return zext(extract(a, w - 1, b, w), w - b, w)
    return z3.LShR(bv(a, w), bv(b, w))


def ashr(a, b, w):
    if isinstance(b, int):
        if b >= w:
            b = w - 1
        if isinstance(a, int):
            return (sgn(a, w) >> b) & mask(w)
        if b == 0:
            return a
        return sext(extract(a, w - 1, b, w), w - b, w)
    return bv(a, w) >> bv(b, w)


def extract(a, hi, lo, w):
    if isinstance(a, int):
        return (a >> lo) & mask(hi - lo + 1)
    if lo == 0 and hi == w - 1:
        return a
    k = kind(a)
    if k == z3.Z3_OP_EXTRACT:
        l0 = a.params()[1]
        x = a.arg(0)
        return extract(x, hi + l0, lo + l0, x.size())
    if k == z3.Z3_OP_CONCAT:
        out = []
        p = w
        for i in range(a.num_args()):
            x = a.arg(i)
            n = x.size()
            p -= n
            h, l = min(hi, p + n - 1), max(lo, p)
            if h >= l:
                out.append((extract(lift(x), h - p, l - p, n), h - l + 1))
        return concat(out)
    if k == z3.Z3_OP_ZERO_EXT:
        x = a.arg(0)
        n = x.size()
        if hi < n:
            return extract(x, hi, lo, n)
        if lo >= n:
            return 0
        return zext(extract(x, n - 1, lo, n), n - lo, hi - lo + 1)
    if k == z3.Z3_OP_SIGN_EXT:
        x = a.arg(0)
        n = x.size()
        if hi < n:
            return extract(x, hi, lo, n)
    if k == z3.Z3_OP_ITE:
        x, y = lift(a.arg(1)), lift(a.arg(2))
        if isc(x) or isc(y):
            return ite(a.arg(0), extract(x, hi, lo, w), extract(y, hi, lo, w), hi - lo + 1)
    if k in (z3.Z3_OP_BXOR, z3.Z3_OP_BOR, z3.Z3_OP_BAND) and False:
        pass
    return z3.Extract(hi, lo, a)


def concat(parts):
    """msb first list of (term,width)"""
    out = []
    for t, n in parts:
        if n == 0:
            continue
        if not isinstance(t, int) and kind(t) in (z3.Z3_OP_CONCAT, z3.Z3_OP_ZERO_EXT):
            sub_ = _parts(t, n)
        else:
            sub_ = [(t, n)]
        for t, n in sub_:
            if out:
                pt, pn = out[-1]
                if isinstance(pt, int) and isinstance(t, int):
                    out[-1] = (pt << n | t, pn + n)
                    continue
                if not isinstance(pt, int) and not isinstance(t, int) and kind(pt) == z3.Z3_OP_EXTRACT:
                    ph, pl = pt.params()
                    x = pt.arg(0)
                    if kind(t) == z3.Z3_OP_EXTRACT and t.arg(0).eq(x) and t.params()[0] == pl - 1:
                        out[-1] = (extract(x, ph, t.params()[1], x.size()), pn + n)
                        continue
            out.append((t, n))
    if len(out) == 1:
        return out[0][0]
    if isinstance(out[0][0], int) and out[0][0] == 0:
        w = sum(n for _, n in out)
        rest = out[1:]
        rw = w - out[0][1]
        if len(rest) == 1:
            return z3.ZeroExt(out[0][1], rest[0][0])
    return z3.Concat(*[bv(t, n) for t, n in out])


def zext(a, w, w2):
    if w == w2 or isinstance(a, int):
        return a
    if kind(a) == z3.Z3_OP_ZERO_EXT:
        x = a.arg(0)
        return z3.ZeroExt(w2 - x.size(), x)
    if kind(a) == z3.Z3_OP_CONCAT:
        return concat([(0, w2 - w), (a, w)])
    return z3.ZeroExt(w2 - w, a)


def sext(a, w, w2):
    if w == w2:
        return a
    if isinstance(a, int):
        return sgn(a, w) & mask(w2)
    if kind(a) == z3.Z3_OP_ZERO_EXT and w > a.arg(0).size():
        return zext(a, w, w2)
    if kind(a) == z3.Z3_OP_CONCAT:
        x = lift(a.arg(0))
        if isinstance(x, int) and not (x >> (a.arg(0).size() - 1)) & 1:
            return zext(a, w, w2)
    return z3.SignExt(w2 - w, a)


def trunc(a, w, w2):
    return extract(a, w2 - 1, 0, w)


def ite(c, a, b, w):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, int) and isinstance(b, int):
        if a == b:
            return a
    elif not isinstance(a, int) and not isinstance(b, int) and a.eq(b):
        return a
    return z3.If(c, bv(a, w), bv(b, w))


def itb(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else bnot(c)
    if isinstance(a, bool):
        return bor_(c, b) if a else band_(bnot(c), b)
    if isinstance(b, bool):
        return bor_(bnot(c), a) if b else band_(c, a)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def bnot(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def band_(a, b):
    if isinstance(a, bool):
        return b if a else False
    if isinstance(b, bool):
        return a if b else False
    return z3.And(a, b)


def bor_(a, b):
    if isinstance(a, bool):
        return True if a else b
    if isinstance(b, bool):
        return True if b else a
    return z3.Or(a, b)


def bxor_(a, b):
    if isinstance(a, bool):
        return bnot(b) if a else b
    if isinstance(b, bool):
        return bnot(a) if b else a
    return z3.Xor(a, b)


def and_all(l):
    l = [x for x in l if not (isinstance(x, bool) and x)]
    if any(isinstance(x, bool) for x in l):
        return False
    if not l:
        return True
    return l[0] if len(l) == 1 else z3.And(*l)


def cmp(p, a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        if p[0] == 's':
            a, b = sgn(a, w), sgn(b, w)
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p if p in ('eq', 'ne') else p[1:]]
    if not isinstance(a, int) and not isinstance(b, int) and a.eq(b):
        return p in ('eq', 'ule', 'uge', 'sle', 'sge')
    if p in ('eq', 'ne'):
        if isinstance(a, int):
            a, b = b, a
        r = _cmpeq(a, b, w)
        return r if p == 'eq' else bnot(r)
    if isinstance(b, int):
        if p == 'ult' and b == 0:
            return False
        if p == 'uge' and b == 0:
            return True
        if p == 'ule' and b == mask(w) or p == 'ugt' and b == mask(w):
            return p == 'ule'
    a, b = bv(a, w), bv(b, w)
    if p == 'ult':
        return z3.ULT(a, b)
    if p == 'ule':
        return z3.ULE(a, b)
    if p == 'ugt':
        return z3.UGT(a, b)
    if p == 'uge':
        return z3.UGE(a, b)
    if p == 'slt':
        return a < b
    if p == 'sle':
        return a <= b
    if p == 'sgt':
        return a > b
    return a >= b


def _cmpeq(a, b, w):
    if isinstance(b, int):
        k = kind(a)
        if k == z3.Z3_OP_ITE:
            x, y = lift(a.arg(1)), lift(a.arg(2))
            if isinstance(x, int) and isinstance(y, int):
                return itb(a.arg(0), x == b, y == b)
            if isinstance(x, int):
                return itb(a.arg(0), x == b, _cmpeq(y, b, w))
            if isinstance(y, int):
                return itb(a.arg(0), _cmpeq(x, b, w), y == b)
        if k == z3.Z3_OP_ZERO_EXT:
            x = a.arg(0)
            n = x.size()
            if b >> n:
                return False
            return _cmpeq(x, b, n)
        return a == z3.BitVecVal(b, w)
    return a == b
