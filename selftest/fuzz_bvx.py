"""Differential test of the term constructors against plain z3 on random values."""
import sys, random, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import z3
import bvx as X
from bvx import *

R = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
N = int(sys.argv[2]) if len(sys.argv) > 2 else 3000
vars_ = {w: [z3.BitVec('x%d_%d' % (w, i), w) for i in range(2)] for w in (8, 16, 32, 64)}
bools = [z3.Bool('b%d' % i) for i in range(3)]


def rc(w):
    return R.choice([0, 1, (1 << w) - 1, 1 << (w - 1), R.getrandbits(w), (1 << R.randrange(1, w + 1)) - 1, 1 << R.randrange(w), ((1 << R.randrange(1, w + 1)) - 1) & ~((1 << R.randrange(w)) - 1)])


def gen(w, d):
    """(engine term, reference z3 term)"""
    if d == 0 or R.random() < .1:
        if R.random() < .4:
            c = rc(w)
            return c, z3.BitVecVal(c, w)
        v = R.choice(vars_[w])
        return v, v
    op = R.choice(['add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'zext', 'sext', 'trunc', 'ite', 'concat', 'extract', 'neg', 'urem', 'udiv', 'srem', 'sdiv'])
    if op in ('zext', 'sext'):
        ws = [x for x in vars_ if x < w]
        if not ws:
            return gen(w, d - 1)
        w0 = R.choice(ws)
        a, ra = gen(w0, d - 1)
        return (X.zext(a, w0, w), z3.ZeroExt(w - w0, ra)) if op == 'zext' else (X.sext(a, w0, w), z3.SignExt(w - w0, ra))
    if op in ('trunc', 'extract'):
        ws = [x for x in vars_ if x > w]
        if not ws:
            return gen(w, d - 1)
        w0 = R.choice(ws)
        a, ra = gen(w0, d - 1)
        if op == 'trunc':
            return X.trunc(a, w0, w), z3.Extract(w - 1, 0, ra)
        lo = R.randrange(w0 - w + 1)
        return X.extract(a, lo + w - 1, lo, w0), z3.Extract(lo + w - 1, lo, ra)
    if op == 'ite':
        c, rcond = genb(d - 1)
        a, ra = gen(w, d - 1)
        b, rb = gen(w, d - 1)
        return X.ite(c, a, b, w), z3.If(rcond, ra, rb)
    if op == 'concat':
        if w == 8:
            return gen(w, d - 1)
        h = w // 2
        a, ra = gen(h, d - 1)
        b, rb = gen(h, d - 1)
        return X.concat([(a, h), (b, h)]), z3.Concat(ra, rb)
    a, ra = gen(w, d - 1)
    if op == 'neg':
        return X.sub(0, a, w), -ra
    if op in ('shl', 'lshr', 'ashr'):
        if R.random() < .8:
            s = R.randrange(w)
            b, rb = s, z3.BitVecVal(s, w)
        else:
            b, rb = gen(w, 1)
        f = {'shl': (X.shl, lambda p, q: p << q), 'lshr': (X.lshr, z3.LShR), 'ashr': (X.ashr, lambda p, q: p >> q)}[op]
        return f[0](a, b, w), f[1](ra, rb)
    b, rb = gen(w, d - 1)
    if op in ('udiv', 'urem', 'sdiv', 'srem'):
        c = rc(w) or 3
        b, rb = c, z3.BitVecVal(c, w)
    f = {'add': (X.add, lambda p, q: p + q), 'sub': (X.sub, lambda p, q: p - q), 'mul': (X.mul, lambda p, q: p * q), 'and': (X.band, lambda p, q: p & q),
         'or': (X.bor, lambda p, q: p | q), 'xor': (X.xor, lambda p, q: p ^ q), 'udiv': (X.udiv, z3.UDiv), 'urem': (X.urem, z3.URem),
         'sdiv': (X.sdiv, lambda p, q: p / q), 'srem': (X.srem, z3.SRem)}[op]
    return f[0](a, b, w), f[1](ra, rb)


def genb(d):
    if d <= 0 or R.random() < .2:
        b = R.choice(bools)
        return b, b
    k = R.choice(['cmp', 'cmp', 'cmp', 'and', 'or', 'not', 'xor', 'itb'])
    if k == 'cmp':
        w = R.choice(list(vars_))
        a, ra = gen(w, d - 1)
        b, rb = gen(w, d - 1)
        p = R.choice(['eq', 'ne', 'ult', 'ule', 'ugt', 'uge', 'slt', 'sle', 'sgt', 'sge'])
        ref = {'eq': lambda: ra == rb, 'ne': lambda: ra != rb, 'ult': lambda: z3.ULT(ra, rb), 'ule': lambda: z3.ULE(ra, rb), 'ugt': lambda: z3.UGT(ra, rb),
               'uge': lambda: z3.UGE(ra, rb), 'slt': lambda: ra < rb, 'sle': lambda: ra <= rb, 'sgt': lambda: ra > rb, 'sge': lambda: ra >= rb}[p]()
        return X.cmp(p, a, b, w), ref
    a, ra = genb(d - 1)
    if k == 'not':
        return X.bnot(a), z3.Not(ra)
    b, rb = genb(d - 1)
    if k == 'and':
        return X.band_(a, b), z3.And(ra, rb)
    if k == 'or':
        return X.bor_(a, b), z3.Or(ra, rb)
    if k == 'xor':
        return X.bxor_(a, b), z3.Xor(ra, rb)
    c, rc_ = genb(d - 1)
    return X.itb(c, a, b), z3.If(rc_, ra, rb)


bad = 0
for n in range(N):
    w = R.choice(list(vars_))
    t, r = gen(w, R.randrange(1, 5)) if R.random() < .7 else genb(R.randrange(1, 5))
    isb = z3.is_bool(r)
    for _ in range(6):
        sub = [(v, z3.BitVecVal(rc(q), q)) for q in vars_ for v in vars_[q]] + [(b, z3.BoolVal(R.random() < .5)) for b in bools]
        e = z3.simplify(z3.substitute(r, *sub))
        if isinstance(t, (int, bool)):
            tt = z3.BoolVal(bool(t)) if isb else z3.BitVecVal(t, w)
        else:
            tt = z3.simplify(z3.substitute(t, *sub))
        if not e.eq(tt):
            print('MISMATCH', n, '\n engine', t, '\n ref', r, '\n', e, tt)
            bad += 1
            break
    if bad > 5:
        break
print('bvx fuzz: %d terms, %d mismatches' % (n + 1, bad))
sys.exit(1 if bad else 0)
