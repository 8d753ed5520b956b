"""Boolean layer of the merging symbolic executor.

Literals are ints: 0 = False, 1 = True, otherwise 2*node + negated.  Nodes are
hash-consed and-nodes or input variables.  Every node carries a signature: its
value under a pool of models found so far, so that most "is this satisfiable"
questions are answered by a witness already known; all others go to z3, whose
answers are cached and whose models are added to the pool.
"""
import random
import time

import z3


class Bools:
    def __init__(self, seed=1, timeout_ms=120000):
        self.f0 = [0]
        self.f1 = [0]
        self.sig = [0]
        self.np = 0                 # number of pool models
        self.mask = 0
        self.h = {}
        self.inputs = []            # node ids
        self.names = {}
        self.var_of = {}
        self.enc = {}               # node -> z3 Bool
        self.solver = z3.SolverFor("QF_FD")
        self.solver.set("timeout", timeout_ms)
        self.satc = {0: False, 1: True}
        self.pending = []
        self.base = 1               # constraint assumed in every query
        self.nq = 0
        self.nsat = 0
        self.nunsat = 0
        self.nhit = 0
        self.tsolve = 0.0
        self.rng = random.Random(seed)
        self.unknown = 0
        self.models = {}            # lit -> model dict (only for last)

    # -- construction -------------------------------------------------
    def var(self, name):
        if name in self.var_of:
            return self.var_of[name]
        n = len(self.f0)
        self.f0.append(-1)
        self.f1.append(-1)
        s = self.rng.getrandbits(self.np) if self.np else 0
        self.sig.append(s)
        self.inputs.append(n)
        self.names[n] = name
        self.var_of[name] = 2 * n
        if self.np:
            # values of an unconstrained fresh variable in old models are free
            pass
        return 2 * n

    def lsig(self, a):
        s = self.sig[a >> 1]
        return (self.mask ^ s) if a & 1 else s

    def AND(self, a, b):
        if a == b:
            return a
        if a == 0 or b == 0 or a == (b ^ 1):
            return 0
        if a == 1:
            return b
        if b == 1:
            return a
        if a > b:
            a, b = b, a
        k = (a, b)
        r = self.h.get(k)
        if r is not None:
            return r
        r = self._simp(a, b)
        if r is None:
            r = self._simp(b, a)
        if r is None:
            n = len(self.f0)
            self.f0.append(a)
            self.f1.append(b)
            self.sig.append(self.lsig(a) & self.lsig(b))
            r = 2 * n
        self.h[k] = r
        return r

    def _simp(self, a, b):
        """simplify a & b looking into the structure of b"""
        f0, f1 = self.f0, self.f1
        n = b >> 1
        if f0[n] < 0:
            return None
        x, y = f0[n], f1[n]
        if not b & 1:
            if a == x or a == y:
                return b
            if a == x ^ 1 or a == y ^ 1:
                return 0
            # look for a or ~a among the conjuncts of b
            st = [x, y]
            k = 0
            while st and k < 40:
                c = st.pop()
                k += 1
                if c == a:
                    return b
                if c == a ^ 1:
                    return 0
                m = c >> 1
                if not c & 1 and f0[m] >= 0:
                    st.append(f0[m])
                    st.append(f1[m])
        else:
            # b = ~(x & y)
            if a == x:
                return self.AND(a, y ^ 1)
            if a == y:
                return self.AND(a, x ^ 1)
            if a == x ^ 1 or a == y ^ 1:
                return a
            # conjuncts of a
            m = a >> 1
            if not a & 1 and f0[m] >= 0:
                st = [f0[m], f1[m]]
                k = 0
                while st and k < 40:
                    c = st.pop()
                    k += 1
                    if c == x:
                        return self.AND(a, y ^ 1)
                    if c == y:
                        return self.AND(a, x ^ 1)
                    if c == x ^ 1 or c == y ^ 1:
                        return a
                    q = c >> 1
                    if not c & 1 and f0[q] >= 0:
                        st.append(f0[q])
                        st.append(f1[q])
            if a & 1 and f0[m] >= 0:
                # ~(p&q) & ~(x&y): if p==x and q==~y -> ~p
                p, q = f0[m], f1[m]
                if p == x and q == y ^ 1 or p == x and q == y:
                    return p ^ 1 if q == y ^ 1 else a
                if p == y and q == x ^ 1:
                    return p ^ 1
                if q == x and p == y ^ 1:
                    return q ^ 1
                if q == y and p == x ^ 1:
                    return q ^ 1
        return None

    def OR(self, a, b):
        return self.AND(a ^ 1, b ^ 1) ^ 1

    def ors(self, xs):
        xs = list(xs)
        if not xs:
            return 0
        while len(xs) > 1:
            ys = [self.OR(xs[i], xs[i + 1]) for i in range(0, len(xs) - 1, 2)]
            if len(xs) % 2:
                ys.append(xs[-1])
            xs = ys
        return xs[0]

    def ands(self, xs):
        r = 1
        for x in xs:
            r = self.AND(r, x)
        return r

    def ITE(self, c, a, b):
        if c == 1 or a == b:
            return a
        if c == 0:
            return b
        if a == 1:
            return self.OR(c, b)
        if a == 0:
            return self.AND(c ^ 1, b)
        if b == 0:
            return self.AND(c, a)
        if b == 1:
            return self.OR(c ^ 1, a)
        return self.OR(self.AND(c, a), self.AND(c ^ 1, b))

    def IFF(self, a, b):
        return self.ITE(a, b, b ^ 1)

    def XOR(self, a, b):
        return self.ITE(a, b ^ 1, b)

    # -- solving ------------------------------------------------------
    def z(self, lit):
        """z3 expression of a literal, adding its definitions"""
        if lit == 0:
            return z3.BoolVal(False)
        if lit == 1:
            return z3.BoolVal(True)
        n0 = lit >> 1
        enc = self.enc
        if n0 not in enc:
            st = [n0]
            while st:
                n = st[-1]
                if n in enc:
                    st.pop()
                    continue
                if self.f0[n] < 0:
                    enc[n] = z3.Bool('v%d' % n)
                    st.pop()
                    continue
                a, b = self.f0[n] >> 1, self.f1[n] >> 1
                todo = [m for m in (a, b) if m not in enc]
                if todo:
                    st.extend(todo)
                    continue
                v = z3.Bool('n%d' % n)
                za, zb = enc[a], enc[b]
                if self.f0[n] & 1:
                    za = z3.Not(za)
                if self.f1[n] & 1:
                    zb = z3.Not(zb)
                self.solver.add(z3.Or(z3.Not(v), za), z3.Or(z3.Not(v), zb),
                                z3.Or(v, z3.Not(za), z3.Not(zb)))
                enc[n] = v
                st.pop()
        v = enc[n0]
        return z3.Not(v) if lit & 1 else v

    def sat(self, lit):
        c = self.satc.get(lit)
        if c is not None:
            return c
        if self.lsig(lit):
            return True
        for m in self.pending:
            if self.evalm(lit, m):
                return True
        r = self._solve(lit)
        self.satc[lit] = r
        return r

    def _solve(self, lit):
        t = time.time()
        a = self.z(lit)
        b = self.z(self.base)
        self.nq += 1
        r = self.solver.check(a, b) if self.base != 1 else self.solver.check(a)
        self.tsolve += time.time() - t
        if r == z3.sat:
            self.nsat += 1
            m = self.solver.model()
            md = {}
            for n in self.inputs:
                if n in self.enc:
                    v = m.eval(self.enc[n])
                    md[n] = z3.is_true(v)
                else:
                    md[n] = False
            self.addmodel(md)
            return True
        if r == z3.unsat:
            self.nunsat += 1
            return False
        self.unknown += 1
        raise SolverUnknown('solver returned unknown')

    def addmodel(self, md):
        self.pending.append(md)
        if len(self.pending) >= 24:
            self.flush()

    def seed(self, k, must=1):
        ms = []
        r = self.rng
        for i in range(k):
            d = r.choice((0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.8))
            md = {n: r.random() < d for n in self.inputs}
            if must == 1 or self.evalm(must, md):
                md.pop('memo', None)
                ms.append(md)
        for md in ms:
            self.pending.append(md)
        self.flush()

    def flush(self):
        if not self.pending:
            return
        k = len(self.pending)
        bits = [0] * len(self.f0)
        for n in self.inputs:
            b = 0
            for i, md in enumerate(self.pending):
                if md.get(n):
                    b |= 1 << i
            bits[n] = b
        mk = (1 << k) - 1
        f0, f1, sig, sh = self.f0, self.f1, self.sig, self.np
        for n in range(1, len(f0)):
            a = f0[n]
            if a >= 0:
                b = f1[n]
                va = bits[a >> 1]
                if a & 1:
                    va ^= mk
                vb = bits[b >> 1]
                if b & 1:
                    vb ^= mk
                bits[n] = va & vb
            sig[n] |= bits[n] << sh
        self.np += k
        self.mask = (1 << self.np) - 1
        self.pending = []

    def evalm(self, lit, md):
        """value of lit under a model of the inputs (memo per call)"""
        n0 = lit >> 1
        memo = md.setdefault('memo', {0: False})
        if n0 not in memo:
            st = [n0]
            f0, f1 = self.f0, self.f1
            while st:
                n = st[-1]
                if n in memo:
                    st.pop()
                    continue
                if f0[n] < 0:
                    memo[n] = bool(md.get(n))
                    st.pop()
                    continue
                a, b = f0[n], f1[n]
                va = memo.get(a >> 1)
                if va is None:
                    st.append(a >> 1)
                    continue
                if va == bool(a & 1):
                    memo[n] = False
                    st.pop()
                    continue
                vb = memo.get(b >> 1)
                if vb is None:
                    st.append(b >> 1)
                    continue
                memo[n] = (vb != bool(b & 1))
                st.pop()
        return memo[n0] != bool(lit & 1)

    def model_of(self, lit):
        """a model {input name: bool} of lit, or None"""
        if lit == 0:
            return None
        if lit != 1 or True:
            if not self.sat(lit):
                return None
            for m in self.pending:
                if self.evalm(lit, m):
                    return {self.names[n]: bool(m.get(n)) for n in self.inputs}
            s = self.lsig(lit) if lit != 1 else self.mask
            if s:
                i = (s & -s).bit_length() - 1
                return {self.names[n]: bool(self.sig[n] >> i & 1) for n in self.inputs}
            # cached sat without a witness left: solve again
            self._solve(lit)
            return self.model_of(lit)

    def size(self):
        return len(self.f0)


class SolverUnknown(Exception):
    pass
