"""Normal form of bit-vector equalities over GF(2): terms built from xor, shifts, masks, concatenations and bit-conditional xor (the shape of
checksums and CRCs) become, bit for bit, xors of input bits; equal bits cancel before the solver sees the equality. Non-linear subterms are atoms."""
import z3

MAXVARS = 400


class Lin:
    def __init__(self):
        self.memo = {}
        self.keep = []
        self.atoms = {}
        self.alist = [None]
        self.xor = {}
        self.bmemo = {}
        self.sys = {}  # equations (xor of atoms = 0) established on the current path, by leading atom
        self.sums = {}  # the same for sums modulo 2**n: (n, atom) -> row with coefficient 1 at atom
        self.smemo = {}
        self.ememo = {}

    # ------------------------------------------------------------ the linear equations of the path
    def reduce(self, r):
        x = r
        while x > 1:
            h = x.bit_length() - 1
            p = self.sys.get(h)
            if p is not None:
                r ^= p
                x = r & ((1 << h) - 1)
            else:
                x &= (1 << h) - 1
        return r

    def add(self, c):
        """c: an equality of bit vectors that holds; returns the new leading atoms"""
        new = []
        for x, y in zip(self.bits(c.arg(0)), self.bits(c.arg(1))):
            r = self.reduce(x ^ y)
            if r > 1:
                h = r.bit_length() - 1
                self.sys[h] = r
                new.append(h)
        return new

    def implied(self, c):
        """True / False when the equations decide the equality c"""
        res = True
        for x, y in zip(self.bits(c.arg(0)), self.bits(c.arg(1))):
            r = self.reduce(x ^ y) if x != y else 0
            if r == 1:
                return False
            if r:
                res = None
        if res is None:
            n = c.arg(0).size()
            row = self.sum_reduce(n, self.sum_diff(c))
            k = row.pop(0, 0)
            if not row:
                return k == 0
            if k & 1 and all(v % 2 == 0 for v in row.values()):
                return False
        return res

    def refuted(self, c, negs):
        """c (a conjunction of equalities) together with the equations establishes one of the conjunctions known to be false"""
        new = []
        try:
            for x in (c.children() if z3.is_and(c) else [c]):
                if z3.is_eq(x) and z3.is_bv(x.arg(0)):
                    new.extend(self.add(x))
            for n in negs:
                if all(z3.is_eq(x) and z3.is_bv(x.arg(0)) and not any(self.reduce(p ^ q) for p, q in zip(self.bits(x.arg(0)), self.bits(x.arg(1))))
                       for x in (n.children() if z3.is_and(n) else [n])):
                    return True
        finally:
            for h in new:
                self.sys.pop(h, None)
        return False

    # ------------------------------------------------------------ sums modulo 2**n (key 0: the constant)
    def sum_of(self, t):
        key = t.get_id()
        r = self.smemo.get(key)
        if r is None:
            n = t.size()
            m = (1 << n) - 1
            k = t.decl().kind()
            if z3.is_bv_value(t):
                r = {0: t.as_long()}
            elif k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB):
                r = dict(self.sum_of(t.arg(0)))
                for c in t.children()[1:]:
                    for a, v in self.sum_of(c).items():
                        r[a] = (r.get(a, 0) + (v if k == z3.Z3_OP_BADD else -v)) & m
            elif k == z3.Z3_OP_BNEG:
                r = {a: -v & m for a, v in self.sum_of(t.arg(0)).items()}
            elif k == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
                f = t.arg(0).as_long()
                r = {a: v * f & m for a, v in self.sum_of(t.arg(1)).items()}
            elif k in (z3.Z3_OP_CONCAT, z3.Z3_OP_ZERO_EXT):
                r = {a: v & m for a, v in self.exact(t)[0].items()}
            else:
                r = {key: 1}
            r = {a: v for a, v in r.items() if v}
            self.smemo[key] = r
            self.keep.append(t)
        return r

    def exact(self, t):
        """t as a linear form over the integers (no wrap-around), and its upper bound; zero extension does not matter"""
        key = t.get_id()
        r = self.ememo.get(key)
        if r is None:
            n = t.size()
            k = t.decl().kind()
            if z3.is_bv_value(t):
                r = {0: t.as_long()}, t.as_long()
            elif k == z3.Z3_OP_ZERO_EXT:
                r = self.exact(t.arg(0))
            elif k == z3.Z3_OP_CONCAT and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0 and t.num_args() == 2:
                r = self.exact(t.arg(1))
            elif k == z3.Z3_OP_BADD:
                row, ub = {}, 0
                for c in t.children():
                    x, u = self.exact(c)
                    ub += u
                    for a, v in x.items():
                        row[a] = row.get(a, 0) + v
                r = row, ub
            elif k == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
                f = t.arg(0).as_long()
                x, u = self.exact(t.arg(1))
                r = {a: v * f for a, v in x.items()}, u * f
            if r is None or r[1] >= 1 << n:
                r = {key: 1}, (1 << n) - 1
            self.ememo[key] = r
            self.keep.append(t)
        return r

    def sum_diff(self, c):
        m = (1 << c.arg(0).size()) - 1
        r = dict(self.sum_of(c.arg(0)))
        for a, v in self.sum_of(c.arg(1)).items():
            r[a] = (r.get(a, 0) - v) & m
        return {a: v for a, v in r.items() if v}

    def sum_reduce(self, n, row):
        if self.sums and len(row) > (0 in row):
            m = (1 << n) - 1
            for (k, a), p in self.sums.items():
                if k == n and a in row:
                    f = row[a]
                    for b, v in p.items():
                        x = (row.get(b, 0) - f * v) & m
                        if x:
                            row[b] = x
                        else:
                            row.pop(b, None)
        return row

    def add_sum(self, c):
        n = c.arg(0).size()
        if n > 64:
            return None
        row = self.sum_reduce(n, self.sum_diff(c))
        odd = [a for a, v in row.items() if a and v & 1]
        if not odd:
            return None
        h = max(odd)
        inv = pow(row[h], -1, 1 << n)
        self.sums[(n, h)] = {a: v * inv & ((1 << n) - 1) for a, v in row.items()}
        return (n, h)

    def atom(self, t, bit):
        k = (t.get_id(), bit)
        i = self.atoms.get(k)
        if i is None:
            i = self.atoms[k] = len(self.alist)
            self.alist.append((t, bit))
            self.keep.append(t)
        return 1 << i

    def opaque(self, t, n):
        return [self.atom(t, i) for i in range(n)]

    def bits(self, t):
        key = t.get_id()
        r = self.memo.get(key)
        if r is None:
            r = self._bits(t)
            self.memo[key] = r
            self.keep.append(t)
        return r

    def _bits(self, t):
        n = t.size()
        if z3.is_bv_value(t):
            v = t.as_long()
            return [(v >> i) & 1 for i in range(n)]
        k = t.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            return self.opaque(t, n)
        if k == z3.Z3_OP_BXOR:
            # wide sums: most children have been seen already
            ctx, ast = t.ctx.ref(), t.as_ast()
            get, ident, memo = z3.Z3_get_app_arg, z3.Z3_get_ast_id, self.memo
            r = [0] * n
            for j in range(t.num_args()):
                b = memo.get(ident(ctx, get(ctx, ast, j)))
                if b is None:
                    b = self.bits(t.arg(j))
                r = [x ^ y for x, y in zip(r, b)]
            return r
        ch = t.children()
        if k == z3.Z3_OP_BNOT:
            return [x ^ 1 for x in self.bits(ch[0])]
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = t.params()
            return self.bits(ch[0])[lo:hi + 1]
        if k == z3.Z3_OP_CONCAT:
            r = []
            for c in reversed(ch):
                r = r + self.bits(c)
            return r
        if k == z3.Z3_OP_ZERO_EXT:
            b = self.bits(ch[0])
            return b + [0] * (n - len(b))
        if k == z3.Z3_OP_SIGN_EXT:
            b = self.bits(ch[0])
            return b + [b[-1]] * (n - len(b))
        if k in (z3.Z3_OP_BAND, z3.Z3_OP_BOR):
            one = 1 if k == z3.Z3_OP_BAND else 0
            bs = [self.bits(c) for c in ch]
            r = []
            for i in range(n):
                vals = set(b[i] for b in bs) - {one}
                if (1 - one) in vals:
                    r.append(1 - one)
                elif not vals:
                    r.append(one)
                elif len(vals) == 1:
                    r.append(vals.pop())
                else:
                    r.append(self.atom(t, i))
            return r
        if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR) and z3.is_bv_value(ch[1]):
            s = min(ch[1].as_long(), n)
            b = self.bits(ch[0])
            if k == z3.Z3_OP_BSHL:
                return [0] * s + b[:n - s]
            return b[s:] + ([0] if k == z3.Z3_OP_BLSHR else [b[-1]]) * s
        if k == z3.Z3_OP_BADD:
            bs = [self.bits(c) for c in ch]
            if all(sum(1 for b in bs if b[i] != 0) <= 1 for i in range(n)):
                return [next((b[i] for b in bs if b[i] != 0), 0) for i in range(n)]
            return self.opaque(t, n)
        if k == z3.Z3_OP_BMUL and len(ch) == 2:
            a, b = ch
            if not z3.is_bv_value(a):
                a, b = b, a
            if z3.is_bv_value(a):
                v, bb = a.as_long(), self.bits(b)
                if v and v & (v - 1) == 0:
                    s = v.bit_length() - 1
                    return ([0] * s + bb)[:n]
                if all(x == 0 for x in bb[1:]):
                    return [bb[0] if (v >> i) & 1 else 0 for i in range(n)]
            return self.opaque(t, n)
        if k == z3.Z3_OP_ITE:
            c = self.boolbit(ch[0])
            a, b = self.bits(ch[1]), self.bits(ch[2])
            r = []
            for i in range(n):
                d = a[i] ^ b[i]
                if d == 0:
                    r.append(a[i])
                elif d == 1:
                    r.append(b[i] ^ c)
                else:
                    r.append(self.atom(t, i))
            return r
        return self.opaque(t, n)

    def boolbit(self, c):
        key = c.get_id()
        r = self.bmemo.get(key)
        if r is None:
            r = self.bmemo[key] = self._boolbit(c)
            self.keep.append(c)
        return r

    def _boolbit(self, c):
        if z3.is_not(c):
            return self.boolbit(c.arg(0)) ^ 1
        if z3.is_true(c):
            return 1
        if z3.is_false(c):
            return 0
        if z3.is_eq(c) and z3.is_bv(c.arg(0)):
            d = [x ^ y for x, y in zip(self.bits(c.arg(0)), self.bits(c.arg(1)))]
            nz = [x for x in d if x]
            if not nz:
                return 1
            if 1 in nz:
                return 0
            if len(nz) == 1:
                return nz[0] ^ 1
        if z3.is_eq(c) and z3.is_bool(c.arg(0)):
            return self.boolbit(c.arg(0)) ^ self.boolbit(c.arg(1)) ^ 1
        if c.decl().kind() == z3.Z3_OP_XOR:
            r = 0
            for x in c.children():
                r ^= self.boolbit(x)
            return r
        return self.atom(c, -1)

    # ------------------------------------------------------------ equalities
    def has_xor(self, t):
        key = t.get_id()
        r = self.xor.get(key)
        if r is not None:
            return r
        stack = [(t, False)]
        while stack:
            x, done = stack.pop()
            i = x.get_id()
            if i in self.xor:
                continue
            k = x.decl().kind() if z3.is_app(x) else None
            if k == z3.Z3_OP_BXOR or k == z3.Z3_OP_XOR:
                self.xor[i] = True
                self.keep.append(x)
                continue
            ch = x.children()
            if done:
                self.xor[i] = any(self.xor.get(c.get_id(), False) for c in ch)
                self.keep.append(x)
            else:
                stack.append((x, True))
                stack.extend((c, False) for c in ch)
        return self.xor[key]

    def norm(self, c):
        """an equivalent of the boolean term c"""
        if not self.has_xor(c):
            return c
        if z3.is_eq(c) and z3.is_bv(c.arg(0)):
            return self.norm_eq(c)
        if c.decl().kind() == z3.Z3_OP_XOR or z3.is_eq(c) and z3.is_bool(c.arg(0)):
            r = self.boolbit(c) ^ 1
            x, k, plain = r >> 1, 0, True
            while x and plain:
                k += 1
                if x & 1 and self.alist[k][1] < 0:
                    plain = False
                x >>= 1
            if plain:
                return self.rows([r], c)
        if z3.is_not(c) or z3.is_and(c) or z3.is_or(c) or z3.is_implies(c) or z3.is_eq(c) and z3.is_bool(c.arg(0)):
            ch = c.children()
            new = [self.norm(x) for x in ch]
            if all(x is y for x, y in zip(ch, new)):
                return c
            if z3.is_implies(c):
                new = [self.neg(new[0]), new[1]]
            if z3.is_not(c):
                return self.neg(new[0])
            if z3.is_and(c):
                return self.conj(new)
            if z3.is_or(c) or z3.is_implies(c):
                return self.neg(self.conj([self.neg(x) for x in new]))
            return new[0] == new[1]
        return c

    def neg(self, c):
        if z3.is_not(c):
            return c.arg(0)
        if z3.is_true(c) or z3.is_false(c):
            return z3.BoolVal(z3.is_false(c))
        return z3.Not(c)

    def conj(self, cs):
        out = []
        for c in cs:
            if z3.is_false(c):
                return c
            if z3.is_and(c):
                out.extend(c.children())
            elif not z3.is_true(c):
                out.append(c)
        if len(out) > 1:
            return z3.And(*out)
        return out[0] if out else z3.BoolVal(True)

    def norm_eq(self, c):
        a, b = self.bits(c.arg(0)), self.bits(c.arg(1))
        return self.rows([x ^ y for x, y in zip(a, b)], c)

    def rows(self, rows, c):
        # Gaussian elimination: each row must be 0
        piv = {}
        for r in rows:
            while r > 1:
                h = r.bit_length() - 1
                p = piv.get(h)
                if p is None:
                    piv[h] = r
                    break
                r ^= p
            if r == 1:
                return z3.BoolVal(False)
        if not piv:
            return z3.BoolVal(True)
        used = 0
        for r in piv.values():
            used |= r
        if bin(used >> 1).count("1") > MAXVARS:
            return c
        conj = []
        # back substitution keeps the equations short
        hs = sorted(piv)
        for i, h in enumerate(hs):
            for g in hs[i + 1:]:
                if piv[g] >> h & 1:
                    piv[g] ^= piv[h]
        for h in hs:
            r = piv[h]
            const = r & 1
            terms, k, x = [], 0, r >> 1
            while x:
                k += 1
                if x & 1:
                    t, bit = self.alist[k]
                    if bit < 0:
                        terms.append(z3.If(t, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
                    else:
                        terms.append(z3.Extract(bit, bit, t) if t.size() > 1 else t)
                x >>= 1
            s = terms[0]
            for t in terms[1:]:
                s = s ^ t
            conj.append(s == z3.BitVecVal(const, 1))
        return z3.And(*conj) if len(conj) > 1 else conj[0]
