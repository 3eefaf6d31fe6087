"""Rational-function normal form: decides equalities of field expressions.

A term is normalised to a polynomial over atoms (Laurent: exponents may be
negative for atoms proved nonzero).  inv(x) of a sum is a composite atom, which
the zero test clears by multiplication.  sqrt(x)^2 is reduced to x when x >= 0.
Arguments of uninterpreted applications are normalised first, so applications
with arithmetically equal arguments become the same atom.
"""
from fractions import Fraction
import z3
from .values import I, R, B, simp, to_real

LIMIT = 4000


class TooBig(Exception):
    pass


class Norm:
    def __init__(self, nonzero, nonneg):
        self.nonzero, self.nonneg = nonzero, nonneg   # callbacks: term -> bool
        self.atoms = {}        # key -> z3 term
        self.akey = {}         # term id -> key
        self.comp = {}         # composite key -> (poly, z3 term)
        self.pcache = {}
        self.ccache = {}
        self.keep = []
        self.nz = {}

    # -- polynomials: dict {monomial: Fraction}; monomial: tuple of (key, exp) sorted
    def add(self, a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + s * c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return r

    def mulm(self, m, n):
        d = dict(m)
        for k, e in n:
            d[k] = d.get(k, 0) + e
            if d[k] == 0:
                del d[k]
        return tuple(sorted(d.items()))

    def mul(self, a, b):
        if len(a) * len(b) > LIMIT:
            raise TooBig()
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = self.mulm(m, n)
                v = r.get(k, 0) + c * d
                if v == 0:
                    r.pop(k, None)
                else:
                    r[k] = v
        return self.reduce(r)

    def reduce(self, r):
        """sqrt(x)^2 -> x"""
        for _ in range(50):
            hit = None
            for m in r:
                for k, e in m:
                    if (e >= 2 or e <= -2) and k[0] == "sqrt" and self.sq_ok(k):
                        hit = (m, k, e)
                        break
                if hit:
                    break
            if not hit:
                return r
            m, k, e = hit
            c = r.pop(m)
            rest = tuple(x for x in m if x[0] != k)
            px = self.comp[k][0]
            if e >= 2:
                q = {self.mulm(rest, ((k, e % 2),) if e % 2 else ()): c}
                for _ in range(e // 2):
                    q = self.mul_raw(q, px)
            else:
                inv = self.inv_poly(px, self.comp[k][1].arg(0))
                if inv is None:
                    r[m] = c
                    return r
                q = {self.mulm(rest, ((k, -((-e) % 2)),) if (-e) % 2 else ()): c}
                for _ in range((-e) // 2):
                    q = self.mul_raw(q, inv)
            r = self.add(r, q)
        return r

    def mul_raw(self, a, b):
        if len(a) * len(b) > LIMIT:
            raise TooBig()
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = self.mulm(m, n)
                v = r.get(k, 0) + c * d
                if v == 0:
                    r.pop(k, None)
                else:
                    r[k] = v
        return r

    def sq_ok(self, k):
        key = ("nn", k)
        if key not in self.nz:
            self.nz[key] = self.nonneg(self.comp[k][1].arg(0))
        return self.nz[key]

    def atom(self, t):
        key = ("a", t.get_id())
        self.atoms[key] = t
        self.keep.append(t)
        return {((key, 1),): Fraction(1)}

    def is_nz(self, t):
        i = t.get_id()
        if i not in self.nz:
            self.keep.append(t)
            self.nz[i] = self.nonzero(t)
        return self.nz[i]

    def inv_poly(self, p, t):
        """poly of 1/t, or None when t may be zero"""
        if not p:
            return None
        if len(p) == 1:
            (m, c), = p.items()
            for k, e in m:
                base = self.term_of_key(k)
                if not self.is_nz(base):
                    return None
            return {tuple((k, -e) for k, e in m): 1 / c}
        if not self.is_nz(t):
            return None
        # normalise the leading coefficient
        lead = min(p, key=self.mkey)
        c = p[lead]
        q = {m: v / c for m, v in p.items()}
        key = ("comp", tuple(sorted(((self.mkey(m), v) for m, v in q.items()))))
        self.comp[key] = (q, t)
        return {((key, -1),): 1 / c}

    def mkey(self, m):
        return repr(m)

    def term_of_key(self, k):
        if k[0] == "a":
            return self.atoms[k]
        if k[0] == "sqrt":
            return self.comp[k][1]
        return self.build(self.comp[k][0])

    def poly(self, t):
        i = t.get_id()
        if i in self.pcache:
            return self.pcache[i]
        self.keep.append(t)
        r = self._poly(t)
        self.pcache[i] = r
        return r

    def _poly(self, t):
        if z3.is_rational_value(t):
            f = t.as_fraction()
            return {(): Fraction(f.numerator, f.denominator)} if f != 0 else {}
        if z3.is_int_value(t):
            v = t.as_long()
            return {(): Fraction(v)} if v else {}
        if not z3.is_app(t):
            return self.atom(t)
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                r = self.add(r, self.poly(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.poly(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.poly(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return {m: -c for m, c in self.poly(ch[0]).items()}
        if k == z3.Z3_OP_MUL:
            r = self.poly(ch[0])
            for c in ch[1:]:
                r = self.mul(r, self.poly(c))
            return r
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
            e = ch[1].as_fraction()
            if e.denominator == 1 and 0 <= e.numerator < 8:
                r = {(): Fraction(1)}
                for _ in range(e.numerator):
                    r = self.mul(r, self.poly(ch[0]))
                return r
        if k == z3.Z3_OP_DIV:
            pd = self.poly(ch[1])
            inv = self.inv_poly(pd, ch[1])
            if inv is not None:
                return self.mul(self.poly(ch[0]), inv)
        if k == z3.Z3_OP_TO_REAL:
            return self.poly(ch[0])
        if k == z3.Z3_OP_UNINTERPRETED and len(ch) == 1:
            nm = t.decl().name()
            if nm == "inv":
                p = self.poly(ch[0])
                inv = self.inv_poly(p, ch[0])
                if inv is not None:
                    return inv
            if nm == "sqrt":
                p = self.poly(ch[0])
                key = ("sqrt", tuple(sorted((self.mkey(m), v) for m, v in p.items())))
                self.comp[key] = (p, t)
                return {((key, 1),): Fraction(1)}
        return self.atom(self.canon_args(t))

    def canon_args(self, t):
        """same application with normalised arithmetic arguments"""
        if t.num_args() == 0:
            return t
        i = t.get_id()
        if i in self.ccache:
            return self.ccache[i]
        self.keep.append(t)
        ch = []
        for c in t.children():
            if c.sort() in (R, I):
                ch.append(self.canon(c))
            elif c.sort() == B and z3.is_app(c) and c.num_args():
                ch.append(self.canon_args(c))
            else:
                ch.append(c)
        try:
            k = t.decl().kind()
            if k == z3.Z3_OP_ITE:
                r = z3.If(*ch)
            else:
                r = t.decl()(*ch)
        except z3.Z3Exception:
            r = t
        self.ccache[i] = r
        return r

    def canon(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t) or (z3.is_app(t) and t.num_args() == 0) or not z3.is_app(t):
            return t
        p = self.poly(t)
        r = self.build(p, t.sort())
        return r

    def build(self, p, sort=R):
        terms = []
        def sk(m):
            # by what the factors are, not by when they were created
            return sorted((self.term_of_key(k).sexpr(), e) for k, e in m)
        for m in sorted(p, key=sk):
            c = p[m]
            fac = []
            for k, e in sorted(m, key=lambda x: self.term_of_key(x[0]).sexpr()):
                b = self.term_of_key(k)
                if sort == R:
                    b = to_real(b)
                if e < 0:
                    from .logic import INV
                    b = INV(b)
                    e = -e
                fac += [b] * e
            q = z3.Q(c.numerator, c.denominator) if sort == R else (z3.IntVal(c.numerator) if c.denominator == 1 else None)
            if q is None:
                raise TooBig()
            if not fac:
                terms.append(q)
            elif c == 1:
                terms.append(fac[0] if len(fac) == 1 else z3.Product(*fac))
            else:
                terms.append(z3.Product(q, *fac))
        if not terms:
            return z3.RealVal(0) if sort == R else z3.IntVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(*terms)

    def is_zero(self, t):
        p = self.poly(t)
        for _ in range(20):
            p = self.reduce(p)
            if not p:
                return True
            # clear composite denominators (expand positive ones)
            low = {}
            for m in p:
                for k, e in m:
                    if k[0] == "comp":
                        low[k] = min(low.get(k, 0), e)
            if not low:
                # negative powers of sqrt: multiply through
                neg = {}
                for m in p:
                    for k, e in m:
                        if k[0] == "sqrt" and e < 0:
                            neg[k] = min(neg.get(k, 0), e)
                if not neg:
                    return not p
                k, e = next(iter(neg.items()))
                if not self.is_nz(self.comp[k][1]):
                    return False
                p = self.mul(p, {((k, -e),): Fraction(1)})
                continue
            k = next(iter(low))
            lo = low[k]
            q, _t = self.comp[k]
            r = {}
            for m, c in p.items():
                e = dict(m).get(k, 0) - lo
                rest = tuple(x for x in m if x[0] != k)
                s = {rest: c}
                for _ in range(e):
                    s = self.mul_raw(s, q)
                r = self.add(r, s)
            p = r
        return not p


def equal(pc, a, b, quickfn):
    """a == b by normal form (pc used only for nonzero/nonnegative side conditions)"""
    n = Norm(lambda t: quickfn(pc, t != 0), lambda t: quickfn(pc, t >= 0))
    try:
        return n.is_zero(to_real(a) - to_real(b) if a.sort() != b.sort() or a.sort() == R else a - b)
    except (TooBig, RecursionError):
        return False
