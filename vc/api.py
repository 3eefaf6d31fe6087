"""What a contract file sees."""
import z3
from . import cxxast as A
from .values import *
from .logic import *
from .exec import Exec, PI, INF, from_list, const_arr, Obl
from . import poly

PROOFS = []          # filled by the contract module being loaded


def proof(tus, sizes=(), name=None, timeout=None):
    """Register a proof.  tus: translation units (relative to /repo/freud, or
    'driver:<file>' for an instantiation driver of /verif/contracts)."""
    def deco(f):
        PROOFS.append(dict(fn=f, name=name or f.__name__, tus=[tus] if isinstance(tus, str) else list(tus),
                           sizes=tuple(sizes), timeout=timeout, doc=(f.__doc__ or "").strip()))
        return f
    return deco


class P:
    """One run of a proof: symbolic sizes, or (concrete) a fixed value for each."""

    def __init__(self, ex, name, concrete=None):
        self.ex, self.name, self.concrete = ex, name, concrete

    def real(self, n):
        return z3.Const(n, R)

    def int(self, n):
        return z3.Const(n, I)

    def nat(self, n):
        c = z3.Const(n, I)
        self.ex.fact(c >= 0)
        return c

    def bool(self, n):
        return z3.Const(n, B)

    def size(self, n, lo=0):
        """A size: symbolic (any value >= lo), or the concrete value under replay."""
        if self.concrete is not None:
            return iv(max(lo, self.concrete.get(n, 2)))
        c = z3.Const(n, I)
        self.ex.fact(c >= lo)
        return c

    def require(self, t):
        self.ex.fact(t)

    def ensure(self, name, goal, where=""):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        self.ex.oblige(f"{self.name}: {name}", goal, "post", where)

    def lemma(self, name, goal):
        """Prove, then use."""
        self.ensure("lemma " + name, goal)
        self.ex.fact(goal)

    def ensure_without(self, name, goal, names):
        """ensure, not using the hypotheses that mention these functions"""
        keep = [h for h in self.ex.hyps() if not apps_of(h, lambda a: a.decl().name() in names)]
        self.ex.obls.append(Obl(f"{self.name}: {name}", keep, simp(goal), "post"))

    def rule(self, name, vs, hyps, goal):
        """Prove a general law (no other hypotheses); the result adds an instance of it."""
        o = Obl(f"{self.name}: law {name}", list(hyps), goal, "post")
        self.ex.obls.append(o)
        law = z3.Implies(z3.And(*hyps), goal) if hyps else goal

        def inst(*ts):
            self.ex.fact(z3.substitute(law, *zip(vs, ts)))
        return inst

    def replace(self, name, term, pairs):
        """Prove a == b for every pair, then use that term does not change when a is replaced by b."""
        for a, b in pairs:
            self.ensure(f"lemma {name}: {a.decl().name()}", a == b)
            self.ex.fact(a == b)
        new = z3.substitute(term, *pairs)
        self.ex.fact(term == new)
        return new

    def eq(self, name, a, b):
        """Structural equality of two values."""
        if is_z3(a) and is_z3(b):
            a, b = coerce2(a, b)
            self.ensure(name, a == b)
        elif isinstance(a, Ptr) and isinstance(b, Ptr):
            self.ensure(name, z3.BoolVal(same(a, b)))
        elif isinstance(a, Struct) and isinstance(b, Struct):
            for k in a.f:
                self.eq(f"{name}.{k}", a.f[k], b.f[k])
        else:
            raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__}")

    def not_thrown(self, name="does not throw"):
        self.ensure(name, Not(self.ex.st.mem["THROW"]))

    def thrown(self):
        return self.ex.st.mem["THROW"]

    def reach(self, name="precondition satisfiable"):
        self.ex.obls.append(Obl(f"{self.name}: {name}", self.ex.hyps(), FALSE, "cover", ""))

    def box(self, dim="sym", periodic="sym", nm=""):
        """A box made by its real constructor from symbolic parameters."""
        ex = self.ex
        Lx, Ly, Lz = [z3.Const(nm + n, R) for n in ("Lx", "Ly", "Lz")]
        xy, xz, yz = [z3.Const(nm + n, R) for n in ("xy", "xz", "yz")]
        two = z3.Const(nm + "is2D", B) if dim == "sym" else z3.BoolVal(dim == 2)
        for L in (Lx, Ly, Lz):
            ex.fact(L > 0)
        b = ex.new("Box", Lx, Ly, Lz, xy, xz, yz, two)
        per = [z3.Const(nm + "per" + c, B) for c in "xyz"] if periodic == "sym" else [z3.BoolVal(x) for x in periodic]
        if not all(is_true(x) for x in per):
            ex.method(b, "setPeriodic", *per)
        b2 = BoxArgs()
        b2.ptr, b2.L, b2.tilt, b2.is2D, b2.per = b, (Lx, Ly, Lz), (xy, xz, yz), two, per
        return b2


class BoxArgs:
    pass


def vec(x, y, z, t="vec3<float>"):
    return Struct(t, {"x": x, "y": y, "z": z})


def comps(v):
    return v.f["x"], v.f["y"], v.f["z"]
