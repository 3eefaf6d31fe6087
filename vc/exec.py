"""Verification-condition generation: symbolic execution of the clang AST.

Every C++ function of the repository that is called is executed from its real
body unless a contract for it is registered (`Exec.contracts`); then the caller
is checked against the contract.  Branches are joined by if-then-else, loops
are unrolled when their bounds are concrete and otherwise closed by the
recurrence rule of vc/loops.py.
"""
import z3
from . import cxxast as A
from .values import *
from .logic import *

sys_setrec = __import__("sys").setrecursionlimit
sys_setrec(200000)

INTS = {"int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False),
        "size_t": (64, False), "unsigned char": (8, False), "char": (8, True), "short": (16, True),
        "unsigned short": (16, False), "long long": (64, True), "unsigned long long": (64, False),
        "uint32_t": (32, False), "uint64_t": (64, False), "int32_t": (32, True), "int64_t": (64, True),
        "signed char": (8, True), "ptrdiff_t": (64, True), "difference_type": (64, True), "size_type": (64, False)}
PI = z3.Const("PI", R)
INF = z3.Const("INFINITY", R)
PI_FACTS = [PI > z3.Q(314159, 100000), PI < z3.Q(314160, 100000)]
UNROLL = 40


class Obl:
    def __init__(self, name, pc, goal, kind, where=""):
        self.name, self.pc, self.goal, self.kind, self.where = name, pc, goal, kind, where


class State:
    __slots__ = ("mem", "pc", "dead")

    def __init__(self, mem, pc, dead=False):
        self.mem, self.pc, self.dead = mem, pc, dead

    def copy(self):
        return State(dict(self.mem), list(self.pc), self.dead)


class Frame:
    __slots__ = ("vars", "this", "parent", "ret", "retflag", "fn", "retref")

    def __init__(self, parent=None, this=None, fn=None):
        self.vars, self.parent, self.this, self.fn = {}, parent, this, fn
        self.ret = self.retflag = None
        self.retref = False

    def lookup(self, i):
        f = self
        while f is not None:
            if i in f.vars:
                return f.vars[i]
            f = f.parent
        return None

    def get_this(self):
        f = self
        while f is not None:
            if f.this is not None:
                return f.this
            f = f.parent
        raise Unsupported("this outside a method")


def tbase(t):
    t = A.strip_cvref(t)
    return t.split("<", 1)[0]


def targs(t):
    t = A.strip_cvref(t)
    if "<" not in t:
        return []
    s = t[t.index("<") + 1:t.rindex(">")]
    out, d, cur = [], 0, ""
    for c in s:
        if c in "<([":
            d += 1
        if c in ">)]":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def from_list(vals, ety=None):
    vals = list(vals)

    def fn(j):
        j = simp(j)
        if z3.is_int_value(j):
            i = j.as_long()
            if 0 <= i < len(vals):
                return vals[i]
            return vals[0] if vals else UNDEF
        r = vals[-1] if vals else UNDEF
        for i in range(len(vals) - 2, -1, -1):
            r = ite(simp(j == i), vals[i], r)
        return r
    return Arr(iv(len(vals)), fn, ety)


def const_arr(n, v, ety=None):
    return Arr(n, lambda j: v, ety)


class Exec:
    def __init__(self, tus):
        self.tus = tus if isinstance(tus, list) else [tus]
        self.st = State({}, [])
        self.facts = list(PI_FACTS)
        self.obls = []
        self.contracts = {}
        self.body_once = set()
        self.invariants = {}     # function name -> loop invariants (contract files)
        self.refnames = {}
        self.posts = {}
        self.perms = []          # permutations introduced by sorting (p, inverse)
        self.loopk = []           # counters of the symbolic loops being summarised
        self.loops = []           # active summarisation contexts
        self.flags = []           # active exit flags
        self.THROW = "THROW"
        self.st.mem[self.THROW] = FALSE
        self.flags.append(self.THROW)
        self.globals = {}
        self.writes = None        # write log (list of sets)
        self.covered = set()      # names of functions whose real body was executed
        self.assumed = set()      # contracts used at call sites
        self.dynamic = {}         # per contract scratch
        self.safety = True
        self.depth = 0
        from . import models
        models.install(self)

    # -- bookkeeping ----------------------------------------------------------
    def fresh(self, name, sort):
        n = f"{name}~{uid()}"
        if self.loopk:
            return z3.Function(n, *([I] * len(self.loopk)), sort)(*self.loopk)
        return z3.Const(n, sort)

    def assume(self, t):
        t = simp(t)
        if not is_true(t):
            self.st.pc.append(t)

    def fact(self, t):
        """A fact that holds independently of the path."""
        if self.loops:
            self.loops[-1].facts.append(t)
        self.facts.append(t)

    def hyps(self):
        return self.facts + self.st.pc

    def quick(self, goal, timeout=0.4):
        goal = simp(goal)
        if is_true(goal):
            return True
        if is_false(goal):
            return False
        h = [x for x in self.hyps() if not z3.is_quantifier(x)]
        return quick(h, goal, timeout)

    def oblige(self, name, goal, kind="safety", where=""):
        if kind == "safety" and not self.safety:
            return
        goal = simp(goal)
        if is_true(goal):
            self.obls.append(Obl(name, [], TRUE, kind, where))
            return
        o = Obl(name, self.hyps(), goal, kind, where)
        self.obls.append(o)
        for l in self.loops:
            l.obls.append(o)

    def cur(self):
        return self._fnstack[-1] if getattr(self, "_fnstack", None) else ""

    # -- memory ------------------------------------------------------------------
    def alloc(self, v, hint="t"):
        loc = f"{hint}#{uid()}"
        self.st.mem[loc] = v
        return Ptr(loc)

    def read(self, p):
        if isinstance(p, PIte):
            return ite(p.c, self.read(p.a), self.read(p.b))
        if isinstance(p, Null):
            raise Unsupported("null dereference")
        if not isinstance(p, Ptr):
            raise Unsupported(f"read through {type(p).__name__}")
        if p.loc not in self.st.mem:
            raise Unsupported(f"dangling {p.loc}")
        v = self.st.mem[p.loc]
        for x in p.path:
            v = self._step(v, x)
        return v

    def _step(self, v, x):
        if isinstance(x, str):
            if isinstance(v, Struct):
                if x not in v.f:
                    raise Unsupported(f"no field {x} in {v.cls}")
                return v.f[x]
            if v is UNDEF:
                return UNDEF
            raise Unsupported(f"field {x} of {type(v).__name__}")
        if isinstance(v, Arr):
            return v.get(x)
        if z3.is_int_value(x) and x.as_long() == 0:
            return v      # pointer to a single object
        raise Unsupported(f"index into {type(v).__name__}")

    def write(self, p, val):
        if isinstance(p, PIte):
            a = self.read(p.a)
            self.write(p.a, ite(p.c, val, a))
            b = self.read(p.b)
            self.write(p.b, ite(p.c, b, val))
            return
        if not isinstance(p, Ptr):
            raise Unsupported(f"write through {type(p).__name__}")
        if self.writes is not None:
            pre = []
            for x in p.path:
                if not isinstance(x, str):
                    break
                pre.append(x)
            ent = (p.loc, tuple(pre))
            for w in self.writes:
                w[ent] = None
        if self.dynamic.get("wlog") is not None:
            self.dynamic["wlog"].append((p, val, list(self.st.pc), dict(self.dynamic.get("wctx", {}))))
        if not p.path:
            self.st.mem[p.loc] = val
        else:
            if p.loc not in self.st.mem:
                raise Unsupported(f"dangling {p.loc}")
            self.st.mem[p.loc] = self._update(self.st.mem[p.loc], p.path, val)

    def _update(self, v, path, val):
        if not path:
            return val
        x = path[0]
        if isinstance(x, str):
            if not isinstance(v, Struct):
                raise Unsupported(f"field update of {type(v).__name__}")
            return v.set(x, self._update(v.f[x], path[1:], val))
        if isinstance(v, Arr):
            if len(path) == 1:
                return v.set(x, val)
            return v.set(x, self._update(v.get(x), path[1:], val))
        if z3.is_int_value(x) and x.as_long() == 0:
            return self._update(v, path[1:], val)
        raise Unsupported(f"index update of {type(v).__name__}")

    # -- branching -----------------------------------------------------------------
    def branch(self, c, then, other=None):
        """Run both sides on copies of the state and join."""
        c = simp(c)
        if is_true(c):
            return then()
        if is_false(c):
            return other() if other else None
        base = self.st
        n = len(base.pc)
        s1 = base.copy()
        s1.pc.append(c)
        self.st = s1
        r1 = then()
        s1 = self.st
        s2 = base.copy()
        s2.pc.append(Not(c))
        self.st = s2
        r2 = other() if other else None
        s2 = self.st
        self.st = self.merge(c, s1, s2, n)
        return (r1, r2)

    def merge(self, c, s1, s2, n):
        if s1.dead and s2.dead:
            return s1
        if s1.dead:
            return s2
        if s2.dead:
            return s1
        mem = {}
        for l, v in s1.mem.items():
            if l in s2.mem:
                w = s2.mem[l]
                mem[l] = v if v is w else ite(c, v, w)
            else:
                mem[l] = v
        for l, w in s2.mem.items():
            if l not in mem:
                mem[l] = w
        pc = s1.pc[:n]
        for t in s1.pc[n + 1:]:
            pc.append(z3.Implies(c, t))
        for t in s2.pc[n + 1:]:
            pc.append(z3.Implies(Not(c), t))
        return State(mem, pc)

    def ite_eval(self, c, fa, fb):
        """Value of a conditional expression."""
        c = simp(c)
        if is_true(c):
            return fa()
        if is_false(c):
            return fb()
        out = self.branch(c, fa, fb)
        if self.st.dead:
            return UNDEF
        a, b = out
        if a is None or b is None:
            return None
        return ite(c, a, b)

    # -- exit flags ----------------------------------------------------------------
    def stopped(self):
        return simp(Or(*[self.st.mem[f] for f in self.flags]))

    def set_flag(self, fl):
        for ctx in reversed(self.loops):
            if ctx.noexit and fl in ctx.exitflags:
                cond = simp(And(*self.st.pc[ctx.pcbase:]))
                ctx.exits.append(cond)
                self.st.dead = True
                return
        self.st.mem[fl] = TRUE

    def feasible(self, c):
        """Is the branch possible?  (False only when provably not)"""
        c = simp(c)
        if is_false(c):
            return False
        if is_true(c):
            return True
        return not self.quick(Not(c))

    # -- types -----------------------------------------------------------------------
    def sort_of(self, t):
        t = A.strip_cvref(t)
        if t == "bool":
            return B
        if t in INTS:
            return I
        if t in ("float", "double", "long double"):
            return R
        if self.is_enum(t):
            return I
        return None

    def is_enum(self, t):
        k = t.split("::")[-1]
        for tu in self.tus:
            if not hasattr(tu, "_enums"):
                tu._enums = {n.get("name") for n in tu.decl.values() if n.get("kind") == "EnumDecl"}
            if k in tu._enums:
                return True
        return False

    def cls_node(self, t):
        t = A.strip_cvref(t)
        for tu in self.tus:
            if t in tu.classes:
                return tu, tu.classes[t]
        u = t
        while "::" in u.split("<", 1)[0]:
            u = u.split("::", 1)[1]
            for tu in self.tus:
                if u in tu.classes:
                    return tu, tu.classes[u]
        k = t.split("::")[-1] if "<" not in t else None
        if k and "::" in t:
            for tu in self.tus:
                if k in tu.classes:
                    return tu, tu.classes[k]
        return None, None

    def bases(self, node):
        return [A.strip_cvref(b["type"].get("desugaredQualType") or b["type"]["qualType"]) for b in node.get("bases", [])]

    def fields(self, t):
        """[(name, type, decl)] with base-class fields first."""
        tu, c = self.cls_node(t)
        if c is None:
            raise Unsupported(f"unknown class {t}")
        out = []
        for b in self.bases(c):
            if self.cls_node(b)[1] is not None:
                out += self.fields(b)
        for f in c.get("inner", []):
            if f.get("kind") == "FieldDecl" and f.get("name"):
                out.append((f["name"], A.qt(f), f))
        return out

    def zero(self, t):
        s = self.sort_of(t)
        if s is not None:
            return FALSE if s == B else rv(0) if s == R else iv(0)
        return self.default(t, zero=True)

    def default(self, t, zero=False):
        """Default-initialised value of a type."""
        t = A.strip_cvref(t)
        if t.endswith("*"):
            return NULL if zero else UNDEF
        s = self.sort_of(t)
        if s is not None:
            return self.zero(t) if zero else UNDEF
        if t.endswith("]"):
            n = int(t[t.rindex("[") + 1:-1])
            et = t[:t.rindex("[")].strip()
            v = self.default(et, zero)
            return const_arr(iv(n), v, et)
        b = tbase(t)
        m = self.type_models.get(b)
        if m is not None:
            return m(self, t)
        if b == "atomic":
            return self.default(t[t.index("<") + 1:t.rindex(">")], zero)
        tu, c = self.cls_node(t)
        if c is None:
            raise Unsupported(f"default value of {t}")
        ctors = self.find_ctor(t, [])
        if ctors is not None:
            return self.construct(t, [], ctors)
        return self.agg_default(t, zero)

    def agg_default(self, t, zero=False):
        f = {}
        for name, ty, d in self.fields(t):
            init = [c for c in d.get("inner", []) if c.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
            if d.get("hasInClassInitializer") and init:
                f[name] = self.init_value(ty, init[0], Frame())
            else:
                f[name] = self.default(ty, zero)
        return Struct(A.strip_cvref(t), f)

    def symbolic(self, name, t):
        """Fresh symbolic value of a type (unsigned are assumed nonnegative)."""
        t = A.strip_cvref(t)
        s = self.sort_of(t)
        if s is not None:
            c = z3.Const(name, s)
            if s == I and t in INTS and not INTS[t][1]:
                self.fact(c >= 0)
            return c
        if tbase(t) == "complex":
            return Struct(t, {"re": z3.Const(name + ".re", R), "im": z3.Const(name + ".im", R)})
        if tbase(t) == "array":
            a = targs(t)
            return self.sym_array(name, int(a[1].rstrip("UL")), a[0])
        f = {}
        for n, ty, d in self.fields(t):
            f[n] = self.symbolic(f"{name}.{n}", ty)
        return Struct(t, f)

    def sym_array(self, name, n, t):
        """Array of n symbolic elements: element k is an uninterpreted function of k."""
        t = A.strip_cvref(t)

        def elem(nm, ty, idx):
            ty = A.strip_cvref(ty)
            s = self.sort_of(ty)
            if s is not None:
                return z3.Function(nm, *([I] * len(idx)), s)(*idx)
            if tbase(ty) == "complex":
                return Struct(ty, {c: z3.Function(f"{nm}.{c}", *([I] * len(idx)), R)(*idx) for c in ("re", "im")})
            return Struct(ty, {f: elem(f"{nm}.{f}", fty, idx) for f, fty, d in self.fields(ty)})
        return Arr(n if is_z3(n) else iv(n), lambda j: elem(name, t, [j]), t)

    # -- functions ---------------------------------------------------------------------
    def tu_of(self, declid):
        for tu in self.tus:
            if declid in tu.decl:
                return tu
        return None

    def find_ctor(self, t, argtypes=None, ctortype=None, nargs=None):
        tu, c = self.cls_node(t)
        if c is None:
            return None
        name = c.get("name")
        cands = []
        for m in c.get("inner", []):
            mm = [m]
            if m.get("kind") == "FunctionTemplateDecl":
                mm = [x for x in m.get("inner", []) if x.get("kind") == "CXXConstructorDecl"][1:]
            for m in mm:
                if m.get("kind") == "CXXConstructorDecl":
                    cands.append(m)
        n = len(argtypes) if argtypes is not None else nargs
        for m in cands:
            d = tu.definition(m["id"]) or self.other_definition(m)
            if m.get("explicitlyDefaulted") or m.get("isImplicit"):
                continue
            if ctortype is not None:
                if A.norm_type(m["type"]["qualType"]).replace(" noexcept", "") == A.norm_type(ctortype).replace(" noexcept", ""):
                    return d or m
                continue
            ps = A.params(m)
            req = [p for p in ps if not self._has_default(p)]
            if len(req) <= n <= len(ps):
                if self._is_copy(m, t):
                    continue
                return d or m
        return None

    def _has_default(self, p):
        return p.get("init") is not None or any(c.get("kind", "").endswith(("Expr", "Literal", "Operator")) for c in p.get("inner", []))

    def _is_copy(self, m, t):
        ps = A.params(m)
        return len(ps) == 1 and A.strip_cvref(A.qt(ps[0])) == A.strip_cvref(t)

    def construct(self, t, args, ctor, argnodes=None):
        """Run a constructor; args are already evaluated (Ptr for references)."""
        t = A.strip_cvref(t)
        f = {}
        for name, ty, d in self.fields(t):
            f[name] = UNDEF
        this = self.alloc(Struct(t, f), t)
        self.run_ctor(this, t, ctor, args)
        v = self.st.mem[this.loc]
        return v

    def run_ctor(self, this, t, ctor, args):
        if A.body(ctor) is None and not ctor.get("explicitlyDefaulted") and not ctor.get("isImplicit"):
            raise Unsupported(f"no definition of the constructor of {t}")
        tu = self.tu_of(ctor["id"])
        fr = Frame(this=this, fn=ctor)
        self.bind_params(fr, ctor, args, tu)
        self.push_fn(ctor, tu)
        inits = [c for c in ctor.get("inner", []) if c.get("kind") == "CXXCtorInitializer"]
        done = set()
        # delegating or base initialisers first (the order the compiler lists them)
        for c in inits:
            e = c["inner"][0] if c.get("inner") else None
            if "baseInit" in c:
                bt = A.strip_cvref(c["baseInit"].get("desugaredQualType") or c["baseInit"]["qualType"])
                self.init_base(this, bt, e, fr)
            elif "delegatingInit" in c:
                dt = A.strip_cvref(c["delegatingInit"].get("desugaredQualType") or c["delegatingInit"]["qualType"])
                self.init_base(this, dt, e, fr)
                done.update(x[0] for x in self.fields(t))
            else:
                nm = c["anyInit"]["name"]
                fd = tu.decl.get(c["anyInit"]["id"]) or c["anyInit"]
                ty = A.qt(fd)
                if e is None or e.get("kind") == "CXXDefaultInitExpr":
                    init = [x for x in fd.get("inner", []) if x.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
                    v = self.init_value(ty, init[0], fr) if init else self.default(ty)
                else:
                    v = self.init_value(ty, e, fr)
                self.st.mem[this.loc] = self._update(self.st.mem[this.loc], this.path + (nm,), v)
                done.add(nm)
        cur = self.read(this)
        for name, ty, d in self.fields(t):
            if name not in done and cur.f.get(name) is UNDEF:
                init = [x for x in d.get("inner", []) if x.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
                try:
                    v = self.init_value(ty, init[0], fr) if d.get("hasInClassInitializer") and init else self.default(ty)
                except Unsupported:
                    v = UNDEF
                cur = cur.set(name, v)
        self.write(this, cur)
        b = A.body(ctor)
        if b is not None:
            self.run_body(fr, b)
        self.pop_fn()

    def init_base(self, this, bt, e, fr):
        while e is not None and e.get("kind") in ("ExprWithCleanups", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr"):
            e = e["inner"][0]
        tu, c = self.cls_node(bt)
        if c is None or e is None:
            return
        if e.get("kind") == "CXXConstructExpr":
            ctor = self.find_ctor(bt, ctortype=e["ctorType"]["qualType"])
            if ctor is not None and (A.body(ctor) is not None):
                args = self.eval_args(e.get("inner", []), A.params(ctor), fr)
                self.run_ctor(this, bt, ctor, args)
                return
            if len(e.get("inner", [])) == 1 and A.strip_cvref(A.qt(e["inner"][0])) == bt:
                v = self.rv(e["inner"][0], fr)
                cur = self.read(this)
                for k, x in v.f.items():
                    cur = cur.set(k, x)
                self.write(this, cur)
                return
        cur = self.read(this)
        v = self.agg_default(bt)
        for k, x in v.f.items():
            cur = cur.set(k, x)
        self.write(this, cur)

    def push_fn(self, fn, tu):
        if not hasattr(self, "_fnstack"):
            self._fnstack = []
        q = tu.qual.get(fn["id"], fn.get("name", "?")) if tu else fn.get("name", "?")
        self._fnstack.append(q)
        self.covered.add(q)
        self.depth += 1
        if self.depth > 120:
            raise Unsupported("recursion too deep")

    def pop_fn(self):
        self._fnstack.pop()
        self.depth -= 1

    def bind_params(self, fr, fn, args, tu):
        ps = A.params(fn)
        for i, p in enumerate(ps):
            isref = A.qt(p).rstrip().endswith("&")
            if i < len(args) and args[i] is not DEFAULT:
                a = args[i]
            else:
                init = self.param_default(fn, i, tu)
                a = self.lvrv(init, fr) if isref else self.conv_to(self.rv(init, fr), A.qt(p))
            if isref:
                if not isinstance(a, (Ptr, PIte)):
                    a = self.alloc(a, p.get("name", "arg"))
                fr.vars[p["id"]] = a
            else:
                if isinstance(a, (Ptr, PIte)) and "*" not in A.qt(p) and self.sort_of(A.strip_cvref(A.qt(p))) is not None:
                    a = self.read(a)
                if is_z3(a):
                    a = self.conv_to(a, A.qt(p))
                fr.vars[p["id"]] = self.alloc(a, p.get("name", "arg"))

    def param_default(self, fn, i, tu):
        def dflt(p):
            c = [x for x in p.get("inner", []) if x.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
            return c[0] if c else None
        d = dflt(A.params(fn)[i])
        if d is not None:
            return d
        # the in-class declaration carries it
        m = fn.get("mangledName")
        for n in tu.decl.values():
            if n is not fn and n.get("kind") == fn.get("kind") and n.get("name") == fn.get("name") and (
                    n.get("mangledName") == m if m else len(A.params(n)) == len(A.params(fn))):
                ps = A.params(n)
                if i < len(ps):
                    d = dflt(ps[i])
                    if d is not None:
                        return d
        raise Unsupported(f"default argument {i} of {fn.get('name')}")

    def eval_args(self, nodes, ps, fr):
        out = []
        for i, n in enumerate(nodes):
            if n.get("kind") == "CXXDefaultArgExpr":
                out.append(DEFAULT)
                continue
            if i < len(ps) and A.qt(ps[i]).rstrip().endswith("&"):
                out.append(self.lvrv(n, fr))
            else:
                out.append(self.rv(n, fr))
        return out

    def lvrv(self, n, fr):
        """Reference binding: a Ptr to the object (temporaries are materialised)."""
        if n.get("valueCategory") in ("lvalue", "xvalue"):
            p = self.lv(n, fr)
            return p
        v = self.rv(n, fr)
        return self.alloc(v, "tmp")

    def call_fn(self, fn, tu, args, this=None, parent=None):
        """Execute a function body. Returns a value (or Ptr for reference results)."""
        q = tu.qual.get(fn["id"], fn.get("name"))
        c = self.contract_for(q, fn)
        if c is not None and fn["name"] in self.body_once:
            self.body_once.discard(fn["name"])       # the function being verified; its recursive calls use the contract
            c = None
        if c is not None:
            self.assumed.add(q)
            return c(self, args, this)
        b = A.body(fn)
        if b is None:
            raise Unsupported(f"no body for {q}")
        fr = Frame(parent=parent, this=this, fn=fn)
        self.bind_params(fr, fn, args, tu)
        self.push_fn(fn, tu)
        r = self.run_body(fr, b, fn["type"]["qualType"])
        self.pop_fn()
        return r

    def contract_for(self, q, fn):
        if not self.contracts:
            return None
        parts = q.split("::")
        for i in range(len(parts)):
            k = "::".join(parts[i:])
            if k in self.contracts:
                return self.contracts[k]
            k2 = f"{k}/{len(A.params(fn))}"
            if k2 in self.contracts:
                return self.contracts[k2]
        # template classes: drop arguments
        k = A.norm_type(q)
        import re as _re
        k = _re.sub(r"<[^<>]*>", "", _re.sub(r"<[^<>]*>", "", _re.sub(r"<[^<>]*>", "", k)))
        return self.contracts.get(k) or self.contracts.get(f"{k}/{len(A.params(fn))}")

    def run_body(self, fr, body, ftype=""):
        ret = self.alloc(UNDEF, "ret")
        fr.ret = ret.loc
        flag = self.alloc(FALSE, "retflag")
        fr.retflag = flag.loc
        rt = ftype.split("(", 1)[0].strip() if ftype else ""
        fr.retref = rt.endswith("&")
        if "->" in ftype:
            fr.retref = ftype.rsplit("->", 1)[1].strip().endswith("&")
        self.flags.append(flag.loc)
        if not self.st.dead:
            self.stmt(body, fr)
        self.flags.pop()
        v = self.st.mem.get(ret.loc, UNDEF)
        return v

    def call_value(self, f, args):
        """Call a closure / contract-supplied callable."""
        if isinstance(f, (Ptr, PIte)):
            f = self.read(f)
        if isinstance(f, PyFn):
            return f.fn(self, args)
        if isinstance(f, Closure):
            op = self.lambda_op(f.node, args)
            fr0 = Frame(parent=f.frame)
            fr0.vars.update(f.copies)
            tu = self.tu_of(op["id"]) or self.tus[0]
            fr = Frame(parent=fr0, fn=op)
            self.bind_params(fr, op, args, tu)
            return self.run_body(fr, A.body(op), op["type"]["qualType"])
        if isinstance(f, Struct) and f.cls.startswith("fnref"):
            return self.call_fn(f.f["fn"], f.f["tu"], args)
        raise Unsupported(f"call of {type(f).__name__}")

    def lambda_op(self, node, args):
        rec = node["inner"][0]
        ops = []
        for c in rec.get("inner", []):
            if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()":
                ops.append(c)
            elif c.get("kind") == "FunctionTemplateDecl" and c.get("name") == "operator()":
                inst = [x for x in c.get("inner", []) if x.get("kind") == "CXXMethodDecl"]
                ops += inst[1:] or inst
        if not ops:
            raise Unsupported("lambda without operator()")
        if len(ops) > 1:
            ops2 = [o for o in ops if self._lam_match(o, args)]
            ops = ops2 or ops
        return ops[-1]

    def _lam_match(self, op, args):
        for p, a in zip(A.params(op), args):
            t = A.strip_cvref(A.qt(p))
            v = a
            if isinstance(a, Ptr) and A.qt(p).rstrip().endswith("&"):
                try:
                    v = self.read(a)
                except Unsupported:
                    return True
            if isinstance(v, Struct) and v.cls != t and self.cls_node(t)[1] is not None:
                return False
        return True

    # -- statements --------------------------------------------------------------------
    def stmt(self, n, fr):
        if self.st.dead:
            return
        k = n.get("kind")
        m = getattr(self, "s_" + (k or "None"), None)
        if m is not None:
            return m(n, fr)
        if k is None:
            return
        self.rv_discard(n, fr)

    def rv_discard(self, n, fr):
        if n.get("valueCategory") in ("lvalue", "xvalue"):
            try:
                self.lv(n, fr)
            except VoidResult:
                pass
        else:
            self.rv(n, fr)

    def s_CompoundStmt(self, n, fr):
        self.block([c for c in n.get("inner", []) if isinstance(c, dict) and c.get("kind")], 0, fr)

    def block(self, ss, i, fr):
        while i < len(ss):
            if self.st.dead:
                return
            self.stmt(ss[i], fr)
            i += 1
            if self.st.dead:
                return
            c = self.stopped()
            if is_true(c):
                return
            if not is_false(c):
                if i >= len(ss):
                    return
                if not self.feasible(c):
                    self.assume(Not(c))
                    for f in self.flags:
                        self.st.mem[f] = FALSE
                    continue
                saved = self.st.copy()
                n = len(saved.pc)
                saved.pc.append(c)
                self.st.pc.append(Not(c))
                for f in self.flags:
                    self.st.mem[f] = FALSE
                self.restrict(c)
                self.block(ss, i, fr)
                # the saved side keeps its own flags
                self.st = self.merge(c, saved, self.st, n)
                return

    def restrict(self, c):
        """simplify the memory under the hypothesis Not(c) (unit propagation only)"""
        known = {}
        todo = [(c, False)]
        while todo:
            t, v = todo.pop()
            while z3.is_not(t):
                t, v = t.arg(0), not v
            if t.get_id() in known or is_true(t) or is_false(t):
                continue
            if z3.is_or(t) and not v or z3.is_and(t) and v:
                todo += [(x, v) for x in t.children()]
                continue
            known[t.get_id()] = (t, v)
        pairs = [(t, z3.BoolVal(v)) for t, v in known.values()]
        if not pairs:
            return
        for _ in range(3):
            # compound terms that reduce to a literal under what is known
            new = []
            for t, v in known.values():
                u = simp(z3.substitute(t, *[q for q in pairs if not q[0].eq(t)]))
                todo = [(u, v)]
                while todo:
                    x, w = todo.pop()
                    while z3.is_not(x):
                        x, w = x.arg(0), not w
                    if is_true(x) or is_false(x):
                        continue
                    if z3.is_or(x) and not w or z3.is_and(x) and w:
                        todo += [(y, w) for y in x.children()]
                        continue
                    if x.get_id() not in known:
                        new.append((x, w))
            if not new:
                break
            for x, w in new:
                known[x.get_id()] = (x, w)
                pairs.append((x, z3.BoolVal(w)))

        def f(t):
            u = z3.substitute(t, *pairs)
            return t if u.eq(t) else simp(u)

        def go(v):
            if is_z3(v):
                return f(v)
            if isinstance(v, Struct):
                g = {k: go(x) for k, x in v.f.items()}
                return v if all(g[k] is v.f[k] for k in g) else Struct(v.cls, g)
            if isinstance(v, Arr):
                n = f(v.n)
                if n is v.n:
                    return v
                fn = v.fn
                return Arr(n, lambda j: map_value(fn(j), f), v.ety)
            if isinstance(v, PIte):
                q = f(v.c)
                return v.a if is_true(q) else v.b if is_false(q) else v
            return v
        for l, v in list(self.st.mem.items()):
            w = go(v)
            if w is not v:
                self.st.mem[l] = w

    def s_NullStmt(self, n, fr):
        pass

    def s_DeclStmt(self, n, fr):
        for d in n.get("inner", []):
            if d.get("kind") == "VarDecl":
                self.decl_var(d, fr)
            elif d.get("kind") == "DecompositionDecl":
                self.decl_decomp(d, fr)

    def decl_var(self, d, fr):
        t = A.qt(d)
        init = [c for c in d.get("inner", []) if c.get("kind", "").endswith(("Expr", "Literal", "Operator", "Cleanups"))]
        if t.rstrip().endswith("&"):
            fr.vars[d["id"]] = self.lvrv(init[0], fr)
            self.refnames[d["id"]] = d.get("name")
            return
        if d.get("storageClass") == "static":
            raise Unsupported("function-local static")
        if init:
            v = self.init_value(t, init[0], fr)
        else:
            v = self.default(t)
        fr.vars[d["id"]] = self.alloc(v, d.get("name", "v"))

    def decl_decomp(self, d, fr):
        init = [c for c in d.get("inner", []) if c.get("kind", "").endswith(("Expr", "Literal", "Operator", "Cleanups"))]
        binds = [c for c in d.get("inner", []) if c.get("kind") == "BindingDecl"]
        p = self.lvrv(init[0], fr)
        v = self.read(p)
        if isinstance(v, Struct):
            names = list(v.f)
            for b, nm in zip(binds, names):
                fr.vars[b["id"]] = self.sub(p, nm)
            return
        raise Unsupported("decomposition")

    def init_value(self, t, e, fr):
        v = self.rvx(e, fr)
        if is_z3(v):
            v = self.conv_to(v, t)
        return v

    def rvx(self, e, fr):
        """rvalue of any expression (glvalues are read)."""
        if e.get("valueCategory") in ("lvalue", "xvalue"):
            return self.read(self.lv(e, fr))
        return self.rv(e, fr)

    def conv_to(self, v, t):
        s = self.sort_of(t)
        if s is None or not is_z3(v) or v.sort() == s:
            return v
        if s == R:
            return to_real(v)
        if s == I and v.sort() == B:
            return to_int(v)
        if s == B:
            return to_bool(v)
        return v

    def s_ReturnStmt(self, n, fr):
        f = fr
        while f.ret is None:
            f = f.parent
        if n.get("inner"):
            e = n["inner"][0]
            if f.retref:
                v = self.lvrv(e, fr)
            else:
                v = self.rvx(e, fr)
            if not self.st.dead:
                self.st.mem[f.ret] = v
        if not self.st.dead:
            self.set_flag(f.retflag)

    def s_IfStmt(self, n, fr):
        inner = [c for c in n.get("inner", []) if isinstance(c, dict) and c.get("kind")]
        if n.get("hasInit"):
            self.stmt(inner[0], fr)
            inner = inner[1:]
        if n.get("hasVar"):
            self.stmt(inner[0], fr)
            inner = inner[1:]
        if n.get("isConstexpr") and inner[0].get("kind") == "ConstantExpr":
            v = inner[0].get("value")
            if v is not None:
                if v in ("true", "1"):
                    self.stmt(inner[1], fr)
                elif len(inner) > 2:
                    self.stmt(inner[2], fr)
                return
        c = to_bool(self.rvx(inner[0], fr))
        if self.st.dead:
            return
        c = simp(c)
        th = inner[1]
        el = inner[2] if len(inner) > 2 else None
        if not is_true(c) and not is_false(c):
            if self.has_exit(th) or (el is not None and self.has_exit(el)) or self.prune:
                if not self.feasible(c):
                    c = FALSE
                elif not self.feasible(Not(c)):
                    c = TRUE
        self.branch(c, lambda: self.stmt(th, fr), (lambda: self.stmt(el, fr)) if el is not None else None)

    prune = False

    def has_exit(self, n):
        if "_hasexit" not in n:
            r = n.get("kind") in ("CXXThrowExpr", "ReturnStmt", "BreakStmt", "ContinueStmt") or any(
                self.has_exit(c) for c in n.get("inner", []) if isinstance(c, dict) and c.get("kind") != "LambdaExpr")
            n["_hasexit"] = r
        return n["_hasexit"]

    def s_SwitchStmt(self, n, fr):
        inner = [c for c in n.get("inner", []) if isinstance(c, dict) and c.get("kind")]
        v = self.rvx(inner[0], fr)
        flat = []

        def add(s):
            if s.get("kind") == "CaseStmt":
                ch = s["inner"]
                flat.append(("case", ch[0]))
                add(ch[-1])
            elif s.get("kind") == "DefaultStmt":
                flat.append(("default", None))
                add(s["inner"][-1])
            else:
                flat.append(("s", s))
        for s in inner[-1].get("inner", []):
            add(s)
        consts = [self.rvx(x, fr) for k, x in flat if k == "case"]
        brk = self.alloc(FALSE, "brk").loc
        self.flags.append(brk)
        self._brk = getattr(self, "_brk", [])
        self._brk.append(brk)
        entered = FALSE
        ci = 0
        for k, x in flat:
            if k == "case":
                entered = Or(entered, simp(v == consts[ci]))
                ci += 1
            elif k == "default":
                entered = Or(entered, And(*[Not(simp(v == c)) for c in consts]))
            else:
                g = And(entered, Not(self.stopped()))
                self.branch(g, lambda x=x: self.stmt(x, fr))
        self._brk.pop()
        self.flags.pop()

    def s_BreakStmt(self, n, fr):
        self.set_flag(self._brk[-1])

    def s_ContinueStmt(self, n, fr):
        self.set_flag(self._cont[-1])

    def s_ForStmt(self, n, fr):
        inner = n["inner"]
        # init, condvar, cond, inc, body   (absent ones are {} )
        init, cv, cond, inc, body = inner[0], inner[1], inner[2], inner[3], inner[4]
        if init and init.get("kind"):
            self.stmt(init, fr)
        self.loop(lambda: TRUE if not cond.get("kind") else to_bool(self.rvx(cond, fr)),
                  lambda: self.stmt(body, fr),
                  (lambda: self.rv_discard(inc, fr)) if inc.get("kind") else (lambda: None), fr)

    def s_WhileStmt(self, n, fr):
        inner = [c for c in n["inner"] if c.get("kind")]
        cond, body = inner[-2], inner[-1]
        test = lambda: to_bool(self.rvx(cond, fr))
        test.endless = cond.get("kind") == "CXXBoolLiteralExpr"
        self.loop(test, lambda: self.stmt(body, fr), lambda: None, fr)

    def s_DoStmt(self, n, fr):
        inner = [c for c in n["inner"] if c.get("kind")]
        body, cond = inner[0], inner[1]
        first = self.alloc(TRUE, "dofirst")
        self.loop(lambda: ite(self.read(first), TRUE, to_bool(self.rvx(cond, fr))) if not is_true(simp(self.read(first))) else TRUE,
                  lambda: (self.write(first, FALSE), self.stmt(body, fr)), lambda: None, fr)

    def s_CXXForRangeStmt(self, n, fr):
        inner = n["inner"]
        ds = [c for c in inner if c.get("kind") == "DeclStmt"]
        rng = ds[0]["inner"][0]
        init = [c for c in rng.get("inner", []) if c.get("kind", "").endswith(("Expr", "Literal", "Operator", "Cleanups"))][0]
        body = inner[-1]
        var = ds[-1]["inner"][0]
        p = self.lvrv(init, fr)
        self.range_for(p, var, body, fr)

    def range_for(self, p, var, body, fr):
        v = self.read(p)
        if not isinstance(v, Arr):
            v2 = self.iter_models.get(tbase(v.cls)) if isinstance(v, Struct) else None
            if v2 is None:
                raise Unsupported(f"range-for over {type(v).__name__}")
            p, v = v2(self, p, v)
        i = self.alloc(iv(0), "ri")
        n = v.n

        def bd():
            e = self.sub(p, self.read(i))
            if var.get("kind") == "DecompositionDecl":
                binds = [c for c in var.get("inner", []) if c.get("kind") == "BindingDecl"]
                ev = self.read(e)
                for b, nm in zip(binds, list(ev.f)):
                    fr.vars[b["id"]] = self.sub(e, nm)
            elif A.qt(var).rstrip().endswith("&"):
                fr.vars[var["id"]] = e
            else:
                fr.vars[var["id"]] = self.alloc(self.read(e), var.get("name", "x"))
            self.stmt(body, fr)
        self.loop(lambda: simp(self.read(i) < n), bd, lambda: self.write(i, simp(self.read(i) + 1)), fr)

    def s_CXXTryStmt(self, n, fr):
        raise Unsupported("try block")

    # -- loops ---------------------------------------------------------------------------
    def loop(self, cond, body, inc, fr):
        from . import loops
        loops.run(self, cond, body, inc, fr)

    # -- lvalues ---------------------------------------------------------------------------
    def sub(self, p, x):
        if isinstance(p, PIte):
            return PIte(p.c, self.sub(p.a, x), self.sub(p.b, x))
        if isinstance(p, Ptr):
            return Ptr(p.loc, p.path + (x,))
        raise Unsupported(f"member of {type(p).__name__}")

    def lv(self, n, fr):
        k = n.get("kind")
        m = getattr(self, "l_" + k, None)
        if m is not None:
            return m(n, fr)
        if n.get("valueCategory") == "prvalue":
            return self.alloc(self.rv(n, fr), "tmp")
        raise Unsupported(f"lvalue {k}")

    def _l_inner(self, n, fr):
        return self.lvrv(n["inner"][-1], fr)

    l_ParenExpr = l_ExprWithCleanups = l_CXXBindTemporaryExpr = l_ConstantExpr = _l_inner
    l_MaterializeTemporaryExpr = l_SubstNonTypeTemplateParmExpr = _l_inner

    def l_DeclRefExpr(self, n, fr):
        d = n.get("referencedDecl", {})
        p = fr.lookup(d.get("id"))
        if p is not None:
            return p
        if d.get("kind") in ("FunctionDecl", "CXXMethodDecl"):
            return self.alloc(self.fnref(d), "fn")
        return self.global_var(d, n)

    def fnref(self, d):
        tu = self.tu_of(d["id"])
        fn = tu.definition(d["id"]) if tu else None
        if fn is None and tu is not None:
            fn = self.other_definition(tu.decl[d["id"]])
            tu = self.tu_of(fn["id"]) if fn is not None else tu
        if fn is None:
            return PyFn(lambda ex, args, d=d: ex.std_call(d.get("name"), args, None, None, d), d.get("name"))
        return Struct("fnref", {"fn": fn, "tu": tu})

    def global_var(self, d, n):
        i = d.get("id")
        if i in self.globals:
            g = self.globals[i]
            if g.loc not in self.st.mem:
                self.st.mem[g.loc] = g._v if hasattr(g, "_v") else self._gval[g.loc]
            return g
        tu = self.tu_of(i)
        nm = d.get("name")
        if tu is None:
            m = self.global_models.get(nm)
            if m is not None:
                p = self.alloc(m, nm)
            else:
                raise Unsupported(f"global {nm}")
        else:
            dn = tu.decl[i]
            init = [c for c in dn.get("inner", []) if c.get("kind", "").endswith(("Expr", "Literal", "Operator", "Cleanups"))]
            if not init:
                # a static member defined elsewhere
                for x in tu.decl.values():
                    if x.get("kind") == "VarDecl" and x.get("name") == nm and x is not dn:
                        init = [c for c in x.get("inner", []) if c.get("kind", "").endswith(("Expr", "Literal", "Operator", "Cleanups"))]
                        if init:
                            break
            if not init:
                raise Unsupported(f"global {nm} without initialiser")
            v = self.init_value(A.qt(dn), init[0], Frame())
            p = self.alloc(v, nm)
        self.globals[i] = p
        if not hasattr(self, "_gval"):
            self._gval = {}
        self._gval[p.loc] = self.st.mem[p.loc]
        return p

    def l_MemberExpr(self, n, fr):
        nm = n.get("name")
        o = n["inner"][0]
        if n.get("isArrow"):
            p = self.rvx(o, fr)
        else:
            p = self.lvrv(o, fr)
        # static member?
        mid = n.get("referencedMemberDecl")
        tu = self.tu_of(mid)
        if tu is not None and tu.decl[mid].get("kind") == "VarDecl":
            return self.global_var({"id": mid, "name": nm}, n)
        if isinstance(p, (Ptr, PIte)):
            q = self.deref_adjust(p)
            return self.sub(q, nm)
        raise Unsupported(f"member {nm} of {type(p).__name__}")

    def deref_adjust(self, p):
        """pointer to the object (p may point at element 0 of a scalar)"""
        return p

    def l_ArraySubscriptExpr(self, n, fr):
        a, b = n["inner"]
        base = self.rvx(a, fr)
        idx = self.rvx(b, fr)
        return self.padd(base, idx, access=True, what=n)

    def padd(self, p, idx, access=False, what=None):
        if isinstance(p, PIte):
            return PIte(p.c, self.padd(p.a, idx, access), self.padd(p.b, idx, access))
        if isinstance(p, Null):
            return NULLDEREF
        if not isinstance(p, Ptr):
            raise Unsupported(f"pointer arithmetic on {type(p).__name__}")
        if p.path and not isinstance(p.path[-1], str):
            q = Ptr(p.loc, p.path[:-1] + (simp(p.path[-1] + to_int(idx)),))
        else:
            q = Ptr(p.loc, p.path + (simp(to_int(idx)),))
        if access:
            self.bounds(q)
        return q

    def bounds(self, q):
        """Obligation: an element access is inside its array."""
        if not self.safety or not q.path or isinstance(q.path[-1], str):
            return
        try:
            a = self.read(Ptr(q.loc, q.path[:-1]))
        except Unsupported:
            return
        if isinstance(a, Arr):
            i = q.path[-1]
            self.oblige(f"in-bounds access in {self.cur()}", z3.And(i >= 0, i < a.n), "safety")

    def l_UnaryOperator(self, n, fr):
        op = n["opcode"]
        if op == "*":
            p = self.rvx(n["inner"][0], fr)
            return p
        if op in ("++", "--"):
            return self.incdec(n, fr, op)
        if op in ("__extension__", "__real", "__imag"):
            return self.lv(n["inner"][0], fr)
        raise Unsupported(f"lvalue unary {op}")

    def incdec(self, n, fr, op):
        p = self.lv(n["inner"][0], fr)
        old = self.read(p)
        d = 1 if op == "++" else -1
        if isinstance(old, (Ptr, PIte)):
            new = self.padd(old, iv(d))
        elif is_z3(old):
            if old.sort() == R:
                new = simp(old + d)
            elif d == -1:
                new = self.int_sub(old, iv(1), A.qt(n))
            else:
                new = simp(to_int(old) + 1)
        else:
            raise Unsupported("++ on " + type(old).__name__)
        self.write(p, new)
        self._old = old
        return p

    def l_BinaryOperator(self, n, fr):
        op = n["opcode"]
        a, b = n["inner"]
        if op == "=":
            v = self.rvx(b, fr)
            p = self.lv(a, fr)
            if is_z3(v):
                v = self.conv_to(v, A.qt(a))
            self.write(p, v)
            return p
        if op == ",":
            self.rv_discard(a, fr)
            return self.lv(b, fr)
        raise Unsupported(f"lvalue binary {op}")

    def l_CompoundAssignOperator(self, n, fr):
        op = n["opcode"][:-1]
        a, b = n["inner"]
        v = self.rvx(b, fr)
        p = self.lv(a, fr)
        old = self.read(p)
        if isinstance(old, (Ptr, PIte)):
            self.write(p, self.padd(old, v if op == "+" else simp(-v)))
            return p
        ct = (n.get("computeResultType") or {}).get("qualType") or A.qt(n)
        r = self.arith(op, self.conv_to(old, ct), v, ct)
        lt = A.qt(a)
        if self.sort_of(lt) == I and is_z3(r) and r.sort() == R:
            r = self.to_integral(r, lt)
        else:
            r = self.int_cast(r, ct, lt)
        self.write(p, self.conv_to(r, lt))
        return p

    def l_ConditionalOperator(self, n, fr):
        c, a, b = n["inner"]
        cv = simp(to_bool(self.rvx(c, fr)))
        return self.ite_eval(cv, lambda: self.lv(a, fr), lambda: self.lv(b, fr))

    def l_StringLiteral(self, n, fr):
        return self.alloc(self.r_StringLiteral(n, fr), "str")

    def l_CXXThisExpr(self, n, fr):
        return fr.get_this()

    def _l_cast(self, n, fr):
        ck = n.get("castKind")
        e = n["inner"][-1]
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "ConstructorConversion", "UserDefinedConversion"):
            return self.lvrv(e, fr)
        raise Unsupported(f"lvalue cast {ck}")

    l_ImplicitCastExpr = l_CXXStaticCastExpr = l_CStyleCastExpr = l_CXXConstCastExpr = l_CXXFunctionalCastExpr = _l_cast
    l_CXXReinterpretCastExpr = _l_cast

    def _l_call(self, n, fr):
        r = self.call(n, fr)
        if isinstance(r, (Ptr, PIte)):
            return r
        if r is None:
            raise VoidResult()
        return self.alloc(r, "res")

    l_CallExpr = l_CXXMemberCallExpr = l_CXXOperatorCallExpr = _l_call

    # -- rvalues -----------------------------------------------------------------------------
    def rv(self, n, fr):
        k = n.get("kind")
        m = getattr(self, "r_" + k, None)
        if m is None:
            raise Unsupported(f"expression {k}")
        return m(n, fr)

    def _r_inner(self, n, fr):
        return self.rvx(n["inner"][-1], fr)

    r_ParenExpr = r_ExprWithCleanups = r_CXXBindTemporaryExpr = r_MaterializeTemporaryExpr = _r_inner
    r_SubstNonTypeTemplateParmExpr = _r_inner

    def r_ConstantExpr(self, n, fr):
        return self.rvx(n["inner"][0], fr)

    def r_CXXDefaultArgExpr(self, n, fr):
        if n.get("inner"):
            return self.rvx(n["inner"][0], fr)
        raise Unsupported("default argument of a library function")

    def r_IntegerLiteral(self, n, fr):
        return iv(int(n["value"]))

    def r_CharacterLiteral(self, n, fr):
        return iv(int(n["value"]))

    def r_FloatingLiteral(self, n, fr):
        v = str(n["value"])
        f = float(v)
        if abs(f - 3.141592653589793) < 1e-6:
            return PI
        if abs(f - 6.283185307179586) < 1e-6:
            return simp(PI * 2)
        from fractions import Fraction
        fr_ = Fraction(v)
        return z3.Q(fr_.numerator, fr_.denominator)

    def r_CXXBoolLiteralExpr(self, n, fr):
        return z3.BoolVal(str(n["value"]).lower() == "true")

    def r_StringLiteral(self, n, fr):
        import json
        try:
            return Struct("str", {"n": iv(len(json.loads(n["value"]).encode()))})
        except (KeyError, ValueError):
            return Struct("str", {})

    def r_CXXNullPtrLiteralExpr(self, n, fr):
        return NULL

    r_GNUNullExpr = r_CXXNullPtrLiteralExpr

    def r_ImplicitValueInitExpr(self, n, fr):
        return self.zero(A.qt(n))

    r_CXXScalarValueInitExpr = r_ImplicitValueInitExpr

    def r_UnaryExprOrTypeTraitExpr(self, n, fr):
        t = (n.get("argType") or {}).get("qualType", "")
        c = z3.Const("sizeof", I)
        self.fact(c > 0)
        return c

    def r_CXXThisExpr(self, n, fr):
        return fr.get_this()

    def r_DeclRefExpr(self, n, fr):
        d = n.get("referencedDecl", {})
        if d.get("kind") == "EnumConstantDecl":
            for tu in self.tus:
                if d["id"] in tu.enumval:
                    return iv(tu.enumval[d["id"]])
            return z3.Const("enum:" + d.get("name", ""), I)
        if d.get("kind") in ("FunctionDecl", "CXXMethodDecl"):
            return self.fnref(d)
        return self.read(self.l_DeclRefExpr(n, fr))

    def r_MemberExpr(self, n, fr):
        return self.read(self.l_MemberExpr(n, fr))

    def r_ArraySubscriptExpr(self, n, fr):
        return self.read(self.l_ArraySubscriptExpr(n, fr))

    def r_LambdaExpr(self, n, fr):
        # captures: init expressions between the record and the body
        rec = n["inner"][0]
        fields = [c for c in rec.get("inner", []) if c.get("kind") == "FieldDecl"]
        inits = [c for c in n["inner"][1:] if c.get("kind") != "CompoundStmt"]
        copies = {}
        for f, e in zip(fields, inits):
            d = self._captured(e)
            if d is None:
                continue
            byref = A.qt(f).rstrip().endswith("&")
            p = fr.lookup(d)
            if p is None:
                continue
            if byref:
                copies[d] = p
            else:
                copies[d] = self.alloc(self.read(p), "cap")
        return Closure(n, fr, copies)

    def _captured(self, e):
        while e.get("inner") and e.get("kind") != "DeclRefExpr":
            e = e["inner"][0]
        if e.get("kind") == "DeclRefExpr":
            return e["referencedDecl"]["id"]
        return None

    def r_CXXThrowExpr(self, n, fr):
        self.set_flag(self.THROW)
        return None

    def r_ConditionalOperator(self, n, fr):
        c, a, b = n["inner"]
        cv = simp(to_bool(self.rvx(c, fr)))
        return self.ite_eval(cv, lambda: self.rvx(a, fr), lambda: self.rvx(b, fr))

    def r_UnaryOperator(self, n, fr):
        op = n["opcode"]
        e = n["inner"][0]
        if op == "&":
            x = e
            while x.get("kind") == "ParenExpr":
                x = x["inner"][0]
            if x.get("kind") == "ArraySubscriptExpr":
                # address of an element: one past the end is allowed
                a, b = x["inner"]
                q = self.padd(self.rvx(a, fr), self.rvx(b, fr))
                if self.safety and isinstance(q, Ptr) and q.path and not isinstance(q.path[-1], str):
                    try:
                        arr = self.read(Ptr(q.loc, q.path[:-1]))
                    except Unsupported:
                        arr = None
                    if isinstance(arr, Arr):
                        self.oblige(f"pointer within array in {self.cur()}", z3.And(q.path[-1] >= 0, q.path[-1] <= arr.n))
                return q
            return self.lv(e, fr)
        if op in ("++", "--"):
            p = self.incdec(n, fr, op)
            if n.get("isPostfix"):
                return self._old
            return self.read(p)
        if op == "*":
            return self.read(self.rvx(e, fr))
        v = self.rvx(e, fr)
        if v is UNDEF:
            raise Unsupported("uninitialised operand")
        if op == "!":
            return Not(to_bool(v))
        if op == "-":
            t = A.strip_cvref(A.qt(n))
            if t in INTS and not INTS[t][1]:
                return self.int_sub(iv(0), v, t)
            return simp(-(to_int(v) if v.sort() == B else v))
        if op == "+":
            return v
        if op == "~":
            t = A.strip_cvref(A.qt(n))
            if z3.is_int_value(v):
                w = INTS[t][0] if t in INTS else 32
                x = ~v.as_long()
                if t in INTS and not INTS[t][1]:
                    x &= (1 << w) - 1
                return iv(x)
        raise Unsupported(f"unary {op}")

    def r_BinaryOperator(self, n, fr):
        op = n["opcode"]
        a, b = n["inner"]
        if op == "=":
            return self.read(self.l_BinaryOperator(n, fr))
        if op == ",":
            self.rv_discard(a, fr)
            return self.rvx(b, fr)
        if op in ("&&", "||"):
            x = simp(to_bool(self.rvx(a, fr)))
            if op == "&&":
                return self.ite_eval(x, lambda: to_bool(self.rvx(b, fr)), lambda: FALSE)
            return self.ite_eval(x, lambda: TRUE, lambda: to_bool(self.rvx(b, fr)))
        x = self.rvx(a, fr)
        y = self.rvx(b, fr)
        return self.binop(op, x, y, A.qt(n), A.qt(a))

    def binop(self, op, x, y, t, ta=""):
        if x is UNDEF or y is UNDEF:
            raise Unsupported("uninitialised operand")
        if isinstance(x, (Ptr, PIte, Null)) or isinstance(y, (Ptr, PIte, Null)):
            return self.ptr_op(op, x, y)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            x, y = coerce2(x, y)
            if x.sort() == B:
                r = x == y if op == "==" else x != y
                return simp(r)
            return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
        return self.arith(op, x, y, t)

    def ptr_op(self, op, x, y):
        if op in ("==", "!="):
            r = self.ptr_eq(x, y)
            return r if op == "==" else Not(r)
        if op == "+":
            if is_z3(x):
                x, y = y, x
            return self.padd(x, y)
        if op == "-":
            if is_z3(y):
                return self.padd(x, simp(-y))
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.loc == y.loc and len(x.path) == len(y.path):
                return simp(x.path[-1] - y.path[-1])
        if op in ("<", ">", "<=", ">=") and isinstance(x, Ptr) and isinstance(y, Ptr) and x.loc == y.loc:
            return self.binop(op, x.path[-1], y.path[-1], "bool")
        raise Unsupported(f"pointer {op}")

    def ptr_eq(self, x, y):
        if isinstance(x, PIte):
            return ite(x.c, self.ptr_eq(x.a, y), self.ptr_eq(x.b, y))
        if isinstance(y, PIte):
            return self.ptr_eq(y, x)
        if isinstance(x, Null) or isinstance(y, Null):
            return z3.BoolVal(isinstance(x, Null) and isinstance(y, Null))
        if x.loc != y.loc:
            return FALSE
        if len(x.path) != len(y.path):
            return FALSE
        c = []
        for a, b in zip(x.path, y.path):
            if isinstance(a, str) or isinstance(b, str):
                if a != b:
                    return FALSE
            else:
                c.append(simp(a == b))
        return And(*c)

    def int_sub(self, x, y, t):
        t = A.strip_cvref(t)
        d = simp(x - y)
        if t in INTS and not INTS[t][1]:
            if z3.is_int_value(d):
                return iv(d.as_long() % (1 << INTS[t][0]))
            if self.quick(d >= 0):
                return d
            return z3.If(d >= 0, d, d + (1 << INTS[t][0]))
        return d

    def arith(self, op, x, y, t):
        x, y = coerce2(to_int(x) if x.sort() == B else x, to_int(y) if y.sort() == B else y)
        if op == "+":
            r = simp(x + y)
            ts = A.strip_cvref(t)
            if ts in INTS and not INTS[ts][1] and x.sort() == I:
                if z3.is_int_value(r):
                    return iv(r.as_long() % (1 << INTS[ts][0]))
                for c, o in ((x, y), (y, x)):   # adding to a negative number in two's complement
                    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE and simp(c.arg(2) - c.arg(1) - (1 << INTS[ts][0])).eq(iv(0)):
                        d = simp(c.arg(1) + o)
                        return d if self.quick(d >= 0) else z3.If(d >= 0, d, d + (1 << INTS[ts][0]))
                for c in (x, y):   # adding the two's complement of a negative number
                    if z3.is_int_value(c) and c.as_long() > (1 << (INTS[ts][0] - 1)):
                        return self.int_sub(y if c is x else x, iv((1 << INTS[ts][0]) - c.as_long()), ts)
            return r
        if op == "-":
            if x.sort() == I:
                return self.int_sub(x, y, t)
            return x - y
        if op == "*":
            return x * y
        if op == "/":
            if x.sort() == R:
                return fdiv(x, y)
            if z3.is_int_value(y) and y.as_long() == 0:
                raise Unsupported("division by zero")
            if not (z3.is_int_value(y)):
                self.oblige(f"integer divisor nonzero in {self.cur()}", y != 0)
            ts = A.strip_cvref(t)
            if (ts in INTS and not INTS[ts][1]) or self.quick(z3.And(x >= 0, y > 0)):
                return simp(x / y)
            return z3.If(x >= 0, z3.If(y > 0, x / y, -(x / -y)), z3.If(y > 0, -(-x / y), (-x) / (-y)))
        if op == "%":
            if not (z3.is_int_value(y)):
                self.oblige(f"integer divisor nonzero in {self.cur()}", y != 0)
            ts = A.strip_cvref(t)
            hint = self.dynamic.get("mod")
            if hint is not None:
                h = hint(self, x, y)
                if h is not None:
                    self.oblige(f"remainder in {self.cur()}", z3.And(h[0] >= 0, h[0] < y, Or(*[x == h[0] + q * y for q in h[1]])), "post")
                    return h[0]
            if (ts in INTS and not INTS[ts][1]) or self.quick(z3.And(x >= 0, y > 0)):
                return simp(x % y)
            return z3.If(x >= 0, x % z3.If(y > 0, y, -y), -((-x) % z3.If(y > 0, y, -y)))
        if op in ("<<", ">>"):
            if z3.is_int_value(y):
                f = 1 << y.as_long()
                return simp(x * f) if op == "<<" else simp(x / f)
            if z3.is_int_value(x) and op == "<<":
                raise Unsupported("symbolic shift")
        if op in ("&", "|", "^"):
            if z3.is_int_value(x) and z3.is_int_value(y):
                a, b = x.as_long(), y.as_long()
                return iv({"&": a & b, "|": a | b, "^": a ^ b}[op])
            if op == "&" and z3.is_int_value(y):
                m = y.as_long()
                if m & (m + 1) == 0:
                    return simp(x % (m + 1))
                if m & (m - 1) == 0 and m:   # single bit
                    return simp(((x / m) % 2) * m)
        raise Unsupported(f"arithmetic {op}")

    def r_CompoundAssignOperator(self, n, fr):
        return self.read(self.l_CompoundAssignOperator(n, fr))

    def to_integral(self, v, t):
        t = A.strip_cvref(t)
        hint = self.dynamic.get("toint")
        if hint is not None:
            # a value the contract proposes (proved here)
            n = hint(self, v)
            if n is not None:
                m = z3.ToReal(n)
                self.oblige(f"conversion to an integer in {self.cur()}", z3.And(z3.Implies(v >= 0, z3.And(m <= v, v < m + 1)), z3.Implies(v < 0, z3.And(m >= v, v > m - 1))), "post")
                if t in INTS and not INTS[t][1]:
                    self.oblige(f"non-negative float-to-unsigned conversion in {self.cur()}", n >= 0)
                return n
        if t in INTS and not INTS[t][1]:
            self.oblige(f"non-negative float-to-unsigned conversion in {self.cur()}", v > -1)
            if self.quick(v >= 0):
                return simp(z3.ToInt(v))
        elif self.quick(v >= 0):
            return simp(z3.ToInt(v))
        return simp(trunc_i(v))

    def int_cast(self, v, ft, tt):
        """integral conversion"""
        if not is_z3(v) or v.sort() == R:
            return v
        v = to_int(v)
        ft, tt = A.strip_cvref(ft), A.strip_cvref(tt)
        if tt in INTS and not INTS[tt][1] and ft in INTS:
            w = INTS[tt][0]
            if z3.is_int_value(v):
                return iv(v.as_long() % (1 << w))
            if INTS[ft][1]:
                if self.quick(v >= 0):
                    return v
                return z3.If(v >= 0, v, v + (1 << w))
        if tt in INTS and INTS[tt][1] and ft in INTS and z3.is_int_value(v):
            w = INTS[tt][0]
            x = v.as_long() % (1 << w)
            return iv(x - (1 << w) if x >= 1 << (w - 1) else x)
        if tt in INTS and INTS[tt][1] and ft in INTS and not INTS[ft][1] and INTS[tt][0] <= INTS[ft][0]:
            # unsigned wrapped negatives come back
            if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
                d = v.arg(1)
                if simp(v.arg(2) - d - (1 << INTS[ft][0])).eq(iv(0)):
                    return d
        return v

    def _r_cast(self, n, fr):
        ck = n.get("castKind")
        e = n["inner"][-1]
        t = A.qt(n)
        if ck == "LValueToRValue":
            return self.read(self.lv(e, fr))
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "ConstructorConversion",
                  "FloatingCast", "UserDefinedConversion", "BitCast", "Dependent"):
            return self.rvx(e, fr)
        if ck == "IntegralCast":
            v = self.rvx(e, fr)
            if v is UNDEF:
                return v
            return self.int_cast(v, A.qt(e), t)
        if ck == "IntegralToFloating":
            return to_real(self.rvx(e, fr))
        if ck == "FloatingToIntegral":
            return self.to_integral(self.rvx(e, fr), t)
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            return to_bool(self.rvx(e, fr))
        if ck == "BooleanToSignedIntegral":
            return to_int(self.rvx(e, fr))
        if ck == "PointerToBoolean":
            return Not(self.ptr_eq(self.rvx(e, fr), NULL))
        if ck == "NullToPointer":
            return NULL
        if ck == "ArrayToPointerDecay":
            return self.sub(self.lv(e, fr), iv(0))
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return self.rvx(e, fr) if e.get("kind") != "DeclRefExpr" else self.fnref(e["referencedDecl"])
        if ck == "ToVoid":
            self.rv_discard(e, fr)
            return None
        if ck == "IntegralRealToComplex" or ck == "FloatingRealToComplex":
            raise Unsupported("C complex")
        raise Unsupported(f"cast {ck}")

    r_ImplicitCastExpr = r_CXXStaticCastExpr = r_CStyleCastExpr = r_CXXFunctionalCastExpr = r_CXXConstCastExpr = _r_cast
    r_CXXReinterpretCastExpr = _r_cast

    def r_InitListExpr(self, n, fr):
        t = A.strip_cvref(A.qt(n))
        el = n.get("inner", [])
        if "array_filler" in n:
            el = n["array_filler"]
            el = [x for x in el if x.get("kind") != "ImplicitValueInitExpr"] or []
        b = tbase(t)
        if t.endswith("]"):
            et = t[:t.rindex("[")].strip()
            cnt = int(t[t.rindex("[") + 1:-1])
            vals = [self.init_value(et, x, fr) for x in el]
            if len(vals) < cnt:
                vals += [self.zero(et)] * (cnt - len(vals))
            return from_list(vals, et)
        if b == "array":
            et = targs(t)[0]
            cnt = int(targs(t)[1].rstrip("UL"))
            while len(el) == 1 and el[0].get("kind") == "InitListExpr" and A.strip_cvref(A.qt(el[0])).endswith("]"):
                return self.r_InitListExpr(el[0], fr)
            vals = [self.init_value(et, x, fr) for x in el]
            if len(vals) < cnt:
                vals += [self.zero(et)] * (cnt - len(vals))
            return from_list(vals, et)
        if self.sort_of(t) is not None:
            return self.rvx(el[0], fr) if el else self.zero(t)
        if t.endswith("*"):
            return self.rvx(el[0], fr) if el else NULL
        if b == "vector" and len(el) == 1 and tbase(A.strip_cvref(A.qt(el[0]))) == "vector":
            return self.rvx(el[0], fr)           # a copy of the vector
        fs = self.fields(t)
        f = {}
        for (nm, ty, d), x in zip(fs, el):
            if x.get("kind") == "CXXDefaultInitExpr":
                init = [c for c in d.get("inner", []) if c.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
                f[nm] = self.init_value(ty, init[0], fr) if init else self.zero(ty)
            else:
                f[nm] = self.init_value(ty, x, fr)
        for nm, ty, d in fs[len(el):]:
            f[nm] = self.zero(ty)
        return Struct(t, f)

    def r_CXXStdInitializerListExpr(self, n, fr):
        e = n["inner"][0]
        while e.get("kind") in ("MaterializeTemporaryExpr", "ExprWithCleanups"):
            e = e["inner"][0]
        return self.rv(e, fr)

    def r_CXXDefaultInitExpr(self, n, fr):
        if n.get("inner"):
            return self.rvx(n["inner"][0], fr)
        raise Unsupported("default member initialiser")

    def r_CXXConstructExpr(self, n, fr):
        t = A.strip_cvref(A.qt(n))
        args = [x for x in n.get("inner", []) if x.get("kind")]
        args = [x for x in args if not (x.get("kind") == "CXXDefaultArgExpr" and self.cls_node(t)[1] is None)]
        if t.endswith("]"):
            return self.default(t)
        if len(args) == 1 and A.strip_cvref(A.qt(args[0])) == t:
            ctor = self.find_ctor(t, ctortype=n["ctorType"]["qualType"])
            if ctor is None or A.body(ctor) is None or tbase(t) in self.ctor_models:
                return self.rvx(args[0], fr)     # copy / move
        b = tbase(t)
        if b in self.ctor_models:
            return self.ctor_models[b](self, t, args, n, fr)
        tu, c = self.cls_node(t)
        if c is None:
            raise Unsupported(f"construction of {t}")
        ctor = self.find_ctor(t, ctortype=n["ctorType"]["qualType"])
        if ctor is None:
            if not args:
                return self.agg_default(t, zero=bool(n.get("zeroing")))
            if len(args) == 1:
                v = self.rvx(args[0], fr)
                if isinstance(v, Struct):
                    return v
            raise Unsupported(f"constructor {n['ctorType']['qualType']} of {t}")
        a = self.eval_args(args, A.params(ctor), fr)
        tu2 = self.tu_of(ctor["id"])
        q = tu2.qual.get(ctor["id"], "")
        cc = self.contract_for(q, ctor)
        if cc is not None:
            self.assumed.add(q)
            return cc(self, a, None)
        return self.construct(t, a, ctor)

    r_CXXTemporaryObjectExpr = r_CXXConstructExpr

    def r_CXXNewExpr(self, n, fr):
        raise Unsupported("new")

    def _r_call(self, n, fr):
        r = self.call(n, fr)
        return r

    def r_CallExpr(self, n, fr):
        return self.call(n, fr)

    r_CXXMemberCallExpr = r_CXXOperatorCallExpr = r_CallExpr

    # -- calls ---------------------------------------------------------------------------------
    def call(self, n, fr):
        k = n["kind"]
        if k == "CXXMemberCallExpr":
            return self.member_call(n, fr)
        if k == "CXXOperatorCallExpr":
            return self.operator_call(n, fr)
        cal = n["inner"][0]
        args = n["inner"][1:]
        d = self._callee(cal)
        if d is None:
            f = self.rvx(cal, fr)
            return self.call_value(f, [self.rvx(a, fr) for a in args])
        if d.get("kind") in ("FunctionDecl", "CXXMethodDecl"):
            return self.call_decl(d, args, fr, n)
        p = fr.lookup(d["id"])
        if p is not None:
            return self.call_value(self.read(p), [self.rvx(a, fr) for a in args])
        raise Unsupported(f"call of {d.get('name')}")

    def _callee(self, c):
        while c.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
            c = c["inner"][0]
        if c.get("kind") == "DeclRefExpr":
            return c["referencedDecl"]
        return None

    def call_decl(self, d, args, fr, n, this=None):
        tu = self.tu_of(d["id"])
        fn = tu.definition(d["id"]) if tu else None
        if tu is None:
            return self.std_call(d.get("name"), None, args, fr, d, n)
        if fn is None:
            fn = self.other_definition(tu.decl[d["id"]])
            if fn is None:
                q = tu.qual.get(d["id"], d.get("name"))
                c = self.contract_for(q, tu.decl[d["id"]])
                if c is not None:
                    self.assumed.add(q)
                    return c(self, self.eval_args(args, A.params(tu.decl[d["id"]]), fr), this)
                raise Unsupported(f"no definition of {q}")
            tu = self.tu_of(fn["id"])
        q = tu.qual.get(fn["id"], "")
        m = self.repo_models.get(q.split("::")[-1]) if "::" in q else self.repo_models.get(q)
        a = self.eval_args(args, A.params(fn), fr)
        if m is not None:
            r = m(self, a, fn)
            if r is not NotImplemented:
                return r
        return self.call_fn(fn, tu, a, this)

    def other_definition(self, decl):
        m = decl.get("mangledName")
        if not m:
            return None
        for tu in self.tus:
            if m in tu.bymangled:
                return tu.bymangled[m]
        return None

    def member_call(self, n, fr):
        me = n["inner"][0]
        while me.get("kind") == "ParenExpr":
            me = me["inner"][0]
        if me.get("kind") != "MemberExpr":
            raise Unsupported("member call through " + me.get("kind"))
        args = n["inner"][1:]
        o = me["inner"][0]
        nm = me.get("name")
        p = self.rvx(o, fr) if me.get("isArrow") else self.lvrv(o, fr)
        return self.invoke(p, nm, me.get("referencedMemberDecl"), args, fr, n, A.qt(o), self._qualified(me, o))

    def _qualified(self, me, o):
        """Base::f() on the implicit object: a qualified call is not virtual (the
        dump has no qualifier, but the expression then starts before the name)"""
        while o.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
            o = o["inner"][0]
        if o.get("kind") != "CXXThisExpr" or not o.get("implicit"):
            return False
        r = me.get("range", {})
        b, e = r.get("begin", {}), r.get("end", {})
        return "offset" in b and "offset" in e and b["offset"] != e["offset"]

    def invoke(self, p, nm, mid, args, fr, n, otype, qualified=False):
        tu = self.tu_of(mid)
        ot = A.strip_cvref(otype)
        if ot.endswith("*"):
            ot = A.strip_cvref(ot[:-1])
        if tu is None:
            return self.std_method(p, ot, nm, args, fr, n)
        decl = tu.decl[mid]
        if isinstance(p, PIte):
            return self.ite_eval(p.c, lambda: self.invoke(p.a, nm, mid, args, fr, n, otype, qualified),
                                 lambda: self.invoke(p.b, nm, mid, args, fr, n, otype, qualified))
        if isinstance(p, Null):
            raise Unsupported(f"null object in call of {nm}")
        if decl.get("storageClass") == "static":
            return self.call_decl(decl, args, fr, n)
        obj = self.read(p)
        cls = obj.cls if isinstance(obj, Struct) else None
        mm = self.method_models.get((tbase(cls), nm)) if cls else None
        if mm is None and cls:
            mm = self.method_models.get((tbase(ot), nm))
        if mm is not None:
            r = mm(self, p, args, fr, n)
            if r is not NotImplemented:
                return r
        fn = None
        if not qualified and (decl.get("virtual") or self._overrides(decl)):
            fn = self.virtual(cls, decl)
        if fn is None:
            fn = tu.definition(mid) or self.other_definition(decl)
        if fn is None:
            q = tu.qual.get(mid, nm)
            c = self.contract_for(q, decl)
            if c is not None:
                self.assumed.add(q)
                return c(self, self.eval_args(args, A.params(decl), fr), p)
            raise Unsupported(f"no definition of {q} (object {cls})")
        a = self.eval_args(args, A.params(fn), fr)
        return self.call_fn(fn, self.tu_of(fn["id"]), a, this=p)

    def _overrides(self, decl):
        return any(c.get("kind") in ("OverrideAttr", "FinalAttr") for c in decl.get("inner", []))

    def virtual(self, cls, decl):
        tu, c = self.cls_node(cls)
        while c is not None:
            for m in c.get("inner", []):
                if m.get("kind") == "CXXMethodDecl" and m.get("name") == decl.get("name") and \
                        len(A.params(m)) == len(A.params(decl)):
                    if A.norm_type(m["type"]["qualType"]).split("(")[1] != A.norm_type(decl["type"]["qualType"]).split("(")[1]:
                        continue
                    d = tu.definition(m["id"]) or self.other_definition(m)
                    if d is not None:
                        return d
            bs = self.bases(c)
            nxt = None
            for b in bs:
                t2, c2 = self.cls_node(b)
                if c2 is not None:
                    nxt = (t2, c2)
                    break
            if nxt is None:
                return None
            tu, c = nxt
        return None

    def operator_call(self, n, fr):
        d = self._callee(n["inner"][0])
        args = n["inner"][1:]
        if d is None:
            raise Unsupported("operator call")
        nm = d.get("name")
        tu = self.tu_of(d["id"])
        if tu is not None:
            if d.get("kind") == "CXXMethodDecl":
                # lambda call operators are found through the closure value
                p = self.lvrv(args[0], fr)
                obj = self.read(p)
                if isinstance(obj, (Closure, PyFn)):
                    op = tu.decl[d["id"]]
                    a = self.eval_args(args[1:], A.params(op), fr)
                    if isinstance(obj, Closure):
                        return self.call_closure_op(obj, op, a)
                    return obj.fn(self, a)
                return self.invoke(p, nm, d["id"], args[1:], fr, n, A.qt(args[0]))
            return self.call_decl(d, args, fr, n)
        # library operator
        return self.std_operator(nm, args, fr, n, d)

    def call_closure_op(self, obj, op, a):
        own = self.lambda_op(obj.node, a)
        if A.body(own) is None:
            own = op
        return self.call_value(obj, a)

    def std_operator(self, nm, args, fr, n, d):
        from . import models
        return models.std_operator(self, nm, args, fr, n, d)

    def std_method(self, p, ot, nm, args, fr, n):
        from . import models
        return models.std_method(self, p, ot, nm, args, fr, n)

    def std_call(self, nm, vals, args, fr, d, n=None):
        from . import models
        return models.std_call(self, nm, vals, args, fr, d, n)

    # -- contract-side helpers -----------------------------------------------------------------
    def new(self, cls, *args, nparams=None, typ=None):
        """Construct an object with its real constructor."""
        tu, c = self.cls_node(cls)
        if c is None:
            raise Unsupported(f"class {cls} not found")
        name = c.get("name")
        best = None
        for m in c.get("inner", []):
            if m.get("kind") == "CXXConstructorDecl" and not m.get("isImplicit"):
                ps = A.params(m)
                req = [p for p in ps if not self._has_default(p)]
                if typ is not None and typ not in A.norm_type(m["type"]["qualType"]):
                    continue
                if nparams is not None and len(ps) != nparams:
                    continue
                if len(req) <= len(args) <= len(ps) and (typ is not None or not self._is_copy(m, cls)):
                    best = tu.definition(m["id"]) or m
                    break
        if best is None:
            raise Unsupported(f"no constructor of {cls} for {len(args)} arguments")
        if A.body(best) is None:
            raise Unsupported(f"constructor of {cls} has no instantiated body")
        a = [self.py(x) for x in args]
        v = self.construct(cls, a, best)
        return self.alloc(v, cls)

    def rd(self, v):
        """value of an argument that may have been bound by reference"""
        return self.read(v) if isinstance(v, (Ptr, PIte)) else v

    def py(self, x):
        if isinstance(x, bool):
            return z3.BoolVal(x)
        if isinstance(x, int):
            return iv(x)
        if isinstance(x, float):
            return rv(x)
        return x

    def method(self, obj, name, *args, nparams=None, typ=None):
        """Call a method by name on an object (virtual dispatch on its class)."""
        v = self.read(obj)
        tu, c = self.cls_node(v.cls)
        a = [self.py(x) for x in args]
        while c is not None:
            for m in c.get("inner", []):
                ms = [m]
                if m.get("kind") == "FunctionTemplateDecl":
                    ms = [x for x in m.get("inner", []) if x.get("kind") == "CXXMethodDecl"][1:]
                for m in ms:
                    if m.get("kind") == "CXXMethodDecl" and m.get("name") == name:
                        ps = A.params(m)
                        req = [p for p in ps if not self._has_default(p)]
                        if nparams is not None and len(ps) != nparams:
                            continue
                        if typ is not None and typ not in A.norm_type(m["type"]["qualType"]):
                            continue
                        if not (len(req) <= len(a) <= len(ps)):
                            continue
                        d = tu.definition(m["id"]) or self.other_definition(m)
                        if d is None:
                            continue
                        return self.call_fn(d, self.tu_of(d["id"]), a, this=obj)
            bs = self.bases(c)
            tu, c = self.cls_node(bs[0]) if bs else (None, None)
        raise Unsupported(f"method {name} of {v.cls} not found")

    def func(self, qual, *args, nparams=None, typ=None):
        for tu in self.tus:
            fs = tu.find(qual, nparams, typ)
            fs = [f for f in fs if "type-parameter" not in f["type"]["qualType"]]
            fs = [f for f in fs if len(A.params(f)) >= len(args)] or fs
            if fs:
                return self.call_fn(fs[-1], tu, [self.py(a) for a in args])
        raise Unsupported(f"function {qual} not found")


class VoidResult(Exception):
    pass


class _Default:
    pass


DEFAULT = _Default()


class _NullDeref(Null):
    pass


NULLDEREF = _NullDeref()
