"""Mechanical extraction of the C++ AST of /repo's current sources.

clang-18 parses the real translation unit (the real headers, the real standard
library) and dumps its JSON AST; this module keeps the top-level declarations
whose source file lies in the repository and indexes them.  Nothing is
rewritten: what is dropped is (a) declarations of the standard library, TBB and
other system headers (they are modelled by contract in vc/models.py) and
(b) comments and macro spelling.
"""
import json
import os
import re
import subprocess

REPO = os.environ.get("VERIF_REPO", "/repo")
SUBDIRS = ["box", "cluster", "density", "diffraction", "environment", "locality",
           "order", "parallel", "pmft", "util"]
_FILE = re.compile(rb',\n\s*"file": "([^"]*)"')
_TOP = re.compile(rb'\n    \{\n')


def clang_args(repo):
    a = ["clang++-18", "-std=gnu++17", "-fsyntax-only", "-w"]
    for s in SUBDIRS:
        a.append(f"-I{repo}/freud/{s}")
    a += ["-isystem", f"{repo}/extern"]
    return a


class AstError(Exception):
    pass


def _dump(path, repo, extra=()):
    if b"__clang__" in open(path, "rb").read():
        extra = list(extra) + ["-include", os.path.join(os.path.dirname(os.path.abspath(__file__)), "prelude.h")]
    cmd = clang_args(repo) + list(extra) + ["-Xclang", "-ast-dump=json", path]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    keep = []
    last = b""
    buf = b""
    prefixes = tuple((repo + s).encode() for s in ("/freud/", "/extern/dset"))
    extra_ok = path.encode()
    started = False

    def handle(node):
        nonlocal last
        head_end = node.find(b'"range": {')
        head = node[: head_end if head_end > 0 else 600]
        m = _FILE.findall(head)
        f = m[-1] if m else last
        ms = node.rfind(b'"file": "')
        if ms >= 0:
            allm = _FILE.findall(node)
            if allm:
                last = allm[-1]
        if f.startswith(prefixes) or f == extra_ok:
            keep.append((f.decode(), node))

    while True:
        chunk = p.stdout.read(1 << 24)
        if not chunk:
            break
        buf += chunk
        parts = _TOP.split(buf)
        if not started:
            parts = parts[1:]
            if len(parts) < 1:
                continue
            started = True
            buf = b"\n    {\n" + parts[-1]
            for q in parts[:-1]:
                handle(q)
            continue
        # parts[0] is what precedes the first delimiter (empty, since buf starts with one)
        for q in parts[1:-1]:
            handle(q)
        buf = b"\n    {\n" + parts[-1]
    err = p.stderr.read().decode(errors="replace")
    p.wait()
    if buf:
        tail = buf[len(b"\n    {\n"):]
        i = tail.rfind(b"\n  ]\n}")
        handle(tail[:i] if i >= 0 else tail)
    if p.returncode != 0:
        raise AstError(f"clang failed on {path}:\n{err[:2000]}")
    out = []
    for f, node in keep:
        t = b"{\n" + node.rstrip()
        if t.endswith(b","):
            t = t[:-1]
        out.append((f, json.loads(t)))
    return out


class TU:
    """One translation unit: declarations of the repository, indexed."""

    def __init__(self, path, repo=REPO, extra=()):
        self.path = path
        self.tops = _dump(path, repo, extra)
        self.decl = {}       # id -> node
        self.bymangled = {}  # mangled -> definition node
        self.classes = {}    # normalised class key -> definition node
        self.qual = {}       # id -> qualified name
        self.parent = {}     # id -> parent class node
        self.enumval = {}
        self.funcs = {}      # qualified name -> [definition nodes]
        for f, n in self.tops:
            self._walk(n, (), None)

    def _walk(self, n, ns, cls):
        k = n.get("kind", "")
        name = n.get("name", "")
        i = n.get("id")
        sub_ns, sub_cls = ns, cls
        if k.endswith("Decl") and i and self.decl.get(i, {}).get("_hasbody") and \
                not any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in n.get("inner", [])):
            return           # another mention of a function already seen with its body
        if k.endswith("Decl") and i:
            self.decl[i] = n
            if cls is not None:
                self.parent[i] = cls
            self.qual[i] = "::".join(ns + (name,)) if name else "::".join(ns)
            if k == "NamespaceDecl":
                sub_ns = ns + ((name,) if name else ())
            elif k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl",
                       "ClassTemplatePartialSpecializationDecl"):
                key = name
                if k == "ClassTemplateSpecializationDecl":
                    args = []
                    for c in n.get("inner", []):
                        if c.get("kind") == "TemplateArgument":
                            t = c.get("type", {}).get("qualType")
                            if t is None and "value" in c:
                                t = str(c["value"])
                            args.append(norm_type(t or "?"))
                    key = f"{name}<{', '.join(args)}>"
                n["_key"] = key
                n["_ns"] = ns
                sub_ns = ns + (key,)
                sub_cls = n
                if n.get("completeDefinition") or n.get("definitionData") is not None:
                    if name:
                        self.classes.setdefault(key, n)
                        if any(c.get("kind") in ("FieldDecl", "CXXMethodDecl") for c in n.get("inner", [])):
                            self.classes[key] = n
                            if cls is not None and cls.get("_key"):
                                self.classes[cls["_key"] + "::" + key] = n
                if not name:
                    sub_ns = ns
            elif k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl",
                       "CXXDestructorDecl", "CXXConversionDecl"):
                if cls is None and n.get("parentDeclContextId"):
                    pc = self.decl.get(n["parentDeclContextId"])
                    if pc is not None and pc.get("kind", "").endswith(("RecordDecl", "SpecializationDecl")):
                        cls = pc
                        self.parent[i] = cls
                        key = pc.get("_key", pc.get("name", ""))
                        self.qual[i] = "::".join(tuple(pc.get("_ns", ())) + (key, name))
                n["_cls"] = cls
                body = any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in n.get("inner", []))
                n["_hasbody"] = body
                if body:
                    m = n.get("mangledName")
                    if m:
                        self.bymangled.setdefault(m, n)
                    self.funcs.setdefault(self.qual[i], []).append(n)
            elif k == "EnumDecl":
                v = 0
                for c in n.get("inner", []):
                    if c.get("kind") == "EnumConstantDecl":
                        val = _first_value(c)
                        if val is not None:
                            v = int(val)
                        self.enumval[c["id"]] = v
                        v += 1
        if k == "FunctionTemplateDecl":
            for c in n.get("inner", []):
                if c.get("kind") in ("FunctionDecl", "CXXMethodDecl"):
                    c["_pattern"] = True
                    break
        for c in n.get("inner", []):
            if isinstance(c, dict) and c.get("kind"):
                self._walk(c, sub_ns, sub_cls)

    def definition(self, declid):
        n = self.decl.get(declid)
        if n is None:
            return None
        if n.get("_hasbody"):
            return n
        m = n.get("mangledName")
        if m and m in self.bymangled:
            return self.bymangled[m]
        return None

    def find(self, qual, nparams=None, typ=None):
        """All definitions whose qualified name ends with `qual`."""
        out = []
        for q, ns in self.funcs.items():
            if q == qual or q.endswith("::" + qual):
                for n in ns:
                    if nparams is not None and len(params(n)) != nparams:
                        continue
                    if typ is not None and typ not in n["type"]["qualType"]:
                        continue
                    out.append(n)
        # an instantiation is preferred over its (dependent) pattern
        return [n for n in out if not n.get("_pattern")] or out


def _first_value(n):
    if "value" in n:
        return n["value"]
    for c in n.get("inner", []):
        v = _first_value(c)
        if v is not None:
            return v
    return None


def params(fn):
    return [c for c in fn.get("inner", []) if c.get("kind") == "ParmVarDecl"]


def body(fn):
    for c in fn.get("inner", []):
        if c.get("kind") in ("CompoundStmt", "CXXTryStmt"):
            return c
    return None


_NS = re.compile(r"\b(?:freud|box|util|locality|density|cluster|order|pmft|environment|diffraction|std|__cxx11|tbb|detail|d1|constants)::")


def norm_type(t):
    t = t.replace("class ", "").replace("struct ", "").replace("enum ", "")
    t = t.replace("(anonymous namespace)::", "")
    for _ in range(4):
        t2 = _NS.sub("", t)
        if t2 == t:
            break
        t = t2
    t = re.sub(r"\s+", " ", t).strip()
    t = t.replace("> >", ">>").replace(" *", "*").replace(" &", "&")
    return t


def strip_cvref(t):
    t = norm_type(t)
    while True:
        o = t
        t = re.sub(r"^(const|volatile|mutable|constexpr)\s+", "", t)
        t = re.sub(r"(&&|&|\bconst)$", "", t).strip()
        if t == o:
            return t


def qt(n):
    ty = n.get("type", {})
    return ty.get("desugaredQualType") or ty.get("qualType") or ""


def pretty(n, ind=0, maxd=30):
    s = "  " * ind + n.get("kind", "?")
    for k in ("name", "opcode", "castKind", "value", "valueCategory", "ctorType"):
        if k in n:
            v = n[k]
            s += f" {k}={v if not isinstance(v, dict) else v.get('qualType')}"
    if "type" in n:
        s += f" : {n['type'].get('qualType')}" + (f" // {n['type']['desugaredQualType']}" if 'desugaredQualType' in n['type'] else "")
    if "referencedDecl" in n:
        r = n["referencedDecl"]
        s += f" -> {r.get('kind')} {r.get('name')} {r.get('id')}"
    if "referencedMemberDecl" in n:
        s += f" -> member {n['referencedMemberDecl']}"
    if "anyInit" in n:
        s += f" init {n['anyInit'].get('name')}"
    if "baseInit" in n:
        s += f" base {n['baseInit']}"
    out = [s]
    if ind < maxd:
        for c in n.get("inner", []):
            if isinstance(c, dict) and c:
                out.append(pretty(c, ind + 1, maxd))
    return "\n".join(out)
