"""Extraction: clang's typed AST of /repo's current headers, indexed for the symbolic executor.

Nothing is rewritten or dropped here: the executor walks exactly the nodes clang produced for the
functions with a body.  Templates are read at the instantiations made by probe.cpp.
"""
import json, os, re, subprocess, hashlib

CLANG = os.environ.get("VP_CLANG", "/usr/bin/clang++-18")
KEEP_KINDS = None


class AstError(Exception):
    pass


def dump(repo, probe, defs=()):
    cmd = [CLANG, "-std=c++20", "-fsyntax-only", "-w", "-Wno-c++11-narrowing",
           "-I", os.path.join(repo, "sources"),
           "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=pyincpp", probe] + list(defs)
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=120)
    if r.returncode != 0:
        raise AstError("clang failed: " + r.stderr[:2000])
    return r.stdout


class Ast:
    def __init__(self, text):
        dec = json.JSONDecoder()
        i, tops, n = 0, [], len(text)
        while True:
            while i < n and text[i] in " \n\r\t":
                i += 1
            if i >= n:
                break
            if text[i] != "{":
                i = text.index("\n", i)
                continue
            o, i = dec.raw_decode(text, i)
            tops.append(o)
        self.byid = {}       # id -> decl node
        self.parent_cls = {}  # decl id -> class node
        self.funcs = []      # function nodes with a body
        self.classes = {}    # class name -> list of record nodes
        self._file = None
        self._line = None
        self.prevdecl = {}
        for t in tops:
            self._walk(t, None, False)

    def _loc(self, l):
        if not isinstance(l, dict):
            return
        for k in ("spellingLoc", "expansionLoc"):
            if k in l:
                self._loc(l[k])
        if "file" in l:
            self._file = l["file"]
        if "line" in l:
            self._line = l["line"]

    def _walk(self, n, cls, dependent):
        k = n.get("kind")
        if "loc" in n:
            self._loc(n["loc"])
        r = n.get("range")
        if r:
            self._loc(r.get("begin", {}))
            n["_line"] = self._line
            n["_file"] = self._file
            b = r.get("begin", {})
            self._loc(r.get("end", {}))
        else:
            n["_line"] = self._line
        if k and k.endswith("Decl") and "id" in n:
            old = self.byid.get(n["id"])
            if old is None or self._hasbody(n) or not self._hasbody(old):
                self.byid[n["id"]] = n
            if "previousDecl" in n:
                self.prevdecl[n["id"]] = n["previousDecl"]
            n["_cls"] = cls
            if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl", "CXXDestructorDecl"):
                n["_dependent"] = dependent
                if self._hasbody(n):
                    self.funcs.append(n)
            if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl") and n.get("inner"):
                self.classes.setdefault(n.get("name"), []).append(n)
        c2, dep2 = cls, dependent
        if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl"):
            c2 = n
        inner = n.get("inner") or []
        if k in ("ClassTemplateDecl", "FunctionTemplateDecl"):
            first = True
            for c in inner:
                if not c:
                    continue
                ck = c.get("kind")
                pattern = first and ck in ("CXXRecordDecl", "FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl")
                if pattern:
                    first = False
                self._walk(c, cls, dependent or pattern)
            return
        if k == "ClassTemplatePartialSpecializationDecl":
            dep2 = True
        if k == "ClassTemplateSpecializationDecl":
            dep2 = False
        for c in inner:
            if c:
                self._walk(c, c2, dep2)

    @staticmethod
    def _hasbody(n):
        for c in n.get("inner") or []:
            if c and c.get("kind") in ("CompoundStmt", "CXXTryStmt"):
                return True
        return False

    @staticmethod
    def body(n):
        for c in n.get("inner") or []:
            if c and c.get("kind") in ("CompoundStmt",):
                return c
        return None

    @staticmethod
    def params(n):
        return [c for c in n.get("inner") or [] if c and c.get("kind") == "ParmVarDecl"]

    def find(self, cls, name, nparams=None, sig=None, targs=None):
        """Non-dependent functions called `name` in class `cls` (None = namespace scope)."""
        res = []
        seen = set()
        for f in self.funcs:
            if f.get("name") != name or f.get("_dependent") or f["id"] in seen:
                continue
            c = f.get("_cls")
            cn = c.get("name") if c else None
            if cn != cls:
                # friends are lexically inside the class
                continue
            if nparams is not None and len(self.params(f)) != nparams:
                continue
            if sig is not None and sig not in fsig(f):
                continue
            seen.add(f["id"])
            res.append(f)
        return res

    def resolve(self, declid):
        """Definition node for a referenced declaration id, or None if it is not in the dump."""
        n = self.byid.get(declid)
        return n


def qt(n):
    t = n.get("type") or {}
    return t.get("desugaredQualType") or t.get("qualType") or ""


def fsig(f):
    return (f.get("type") or {}).get("qualType", "")


def fname(f):
    c = f.get("_cls")
    cn = (c.get("name") + "::") if c and c.get("name") else ""
    return cn + f.get("name", "?")


def strip(t):
    """Normalises a type string: no cv, no reference."""
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for p in ("const ", "volatile ", "static ", "constexpr ", "struct ", "class "):
            if t.startswith(p):
                t = t[len(p):]
                ch = True
        for s in ("&&", "&", " const"):
            if t.endswith(s):
                t = t[:-len(s)].strip()
                ch = True
    return t


def is_ref(t):
    return t.rstrip().endswith("&")


def is_const_ref(t):
    t = t.strip()
    return t.endswith("&") and not t.endswith("&&") and t.startswith("const ")
