"""Loads the clang AST (JSON) of real /repo sources and indexes the gapp declarations in it."""
import json, os, re, subprocess, sys, hashlib

CLANG = "clang++-18"
REPO = os.environ.get("GAPP_REPO", "/repo")
FLAGS = ["-std=c++20", "-I" + REPO + "/src"]


def dump(tu, filt="gapp", extra=()):
    cmd = [CLANG, *FLAGS, *extra, "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json",
           "-Xclang", "-ast-dump-filter=" + filt, tu]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise RuntimeError("clang could not parse %s:\n%s" % (tu, p.stderr[-3000:]))
    s = p.stdout
    dec = json.JSONDecoder()
    i, n, out = 0, len(s), []
    ws = " \n\r\t"
    while True:
        while i < n and s[i] in ws:
            i += 1
        if i >= n:
            break
        o, i = dec.raw_decode(s, i)
        out.append(o)
    return out


SCOPES = ("NamespaceDecl", "CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplateDecl",
          "ClassTemplatePartialSpecializationDecl", "FunctionTemplateDecl", "LinkageSpecDecl",
          "FriendDecl", "ExportDecl")
FUNCS = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl", "CXXDestructorDecl")


class Fn:
    __slots__ = ("node", "qname", "cls", "line", "mangled", "template")

    def __init__(self, node, qname, cls, template):
        self.node, self.qname, self.cls, self.template = node, qname, cls, template
        self.mangled = node.get("mangledName", "")

    @property
    def body(self):
        for c in self.node.get("inner", []):
            if c.get("kind") == "CompoundStmt":
                return c
        return None

    @property
    def params(self):
        return [c for c in self.node.get("inner", []) if c.get("kind") == "ParmVarDecl"]

    @property
    def inits(self):
        return [c for c in self.node.get("inner", []) if c.get("kind") == "CXXCtorInitializer"]

    @property
    def type(self):
        return self.node.get("type", {}).get("qualType", "")

    def ret_type(self):
        t = self.node.get("type", {})
        q = t.get("qualType", "")
        return ret_of(q)


def ret_of(q):
    # "R (args) const noexcept"
    if "->" in q and q.startswith("auto"):
        return q.rsplit("->", 1)[1].strip()
    d = 0
    for i, ch in enumerate(q):
        if ch in "<[":
            d += 1
        elif ch in ">]":
            d -= 1
        elif ch == "(" and d == 0:
            return q[:i].strip()
    return q


class Ast:
    def __init__(self, tus):
        self.fns = {}       # id -> Fn
        self.by_name = {}   # qname -> [Fn]
        self.vars = {}      # id -> VarDecl node (namespace/static scope)
        self.fields = {}    # id -> (FieldDecl node, class node)
        self.records = {}   # id -> (node, qname)
        self.rec_by_name = {}
        self.aliases = {}
        self.enum_consts = {}   # id of EnumConstantDecl -> value
        for tu in tus:
            filt = "gapp"
            extra = ()
            if isinstance(tu, tuple):
                tu, filt = tu[0], tu[1]
            for top in dump(tu, filt, extra):
                self._walk(top, [], None, None)
        self.prev = {}

    def _walk(self, o, scope, cls, tmpl):
        k = o.get("kind")
        if k in SCOPES:
            nm = o.get("name")
            sc = scope
            if k in ("NamespaceDecl", "CXXRecordDecl", "ClassTemplateSpecializationDecl",
                     "ClassTemplatePartialSpecializationDecl") and nm:
                # explicit parentDeclContextId ignored: dumps are nested
                sc = scope + [nm]
                if o.get("parentDeclContextId") in self.records and k == "CXXRecordDecl":   # a nested class defined outside of its class
                    sc = [self.records[o["parentDeclContextId"]][1], nm]
            c2 = cls
            if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl"):
                c2 = o
                qn = "::".join(sc)
                self.records[o.get("id")] = (o, qn)
                if o.get("completeDefinition"):
                    self.rec_by_name.setdefault(qn, []).append(o)
            for ch in o.get("inner", []):
                self._walk(ch, sc, c2, o if k in ("FunctionTemplateDecl", "ClassTemplateDecl") else None)
        elif k in FUNCS:
            pd = o.get("parentDeclContextId")
            if pd in self.records and cls is None:
                cls, cq = self.records[pd]
                qn = cq + "::" + o.get("name", "")
            else:
                qn = "::".join(scope + [o.get("name", "")])
            f = Fn(o, qn, cls, tmpl)
            old = self.fns.get(o["id"])
            if old is not None and (old.body is not None or f.body is None):
                return
            self.fns[o["id"]] = f
            self.by_name.setdefault(qn, []).append(f)
            # local classes are not indexed
        elif k in ("VarDecl", "VarTemplateSpecializationDecl"):
            self.vars[o["id"]] = o
        elif k == "VarTemplateDecl":
            for ch in o.get("inner", []):
                self._walk(ch, scope, cls, o)
        elif k == "FieldDecl":
            self.fields[o["id"]] = (o, cls)
        elif k == "EnumDecl":
            v = -1
            for c in o.get("inner", []):
                if c.get("kind") == "EnumConstantDecl":
                    ini = next((x for x in c.get("inner", []) if x.get("kind") in ("ConstantExpr", "IntegerLiteral")), None)
                    v = (int(ini["value"]) if str(ini["value"]).lstrip("-").isdigit() else {"true": 1, "false": 0}.get(str(ini["value"]), v + 1)) if ini is not None and "value" in ini else v + 1
                    self.enum_consts[c["id"]] = v

    def find(self, qname, *, with_body=True, match=None):
        res = []
        for f in self.by_name.get(qname, []):
            if with_body and f.body is None:
                continue
            if match and not match(f):
                continue
            res.append(f)
        return res

    def definition_of(self, fn):
        """declaration -> definition (same mangled name)"""
        if fn.body is not None:
            return fn
        if fn.mangled:
            if not hasattr(self, "_bymang"):
                self._bymang = {}
                for f in self.fns.values():
                    if f.body is not None and f.mangled:
                        self._bymang.setdefault(f.mangled, f)
            g = self._bymang.get(fn.mangled)
            if g is not None:
                return g
        return fn
