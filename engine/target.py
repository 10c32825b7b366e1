"""A target = one real function under contract."""
import os, sys, time, traceback
sys.path.insert(0, os.path.dirname(__file__))
import cxxast, translate, models, theory, prove
from translate import Translator, Unsupported

_ASTS = {}


def get_ast(tus):
    key = tuple(tus)
    if key not in _ASTS:
        _ASTS[key] = cxxast.Ast(list(tus))
    return _ASTS[key]


def find_fn(ast, spec):
    c = ast.find(spec["qname"], match=spec.get("match"))
    if not c:
        raise Unsupported("function %s not found in the current source" % spec["qname"])
    # instantiations, not template patterns
    if any(f.mangled for f in c):
        c = [f for f in c if f.mangled]
    # prefer definitions inside the class/namespace with identical mangled names only once
    seen = {}
    for f in c:
        seen.setdefault(f.mangled or id(f), f)
    c = list(seen.values())
    if len(c) > 1 and not spec.get("first"):
        raise Unsupported("%s is ambiguous (%d candidates: %s)" % (spec["qname"], len(c), "; ".join(f.type for f in c[:6])))
    fn = c[0]
    if spec.get("lambda"):
        # the k-th lambda of the function as a target of its own
        ls = lambdas(fn.node)
        if len(ls) < spec["lambda"]:
            raise Unsupported("%s has only %d lambdas" % (spec["qname"], len(ls)))
        rec = next(x for x in ls[spec["lambda"] - 1].get("inner", []) if x.get("kind") == "CXXRecordDecl")
        ms = []
        for x in rec.get("inner", []):
            for m in ([x] if x.get("kind") == "CXXMethodDecl" else x.get("inner", []) if x.get("kind") == "FunctionTemplateDecl" else []):
                if m.get("name") == "operator()" and any(y.get("kind") == "CompoundStmt" for y in m.get("inner", [])) and not any("auto" in y.get("type", {}).get("qualType", "") for y in m.get("inner", []) if y.get("kind") == "ParmVarDecl"):
                    ms.append(m)
        ms = [m for m in ms if not spec.get("lambda_match") or spec["lambda_match"](m.get("type", {}).get("qualType", ""))]
        if not ms:
            raise Unsupported("lambda %d of %s has no matching body" % (spec["lambda"], spec["qname"]))
        return cxxast.Fn(ms[0], fn.qname + "::lambda", None, None)
    return fn


def lambdas(node):
    out = []
    def walk(o):
        if not isinstance(o, dict):
            return
        if o.get("kind") == "LambdaExpr":
            out.append(o)
            # the closure class repeats the body: look into the first body only
            kids = [x for x in o.get("inner", []) if x.get("kind") != "CXXRecordDecl"]
        else:
            kids = o.get("inner", [])
        for x in kids:
            walk(x)
    walk(node)
    return out


def extract(ast, spec):
    """-> (mlw text, translator)"""
    fn = find_fn(ast, spec)
    ren = {}
    for attempt in range(2):
        sp = dict(spec)
        sp["_rename"] = ren
        tr = Translator(ast, sp, contracts=spec.get("contracts"), models=models.Models(spec.get("models")))
        tr.lambda_no = {id(x): k + 1 for k, x in enumerate(lambdas(fn.node))} if spec.get("lambda_pure") else {}
        for ty in spec.get("use_types", []):
            tr.reg(ty) if ty.k != "rec" else None
        for q in spec.get("use_type_names", []):
            tr.ty_str(q)
        body = tr.function(fn)
        base = spec.get("locals")
        if base is None or attempt:
            break
        ren = rename_map(base, tr.locals_log)
        if not ren:
            break
    mod = "module M\n" + theory.emit(tr)
    mod += spec.get("prelude", "") + "\n"
    for v in tr.vals.values():
        mod += v + "\n"
    mod += body + "\nend\n"
    return mod, tr


def rename_map(base, cur):
    """baseline local names -> current local names, when only names changed.  base/cur: list of (name, type)"""
    bn = [b[0] for b in base]
    cn = [c[0] for c in cur]
    if bn == cn:
        return {}
    # only when nothing but the names differs
    if len(base) != len(cur) or any(tclass(b[1]) != tclass(c[1]) for b, c in zip(base, cur)):
        return {}
    ren = {}
    for b, c in zip(bn, cn):
        if b != c and ren.setdefault(c, b) != b:
            return {}
    return {c: b for c, b in ren.items() if c not in bn} if not any(c in bn for c in ren) else {}


def tclass(t):
    t = t.replace("const", "").replace("&", "").replace("std::", "").strip()
    for a in ("size_t", "unsigned long", "ptrdiff_t", "long", "int", "unsigned int", "T", "range-index", "IntType"):
        if t == a:
            return "int"
    return t
