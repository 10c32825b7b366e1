"""Shared contract fragments."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from ctypes_ import Ty, SZ, PD, BOOL, DBL, VOID
from translate import T, L, It, Tup, Obj, UNIT, par, sfx, Unsupported, wty
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def drv(n):
    return os.path.join(HERE, "driver", n)


INT = Ty("int", True, 32)
SEQI = Ty("seq", SZ)
SEQD = Ty("seq", DBL)
SEQB = Ty("seq", BOOL)

# ---------------------------------------------------------------- prelude fragments (parametrised by sequence suffix)
PERM = """
predicate inj_@ (s: seq_@) = forall i j. 0 <= i < j < len_@ s -> get_@ s i <> get_@ s j
predicate inrange (s: seq_i) (n: int) = forall i. 0 <= i < len_i s -> 0 <= get_i s i < n
(* permutation of 0..len-1 *)
predicate perm (s: seq_i) = inj_i s /\\ inrange s (len_i s)
predicate mem_@ (s: seq_@) (v: $) = exists i. 0 <= i < len_@ s /\\ get_@ s i = v
"""
PERM_I = PERM.replace("@", "i").replace("$", "int")


# ---------------------------------------------------------------- contracts of the random number layer (discharged by C06)
def c_randomInt(tr, obj, vs, n):
    lb, ub = tr.snap(vs[0]), tr.snap(vs[1])
    tr.check("precondition of randomInt: lbound <= ubound", "%s <= %s" % (tr.term(lb), tr.term(ub)))
    ty = lb.ty if lb.ty.k == "int" else ub.ty
    r = tr.any(ty)
    tr.assume("%s <= %s <= %s" % (tr.term(lb), r, tr.term(ub)))
    return T(r, ty)


def c_randomReal(tr, obj, vs, n):
    r = tr.any(DBL)
    if vs:
        a, b = tr.term(vs[0]), tr.term(vs[1])
        tr.check("precondition of randomReal: lbound <= ubound", "d_le %s %s" % (par(a), par(b)))
        tr.assume("d_is_num %s -> (d_rk %s <= d_rk %s <= d_rk %s)" % (r, par(a), r, par(b)))
        tr.assume("d_is_num %s -> d_is_num %s -> d_finite (d_sub %s %s) -> d_is_num %s" % (par(a), par(b), par(b), par(a), r))
    else:
        tr.assume("d_finite %s /\\ d_rk d_zero <= d_rk %s /\\ d_rk %s < d_rk (d_of_int 1)" % (r, r, r))
    return T(r, DBL)


def c_randomBool(tr, obj, vs, n):
    return T(tr.any(BOOL), BOOL)


def c_randomNormal(tr, obj, vs, n):
    r = tr.any(DBL)
    if vs:
        m, sd = tr.term(vs[0]), tr.term(vs[1])
        tr.check("precondition of randomNormal: standard deviation >= 0", "d_le d_zero %s" % par(sd))
        tr.assume("d_finite %s -> d_finite %s -> d_is_num %s" % (par(m), par(sd), r))
        tr.assume("d_finite %s -> d_rk %s = d_rk d_zero -> d_rk %s = d_rk %s" % (par(m), par(sd), r, par(m)))
    return T(r, DBL)


def c_randomBinomial(tr, obj, vs, n):
    a = tr.snap(vs[0])
    p = tr.term(vs[1])
    tr.check("precondition of randomBinomial: probability in [0, 1]", "d_le d_zero %s && d_le %s (d_of_int 1)" % (par(p), par(p)))
    r = tr.any(a.ty)
    tr.check("precondition of randomBinomial: number of trials below 2^50", "0 <= %s < size_limit" % tr.term(a))
    tr.assume("0 <= %s <= %s" % (r, tr.term(a)))
    tr.assume("d_rk %s <= d_rk d_zero -> %s = 0" % (par(p), r))
    tr.assume("d_rk %s = d_rk (d_of_int 1) -> %s = %s" % (par(p), r, tr.term(a)))
    return T(r, a.ty)


def c_sampleUnique(tr, obj, vs, n):
    lb, ub, c = [tr.snap(v) for v in vs]
    l, u, k = tr.term(lb), tr.term(ub), tr.term(c)
    tr.check("precondition of sampleUnique: lbound <= ubound", "%s <= %s" % (l, u))
    tr.check("precondition of sampleUnique: the range holds enough values", "%s <= %s - %s" % (k, u, par(l)))
    ty = Ty("seq", lb.ty if lb.ty.k == "int" else ub.ty)
    r = tr.any(ty)
    e = sfx(ty.a)
    tr.assume("len_%s %s = %s" % (e, r, k))
    tr.assume("forall k'. 0 <= k' < len_%s %s -> %s <= get_%s %s k' < %s" % (e, r, l, e, r, u))
    tr.assume("forall k' j'. 0 <= k' < j' < len_%s %s -> get_%s %s k' <> get_%s %s j'" % (e, r, e, r, e, r))
    return T(r, ty)


def c_randomIndex(tr, obj, vs, n):
    s = vs[0]
    e = sfx(s.ty.a)
    tr.check("precondition of randomIndex: non-empty", "0 < len_%s %s" % (e, par(tr.term(s))))
    r = tr.any(SZ)
    tr.assume("0 <= %s < len_%s %s" % (r, e, par(tr.term(s))))
    return T(r, SZ)


RNG = {
    "gapp::rng::randomInt": c_randomInt,
    "gapp::rng::randomReal": c_randomReal,
    "gapp::rng::randomBool": c_randomBool,
    "gapp::rng::randomNormal": c_randomNormal,
    "gapp::rng::randomBinomial": c_randomBinomial,
    "gapp::rng::sampleUnique": c_sampleUnique,
    "gapp::rng::randomIndex": c_randomIndex,
}
RNG_TRUST = "random number layer used through its contract (values in range / distinct); discharged under C06"


def cls(mod, name):
    """match predicate: method of the given class"""
    return lambda f: f.cls is not None and f.cls.get("name") == name


def E(name, f):
    return (name, f)
