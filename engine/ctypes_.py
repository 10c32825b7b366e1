"""C++ type strings -> internal types."""
import re


class Ty:
    __slots__ = ("k", "a", "b", "const", "ref")

    def __init__(self, k, a=None, b=None, const=False, ref=None):
        self.k, self.a, self.b, self.const, self.ref = k, a, b, const, ref

    def __eq__(self, o):
        return isinstance(o, Ty) and (self.k, self.a, self.b) == (o.k, o.a, o.b)

    def __hash__(self):
        return hash((self.k, str(self.a), str(self.b)))

    def __repr__(self):
        return "%s(%s%s)" % (self.k, self.a, "," + str(self.b) if self.b is not None else "")

    def with_(self, const=None, ref="keep"):
        return Ty(self.k, self.a, self.b, self.const if const is None else const, self.ref if ref == "keep" else ref)


INT_BITS = {"unsigned long": (False, 64), "long": (True, 64), "unsigned int": (False, 32), "int": (True, 32),
            "unsigned long long": (False, 64), "long long": (True, 64), "unsigned char": (False, 8),
            "signed char": (True, 8), "char": (True, 8), "short": (True, 16), "unsigned short": (False, 16),
            "size_t": (False, 64), "std::size_t": (False, 64), "ptrdiff_t": (True, 64), "std::ptrdiff_t": (True, 64),
            "uint64_t": (False, 64), "std::uint64_t": (False, 64), "uint8_t": (False, 8), "std::uint8_t": (False, 8),
            "uint32_t": (False, 32), "std::uint32_t": (False, 32), "int64_t": (True, 64), "std::int64_t": (True, 64), "int8_t": (True, 8), "std::int8_t": (True, 8), "int32_t": (True, 32), "std::int32_t": (True, 32),
            "std::weak_ordering": (True, 8), "std::strong_ordering": (True, 8), "std::partial_ordering": (True, 8),
            "difference_type": (True, 64), "size_type": (False, 64), "unsigned": (False, 32),
            "gapp::IntegerGene": (True, 64), "gapp::BinaryGene": (False, 8), "gapp::PermutationGene": (False, 64),
            "__int128": (True, 128), "unsigned __int128": (False, 128)}

BOOL = Ty("bool")
DBL = Ty("dbl")
VOID = Ty("void")
SZ = Ty("int", False, 64)
PD = Ty("int", True, 64)


def split_targs(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([{":
            d += 1
        elif ch in ">)]}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def parse(q, resolver=None):
    """q: type string.  returns Ty (kind 'opaque' if unknown)."""
    q = q.strip()
    ref = None
    const = False
    while True:
        if q.endswith("&&"):
            ref = "&&"
            q = q[:-2].strip()
        elif q.endswith("&"):
            ref = "&"
            q = q[:-1].strip()
        elif q.endswith(" const"):
            const = True
            q = q[:-6].strip()
        elif q.startswith("const "):
            const = True
            q = q[6:].strip()
        elif q.startswith("volatile "):
            q = q[9:].strip()
        elif q.startswith("struct ") or q.startswith("class ") or q.startswith("typename "):
            q = q.split(" ", 1)[1]
        else:
            break
    t = _parse(q, resolver)
    return Ty(t.k, t.a, t.b, const or t.const, ref)


SEQS = ("vector", "small_vector", "span", "initializer_list", "array", "deque")


def _parse(q, R):
    if q in INT_BITS:
        return Ty("int", *INT_BITS[q])
    if q == "bool":
        return BOOL
    if q in ("double", "float", "long double"):
        return DBL
    if q == "void":
        return VOID
    if q.endswith("*"):
        return Ty("iter", parse(q[:-1], R))
    m = re.match(r"^(?:typename )?(?:std::)?__array_traits<(.*), *\d+(?:UL)?>::_Type$", q, re.S) or re.match(r"^(.*\S)\s*\[\d+\]$", q, re.S)
    if m:
        return Ty("seq", parse(m.group(1), R).with_(const=False, ref=None))
    m = re.match(r"^(?:gapp::)?(?:detail::)?(?:Matrix<(.*)>|FitnessMatrix)::(?:(?:Const)?RowIterator|(?:const_)?iterator)$", q, re.S)
    if m:
        return Ty("iter", Ty("seq", parse(split_targs(m.group(1))[0] if m.group(1) else "double", R).with_(const=False, ref=None)))
    m = re.match(r"^(?:typename )?(?:std::)?vector<(.*)>::(?:const_)?iterator$", q, re.S)
    if m and balanced(m.group(1)):
        return Ty("iter", parse(split_targs(m.group(1))[0], R).with_(const=False, ref=None))
    if q in ("FitnessMatrix", "gapp::FitnessMatrix"):
        return Ty("seq", Ty("seq", DBL))
    if q in ("FitnessVector", "gapp::FitnessVector"):
        return Ty("seq", DBL)
    m = re.match(r"^([\w:]+)\s*<(.*)>$", q, re.S)
    if m and balanced(m.group(2)):
        base = m.group(1).split("::")[-1]
        args = split_targs(m.group(2))
        full = m.group(1)
        if base in SEQS and not full.startswith("gapp::detail"):
            return Ty("seq", parse(args[0], R).with_(const=False, ref=None))
        if base == "Matrix" and "detail" in full or base == "Matrix" and full == "Matrix":
            return Ty("seq", Ty("seq", parse(args[0], R).with_(const=False, ref=None)))
        if base in ("MatrixRowRef", "MatrixRowConstRef", "ConstMatrixRowRef", "MatrixRowBase"):
            return Ty("seq", parse(args[-1] if base == "MatrixRowBase" else args[0], R).with_(const=False, ref=None))
        if base in ("unordered_set", "set"):
            return Ty("set", parse(args[0], R))
        if base in ("pair",):
            return Ty("tup", tuple(parse(a, R) for a in args))
        if base == "tuple":
            return Ty("tup", tuple(parse(a, R) for a in args))
        if base == "optional":
            return Ty("opt", parse(args[0], R))
        if base == "__normal_iterator":
            return Ty("iter", parse(args[0].rstrip("*"), R))
        if base == "reverse_iterator":
            return Ty("iter", parse(args[0], R).a if parse(args[0], R).k == "iter" else None, "rev")
        if base == "remove_cvref_t":
            return parse(args[0], R).with_(const=False, ref=None)
        if base == "atomic" or base == "type_identity" or base == "type_identity_t":
            return parse(args[0], R)
        if base in ("Bounded", "bounded_value", "BoundedValue", "NonNegative", "Positive", "Normalized", "Probability"):
            return parse(args[0], R)
    if q in ("detail::dynamic_bitset", "gapp::detail::dynamic_bitset", "dynamic_bitset"):
        return Ty("seq", BOOL)
    if R:
        t = R(q)
        if t is not None:
            return t
    return Ty("opaque", q)


def balanced(s):
    d = 0
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
            if d < 0:
                return False
    return d == 0
