#include "harness.hpp"
#include "utility/math.hpp"
#include <span>
using namespace H;
namespace M = gapp::math;

static double atol_ = 1e-12, rtol_ = 10 * std::numeric_limits<double>::epsilon();
// the documented meaning, written independently of the library
static bool lt(double a, double b)
{
    const double m = std::max(std::fabs(a), std::fabs(b));
    if (std::isinf(m)) return a < b;
    return b - a > std::max(rtol_ * m, atol_);
}
static bool eq(double a, double b) { return !lt(a, b) && !lt(b, a); }
static int dom(const std::vector<double>& a, const std::vector<double>& b) // -1: a dominated
{
    bool al = false, bl = false;
    for (size_t i = 0; i < a.size(); i++) { al = al || lt(a[i], b[i]); bl = bl || lt(b[i], a[i]); }
    return al && !bl ? -1 : bl && !al ? 1 : 0;
}
static double val()
{
    switch (rnd(0, 9))
    {
        case 0: return coin() ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
        case 1: return coin() ? 0.0 : -0.0;
        case 2: return (coin() ? 1 : -1) * std::numeric_limits<double>::max();
        case 3: return rreal(-1e-11, 1e-11);
        case 4: return double(irnd(-3, 3));
        case 5: return rreal(-1, 1) * std::pow(10.0, rreal(-300, 300));
        default: return rreal(-1, 1) * std::pow(10.0, rreal(-13, 13));
    }
}
static double near(double x)
{
    if (std::isinf(x)) return coin(0.5) ? x : val();
    if (coin(0.2)) return x;
    if (coin(0.2)) return val();
    double y = x;
    if (coin(0.5)) { const double t = std::max(rtol_ * std::fabs(x), atol_); y = x + (coin() ? t : -t) * (coin(0.4) ? 1.0 : rreal(0.9, 1.1)); }
    const long k = irnd(-14, 14);
    for (long i = 0; i < std::labs(k); i++) y = std::nextafter(y, k > 0 ? 1e308 : -1e308);
    return y;
}
static void one(double a, double b)
{
    begin("a=", a, " b=", b, " abs_tol=", atol_, " rel_tol=", rtol_);
    const bool l = lt(a, b), g = lt(b, a), e = eq(a, b);
    check(M::floatIsLess(a, b) == l, "floatIsLess = ", !l);
    check(M::floatIsGreater(a, b) == g, "floatIsGreater = ", !g);
    check(M::floatIsEqual(a, b) == e, "floatIsEqual = ", !e);
    check(M::floatIsLessEq(a, b) == !g, "floatIsLessEq = ", g);
    check(M::floatIsGreaterEq(a, b) == !l, "floatIsGreaterEq = ", l);
    if (!g) check(M::floatIsLessAssumeNotGreater(a, b) == l, "floatIsLessAssumeNotGreater = ", !l);
    const auto c = M::floatCompare(a, b);
    check((c < 0) == l && (c > 0) == g && (c == 0) == e, "floatCompare inconsistent: ", c < 0, c > 0, c == 0);
    check(int(l) + int(g) + int(M::floatIsEqual(a, b)) == 1, "not exactly one of less, greater, equal");
    if (l) check(a < b, "less although a >= b");
}
static void scalar() { const double a = val(); one(a, near(a)); one(near(a), a); }
static void scalar_tols()
{
    const double oa = atol_, orr = rtol_;
    const double na = coin(0.3) ? 0.0 : std::pow(10.0, rreal(-15, 2)), nr = coin(0.3) ? 0.0 : coin(0.1) ? 1.0 : std::pow(10.0, rreal(-16, 0));
    begin("ScopedTolerances(", na, ", ", nr, ")");
    check(M::Tolerances::abs() == oa && M::Tolerances::rel(1.0) == orr, "the default tolerances changed");
    {
        M::ScopedTolerances t(na, nr);
        check(M::Tolerances::abs() == na && M::Tolerances::rel(1.0) == nr, "tolerances not set");
        atol_ = na; rtol_ = nr;
        for (int i = 0; i < 20; i++) scalar();
        {
            M::ScopedTolerances t2(0.0, 0.0);
            check(M::Tolerances::abs() == 0.0 && M::Tolerances::rel(1.0) == 0.0, "inner tolerances not set");
        }
        check(M::Tolerances::abs() == na && M::Tolerances::rel(1.0) == nr, "outer tolerances not restored");
    }
    atol_ = oa; rtol_ = orr;
    check(M::Tolerances::abs() == oa && M::Tolerances::rel(1.0) == orr, "tolerances not restored");
}
static void vecs()
{
    const size_t n = rnd(0, 6);
    std::vector<double> a(n), b(n);
    const int mode = int(rnd(0, 3));
    for (size_t i = 0; i < n; i++) { a[i] = mode == 0 ? double(irnd(0, 2)) : val(); b[i] = mode == 0 ? double(irnd(0, 2)) : coin(0.5) ? near(a[i]) : coin() ? a[i] : val(); }
    if (mode == 1) for (size_t i = 0; i < n; i++) if (a[i] > b[i]) std::swap(a[i], b[i]);
    begin("lhs=", a, " rhs=", b);
    const int d = dom(a, b);
    const std::span<const double> A(a), B(b);
    check(M::paretoCompareLess(A, B) == (d < 0), "paretoCompareLess(lhs, rhs) = ", !(d < 0));
    check(M::paretoCompareLess(B, A) == (d > 0), "paretoCompareLess(rhs, lhs) = ", !(d > 0));
    check(int(M::paretoCompare(A, B)) == d, "paretoCompare(lhs, rhs) = ", int(M::paretoCompare(A, B)), " expected ", d);
    check(int(M::paretoCompare(B, A)) == -d, "paretoCompare(rhs, lhs) = ", int(M::paretoCompare(B, A)), " expected ", -d);
    check(!M::paretoCompareLess(A, A), "a vector dominates itself");
    bool e = true;
    for (size_t i = 0; i < n; i++) e = e && eq(a[i], b[i]);
    check(M::floatVecIsEqual(A, B) == e, "floatVecIsEqual = ", !e);
    if (n) check(!M::floatVecIsEqual(A, B.first(n - 1)), "floatVecIsEqual true for different lengths");
}
int main(int argc, char** argv)
{
    return run(argc, argv, { { "comparisons", nullptr, scalar, 2.0 }, { "tolerances", nullptr, scalar_tols }, { "pareto", nullptr, vecs, 2.0 } });
}
