// C19: index and sequence algorithms against naive definitions on the real code.
#include "harness.hpp"
#include "utility/algorithm.hpp"
#include "utility/functional.hpp"
#include "utility/rng.hpp"
#include <deque>
#include <list>
using namespace H;
namespace D = gapp::detail;
template<class V> using el = typename V::value_type;
template<class V> std::vector<size_t> idx(const V& v) { return std::vector<size_t>(v.begin(), v.end()); }

template<class V> void seq_(const V& v)
{
    using X = el<V>;
    const size_t n = v.size();
    begin("sequence=", v);
    auto perm = [&](const auto& p) { std::vector<bool> s(n); for (size_t i : p) { if (i >= n || s[i]) return false; s[i] = true; } return p.size() == n; };
    const auto a = idx(D::argsort(v.begin(), v.end()));
    check(perm(a), "argsort is not a permutation: ", a);
    for (size_t i = 1; i < n; i++) check(!(v[a[i]] < v[a[i - 1]]), "argsort not ascending: ", a);
    const auto g = idx(D::argsort(v.begin(), v.end(), std::greater<X>{}));
    check(perm(g), "argsort(greater) is not a permutation: ", g);
    for (size_t i = 1; i < n; i++) check(!(v[g[i - 1]] < v[g[i]]), "argsort(greater) not descending: ", g);
    const auto r = idx(D::argsort(v.rbegin(), v.rend()));
    check(perm(r), "reverse argsort is not a permutation: ", r);
    for (size_t i = 1; i < n; i++) check(!(v[r[i - 1]] < v[r[i]]), "reverse argsort not descending: ", r);
    for (size_t k : { size_t(0), n / 10, n / 5, n / 2, n })
    {
        const auto p = idx(D::partial_argsort(v.begin(), v.begin() + long(k), v.end()));
        check(perm(p), "partial_argsort is not a permutation: ", p);
        for (size_t i = 0; i < k; i++) for (size_t j = i + 1; j < n; j++) check(!(v[p[j]] < v[p[i]]), "partial_argsort(", k, ") wrong: ", p);
        const auto q = idx(D::partial_argsort(v.rbegin(), v.rbegin() + long(k), v.rend()));
        check(perm(q), "reverse partial_argsort is not a permutation: ", q);
        for (size_t i = 0; i < k; i++) for (size_t j = i + 1; j < n; j++) check(!(v[q[i]] < v[q[j]]), "reverse partial_argsort(", k, ") wrong: ", q);
    }
    const auto mx = D::max_element(v.begin(), v.end()), mn = D::min_element(v.begin(), v.end());
    check(mx == std::max_element(v.begin(), v.end()), "max_element at ", size_t(mx - v.begin()));
    check(mn == std::min_element(v.begin(), v.end()), "min_element at ", size_t(mn - v.begin()));
    const auto ng = D::max_element(v.begin(), v.end(), [](X x) { return -double(x); });
    check(ng == mn, "max_element with a transform at ", size_t(ng - v.begin()));
    if (n)
    {
        check(D::argmax(v.begin(), v.end()) == size_t(mx - v.begin()), "argmax"); check(D::argmin(v.begin(), v.end()) == size_t(mn - v.begin()), "argmin");
        size_t lx = 0, ln = 0;
        for (size_t i = 0; i < n; i++) { if (!(v[i] < v[lx])) lx = i; if (!(v[ln] < v[i])) ln = i; }
        check(D::argmax(v.rbegin(), v.rend()) == lx, "reverse argmax ", D::argmax(v.rbegin(), v.rend()), " expected ", lx);
        check(D::argmin(v.rbegin(), v.rend()) == ln, "reverse argmin ", D::argmin(v.rbegin(), v.rend()), " expected ", ln);
    }
    V s = v; std::sort(s.begin(), s.end());
    for (size_t t = 0; t < 4; t++)
    {
        const X x = n && t ? v[rnd(0, n - 1)] : X(irnd(-2, 9));
        const size_t at = size_t(D::lower_bound(s.begin(), s.end(), x) - s.begin());
        check(at == size_t(std::lower_bound(s.begin(), s.end(), x) - s.begin()), "lower_bound of ", x, " in the sorted sequence = ", at);
        const auto found = std::find(v.begin(), v.end(), x);
        const auto io = D::index_of(v, x), fi = D::find_index(v, D::equal_to(x));
        check(io.has_value() == (found != v.end()) && (!io || *io == size_t(found - v.begin())), "index_of ", x);
        check(fi == io, "find_index ", x);
        check(D::contains(v.begin(), v.end(), x) == io.has_value(), "contains ", x);
        std::vector<X> all; std::vector<size_t> pos;
        for (size_t i = 0; i < n; i++) if (!(v[i] < x)) { all.push_back(v[i]); pos.push_back(i); }
        const auto fa = D::find_all(v.begin(), v.end(), [&](X y) { return !(y < x); });
        check(std::vector<X>(fa.begin(), fa.end()) == all, "find_all of values not below ", x);
        check(idx(D::find_indices(v, [&](X y) { return !(y < x); })) == pos, "find_indices of values not below ", x);
        V e = v, w = v;
        const bool was = D::erase_first_stable(e, x);
        if (found != v.end()) w.erase(w.begin() + (found - v.begin()));
        check(was == (found != v.end()) && e == w, "erase_first_stable ", x, " leaves ", e);
    }
    V u = v; D::erase_duplicates(u);
    std::set<X> us(v.begin(), v.end());
    check(std::vector<X>(u.begin(), u.end()) == std::vector<X>(us.begin(), us.end()), "erase_duplicates leaves ", u);
    std::vector<size_t> ix(n ? rnd(0, 2 * n) : 0); for (auto& i : ix) i = rnd(0, n - 1);
    const auto sel = D::select(v, ix); V cp = v; const auto se2 = D::select(std::move(cp), ix);
    check(sel.size() == ix.size() && se2.size() == ix.size(), "select: size");
    for (size_t i = 0; i < ix.size(); i++) check(sel[i] == v[ix[i]] && se2[i] == v[ix[i]], "select ", ix, " at ", i);
    V o = v; for (auto& x : o) x = X(irnd(-5, 9));
    V lo = v, hi = v; D::elementwise_min(lo, o, D::inplace_t{}); D::elementwise_max(hi, o, D::inplace_t{});
    for (size_t i = 0; i < n; i++) check(lo[i] == std::min(v[i], o[i]) && hi[i] == std::max(v[i], o[i]), "elementwise_min/max with ", o);
    V ps = v; const size_t m = rnd(0, n);
    D::partial_shuffle(ps.begin(), ps.begin() + long(m), ps.end(), gapp::rng::prng);
    check(std::is_permutation(ps.begin(), ps.end(), v.begin()), "partial_shuffle is no rearrangement: ", ps);
    if (n > 1) { V q = v; D::partial_shuffle(q.begin() + 1, q.begin() + 1 + long(rnd(0, n - 1)), q.end(), gapp::rng::prng); check(q[0] == v[0], "partial_shuffle touches elements outside of the range"); }
    if (n) for (size_t t = 0; t < 2; t++)
    {
        const X p = v[rnd(0, n - 1)], q = v[rnd(0, n - 1)], w = X(irnd(-3, 3)), z = v[rnd(0, n - 1)];
        check(D::max(p, q, w, z) == std::max({ p, q, w, z }) && D::min(p, q, w, z) == std::min({ p, q, w, z }) && D::max(p, q) == std::max(p, q) && D::min(p, q, w) == std::min({ p, q, w }), "max/min of ", p, " ", q, " ", w, " ", z);
    }
    const size_t f = rnd(0, 1000); const auto iv = D::index_vector(n, f);
    check(iv.size() == n, "index_vector size"); for (size_t i = 0; i < n; i++) check(iv[i] == f + i, "index_vector(", n, ",", f, ")");
}
// partial_shuffle picks every arrangement of the first elements equally often
void uniform()
{
    const size_t n = rnd(2, 4), m = rnd(1, n);
    begin("partial_shuffle of ", n, " elements, first ", m);
    std::map<std::vector<int>, double> c; double tot = 1;
    for (size_t i = 0; i < m; i++) tot *= double(n - i);
    const int N = 6000;
    for (int k = 0; k < N; k++) { std::vector<int> v(n); std::iota(v.begin(), v.end(), 0); D::partial_shuffle(v.begin(), v.begin() + long(m), v.end(), gapp::rng::prng); v.resize(m); c[v] += 1; }
    check(double(c.size()) == tot, "only ", c.size(), " of ", tot, " arrangements occur");
    for (auto& [k, x] : c) check(std::abs(x - N / tot) < 8 * std::sqrt(N / tot), "arrangement ", k, " occurs ", x, " times of ", N);
}
template<class V> V mk(size_t n, int kind)
{
    V v(n);
    for (size_t i = 0; i < n; i++) v[i] = el<V>(kind == 0 ? irnd(0, 2) : kind == 1 ? irnd(-9, 9) : kind == 2 ? long(i) : long(n - i));
    return v;
}
int main(int argc, char** argv)
{
    auto len = [] { return coin(0.6) ? rnd(0, 9) : coin(0.7) ? rnd(10, 70) : rnd(71, 600); };
    return run(argc, argv, {
        { "small", [] { for (size_t n = 0; n <= 6; n++) { size_t t = 1; for (size_t i = 0; i < n; i++) t *= 3; for (size_t c = 0; c < t; c++) { std::vector<int> v(n); size_t k = c; for (auto& x : v) { x = int(k % 3); k /= 3; } seq_(v); } } }, nullptr },
        { "vector", nullptr, [=] { if (coin()) seq_(mk<std::vector<int>>(len(), int(rnd(0, 3)))); else seq_(mk<std::vector<double>>(len(), int(rnd(0, 3)))); } },
        { "small_vector", nullptr, [=] { seq_(mk<gapp::small_vector<double>>(len(), int(rnd(0, 3)))); } },
        { "shuffle", nullptr, [] { uniform(); }, 0.3 },
    });
}
