// small_vector against std::vector, sequences of operations; element types: int, a tracked type (address registry), std::string, elements whose copies and moves throw; inline sizes 1, 4 and the default.
#include "harness.hpp"
#include "utility/small_vector.hpp"
#include <vector>
#include <string>
#include <sstream>
#include <unordered_set>
using namespace H;
using gapp::small_vector;

struct Tracked
{
    static inline std::unordered_set<const void*> live;
    static inline const char* bad = nullptr;
    int v; bool moved = false;
    void born() { if (!live.insert(this).second) bad = "element constructed over a live element"; }
    Tracked(int x = 0) : v(x) { born(); }
    Tracked(const Tracked& o) : v(o.v) { if (!live.count(&o)) bad = "copy of a dead element"; born(); }
    Tracked(Tracked&& o) noexcept : v(o.v) { if (!live.count(&o)) bad = "move of a dead element"; o.v = -999; born(); }
    Tracked& operator=(const Tracked& o) { if (!live.count(this) || !live.count(&o)) bad = "assignment involving a dead element"; v = o.v; return *this; }
    Tracked& operator=(Tracked&& o) noexcept { if (!live.count(this) || !live.count(&o)) bad = "assignment involving a dead element"; const int t = o.v; o.v = -999; v = t; return *this; }
    ~Tracked() { if (!live.erase(this)) bad = "element destroyed twice or never constructed"; }
    friend bool operator==(const Tracked& a, const Tracked& b) { return a.v == b.v; }
    friend auto operator<=>(const Tracked& a, const Tracked& b) { return a.v <=> b.v; }
    friend std::ostream& operator<<(std::ostream& o, const Tracked& t) { return o << t.v; }
};
// An element whose copies (and, for B, moves) throw when the fuse burns down.
template<bool B> struct Fused
{
    static inline std::unordered_set<const void*> live;
    static inline const char* bad = nullptr;
    static inline int fuse = -1;
    int v;
    void burn() { if (fuse > 0 && --fuse == 0) throw std::runtime_error("fuse"); }
    void born() { if (!live.insert(this).second) bad = "element constructed over a live element"; }
    Fused(int x = 0) : v(x) { burn(); born(); }
    Fused(const Fused& o) : v(o.v) { if (!live.count(&o)) bad = "copy of a dead element"; burn(); born(); }
    Fused(Fused&& o) noexcept(!B) : v(o.v) { if (!live.count(&o)) bad = "move of a dead element"; if constexpr (B) burn(); o.v = -999; born(); }
    Fused& operator=(const Fused& o) { if (!live.count(this) || !live.count(&o)) bad = "assignment involving a dead element"; burn(); v = o.v; return *this; }
    Fused& operator=(Fused&& o) noexcept(!B) { if (!live.count(this) || !live.count(&o)) bad = "assignment involving a dead element"; if constexpr (B) burn(); const int t = o.v; o.v = -999; v = t; return *this; }
    ~Fused() { if (!live.erase(this)) bad = "element destroyed twice or never constructed"; }
};
template<bool B, size_t N> void failing(size_t ops)
{
    using T = Fused<B>; using SV = small_vector<T, N>;
    T::live.clear(); T::bad = nullptr; T::fuse = -1;
    {
        SV a; std::vector<int> b;
        begin("small_vector of elements with throwing copies ops:");
        int ctr = 0;
        for (size_t step = 0; step < ops; step++)
        {
            const size_t n = b.size(), p = rnd(0, n), c = rnd(0, 6);
            const int x = ++ctr, op = int(rnd(0, 12)), f = coin() ? int(rnd(1, 12)) : -1;
            std::vector<T> src(c, T(x)); const T val(x); std::vector<int> r = b;
            bool strong = false, threw = false;
            g_case += cat(" op", op, "(", p, ",", c, ",", x, ";fuse ", f, ")");
            T::fuse = f;
            try
            {
                switch (op)
                {
                    case 0: case 1: strong = true; r.push_back(x); a.push_back(val); break;
                    case 2: strong = true; if (n) { r.push_back(b[p % n]); a.push_back(a[p % n]); } break;
                    case 3: strong = true; a.reserve(n + c); break;
                    case 4: strong = true; a.shrink_to_fit(); break;
                    case 5: r.insert(r.begin() + p, x); a.insert(a.begin() + p, val); break;
                    case 6: r.insert(r.begin() + p, c, x); a.insert(a.begin() + p, c, val); break;
                    case 7: r.insert(r.begin() + p, c, x); a.insert(a.begin() + p, src.begin(), src.end()); break;
                    case 8: if (p < n) { r.erase(r.begin() + p); a.erase(a.begin() + p); } break;
                    case 9: r.resize(c * 2, x); a.resize(c * 2, val); break;
                    case 10: r.assign(c, x); a.assign(c, val); break;
                    case 11: { SV t(a); t.push_back(val); a = std::move(t); r.push_back(x); break; }
                    case 12: { SV t(c, val); r.assign(c, x); a.swap(t); break; }
                }
            }
            catch (const std::runtime_error&) { threw = true; }
            T::fuse = -1;
            check(!T::bad, T::bad ? T::bad : "");
            check(T::live.size() == a.size() + src.size() + 1, T::live.size() - src.size() - 1, " live elements for a vector of ", a.size(), threw ? " after an exception" : "");
            for (const T& t : a) check(T::live.count(&t), "the vector contains a dead element");
            check(a.capacity() >= a.size() && a.capacity() >= N, "capacity");
            const std::vector<int>& want = threw ? b : r;
            if (!threw || strong)
            {
                check(a.size() == want.size(), "size ", a.size(), " instead of ", want.size(), threw ? " after an exception" : "");
                for (size_t i = 0; i < want.size(); i++) check(a[i].v == want[i], "element ", i, " is ", a[i].v, " instead of ", want[i], threw ? " after an exception" : "");
            }
            b.clear(); for (const T& t : a) b.push_back(t.v);
        }
    }
    check(!T::bad, T::bad ? T::bad : "");
    check(T::live.empty(), T::live.size(), " elements were never destroyed");
}
template<typename T> T mk(int x) { if constexpr (std::is_same_v<T, std::string>) return (x % 3 ? "" : "a long string that does not fit inline ") + std::to_string(x); else return T(x); }
template<typename T> std::string sh(const T& t) { std::ostringstream o; o << t; std::string s = o.str(); return s.size() > 6 ? "'" + s.substr(s.size() - 6) : s; }

template<typename T, size_t N> void seq(size_t ops, const std::vector<int>* script = nullptr)
{
    Tracked::live.clear(); Tracked::bad = nullptr;
    {
        using SV = small_vector<T, N>;
        std::vector<SV> s; std::vector<std::vector<T>> r;
        s.reserve(4); r.reserve(4);
        for (int i = 0; i < 3; i++) { s.emplace_back(); r.emplace_back(); }
        int ctr = 0;
        begin("small_vector ops:");
        auto log = [&](const auto&... a) { g_case += cat(" ", a...); };
        for (size_t step = 0; step < ops; step++)
        {
            const size_t k = rnd(0, 9) < 7 ? 0 : rnd(1, 2);
            SV& a = s[k]; std::vector<T>& b = r[k];
            const size_t n = b.size();
            int x = ++ctr;
            const int op = script ? (*script)[step] : int(rnd(0, 27));
            switch (op)
            {
                case 0: case 1: case 2: log("v", k, ".push_back(", x, ")"); a.push_back(mk<T>(x)); b.push_back(mk<T>(x)); break;
                case 3: if (n) { const size_t i = rnd(0, n - 1); log("v", k, ".push_back(v", k, "[", i, "])"); a.push_back(a[i]); b.push_back(b[i]); } break;
                case 4: if (n) { log("v", k, ".pop_back()"); a.pop_back(); b.pop_back(); } break;
                case 5: { const size_t p = rnd(0, n), c = rnd(0, 5); log("v", k, ".insert(", p, ",", c, ",", x, ")"); auto it = a.insert(a.begin() + p, c, mk<T>(x)); b.insert(b.begin() + p, c, mk<T>(x)); check(it - a.begin() == long(p), "insert returned position ", it - a.begin()); break; }
                case 6: if (n) { const size_t p = rnd(0, n), c = rnd(0, 4), i = rnd(0, n - 1); log("v", k, ".insert(", p, ",", c, ",v", k, "[", i, "])"); const T t = b[i]; a.insert(a.begin() + p, c, a[i]); b.insert(b.begin() + p, c, t); } break;
                case 7: { std::vector<T> src; for (size_t i = rnd(0, 5); i--; ) src.push_back(mk<T>(++ctr)); const size_t p = rnd(0, n); log("v", k, ".insert(", p, ",", src.size(), " values)"); auto it = a.insert(a.begin() + p, src.begin(), src.end()); b.insert(b.begin() + p, src.begin(), src.end()); check(it - a.begin() == long(p), "insert returned position ", it - a.begin()); break; }
                case 8: { const size_t p = rnd(0, n); log("v", k, ".insert(", p, ",", x, ")"); auto it = a.insert(a.begin() + p, mk<T>(x)); b.insert(b.begin() + p, mk<T>(x)); check(it - a.begin() == long(p), "insert returned position ", it - a.begin()); break; }
                case 9: if (n) { const size_t p = rnd(0, n), i = rnd(0, n - 1); log("v", k, ".emplace(", p, ",v", k, "[", i, "])"); const T t = b[i]; a.emplace(a.begin() + p, a[i]); b.emplace(b.begin() + p, t); } break;
                case 10: if (n) { const size_t p = rnd(0, n - 1); log("v", k, ".erase(", p, ")"); auto it = a.erase(a.begin() + p); b.erase(b.begin() + p); check(it - a.begin() == long(p), "erase returned position ", it - a.begin()); } break;
                case 11: { const size_t p = rnd(0, n), q = rnd(p, n); log("v", k, ".erase(", p, ",", q, ")"); auto it = a.erase(a.begin() + p, a.begin() + q); b.erase(b.begin() + p, b.begin() + q); check(it - a.begin() == long(p), "erase returned position ", it - a.begin()); break; }
                case 12: { const size_t c = rnd(0, 12); log("v", k, ".resize(", c, ")"); a.resize(c); b.resize(c); break; }
                case 13: { const size_t c = rnd(0, 12); if (n && coin()) { const size_t i = rnd(0, n - 1); log("v", k, ".resize(", c, ",v", k, "[", i, "])"); const T t = b[i]; a.resize(c, a[i]); b.resize(c, t); } else { log("v", k, ".resize(", c, ",", x, ")"); a.resize(c, mk<T>(x)); b.resize(c, mk<T>(x)); } break; }
                case 14: { const size_t c = rnd(0, 12); if (n && coin()) { const size_t i = rnd(0, n - 1); log("v", k, ".assign(", c, ",v", k, "[", i, "])"); const T t = b[i]; a.assign(c, a[i]); b.assign(c, t); } else { log("v", k, ".assign(", c, ",", x, ")"); a.assign(c, mk<T>(x)); b.assign(c, mk<T>(x)); } break; }
                case 15: { std::vector<T> src; for (size_t i = rnd(0, 9); i--; ) src.push_back(mk<T>(++ctr)); log("v", k, ".assign(", src.size(), " values)"); a.assign(src.begin(), src.end()); b.assign(src.begin(), src.end()); break; }
                case 16: { const size_t j = rnd(0, 2); log("v", k, "=v", j); a = s[j]; b = std::vector<T>(r[j]); break; }
                case 17: { const size_t j = rnd(0, 2); if (j != k) { log("v", k, "=move(v", j, ")"); a = std::move(s[j]); b = std::move(r[j]); s[j].clear(); check(s[j].capacity() >= N, "capacity ", s[j].capacity(), " of a moved-from vector"); r[j].clear(); } break; }
                case 18: { const size_t j = rnd(0, 2); log("swap(v", k, ",v", j, ")"); a.swap(s[j]); if (j != k) b.swap(r[j]); break; }
                case 19: { const size_t c = rnd(0, 20); log("v", k, ".reserve(", c, ")"); a.reserve(c); check(a.capacity() >= c, "capacity after reserve"); break; }
                case 20: log("v", k, ".shrink_to_fit()"); a.shrink_to_fit(); break;
                case 21: log("v", k, ".clear()"); a.clear(); b.clear(); break;
                case 22: { const size_t j = rnd(0, 2); log("v", k, "=copy-constructed v", j); SV t(s[j]); check(t == s[j], "copy differs"); std::vector<T> u(r[j]); SV w(std::move(t)); t.clear(); check(t.capacity() >= N, "capacity ", t.capacity(), " of a moved-from vector"); t.push_back(mk<T>(x)); check(t.size() == 1 && t[0] == mk<T>(x), "push_back to a moved-from vector"); a = std::move(w); b = std::move(u); break; }
                case 23: { log("v", k, "={", x, ",..}"); a = { mk<T>(x), mk<T>(x + 1), mk<T>(x + 2) }; b = { mk<T>(x), mk<T>(x + 1), mk<T>(x + 2) }; break; }
                case 24: { std::istringstream i1("7 8 9"), i2("7 8 9"); if constexpr (std::is_same_v<T, int>) { const size_t p = rnd(0, n); log("v", k, ".insert(", p, ",istream)"); a.insert(a.begin() + p, std::istream_iterator<int>(i1), {}); b.insert(b.begin() + p, std::istream_iterator<int>(i2), {}); } break; }
                case 25: { log("v", k, ".reset()"); a.reset(); b.clear(); check(a.capacity() == N, "capacity after reset"); break; }
                case 26: { log("v", k, "=construct(", x % 9, ")"); a = SV(size_t(x % 9), mk<T>(x)); b = std::vector<T>(size_t(x % 9), mk<T>(x)); break; }
                case 27: { const size_t j = rnd(0, 2); check((a == s[j]) == (b == r[j]), "operator== disagrees"); check((a < s[j]) == (b < r[j]), "operator< disagrees"); break; }
            }
            for (size_t j = 0; j < s.size(); j++)
            {
                check(s[j].size() == r[j].size(), "size of v", j, " is ", s[j].size(), " instead of ", r[j].size());
                check(s[j].capacity() >= s[j].size() && s[j].capacity() >= N, "capacity");
                check(s[j].empty() == r[j].empty(), "empty()");
                for (size_t i = 0; i < r[j].size(); i++) check(s[j][i] == r[j][i], "v", j, "[", i, "] is ", sh(s[j][i]), " instead of ", sh(r[j][i]));
                if (!r[j].empty()) check(s[j].front() == r[j].front() && s[j].back() == r[j].back(), "front/back");
                check(std::equal(s[j].rbegin(), s[j].rend(), r[j].rbegin(), r[j].rend()), "reverse iteration");
            }
            check(!Tracked::bad, Tracked::bad ? Tracked::bad : "");
        }
        bool thrown = false;
        try { (void)s[0].at(s[0].size()); } catch (const std::out_of_range&) { thrown = true; }
        check(thrown, "at(size()) does not throw");
    }
    check(!Tracked::bad, Tracked::bad ? Tracked::bad : "");
    check(Tracked::live.empty(), Tracked::live.size(), " elements were never destroyed");
}
int main(int argc, char** argv)
{
    return run(argc, argv, {
        { "tracked", nullptr, [] { coin() ? seq<Tracked, 4>(rnd(1, 25)) : seq<Tracked, 1>(rnd(1, 25)); } },
        { "int", nullptr, [] { coin() ? seq<int, 4>(rnd(1, 25)) : seq<int, gapp::detail::default_small_size_v<int>>(rnd(1, 40)); } },
        { "failing", nullptr, [] { coin() ? failing<true, 2>(rnd(1, 15)) : failing<false, 3>(rnd(1, 15)); } },
        { "string", nullptr, [] { coin() ? seq<std::string, 3>(rnd(1, 25)) : seq<std::string, 1>(rnd(1, 25)); } },
    });
}
