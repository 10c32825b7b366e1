// C17: the circular buffer against std::deque and the FIFO cache against a naive one, sequences of operations on the real code.
#include "harness.hpp"
#include "utility/cache.hpp"
#include <deque>
#include <list>
#include <string>
#include <unordered_set>
using namespace H;
namespace D = gapp::detail;

struct Tracked
{
    static inline std::unordered_set<const void*> live;
    static inline const char* bad = nullptr;
    int v;
    void born() { if (!live.insert(this).second) bad = "element constructed over a live element"; }
    Tracked(int x) : v(x) { born(); }
    Tracked(const Tracked& o) : v(o.v) { if (!live.count(&o)) bad = "copy of a dead element"; born(); }
    Tracked(Tracked&& o) noexcept : v(o.v) { if (!live.count(&o)) bad = "move of a dead element"; o.v = -999; born(); }
    Tracked& operator=(const Tracked& o) { if (!live.count(this) || !live.count(&o)) bad = "assignment involving a dead element"; v = o.v; return *this; }
    Tracked& operator=(Tracked&& o) noexcept { if (!live.count(this) || !live.count(&o)) bad = "assignment involving a dead element"; const int t = o.v; o.v = -999; v = t; return *this; }
    ~Tracked() { if (!live.erase(this)) bad = "element destroyed twice or never constructed"; }
    friend bool operator==(const Tracked& a, const Tracked& b) { return a.v == b.v; }
    friend auto operator<=>(const Tracked& a, const Tracked& b) { return a.v <=> b.v; }
};
// allocations can be made to fail
static bool g_refuse = false;
template<typename T> struct Alloc
{
    using value_type = T;
    Alloc() = default;
    template<typename U> Alloc(const Alloc<U>&) {}
    T* allocate(size_t n) { if (g_refuse) throw std::bad_alloc(); return std::allocator<T>().allocate(n); }
    void deallocate(T* p, size_t n) { std::allocator<T>().deallocate(p, n); }
    friend bool operator==(const Alloc&, const Alloc&) { return true; }
};
template<typename T> T mk(int x) { if constexpr (std::is_same_v<T, std::string>) return (x % 3 ? "" : "a long string that does not fit inline ") + std::to_string(x); else return T(x); }

template<typename T> struct Buffers
{
    using B = D::circular_buffer<T, Alloc<T>>;
    struct Ref { std::deque<T> q; size_t cap = 0; };
    std::vector<B> s; std::vector<Ref> r; int ctr = 0;
    Buffers() { s.reserve(3); for (int i = 0; i < 3; i++) { s.emplace_back(); r.emplace_back(); } }
    template<class... A> void log(const A&... a) { g_case += cat(" ", a...); }
    void step(size_t k, int op, size_t arg)
    {
        B& a = s[k]; Ref& b = r[k];
        const size_t n = b.q.size();
        const int x = ++ctr;
        auto back = [&](T v) { if (b.q.size() == b.cap) b.q.pop_front(); b.q.push_back(std::move(v)); };
        auto front = [&](T v) { if (b.q.size() == b.cap) b.q.pop_back(); b.q.push_front(std::move(v)); };
        switch (op)
        {
            case 0: if (b.cap) { log("b", k, ".push_back(", x, ")"); a.push_back(mk<T>(x)); back(mk<T>(x)); } break;
            case 1: if (b.cap) { log("b", k, ".push_front(", x, ")"); const T t = mk<T>(x); a.push_front(t); front(t); } break;
            case 2: if (b.cap) { log("b", k, ".emplace_back(", x, ")"); T& t = a.emplace_back(mk<T>(x)); back(mk<T>(x)); check(&t == &a.back(), "emplace_back returned another element"); } break;
            case 3: if (b.cap) { log("b", k, ".emplace_front(", x, ")"); T& t = a.emplace_front(mk<T>(x)); front(mk<T>(x)); check(&t == &a.front(), "emplace_front returned another element"); } break;
            case 4: if (n) { log("b", k, ".pop_front()"); a.pop_front(); b.q.pop_front(); } break;
            case 5: if (n) { log("b", k, ".pop_back()"); a.pop_back(); b.q.pop_back(); } break;
            case 6: { log("b", k, ".set_capacity(", arg, ")"); a.set_capacity(arg); b.cap = arg; while (b.q.size() > arg) b.q.pop_back(); break; }
            case 7: { log("b", k, ".reset(", arg, ")"); a.reset(arg); b.cap = arg; b.q.clear(); break; }
            case 8: { log("b", k, ".clear()"); a.clear(); b.q.clear(); break; }
            case 9: { const size_t j = arg % 3; log("b", k, "=b", j); a = s[j]; const Ref t = r[j]; b.q = t.q; b.cap = t.cap; break; }
            case 10: { const size_t j = arg % 3; log("swap(b", k, ",b", j, ")"); a.swap(s[j]); if (j != k) { std::swap(b.q, r[j].q); std::swap(b.cap, r[j].cap); } break; }
            case 11: { const size_t j = arg % 3; if (j != k) { log("b", k, "=move(b", j, ")"); a = std::move(s[j]); b.q = std::move(r[j].q); b.cap = r[j].cap; s[j] = B(2); r[j].q.clear(); r[j].cap = 2; } break; }
            case 12: { std::vector<T> src; for (size_t i = rnd(0, 6); i--; ) src.push_back(mk<T>(++ctr)); log("b", k, "=buffer(", arg, ",", src.size(), " values)"); a = B(arg, src.begin(), src.end()); b.cap = arg; b.q.assign(src.begin(), src.end()); while (b.q.size() > arg) b.q.pop_front(); break; }
            case 13: { log("b", k, "=buffer(", arg, ",{", x, ",..})"); a = B(arg, { mk<T>(x), mk<T>(x + 1), mk<T>(x + 2) }); b.cap = arg; b.q = { mk<T>(x), mk<T>(x + 1), mk<T>(x + 2) }; while (b.q.size() > arg) b.q.pop_front(); break; }
            case 14: if (n) { const size_t i = arg % n; log("b", k, ".push_back(b", k, "[", i, "])"); const T t = b.q[i]; a.push_back(a[i]); back(t); } break;
            case 15: if (n) { const size_t i = arg % n; log("b", k, ".push_front(b", k, "[", i, "])"); const T t = b.q[i]; a.push_front(a[i]); front(t); } break;
            case 16: { log("b", k, ".reset(", arg, ") refused"); bool thrown = false; g_refuse = true; try { a.reset(arg); } catch (const std::bad_alloc&) { thrown = true; } g_refuse = false; check(thrown == (arg != b.cap), "reset does not allocate"); b.q.clear(); break; }
            case 17: { log("b", k, ".set_capacity(", arg, ") refused"); bool thrown = false; g_refuse = true; try { a.set_capacity(arg); } catch (const std::bad_alloc&) { thrown = true; } g_refuse = false; check(thrown == (arg != b.cap), "set_capacity does not allocate"); break; }
            case 18: if (n) { const size_t i = arg % n; log("b", k, "[", i, "]=", x); a[i] = mk<T>(x); b.q[i] = mk<T>(x); } break;
        }
        verify();
    }
    void verify()
    {
        for (size_t j = 0; j < s.size(); j++)
        {
            const B& c = s[j]; B& a = s[j]; const Ref& b = r[j];
            check(c.size() == b.q.size(), "size of b", j, " is ", c.size(), " instead of ", b.q.size());
            check(c.capacity() == b.cap, "capacity of b", j, " is ", c.capacity(), " instead of ", b.cap);
            check(c.empty() == b.q.empty() && c.full() == (b.q.size() == b.cap), "empty/full of b", j);
            for (size_t i = 0; i < b.q.size(); i++) check(c[i] == b.q[i] && a[i] == b.q[i] && c.at(i) == b.q[i] && a.at(i) == b.q[i], "b", j, "[", i, "] is wrong");
            if (!b.q.empty()) check(c.front() == b.q.front() && c.back() == b.q.back() && a.front() == b.q.front() && a.back() == b.q.back(), "front/back of b", j);
            check(std::equal(c.begin(), c.end(), b.q.begin(), b.q.end()) && std::equal(a.rbegin(), a.rend(), b.q.rbegin(), b.q.rend()), "iteration over b", j);
            bool thrown = false;
            try { (void)c.at(c.size()); } catch (const std::out_of_range&) { thrown = true; }
            check(thrown, "at(size()) does not throw");
            for (size_t i = 0; i < s.size(); i++)
            {
                check((s[i] == c) == (r[i].q == b.q), "operator== of b", i, " and b", j);
                check((s[i] < c) == (r[i].q < b.q), "operator< of b", i, " and b", j);
            }
        }
        if constexpr (std::is_same_v<T, Tracked>) check(!Tracked::bad, Tracked::bad ? Tracked::bad : "");
    }
};
template<typename T> void buffers(size_t ops)
{
    Tracked::live.clear(); Tracked::bad = nullptr;
    begin("circular_buffer ops:");
    {
        Buffers<T> bs;
        bs.step(0, 7, rnd(1, 5));
        const bool one = coin();
        for (size_t i = 0; i < ops; i++) bs.step(one || coin(0.7) ? 0 : rnd(1, 2), coin(0.5) ? int(rnd(0, 5)) : int(rnd(0, 18)), rnd(0, coin() ? 3 : 8));
    }
    check(!Tracked::bad, Tracked::bad ? Tracked::bad : "");
    check(Tracked::live.empty(), Tracked::live.size(), " elements were never destroyed");
}
void small_buffers()
{
    // every sequence of up to 6 pushes and pops at both ends, capacities 1 to 4
    for (size_t cap = 1; cap <= 4; cap++) for (size_t len = 0; len <= 5; len++)
    {
        size_t tot = 1; for (size_t i = 0; i < len; i++) tot *= 4;
        for (size_t c = 0; c < tot; c++)
        {
            Tracked::live.clear(); Tracked::bad = nullptr;
            begin("circular_buffer ops:");
            { Buffers<Tracked> bs; bs.step(0, 7, cap); size_t k = c; for (size_t i = 0; i < len; i++) { bs.step(0, std::array{ 0, 1, 4, 5 }[k % 4], 0); k /= 4; } }
            check(!Tracked::bad, Tracked::bad ? Tracked::bad : "");
            check(Tracked::live.empty(), Tracked::live.size(), " elements were never destroyed");
        }
    }
}

// ---------------------------------------------------------------- cache
struct Key
{
    int k, tag = 0;       // equal keys need not be identical; a bad hash
    friend bool operator==(const Key& a, const Key& b) { return a.k == b.k; }
};
template<> struct std::hash<Key> { size_t operator()(const Key& x) const noexcept { return size_t(x.k) % 3; } };
template<typename K> K key(int x) { if constexpr (std::is_same_v<K, Key>) return Key{ x, irnd(0, 9) > 4 ? 1 : 0 }; else return mk<K>(x); }
template<typename K> int kid(const K& k) { if constexpr (std::is_same_v<K, Key>) return k.k; else if constexpr (std::is_same_v<K, std::string>) return std::stoi(k.substr(k.rfind(' ') == std::string::npos ? 0 : k.rfind(' ') + 1)); else return int(k); }

struct Model
{
    size_t cap = 0; std::map<int, std::string> m; std::deque<int> order;
    void put(int k, const std::string& v, bool over)
    {
        if (!cap) return;
        if (m.count(k)) { if (over) m[k] = v; return; }
        if (order.size() == cap) { m.erase(order.front()); order.pop_front(); }
        m[k] = v; order.push_back(k);
    }
};
template<typename K> void cache(size_t ops)
{
    using C = D::fifo_cache<K, std::string>;
    begin("fifo_cache ops:");
    auto log = [](const auto&... a) { g_case += cat(" ", a...); };
    std::vector<C> s; s.reserve(3); std::vector<Model> r(3);
    const size_t c0 = rnd(0, 5);
    log("c0(", c0, ")");
    s.emplace_back(c0); r[0].cap = c0; s.emplace_back(); s.emplace_back(2); r[2].cap = 2;
    const int keys = int(rnd(1, 12));
    for (size_t step = 0; step < ops; step++)
    {
        const size_t k = coin(0.7) ? 0 : rnd(1, 2), j = rnd(0, 2);
        C& a = s[k]; Model& b = r[k];
        const int x = int(irnd(0, keys)); const std::string v = "v" + std::to_string(step);
        switch (rnd(0, 15))
        {
            case 0: case 1: case 2: case 3: { log("c", k, ".insert(", x, ",", v, ")"); a.insert(key<K>(x), v); b.put(x, v, true); break; }
            case 4: case 5: case 6: { log("c", k, ".try_insert(", x, ",", v, ")"); const K kk = key<K>(x); a.try_insert(kk, v); b.put(x, v, false); break; }
            case 7: case 8:
            {
                const size_t n = rnd(0, 9);
                std::vector<K> ks; std::vector<int> is; for (size_t i = 0; i < n; i++) { is.push_back(int(irnd(0, keys))); ks.push_back(key<K>(is.back())); }
                log("c", k, ".insert(", is, ",", v, ")");
                auto f = [&](const K& q) { return v + "_" + std::to_string(kid(q)); };
                if (coin()) a.insert(ks.begin(), ks.end(), f); else { std::list<K> l(ks.begin(), ks.end()); a.insert(l.begin(), l.end(), f); }
                // only the last elements of a longer range are stored
                for (size_t i = n - std::min(n, b.cap); i < n; i++) b.put(is[i], v + "_" + std::to_string(is[i]), true);
                break;
            }
            case 9: { log("c", k, ".clear()"); a.clear(); b.m.clear(); b.order.clear(); break; }
            case 10: { const size_t c = coin(0.7) ? rnd(0, 6) : rnd(7, 40); log("c", k, ".reset(", c, ")"); a.reset(c); b = Model{}; b.cap = c; break; }
            case 11: { log("c", k, "=c", j); a = s[j]; b = Model(r[j]); break; }
            case 12: { log("swap(c", k, ",c", j, ")"); if (coin()) a.swap(s[j]); else { using std::swap; swap(a, s[j]); } if (j != k) std::swap(b, r[j]); break; }
            case 13: if (j != k) { log("c", k, "=move(c", j, ")"); a = std::move(s[j]); b = r[j]; s[j] = C(3); r[j] = Model{}; r[j].cap = 3; } break;
            case 14: { log("c", k, "=copy of c", j); C t(s[j]); C u(std::move(t)); check(u == s[j], "a copy differs"); a = std::move(u); b = Model(r[j]); break; }
            case 15: break;
        }
        for (size_t q = 0; q < s.size(); q++)
        {
            C& c = s[q]; const C& cc = s[q]; const Model& m = r[q];
            check(c.size() == m.m.size() && c.capacity() == m.cap, "size ", c.size(), " capacity ", c.capacity(), " instead of ", m.m.size(), " and ", m.cap);
            check(c.empty() == m.m.empty() && c.full() == (m.m.size() == m.cap), "empty/full");
            for (int y = 0; y <= keys; y++)
            {
                const bool in = m.m.count(y);
                const K kk = key<K>(y);
                const std::string* p = c.get(kk); const std::string* p2 = cc.get(kk);
                check(c.contains(kk) == in && (p != nullptr) == in && p == p2, "c", q, (in ? " lost key " : " still holds key "), y);
                if (in) check(*p == m.m.at(y), "c", q, " holds ", *p, " for key ", y, " instead of ", m.m.at(y));
            }
            for (size_t o = 0; o < s.size(); o++)
            {
                bool eq = r[o].order.size() == m.order.size();
                if (eq) for (size_t i = 0; i < m.order.size(); i++) eq = eq && r[o].order[i] == m.order[i] && r[o].m.at(m.order[i]) == m.m.at(m.order[i]);
                check((s[o] == c) == eq, "operator== of c", o, " and c", q);
            }
        }
    }
}
int main(int argc, char** argv)
{
    return run(argc, argv, {
        { "small_buffers", [] { small_buffers(); }, nullptr },
        { "buffer", nullptr, [] { switch (rnd(0, 2)) { case 0: buffers<Tracked>(rnd(1, 30)); break; case 1: buffers<std::string>(rnd(1, 30)); break; default: buffers<int>(rnd(1, 40)); } } },
        { "cache", nullptr, [] { switch (rnd(0, 2)) { case 0: cache<int>(rnd(1, 40)); break; case 1: cache<std::string>(rnd(1, 25)); break; default: cache<Key>(rnd(1, 40)); } } },
    });
}
