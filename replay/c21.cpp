// The parallel loop, the pool and its queue with real threads.
#include "harness.hpp"
#include "utility/thread_pool.hpp"
#include <atomic>
#include <thread>
#include <mutex>
#include <memory>
#include <optional>
using namespace H;
using namespace gapp;

struct boom { size_t at; };
static void spin(size_t n) { for (size_t i = 0; i < n; i++) std::this_thread::yield(); }

struct State
{
    std::vector<std::atomic<unsigned>> calls;
    std::atomic<int> active{ 0 };
    std::atomic<bool> over{ false };
    std::atomic<bool> late{ false };
    explicit State(size_t n) : calls(n) {}
};
static detail::thread_pool& pool() { return detail::execution_context::global_thread_pool; }

// one loop over `n` elements; every element may yield, throw, or run a loop of its own
static void loop_case()
{
    const size_t threads = rnd(1, 6), n = coin(0.1) ? 0 : coin(0.3) ? rnd(1, 5) : rnd(1, 120);
    const size_t block = coin(0.4) ? 1 : coin(0.2) ? rnd(1, 2 * n + 2) : rnd(1, 12);
    const size_t inner = coin(0.3) ? rnd(0, 9) : 0, inner_block = rnd(1, 4);
    const size_t lo = rnd(0, 3), hi = rnd(0, 3);
    std::vector<char> bad(n, 0);
    std::vector<size_t> delay(n);
    const int mode = int(rnd(0, 5));
    if (n && mode == 0) bad[rnd(0, n - 1)] = 1;
    if (n && mode == 1) bad[n - 1] = 1;
    if (n && mode == 2) for (auto& b : bad) b = coin(0.2);
    if (n && mode == 3 && coin(0.3)) bad[0] = 1;
    const int dm = int(rnd(0, 3));
    for (size_t i = 0; i < n; i++) delay[i] = dm == 0 ? 0 : dm == 1 ? rnd(0, 3) : dm == 2 ? (i < n / 2 ? 30 : 0) : (i > n / 2 ? 10 : 0);
    const bool through_pool = coin(0.4), blocked = coin();
    begin("loop: threads=", threads, " elements=", n, " block=", block, " inner=", inner, " delays=", dm, " throws at ", std::vector<int>(bad.begin(), bad.end()));
    execution_threads(threads);
    check(execution_threads() == threads, "execution_threads() = ", execution_threads());
    if (coin(0.3)) pool().reset_scheduler();

    std::vector<size_t> elems(n + lo + hi);
    std::iota(elems.begin(), elems.end(), size_t(0));
    auto st = std::make_shared<State>(n + lo + hi);
    auto sub = std::make_shared<State>(n * inner);
    auto f = [&, st, sub](size_t& e)
    {
        const size_t i = e - lo;
        st->active++;
        if (st->over) st->late = true;
        st->calls[e]++;
        spin(delay[i]);
        if (inner)
        {
            std::vector<size_t> in(inner);
            std::iota(in.begin(), in.end(), i * inner);
            auto g = [sub](size_t& k) { sub->calls[k]++; std::this_thread::yield(); };
            if (through_pool) pool().execute_loop(in.begin(), in.end(), inner_block, g); else detail::parallel_for(in.begin(), in.end(), inner_block, g);
            for (size_t k : in) if (sub->calls[k] != 1) st->late = true;
        }
        spin(delay[i]);
        st->active--;
        if (bad[i]) throw boom{ i };
    };
    bool caught = false; size_t at = 0;
    try
    {
        const auto b = elems.begin() + long(lo), l = b + long(n);
        if (through_pool) pool().execute_loop(b, l, block, f);
        else if (blocked) detail::parallel_for(b, l, block, f);
        else detail::parallel_for(b, l, f);
    }
    catch (const boom& e) { caught = true; at = e.at; }
    st->over = true;
    check(st->active == 0, "the loop has returned while ", st->active.load(), " calls are running");
    const bool any = std::any_of(bad.begin(), bad.end(), [](char b) { return b; });
    check(any == caught, any ? "an exception was lost" : "an exception nobody threw");
    if (caught) check(at < n && bad[at], "exception of element ", at);
    for (size_t e = 0; e < elems.size(); e++)
    {
        const bool in = lo <= e && e < lo + n;
        check(st->calls[e] <= (in ? 1u : 0u), "element ", e, in ? " of the range" : " out of the range", " was processed ", st->calls[e].load(), " times");
        if (!any && in) check(st->calls[e] == 1, "element ", e, " was processed ", st->calls[e].load(), " times");
    }
    if (coin(0.1)) spin(50);
    check(!st->late, "a call started after the loop had returned, or an inner loop was not finished");
}
static void small()
{
    for (size_t threads = 1; threads <= 4; threads++) for (size_t n = 0; n <= 9; n++) for (size_t block = 1; block <= n + 2; block++)
    {
        begin("threads=", threads, " elements=", n, " block=", block);
        execution_threads(threads);
        std::vector<unsigned> v(n, 0);
        detail::parallel_for(v.begin(), v.end(), block, [](unsigned& c) { c++; });
        check(std::all_of(v.begin(), v.end(), [](unsigned c) { return c == 1; }), "calls per element: ", v);
        for (size_t k = 0; k < n; k++)      // the calling thread and the others
        {
            std::atomic<unsigned> calls{ 0 };
            bool c = false;
            try { detail::parallel_for(v.begin(), v.end(), block, [&](unsigned& e) { calls++; if (&e == &v[k]) throw 7; }); } catch (int x) { c = x == 7; }
            check(c, "the exception of element ", k, " was lost");
            check(calls <= n, calls.load(), " calls");
        }
    }
    execution_threads(0);
    check(execution_threads() == 1, "execution_threads(0) sets ", execution_threads());
}
// the queue against a plain model, one thread
static void queue_model()
{
    detail::concurrent_queue<long> q;
    std::vector<long> m; bool closed = false; std::string ops;
    begin("queue");
    for (size_t i = 0; i < 30; i++)
    {
        const size_t k = rnd(0, 9);
        if (k < 5) { const long v = irnd(-9, 9); ops += cat(" emplace ", v); g_case = "queue:" + ops; check(q.emplace(v) == !closed, "emplace returned the wrong value"); if (!closed) m.push_back(v); }
        else if (k < 8 && (closed || !m.empty()))
        {
            ops += " take"; g_case = "queue:" + ops;
            auto t = q.take();
            check(t.has_value() == !m.empty(), "take returned ", t.has_value() ? "an element" : "nothing");
            if (t) { check(*t == m.front(), "took ", *t, " instead of ", m.front()); m.erase(m.begin()); }
        }
        else if (k == 8 && coin(0.2)) { ops += " close"; g_case = "queue:" + ops; q.close(); closed = true; }
        check(q.empty() == m.empty(), "empty() = ", q.empty());
        check(q.closed() == closed, "closed() = ", q.closed());
    }
}
// producers and consumers: every accepted element is taken once, in the order of its producer; close ends the consumers
static void queue_threads()
{
    const size_t P = rnd(1, 3), C = rnd(1, 3), N = rnd(0, 60);
    const bool early = coin(0.3);
    begin("queue with ", P, " producers of ", N, " elements, ", C, " consumers, ", early ? "closed while they run" : "closed at the end");
    detail::concurrent_queue<size_t> q;
    std::vector<std::vector<size_t>> in(P), out(C);
    {
        std::vector<std::jthread> cs;
        for (size_t c = 0; c < C; c++) cs.emplace_back([&, c] { while (auto t = q.take()) { out[c].push_back(*t); if (*t % 3 == 0) std::this_thread::yield(); } });
        {
            std::vector<std::jthread> ps;
            for (size_t p = 0; p < P; p++) ps.emplace_back([&, p] { for (size_t i = 0; i < N; i++) { if (q.emplace(p * 1000 + i)) in[p].push_back(p * 1000 + i); if (i % 5 == p) std::this_thread::yield(); } });
            if (early) { spin(20); q.close(); }
        }
        q.close();
    }
    std::vector<size_t> a, b;
    for (auto& v : in) a.insert(a.end(), v.begin(), v.end());
    for (auto& v : out)
    {
        b.insert(b.end(), v.begin(), v.end());
        for (size_t p = 0; p < P; p++)
        {
            std::vector<size_t> mine;
            for (size_t x : v) if (x / 1000 == p) mine.push_back(x);
            check(std::is_sorted(mine.begin(), mine.end()), "elements of producer ", p, " were taken out of order: ", mine);
        }
    }
    std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    check(a == b, a.size(), " elements accepted, ", b.size(), " taken");
    check(q.empty() && q.closed() && !q.emplace(size_t(1)) && !q.take(), "the closed queue is usable");
}
static void latches()
{
    const size_t n = rnd(0, 4);
    begin("latch of ", n);
    detail::latch l{ std::uint32_t(n) };
    std::atomic<size_t> done{ 0 };
    check(l.try_wait() == (n == 0), "try_wait at the start");
    {
        std::vector<std::jthread> ts;
        for (size_t i = 0; i < n; i++) ts.emplace_back([&] { spin(5); done++; l.count_down(); });
        if (coin()) { while (!l.try_wait()) std::this_thread::yield(); } else l.wait();
        check(done == n, "the latch opened after ", done.load(), " of ", n);
    }
    check(l.try_wait(), "try_wait at the end");
}
int main(int argc, char** argv)
{
    return run(argc, argv, { { "small", small, nullptr, 1 }, { "loops", nullptr, loop_case, 8 }, { "queue", nullptr, queue_model, 1 }, { "producers", nullptr, queue_threads, 2 }, { "latch", nullptr, latches, 1 } });
}
