// Replay / complement harness support: executable contracts run against the real /repo code.
#ifndef VERIF_HARNESS_HPP
#define VERIF_HARNESS_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <csignal>
#include <cmath>
#include <string>
#include <vector>
#include <array>
#include <map>
#include <set>
#include <sstream>
#include <iomanip>
#include <chrono>
#include <functional>
#include <algorithm>
#include <numeric>
#include <random>
#include <limits>
#include <type_traits>
#include <unistd.h>

namespace H
{
    inline std::string g_case;             // description of the current case
    inline const char* g_group = "";
    inline unsigned long g_evals = 0, g_nontrivial = 0;
    inline std::set<size_t> g_seen;
    inline std::vector<std::string> g_samples;
    inline std::map<std::string, unsigned long> g_groups;
    inline std::mt19937_64 rng;
    inline double g_budget = 20.0;
    inline bool g_thorough = false;
    inline std::chrono::steady_clock::time_point g_start;
    inline int g_watch = 20;

    inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_start).count(); }

    [[noreturn]] inline void fail(const std::string& what)
    {
        std::printf("FAIL check=%s what=%s input=%s\n", g_group, what.c_str(), g_case.c_str());
        std::fflush(stdout);
        _exit(1);
    }

    inline void on_signal(int sig)
    {
        char buf[64];
        const char* nm = sig == SIGALRM ? "no-termination(watchdog)" : sig == SIGABRT ? "abort" : sig == SIGSEGV ? "segfault" : sig == SIGFPE ? "fpe" : "signal";
        int n = std::snprintf(buf, sizeof buf, "\nFAIL check=%.24s what=", g_group);
        (void)!write(1, buf, std::min<size_t>(n, sizeof buf - 1));
        (void)!write(1, nm, std::strlen(nm));
        (void)!write(1, " input=", 7);
        (void)!write(1, g_case.data(), g_case.size());
        (void)!write(1, "\n", 1);
        _exit(1);
    }

    template<class Tp> std::string str(const Tp& v);
    template<class Tp> concept range_ = requires(const Tp& t) { t.begin(); t.end(); };
    template<class A, class B> std::string str(const std::pair<A, B>& p) { return "(" + str(p.first) + "," + str(p.second) + ")"; }
    template<class Tp> std::string str(const Tp& v)
    {
        std::ostringstream o;
        if constexpr (std::is_same_v<Tp, std::string>) o << v;
        else if constexpr (std::is_convertible_v<Tp, const char*>) o << v;
        else if constexpr (std::is_same_v<Tp, bool>) o << (v ? 1 : 0);
        else if constexpr (std::is_same_v<Tp, signed char> || std::is_same_v<Tp, unsigned char> || std::is_same_v<Tp, char>) o << int(v);
        else if constexpr (std::is_floating_point_v<Tp>) o << std::setprecision(17) << v;
        else if constexpr (std::is_arithmetic_v<Tp>) o << v;
        else if constexpr (std::is_enum_v<Tp>) o << long(v);
        else if constexpr (range_<Tp>) { o << "["; bool f = true; for (const auto& x : v) { if (!f) o << " "; f = false; o << str(static_cast<std::decay_t<decltype(x)>>(x)); } o << "]"; }
        else o << v;
        return o.str();
    }

    template<class... A> std::string cat(const A&... a) { std::string s; ((s += str(a)), ...); return s; }

    inline const char* g_prev_group = nullptr;
    inline void end_case()
    {
        if (!g_prev_group) return;
        if (g_seen.size() < 2000000 && g_seen.insert(std::hash<std::string>{}(std::string(g_prev_group) + g_case)).second) g_nontrivial++;
        if (g_samples.size() < 3 || (g_evals % 977 == 0 && g_samples.size() < 12)) g_samples.push_back(std::string(g_prev_group) + ": " + g_case.substr(0, 200));
        g_prev_group = nullptr;
    }
    // begin a case: description is recorded before the code under test runs (it may be extended as the case goes on)
    template<class... A> void begin(const A&... a)
    {
        end_case();
        g_case = cat(a...);
        g_prev_group = g_group;
        g_evals++;
        g_groups[g_group]++;
        if ((g_evals & 63) == 0) alarm(g_watch);
    }

    template<class... A> void check(bool ok, const A&... a) { if (!ok) fail(cat(a...)); }

    inline size_t rnd(size_t lo, size_t hi) { return std::uniform_int_distribution<size_t>(lo, hi)(rng); }
    inline long irnd(long lo, long hi) { return std::uniform_int_distribution<long>(lo, hi)(rng); }
    inline double rreal(double lo = 0.0, double hi = 1.0) { return std::uniform_real_distribution<double>(lo, hi)(rng); }
    inline bool coin(double p = 0.5) { return rreal() < p; }
    template<class V> const auto& pick(const V& v) { return v[rnd(0, v.size() - 1)]; }

    struct Group { const char* name; std::function<void()> exhaustive; std::function<void()> random; double weight = 1.0; };

    inline int run(int argc, char** argv, std::vector<Group> groups)
    {
        uint64_t seed = 1;
        const char* only = nullptr;
        for (int i = 1; i < argc; i++)
        {
            std::string a = argv[i];
            if (a == "--seed") seed = std::strtoull(argv[++i], nullptr, 10);
            else if (a == "--secs") g_budget = std::atof(argv[++i]);
            else if (a == "--thorough") g_thorough = true;
            else if (a == "--group") only = argv[++i];
        }
        for (int s : { SIGABRT, SIGSEGV, SIGFPE, SIGALRM, SIGBUS, SIGILL }) std::signal(s, on_signal);
        g_start = std::chrono::steady_clock::now();
        double tot = 0;
        for (auto& g : groups) if (!only || !std::strcmp(only, g.name)) tot += g.weight;
        for (auto& g : groups)
        {
            if (only && std::strcmp(only, g.name)) continue;
            g_group = g.name;
            rng.seed(seed * 1000003u + std::hash<std::string>{}(g.name) % 1000003u);
            alarm(g_watch);
            double t0 = elapsed(), lim = g_budget * g.weight / tot;
            try
            {
                if (g.exhaustive) g.exhaustive();
                if (g.random) { do { for (int k = 0; k < 8; k++) g.random(); } while (elapsed() - t0 < lim); }
            }
            catch (const std::exception& e) { fail(std::string("exception ") + e.what()); }
        }
        alarm(0);
        end_case();
        std::printf("STATS evaluations=%lu distinct=%lu secs=%.1f\n", g_evals, g_nontrivial, elapsed());
        for (auto& [k, v] : g_groups) std::printf("GROUP %s %lu\n", k.c_str(), v);
        for (auto& s : g_samples) { for (char& c : s) if (c == '\n') c = ' '; std::printf("SAMPLE %s\n", s.c_str()); }
        std::printf("OK\n");
        std::fflush(stdout);
        _exit(0);
    }
}
#endif
