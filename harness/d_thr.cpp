// threads that use the logging allocator: free running with logged calls, stepped along a schedule, or under stress
#define VERIF_MAIN
#include "common.h"
#include <new>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <optional>
#include <atomic>
static void point();
static long long seen() { long long x = (long long)susa::memory_tacker::instance().read(); return x < 0 || x > 1900000000LL ? -3 : x; }
static thread_local int tl_fail = 0;
static thread_local bool tl_call = false;
void* operator new(size_t n)
{
    if (tl_call)
    {
        point();
        if (tl_fail > 0 && --tl_fail == 0) throw std::bad_alloc();
    }
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (tl_call && p) point(); free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

template <class T> using LM = susa::matrix<T, susa::allocator_log<T>>;
template <class T> using LA = susa::array<T, susa::allocator_log<T>>;
template <class T> using LV = std::vector<T, susa::allocator_log<T>>;
struct Cmd { std::string op, k; int o = 0, y = 0, fail = 0; size_t n = 0; };
struct Slot
{
    std::string k;
    std::optional<LM<int>> m4; std::optional<LM<double>> m8; std::optional<LM<int8_t>> m1; std::optional<LA<int>> a4; std::optional<LA<double>> a8; std::optional<LV<int>> v4;
    void clear() { m4.reset(); m8.reset(); m1.reset(); a4.reset(); a8.reset(); v4.reset(); k = ""; }
};
struct Worker
{
    std::vector<Slot> s = std::vector<Slot>(4);
    // returns the value read, or -1 when the allocation failed
    long long exec(const Cmd& c)
    {
        long long r = 0;
        Slot& a = s[c.o];
        Slot& b = s[c.y];
        tl_fail = c.fail;
        tl_call = true;
        try
        {
            if (c.op == "read") r = seen();
            else if (c.op == "new")
            {
                a.k = c.k;
                if (c.k == "m4") a.m4.emplace(c.n, 1, 7); else if (c.k == "m8") a.m8.emplace(1, c.n); else if (c.k == "m1") a.m1.emplace(c.n, 1);
                else if (c.k == "a4") a.a4.emplace(std::initializer_list<size_t>{c.n, 1}); else if (c.k == "a8") a.a8.emplace(std::initializer_list<size_t>{1, c.n}); else a.v4.emplace(c.n);
            }
            else if (c.op == "copy")
            {
                a.k = b.k;
                if (b.m4) a.m4.emplace(*b.m4); else if (b.m8) a.m8.emplace(*b.m8); else if (b.m1) a.m1.emplace(*b.m1);
                else if (b.a4) a.a4.emplace(*b.a4); else if (b.a8) a.a8.emplace(*b.a8); else if (b.v4) a.v4.emplace(*b.v4);
            }
            else if (c.op == "assign")
            {
                if (b.m4) *a.m4 = *b.m4; else if (b.m8) *a.m8 = *b.m8; else if (b.m1) *a.m1 = *b.m1; else if (b.a4) *a.a4 = *b.a4; else if (b.a8) *a.a8 = *b.a8; else _exit(X_HARNESS);
            }
            else if (c.op == "resize") { if (a.m4) a.m4->resize(c.n, 1); else if (a.m8) a.m8->resize(1, c.n); else if (a.m1) a.m1->resize(c.n, 1); else _exit(X_HARNESS); }
            else if (c.op == "del") a.clear();
            else _exit(X_HARNESS);
        }
        catch (const std::bad_alloc&) { r = -1; a.k = ""; }
        tl_call = false;
        return r;
    }
};
static std::vector<Cmd> script(const J& j)
{
    std::vector<Cmd> r;
    for (const J& e : j.a) { Cmd c; c.op = e["op"].s; c.k = e.gets("k", ""); c.o = (int)e.geti("o", 0); c.y = (int)e.geti("y", 0); c.n = (size_t)e.geti("n", 0); c.fail = (int)e.geti("fail", 0); r.push_back(c); }
    return r;
}
struct Ev { long tick; int t, c, i; long long v; };
static std::string list(std::vector<Ev>& ev)
{
    std::sort(ev.begin(), ev.end(), [](const Ev& a, const Ev& b) { return a.tick < b.tick; });
    std::string s = "[";
    for (auto& e : ev) { if (s.size() > 1) s += ","; s += "[" + std::to_string(e.c) + "," + std::to_string(e.t) + "," + std::to_string(e.i) + "," + std::to_string(e.v) + "]"; }
    return s + "]";
}

// -- stepping
static std::mutex mx;
static std::condition_variable cv;
static thread_local int tl_id = -1;
static std::vector<int> state;      // 0 idle, 1 running, 2 at a point, 3 finished
static bool free_run = true;
static void point()
{
    if (tl_id < 0) return;
    const bool c = tl_call;
    tl_call = false;
    {
        std::unique_lock<std::mutex> lk(mx);
        if (!free_run)
        {
            state[tl_id] = 2;
            cv.notify_all();
            cv.wait(lk, [] { return free_run || state[tl_id] == 1; });
        }
    }
    tl_call = c;
}
static void sched(const J& e, Out& out)
{
    const int n = (int)e["scripts"].a.size();
    std::vector<std::vector<Cmd>> sc;
    for (const J& s : e["scripts"].a) sc.push_back(script(s));
    std::vector<Ev> ev;
    std::atomic<long> tick{0};
    std::vector<Worker> w(n);
    std::vector<size_t> pos(n, 0);
    std::mutex evm;
    auto note = [&](int c, int t, int i, long long v) { std::lock_guard<std::mutex> g(evm); ev.push_back({tick++, t, c, i, v}); };
    free_run = false;
    state.assign(n + 1, 0);
    std::vector<std::thread> th;
    for (int t = 0; t < n; t++)
        th.emplace_back([&, t] {
            tl_id = t;
            for (size_t i = 0; i < sc[t].size(); i++)
            {
                { std::unique_lock<std::mutex> lk(mx); cv.wait(lk, [&] { return free_run || state[t] == 1; }); }
                note(1, t, (int)i, 0);
                long long v = w[t].exec(sc[t][i]);
                note(2, t, (int)i, v);
                std::unique_lock<std::mutex> lk(mx);
                state[t] = i + 1 == sc[t].size() ? 3 : 0;
                cv.notify_all();
            }
        });
    // a reader of its own, as the code may hold a lock at a point
    std::atomic<int> ask{0};
    std::atomic<bool> stop{false};
    std::thread reader([&] { std::unique_lock<std::mutex> lk(mx); while (!stop) { cv.wait(lk, [&] { return stop || ask == 1; }); if (stop) break; lk.unlock(); note(1, n, -1, 0); long long v = seen(); note(2, n, -1, v); lk.lock(); ask = 2; cv.notify_all(); } });
    bool stuck = false;
    auto step = [&](int t) {
        std::unique_lock<std::mutex> lk(mx);
        if (state[t] == 3 || stuck) return;
        state[t] = 1;
        cv.notify_all();
        if (!cv.wait_for(lk, std::chrono::seconds(2), [&] { return state[t] != 1; })) { stuck = true; return; }
        ask = 1;
        cv.notify_all();
        if (!cv.wait_for(lk, std::chrono::seconds(2), [&] { return ask == 2; })) { stuck = true; return; }
        ask = 0;
    };
    for (const J& s : e["sched"].a) step((int)s.i);
    for (bool more = true; more && !stuck;)
    {
        more = false;
        for (int t = 0; t < n; t++) { bool fin; { std::lock_guard<std::mutex> lk(mx); fin = state[t] == 3 || sc[t].empty(); } if (!fin) { more = true; step(t); } }
    }
    { std::lock_guard<std::mutex> lk(mx); free_run = true; cv.notify_all(); }
    for (auto& t : th) t.join();
    { std::unique_lock<std::mutex> lk(mx); if (ask == 1) cv.wait(lk, [&] { return ask == 2; }); stop = true; cv.notify_all(); }
    reader.join();
    out.raw("ev", list(ev)).i("stuck", stuck).i("end", seen());
    w.clear();
    out.i("after", seen());
}
static void run(const J& e, Out& out)
{
    const int n = (int)e["scripts"].a.size();
    std::vector<std::vector<Cmd>> sc;
    for (const J& s : e["scripts"].a) sc.push_back(script(s));
    std::vector<std::vector<Ev>> ev(n);
    std::vector<Worker> w(n);
    std::atomic<long> tick{0};
    std::atomic<int> ready{0};
    std::vector<std::thread> th;
    for (int t = 0; t < n; t++) ev[t].reserve(2 * sc[t].size());
    for (int t = 0; t < n; t++)
        th.emplace_back([&, t] {
            ready++;
            while (ready < n) {}
            for (size_t i = 0; i < sc[t].size(); i++)
            {
                ev[t].push_back({tick++, t, 1, (int)i, 0});
                long long v = w[t].exec(sc[t][i]);
                ev[t].push_back({tick++, t, 2, (int)i, v});
            }
        });
    for (auto& t : th) t.join();
    std::vector<Ev> all;
    for (auto& v : ev) all.insert(all.end(), v.begin(), v.end());
    out.raw("ev", list(all)).i("stuck", 0).i("end", seen());
    w.clear();
    out.i("after", seen());
}
// random calls without logging; reports what is alive
template <class T> struct Bag
{
    std::vector<LM<T>> m; std::vector<LA<T>> a; std::vector<LV<T>> v;
    void step(uint32_t r, size_t n)
    {
        switch (r % 11)
        {
            case 0: case 1: m.emplace_back(n, 1); break;
            case 2: if (!m.empty()) { LM<T> t(m[r / 11 % m.size()]); m.push_back(std::move(t)); } break;
            case 3: if (m.size() > 1) m[r / 11 % m.size()] = m[r / 97 % m.size()]; break;
            case 4: if (!m.empty()) m[r / 11 % m.size()].resize(1, n); break;
            case 5: case 6: if (m.size()) m.pop_back(); break;
            case 7: { a.emplace_back(std::initializer_list<size_t>{n, 2}); LA<T> t(a.back()); if (a.size() > 8) a.clear(); break; }
            case 8: if (a.size() > 1) { std::vector<T> d(n); a[0].clone(d.data(), n); a[0] = a[1]; } break;
            case 9: v.emplace_back(); for (size_t i = 0; i < n; i++) v.back().push_back(T(1)); break;
            default: if (v.size() > 4 || r % 3 == 0) v.clear(); break;
        }
        if (m.size() > 12) m.clear();
    }
    // elements alive; arrays are dropped first as they do not tell their size
    long long live() { a.clear(); a.shrink_to_fit(); long long t = 0; for (auto& x : m) t += x.size(); for (auto& x : v) t += x.capacity(); return t; }
};
static void stress(const J& e, Out& out)
{
    const int n = (int)e["threads"].i;
    const long rounds = (long)e["rounds"].i;
    const long long top = e["top"].i;
    std::vector<Bag<int>> b4(n); std::vector<Bag<double>> b8(n); std::vector<Bag<uint8_t>> b1(n);
    std::atomic<int> ready{0};
    std::vector<std::thread> th;
    for (int t = 0; t < n; t++)
        th.emplace_back([&, t] {
            uint32_t s = (uint32_t)(e["seed"].i * 977 + t * 7919 + 1);
            ready++;
            while (ready < n) {}
            for (long i = 0; i < rounds; i++)
            {
                s = s * 1664525u + 1013904223u;
                uint32_t r = s >> 8;
                size_t k = 1 + (r >> 4) % (i % 16 == 0 ? top : 6);
                if (r % 3 == 0) b4[t].step(r >> 2, k); else if (r % 3 == 1) b8[t].step(r >> 2, k); else b1[t].step(r >> 2, k);
            }
        });
    for (auto& t : th) t.join();
    long long l4 = 0, l8 = 0, l1 = 0;
    for (auto& b : b4) l4 += b.live();
    for (auto& b : b8) l8 += b.live();
    for (auto& b : b1) l1 += b.live();
    out.raw("live", "[[4," + std::to_string(l4) + "],[8," + std::to_string(l8) + "],[1," + std::to_string(l1) + "]]").i("used", seen());
    b4.clear(); b8.clear(); b1.clear();
    out.i("after", seen());
}
// the very first uses of the tracker in a process happen in several threads at once
static bool touched = false;
static void first(const J& e, Out& out)
{
    if (touched) _exit(X_HARNESS);
    const int n = (int)e["threads"].i, procs = (int)e["procs"].i;
    std::string got = "[";
    for (int p = 0; p < procs; p++)
    {
        int fd[2];
        if (pipe(fd)) _exit(X_HARNESS);
        pid_t c = fork();
        if (c < 0) _exit(X_HARNESS);
        if (c == 0)
        {
            std::atomic<int> ready{0};
            std::vector<std::thread> th;
            std::vector<LM<double>*> o(n);
            for (int t = 0; t < n; t++) th.emplace_back([&, t] { void* mem = malloc(sizeof(LM<double>)); ready++; while (ready < n) {} o[t] = ::new (mem) LM<double>(t + 1, 1); });
            for (auto& t : th) t.join();
            long long v[2];
            v[0] = seen();
            for (auto q : o) q->~LM<double>();
            v[1] = seen();
            if (write(fd[1], v, sizeof v) != sizeof v) _exit(1);
            _exit(0);
        }
        close(fd[1]);
        long long v[2] = {-1, -1};
        if (read(fd[0], v, sizeof v) != sizeof v) v[0] = v[1] = -1;
        close(fd[0]);
        int st;
        waitpid(c, &st, 0);
        if (got.size() > 1) got += ",";
        auto cut = [](long long x) { return x < -1 || x > 2000000000LL ? -3 : x; };
        got += "[" + std::to_string(cut(v[0])) + "," + std::to_string(cut(v[1])) + "]";
    }
    out.raw("got", got + "]");
}
void drv_reset() {}
void drv_command(const J& e, Out& out)
{
    const std::string op = e["op"].s;
    if (op == "first") { first(e, out); return; }
    touched = true;
    if (op == "run") run(e, out);
    else if (op == "sched") sched(e, out);
    else if (op == "stress") stress(e, out);
    else _exit(X_HARNESS);
}
