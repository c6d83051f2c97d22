// functions with stated preconditions, called with all kinds of arguments
#define VERIF_MAIN
#include "common.h"
template <class T> static susa::matrix<T> fill(const J& e, const char* r, const char* c)
{
    size_t nr = (size_t)e[r].i, nc = (size_t)e[c].i;
    if (nr * nc == 0) return susa::matrix<T>();
    susa::matrix<T> m(nr, nc);
    for (size_t k = 0; k < m.size(); k++) m(k) = T((k * 7 + 3) % 11 + 1);
    return m;
}
template <class T> static void call(const J& e, Out& out)
{
    const std::string& op = e["op"].s;
    const long long n = e.geti("n", 0);
    if (op == "find") { T v = 4; susa::bitset b = susa::find(fill<T>(e, "r", "c"), v); }
    else if (op == "sort") susa::sort(fill<T>(e, "r", "c"));
    else if (op == "sort_indices") susa::sort_indices(fill<T>(e, "r", "c"));
    else if (op == "select_least") susa::select_least(fill<T>(e, "r", "c"), (unsigned)n);
    else if (op == "select_most") susa::select_most(fill<T>(e, "r", "c"), (unsigned)n);
    else if (op == "select_limited")
    {
        size_t k = (size_t)e["k"].i;
        susa::matrix<unsigned> ix;
        if (k) ix = susa::matrix<unsigned>(k, 1);
        for (size_t i = 0; i < k; i++) ix(i) = (unsigned)(e["from"].i + i);
        susa::select_limited_least(fill<T>(e, "r", "c"), ix, (unsigned)n);
    }
    else if (op == "dijkstra") susa::dijkstra(fill<T>(e, "r", "c"), (unsigned)n);
    else if (op == "conv") susa::conv(fill<T>(e, "r", "c"), fill<T>(e, "r2", "c2"));
    else if (op == "convmtx") susa::convmtx(fill<T>(e, "r", "c"), (size_t)n);
    else if (op == "lu") { susa::matrix<T> a = fill<T>(e, "r", "c"); susa::lu<T> q(a); if (n) q.decompose(); }
    else if (op == "lup") { susa::matrix<T> a = fill<T>(e, "r", "c"); susa::lup<T> q(a, 1e-9); if (n == 1) q.decompose(); if (n == 2) q.decompose_alt(); }
    else if (op == "radix2") { if constexpr (std::is_floating_point_v<T>) { susa::fft<T> f; f.radix2(fill<T>(e, "r", "c")); } }
    else if (op == "ccode") { susa::ccode q((uint32_t)n, (uint32_t)e["k"].i, (uint32_t)e["m"].i); }
    else if (op == "setgen") { susa::ccode q((uint32_t)n, 1, (uint32_t)e["m"].i); q.set_generator(7, (uint32_t)e["k"].i); }
    else if (op == "rrc") { susa::rrcosine q(4, 0.25, (int)n); }
    else _exit(X_HARNESS);
}
void drv_reset() {}
void drv_command(const J& e, Out& out)
{
    const std::string t = e.gets("t", "d");
    if (t == "i") call<int>(e, out); else if (t == "f") call<float>(e, out); else call<double>(e, out);
}
