// sorting, selecting, finding, shortest paths
#define VERIF_MAIN
#include "common.h"

// With "p2", the number v stands for sign(v) 2^(|v|-500), to reach the limits of the type.
template <class T> struct Conv
{
    bool p2;
    T in(const J& j) const
    {
        if constexpr (std::is_floating_point_v<T>)
            if (p2) return j.i == 0 ? T(0) : (T)std::ldexp(j.i < 0 ? -1.0 : 1.0, (int)(j.i < 0 ? -j.i : j.i) - 500);
        return dec<T>(j, 1);
    }
    std::string out(T x) const
    {
        if constexpr (std::is_floating_point_v<T>)
            if (p2)
            {
                if (x == 0) return "0";
                if (std::isnan(x)) return std::to_string(NOTANUM);
                long k = std::isinf(x) ? (sizeof(T) == 4 ? 628 : 1524) : (long)std::ilogb(x) + 500;
                return std::to_string(x < 0 ? -k : k);
            }
        return enc(x, 1, true);
    }
};

template <class T> static void ops(const J& e, Out& out)
{
    Conv<T> cv{e.geti("p2", 0) != 0};
    const J& j = e["mm"];
    susa::matrix<T> m((size_t)j["r"].i, (size_t)j["c"].i);
    for (size_t k = 0; k < m.size(); k++) m(k) = cv.in(j["d"][k]);
    auto show = [&](const susa::matrix<T>& a) {
        std::string t = "{\"r\":" + std::to_string(a.no_rows()) + ",\"c\":" + std::to_string(a.no_cols()) + ",\"d\":[";
        for (size_t k = 0; k < a.size(); k++) t += (k ? "," : "") + cv.out(a(k));
        return t + "]}";
    };
    auto show_u = [&](const susa::matrix<unsigned int>& a) {
        std::string t = "{\"r\":" + std::to_string(a.no_rows()) + ",\"c\":" + std::to_string(a.no_cols()) + ",\"d\":[";
        for (size_t k = 0; k < a.size(); k++) t += (k ? "," : "") + std::to_string(a(k) > 2000000000u ? NOTINT : (long long)a(k));
        return t + "]}";
    };
    const std::string& op = e["op"].s;
    const susa::matrix<T>& cm = m;
    if (op == "sort") out.raw("res", show(susa::sort(cm)));
    else if (op == "sort_indices") out.raw("res", show_u(susa::sort_indices(cm)));
    else if (op == "select_least") out.raw("res", show_u(susa::select_least(cm, (unsigned)e["n"].i)));
    else if (op == "select_most") out.raw("res", show_u(susa::select_most(cm, (unsigned)e["n"].i)));
    else if (op == "select_limited_least")
    {
        size_t n = e["ix"].n();
        susa::matrix<unsigned int> ix = e.geti("row", 0) ? susa::matrix<unsigned int>(1, n) : susa::matrix<unsigned int>(n, 1);
        for (size_t k = 0; k < n; k++) ix(k) = (unsigned)e["ix"][k].i;
        out.raw("res", show_u(susa::select_limited_least(cm, ix, (unsigned)e["n"].i)));
    }
    else if (op == "find")
    {
        T v = cv.in(e["v"]);
        susa::bitset b = susa::find(cm, v);
        std::vector<long> r;
        for (size_t k = 0; k < m.size() + 70; k++) if (b.exists(k)) r.push_back((long)k);
        out.list("res", r).i("any", b.any() ? 1 : 0);
    }
    else if (op == "dijkstra")
    {
        out.raw("res", show_u(susa::dijkstra(cm, (unsigned)e["src0"].i)));
    }
    else _exit(X_HARNESS);
    out.raw("src", show(m));
}

void drv_reset() {}
void drv_command(const J& e, Out& out)
{
    const std::string& t = e["t"].s;
    if (t == "d") ops<double>(e, out);
    else if (t == "f") ops<float>(e, out);
    else if (t == "i") ops<int>(e, out);
    else if (t == "b") ops<int8_t>(e, out);
    else if (t == "u") ops<uint8_t>(e, out);
    else if (t == "l") ops<long>(e, out);
    else if (t == "n") ops<unsigned int>(e, out);
    else _exit(X_HARNESS);
}
