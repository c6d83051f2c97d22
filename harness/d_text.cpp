// text to matrix and back
#define VERIF_MAIN
#include "common.h"
#include <sstream>
static std::string text(const J& j) { std::string t; for (auto& c : j.a) t += (char)c.i; return t; }
template <class T> static T number(long long m, int e2)      // m times 10^e2, correctly rounded
{
    if constexpr (std::is_integral_v<T>) { for (; e2 > 0; e2--) m *= 10; return (T)m; }
    else
    {
        std::string t = std::to_string(m) + "e" + std::to_string(e2);
        if constexpr (std::is_same_v<T, float>) return strtof(t.c_str(), nullptr);
        else return (T)strtod(t.c_str(), nullptr);
    }
}
template <class T, class A> static void ops(const J& e, Out& out)
{
    using M = susa::matrix<T, A>;
    const std::string& op = e["op"].s;
    if (op == "parse")
    {
        double sc = std::pow(10.0, (double)e["ps"].i);
        std::string t = text(e["txt"]), keep = t;
        int via = (int)e["via"].i;
        M m;
        if (via == 0) m = M(t);
        else if (via == 1) { M k(t); m = k; }
        else if (via == 2) m = t;
        else if (via == 3) m = t.c_str();
        else if (via == 4) { m = M(2, 2, T(7)); m = t; }
        else if (via == 5) { m = M(1, 6, T(7)); M o(m); m = t; if (o.size() != 6 || o(3) != T(7)) out.s("other", "changed"); }
        else if (via == 6) { m = M(t); m = t; }
        else { m = M(40, 30, T(7)); m = t.c_str(); }
        out.raw("res", enc_mat(m, sc, std::is_integral_v<T> ? true : false)).i("kept", t == keep);
    }
    else if (op == "print")
    {
        int e2 = (int)e["e2"].i;
        const J& x = e["x"];
        M m((size_t)x["r"].i, (size_t)x["c"].i);
        for (size_t k = 0; k < m.size(); k++) m(k) = number<T>(x["d"][k].i, e2);
        const M& cm = m;
        std::ostringstream os;
        if (e["prec"].i) os.precision((int)e["prec"].i);
        os << cm;
        std::string t = os.str();
        out.list("txt", std::vector<int>(t.begin(), t.end()));
        M b(t);
        out.i("same", b == m).i("rr", (long long)b.no_rows()).i("cc", (long long)b.no_cols());
        bool eq = b.size() == m.size();
        for (size_t k = 0; eq && k < m.size(); k++) eq = b(k) == number<T>(x["d"][k].i, e2);
        out.i("bits", eq);
    }
    else _exit(X_HARNESS);
}
template <class T> static void ops1(const J& e, Out& out)
{
    if (e["al"].s == "log") ops<T, susa::allocator_log<T>>(e, out); else ops<T, std::allocator<T>>(e, out);
}
void drv_reset() {}
void drv_command(const J& e, Out& out)
{
    const std::string& t = e["t"].s;
    if (t == "i") ops1<int>(e, out); else if (t == "b") ops1<int8_t>(e, out); else if (t == "u") ops1<uint8_t>(e, out);
    else if (t == "f") ops1<float>(e, out); else ops1<double>(e, out);
}
