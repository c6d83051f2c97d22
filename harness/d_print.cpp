// stream output of matrices, standard vectors, pairs and tuples
#define VERIF_MAIN
#include "common.h"
#include <sstream>
static std::ostringstream* os = nullptr;
static bool kept;
template <class T> struct Conv { static T of(const J& x) { if constexpr (std::is_integral_v<T>) return (T)x.i; else return (T)x.i / 16; } };
template <> struct Conv<std::string> { static std::string of(const J& x) { std::string s; for (size_t k = 0; k < x.n(); k++) s += (char)x[k].i; return s; } };
template <class U> struct Conv<std::complex<U>> { static std::complex<U> of(const J& x) { return std::complex<U>(Conv<U>::of(x[0]), Conv<U>::of(x[1])); } };
template <class T> static std::vector<T> vec(const J& x) { std::vector<T> v; for (size_t k = 0; k < x.n(); k++) v.push_back(Conv<T>::of(x[k])); return v; }
template <class V> static void show(const V& v) { V keep = v; *os << v; kept = keep == v; }
template <class T, class A> static void mat(const J& v)
{
    susa::matrix<T, A> m;
    if (v["r"].i) m = susa::matrix<T, A>((size_t)v["r"].i, (size_t)v["c"].i);
    for (size_t k = 0; k < m.size(); k++) m(k) = Conv<T>::of(v["x"][k]);
    const susa::matrix<T, A> keep(m);
    *os << keep;
    kept = true;
    for (size_t k = 0; k < m.size(); k++) kept = kept && m(k) == keep(k);
}
template <class T> static void mats(const J& v) { if (v.geti("log", 0)) mat<T, susa::allocator_log<T>>(v); else mat<T, std::allocator<T>>(v); }
static std::string types(const J& v)
{
    if (v["k"].s == "num") return v["t"].s;
    if (v["k"].s == "vec") return "V" + v["t"].s;
    if (v["k"].s == "mat") return "M" + v["t"].s;
    if (v["k"].s == "pair") return "(" + types(v["a"]) + types(v["b"]) + ")";
    std::string s = "<";
    for (size_t k = 0; k < v["x"].n(); k++) s += types(v["x"][k]);
    return s + ">";
}
template <class T> static T num(const J& v) { return Conv<T>::of(v["x"]); }
typedef std::string S;
typedef std::complex<double> C;
void drv_reset() { delete os; os = new std::ostringstream; }
void drv_command(const J& e, Out& out)
{
    if (e["op"].s == "begin") return;
    if (!os) drv_reset();
    if (e["prec"].i) os->precision((int)e["prec"].i);
    const J& v = e["v"];
    const std::string t = types(v);
    kept = false;
    if (v["k"].s == "mat")
    {
        const std::string& n = v["t"].s;
        if (n == "i") mats<int>(v); else if (n == "b") mats<int8_t>(v); else if (n == "u") mats<uint8_t>(v); else if (n == "w") mats<unsigned int>(v);
        else if (n == "d") mats<double>(v); else if (n == "f") mats<float>(v); else if (n == "c") mats<C>(v); else if (n == "cf") mats<std::complex<float>>(v);
        else if (n == "cb") mats<std::complex<int8_t>>(v); else if (n == "cu") mats<std::complex<uint8_t>>(v);
        else _exit(X_HARNESS);
    }
    else if (t == "Vi") show(vec<int>(v["x"])); else if (t == "Vw") show(vec<unsigned int>(v["x"])); else if (t == "Vd") show(vec<double>(v["x"])); else if (t == "Vf") show(vec<float>(v["x"]));
    else if (t == "Vs") show(vec<S>(v["x"])); else if (t == "Vc") show(vec<C>(v["x"]));
#define A(T) num<T>(v["a"])
#define B(T) num<T>(v["b"])
    else if (t == "(id)") show(std::make_pair(A(int), B(double)));
    else if (t == "(si)") show(std::make_pair(A(S), B(int)));
    else if (t == "(sc)") show(std::make_pair(A(S), B(C)));
    else if (t == "(Vii)") show(std::make_pair(vec<int>(v["a"]["x"]), B(int)));
    else if (t == "(sVd)") show(std::make_pair(A(S), vec<double>(v["b"]["x"])));
    else if (t == "((id)s)") show(std::make_pair(std::make_pair(num<int>(v["a"]["a"]), num<double>(v["a"]["b"])), B(S)));
#define N(k, T) num<T>(v["x"][k])
    else if (t == "<>") show(std::tuple<>());
    else if (t == "<i>") show(std::make_tuple(N(0, int)));
    else if (t == "<s>") show(std::make_tuple(N(0, S)));
    else if (t == "<id>") show(std::make_tuple(N(0, int), N(1, double)));
    else if (t == "<dsi>") show(std::make_tuple(N(0, double), N(1, S), N(2, int)));
    else if (t == "<wwww>") show(std::make_tuple(N(0, unsigned), N(1, unsigned), N(2, unsigned), N(3, unsigned)));
    else if (t == "<cis>") show(std::make_tuple(N(0, C), N(1, int), N(2, S)));
    else _exit(X_HARNESS);
    std::string s = os->str();
    std::vector<int> c;
    for (unsigned char ch : s) c.push_back(ch);
    out.list("txt", c).i("kept", kept);
}
