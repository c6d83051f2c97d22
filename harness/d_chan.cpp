// intersymbol interference channels
#define VERIF_MAIN
#include "common.h"
void drv_reset() {}
std::string enc_lr(double x)
{
    if (!std::isfinite(x) || x < 0) return "[-1,0]";
    if (x == 0) return "[0,0]";
    int ex;
    double f = std::frexp(x, &ex);
    long long m = std::llround(std::ldexp(f, 30));
    if (m == 1LL << 30) { m /= 2; ex++; }
    return "[" + std::to_string(m) + "," + std::to_string(ex - 30) + "]";
}
template <class M> std::string enc_lrs(const M& m)
{
    std::string t = "[";
    for (size_t k = 0; k < m.size(); k++) { if (k) t += ","; t += enc_lr(m(k)); }
    return t + "]";
}
template <class T> susa::matrix<T> vec(const J& d, double s, bool row = false)
{
    std::vector<T> v = dec_vec<T>(d, s);
    susa::matrix<T> m = row ? susa::matrix<T>(1, v.size()) : susa::matrix<T>(v.size(), 1);
    for (size_t k = 0; k < v.size(); k++) m(k) = v[k];
    return m;
}
template <class T> void run(const J& e, Out& out)
{
    typedef susa::channel<T> C;
    double s = (double)e["s"].i, ss = s * s;
    susa::matrix<T> taps = vec<T>(e["h"], s, true), pam = vec<T>(e["a"], s, e.geti("row", 0));
    std::unique_ptr<C> c(new C(taps, pam));
    const std::string& u = e["use"].s;
    if (u == "copy") { std::unique_ptr<C> d(new C(*c)); c.swap(d); }
    else if (u == "assign") { std::unique_ptr<C> d(new C(vec<T>(e["a"], s, true), taps)); *d = *c; c.swap(d); }
    else if (u == "clobber") { taps = susa::matrix<T>(1, 2, 7); pam = susa::matrix<T>(1, 3, 5); }
    std::string res = "[";
    for (size_t k = 0; k < e["calls"].n(); k++)
    {
        const J& q = e["calls"][k];
        const std::string& op = q["op"].s;
        if (k) res += ",";
        if (op == "enc") res += "{\"res\":" + enc_mat(c->encode_isi(vec<T>(q["x"], s), (unsigned)q["s0"].i), ss, true) + "}";
        else if (op == "mlse")
        {
            susa::matrix<T> y = vec<T>(q["y"], ss, q.geti("row", 0));
            res += "{\"res\":" + enc_mat(c->decode_mlse(y, (unsigned)q["s0"].i), s, true) + "}";
        }
        else if (op == "clean") res += "{\"res\":" + enc_mat(c->decode_mlse(vec<T>(q["y"], ss)), s, true) + "}";
        else if (op == "link")      // the library's own encoder or convolution, and back
        {
            susa::matrix<T> x = vec<T>(q["x"], s);
            susa::matrix<T> r = q.geti("full", 0) ? c->decode_mlse(susa::conv(x, vec<T>(e["h"], s, true)))
                                                  : c->decode_mlse(c->encode_isi(x, (unsigned)q["s0"].i), (unsigned)q["s0"].i);
            res += "{\"res\":" + enc_mat(r, s, true) + "}";
        }
        else if (op == "bcjr")
        {
            // likelihood of a distance d/ss: 2^(-q d^2)
            T ebn0 = (T)(std::log(2.0) * q["q"].i * ss * ss);
            res += "{\"lr\":" + enc_lrs(c->decode_bcjr(vec<T>(q["y"], ss, q.geti("row", 0)), ebn0)) + "}";
        }
        else _exit(X_HARNESS);
    }
    out.raw("res", res + "]");
}
void drv_command(const J& e, Out& out)
{
    if (e["t"].s == "f") run<float>(e, out);
    else run<double>(e, out);
}
