// scalar helpers
#define VERIF_MAIN
#include "common.h"

static unsigned long long nat(const J& a)
{
    unsigned long long v = 0;
    for (size_t k = a.n(); k-- > 0;) v = v * 16384 + (unsigned long long)a[k].i;
    return v;
}
static long long integer(const J& z) { unsigned long long v = nat(z[1]); return z[0].i < 0 ? (long long)(0ull - v) : (long long)v; }
static std::string enc_nat(unsigned long long v)
{
    std::string t = "[";
    while (v) { t += std::to_string(v % 16384); v /= 16384; if (v) t += ","; }
    return t + "]";
}
static std::string enc_z(bool neg, unsigned long long mag) { return "[" + std::string(mag == 0 ? "0" : neg ? "-1" : "1") + "," + enc_nat(mag) + "]"; }
static std::string enc_int(long long v) { return enc_z(v < 0, v < 0 ? 0ull - (unsigned long long)v : (unsigned long long)v); }

template <class T> static void sgn(const J& e, Out& out) { T x = dec<T>(e["v"], (double)e["s"].i); out.i("res", susa::sign(x)); }

void drv_reset() {}
void drv_command(const J& e, Out& out)
{
    const std::string& op = e["op"].s;
    const std::string t = e.gets("t", "d");
    if (op == "pow")
    {
        unsigned int p = (unsigned)e["p"].i;
        if (t == "u") { unsigned int r = susa::pow((unsigned int)integer(e["b"]), p); out.raw("res", enc_z(false, r)); }
        else { int r = susa::pow((int)integer(e["b"]), p); out.raw("res", enc_int(r)); }
    }
    else if (op == "log2")
    {
        unsigned long long a = nat(e["a"]);
        long long r = 0;
        if (t == "8") r = susa::log2((uint8_t)a);
        else if (t == "16") r = susa::log2((uint16_t)a);
        else if (t == "32") r = susa::log2((uint32_t)a);
        else r = (long long)susa::log2((uint64_t)a);
        out.i("res", r);
    }
    else if (op == "mod") out.raw("res", enc_int(susa::mod((long)integer(e["a"]), (long)integer(e["m"]))));
    else if (op == "sign")
    {
        if (t == "i") sgn<int>(e, out); else if (t == "f") sgn<float>(e, out); else if (t == "b") sgn<int8_t>(e, out); else if (t == "u") sgn<uint8_t>(e, out); else if (t == "l") sgn<long>(e, out); else sgn<double>(e, out);
    }
    else if (op == "round")
    {
        double x = dec<double>(e["v"], 100000);
        double r = e.has("dec") ? susa::round(x, (int)e["dec"].i) : susa::round(x);
        out.raw("res", enc(r, 100000, false));
    }
    else if (op == "roundbig")
    {
        double r = susa::round((double)integer(e["a"]), (int)e["dec"].i);
        out.raw("res", enc_int((long long)r));
    }
    else if (op == "normcdf") out.raw("res", enc(susa::normcdf(dec<double>(e["v"], 65536) * (double)e.geti("mul", 1)), 1e9, false));
    else if (op == "qfunc") out.raw("res", enc(susa::qfunc(dec<double>(e["v"], 65536) * (double)e.geti("mul", 1)), 1e9, false));
    else _exit(X_HARNESS);
}
