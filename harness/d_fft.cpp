// Fourier transforms
#define VERIF_MAIN
#include "common.h"
template <class T, class A> static void ops(const J& e, Out& out)
{
    double s = (double)e["s"].i;
    auto x = dec_mat<T, A>(e["x"], s);
    const auto& cx = x;
    susa::fft<T, A> f;
    double q = s * 1048576;
    int again = (int)e.geti("again", 0);     // the transform object keeps no state between calls
    if (again) { susa::matrix<T, A> o(8, 1, T(3)); f.radix2(o); f.dft(o); }
    if (e["op"].s == "radix2") out.raw("res", enc_mat(f.radix2(cx), q, false));
    else if (e["op"].s == "dft") out.raw("res", enc_mat(f.dft(cx), q, false));
    else _exit(X_HARNESS);
    out.raw("src", enc_mat(x, s));
}
template <class T> static void ops1(const J& e, Out& out)
{
    if (e["al"].s == "log") ops<T, susa::allocator_log<T>>(e, out); else ops<T, std::allocator<T>>(e, out);
}
void drv_reset() {}
void drv_command(const J& e, Out& out) { if (e["t"].s == "f") ops1<float>(e, out); else ops1<double>(e, out); }
