// conversions between element types
#define VERIF_MAIN
#include "common.h"

template <class T, class A, class T2> static void conv2(const J& e, Out& out)
{
    double s = (double)e["s"].i;
    auto m = dec_mat<T, A>(e["mm"], s);
    susa::matrix<T2> r = (susa::matrix<T2>)m;
    using R = typename real_of<T2>::type;
    out.raw("res", enc_mat(r, std::is_integral_v<R> ? 1 : s, true));
    out.raw("src", enc_mat(m, s, true));
}
template <class T, class A> static void conv1r(const J& e, Out& out)
{
    std::string t = e["t2"].s;
    if (t == "d") conv2<T, A, double>(e, out);
    else if (t == "f") conv2<T, A, float>(e, out);
    else if (t == "i") conv2<T, A, int>(e, out);
    else if (t == "b") conv2<T, A, int8_t>(e, out);
    else if (t == "u") conv2<T, A, uint8_t>(e, out);
    else _exit(X_HARNESS);
}
template <class T, class A> static void conv1c(const J& e, Out& out)
{
    std::string t = e["t2"].s;
    if (t == "cd") conv2<T, A, std::complex<double>>(e, out);
    else if (t == "cf") conv2<T, A, std::complex<float>>(e, out);
    else if (t == "ci") conv2<T, A, std::complex<int>>(e, out);
    else if (t == "cb") conv2<T, A, std::complex<int8_t>>(e, out);
    else if (t == "cu") conv2<T, A, std::complex<uint8_t>>(e, out);
    else _exit(X_HARNESS);
}
template <class T> static void conv0(const J& e, Out& out)
{
    bool log = e["al"].s == "log";
    if constexpr (is_cx<T>::value) { if (log) conv1c<T, susa::allocator_log<T>>(e, out); else conv1c<T, std::allocator<T>>(e, out); }
    else { if (log) conv1r<T, susa::allocator_log<T>>(e, out); else conv1r<T, std::allocator<T>>(e, out); }
}
void drv_reset() {}
void drv_command(const J& e, Out& out)
{
    std::string t = e["t"].s;
    if (t == "d") conv0<double>(e, out);
    else if (t == "f") conv0<float>(e, out);
    else if (t == "i") conv0<int>(e, out);
    else if (t == "b") conv0<int8_t>(e, out);
    else if (t == "u") conv0<uint8_t>(e, out);
    else if (t == "cd") conv0<std::complex<double>>(e, out);
    else if (t == "cf") conv0<std::complex<float>>(e, out);
    else if (t == "ci") conv0<std::complex<int>>(e, out);
    else if (t == "cb") conv0<std::complex<int8_t>>(e, out);
    else if (t == "cu") conv0<std::complex<uint8_t>>(e, out);
    else _exit(X_HARNESS);
}
