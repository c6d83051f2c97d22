// filtering, convolution, structured matrices
#define VERIF_MAIN
#include "common.h"

template <class T, class TT, template <typename> class A> static void ops(const J& e, Out& out)
{
    double s = (double)e["s"].i;
    auto x = dec_mat<T, A<T>>(e["x"], s);
    const auto& cx = x;
    const std::string& op = e["op"].s;
    if (op == "filter")
    {
        auto b = dec_mat<TT, A<TT>>(e["b"], 1), a = dec_mat<TT, A<TT>>(e["a"], 1);
        size_t n = (size_t)e["n"].i;
        if (n == 0 && e.geti("dflt", 0)) out.raw("res", enc_mat(susa::filter(b, a, cx), s));
        else out.raw("res", enc_mat(susa::filter(b, a, cx, n), s));
        out.raw("srcb", enc_mat(b));
    }
    else if constexpr (std::is_same_v<T, TT>)
    {
        if (op == "convmtx") out.raw("res", enc_mat(susa::convmtx(cx, (size_t)e["n"].i), s));
        else if (op == "toeplitz1") out.raw("res", enc_mat(susa::toeplitz(cx), s));
        else if (op == "upsample") out.raw("res", enc_mat(susa::upsample(cx, (size_t)e["n"].i), s));
        else if (op == "downsample") out.raw("res", enc_mat(susa::downsample(cx, (size_t)e["n"].i), s));
        else
        {
            double sb = op == "toeplitz2" ? s : 1;
            auto b = dec_mat<T, A<T>>(e["b"], sb);
            if (op == "conv") out.raw("res", enc_mat(susa::conv(cx, b), s));
            else if (op == "toeplitz2") out.raw("res", enc_mat(susa::toeplitz(cx, b), s));
            else if (op == "kron") out.raw("res", enc_mat(susa::kron(cx, b), s));
            else _exit(X_HARNESS);
            out.raw("srcb", enc_mat(b, sb));
        }
    }
    else _exit(X_HARNESS);
    out.raw("src", enc_mat(x, s));
}
template <class T, class TT> static void ops2(const J& e, Out& out)
{
    if (e["al"].s == "log") ops<T, TT, susa::allocator_log>(e, out); else ops<T, TT, std::allocator>(e, out);
}
void drv_reset() {}
void drv_command(const J& e, Out& out)
{
    const std::string &t = e["t"].s, &tt = e["tt"].s;
    if (t == "d") ops2<double, double>(e, out);
    else if (t == "f") ops2<float, float>(e, out);
    else if (t == "i") ops2<int, int>(e, out);
    else if (t == "b") ops2<int8_t, int8_t>(e, out);
    else if (t == "cd" && tt == "d") ops2<std::complex<double>, double>(e, out);
    else if (t == "cd") ops2<std::complex<double>, std::complex<double>>(e, out);
    else if (t == "cf") ops2<std::complex<float>, std::complex<float>>(e, out);
    else _exit(X_HARNESS);
}
