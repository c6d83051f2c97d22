// modulation: bpsk, qam, awgn
#define VERIF_MAIN
#include "common.h"
template <class T, template <typename> class A> static void noise(const J& e, Out& out)
{
    auto x = dec_mat<T, A<T>>(e["x"], (double)e["s"].i);
    const auto& cx = x;
    float snr = (float)((double)e["db2"].i / 2);
    double q = (double)e["q"].i;
    unsigned ovs = (unsigned)e["ovs"].i;
    if (ovs == 1 && e.geti("dflt", 0)) out.raw("noise", enc_mat(susa::awgn<T, A>(cx, snr), q, false));
    else out.raw("noise", enc_mat(susa::awgn<T, A>(cx, snr, ovs), q, false));
    out.raw("src", enc_mat(x, (double)e["s"].i));
}
template <class T> static void noise1(const J& e, Out& out)
{
    if (e["al"].s == "log") noise<T, susa::allocator_log>(e, out); else noise<T, std::allocator>(e, out);
}
void drv_reset() {}
void drv_command(const J& e, Out& out)
{
    const std::string& op = e["op"].s;
    if (op == "bpsk")
    {
        auto x = dec_mat<uint8_t>(e["x"]);
        const auto& cx = x;
        out.raw("res", enc_mat(susa::bpsk(cx))).raw("src", enc_mat(x));
    }
    else if (op == "qam")
    {
        susa::qam q((unsigned)e["m"].i);
        std::unique_ptr<susa::qam> other;
        if (e.geti("copy", 0)) { other.reset(new susa::qam(q)); susa::qam z(64); z.demodulate_symbol({1, 1}); }
        susa::qam& u = other ? *other : q;
        out.raw("con", enc_mat(u.get_constellation(), 2));
        std::vector<std::complex<double>> r;
        for (auto& y : e["y"].a) r.push_back(u.demodulate_symbol(std::complex<double>((double)y[0].i / 16, (double)y[1].i / 16)));
        out.raw("dem", enc_vec(r, 2));
        std::vector<double> d;
        for (auto& b : e["db2"].a) d.push_back(u.get_noise_deviation((double)b.i / 2));
        out.raw("dev", enc_vec(d, 1e6, false));
    }
    else if (op == "awgn")
    {
        const std::string& t = e["t"].s;
        if (t == "i") noise1<int>(e, out); else if (t == "b") noise1<int8_t>(e, out); else if (t == "u") noise1<uint8_t>(e, out);
        else if (t == "f") noise1<float>(e, out); else if (t == "d") noise1<double>(e, out);
        else if (t == "cf") noise1<std::complex<float>>(e, out); else noise1<std::complex<double>>(e, out);
    }
    else _exit(X_HARNESS);
}
