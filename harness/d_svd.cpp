// singular value decomposition
#define VERIF_MAIN
#include "common.h"
void drv_reset() {}
void drv_command(const J& e, Out& out)
{
    double f = std::ldexp(1.0, (int)e["e2"].i);     // the input is e.x times f
    susa::matrix<float> a = dec_mat<float, std::allocator<float>>(e["x"], 1 / f);
    const susa::matrix<float>& ca = a;
    susa::matrix<float> u, s, v;
    int pre = (int)e["pre"].i;                       // earlier content of the outputs
    if (pre) { u = susa::matrix<float>(3, 2, 7.0f); s = susa::matrix<float>(5, 1, -3.0f); v = susa::matrix<float>(2, 2, 9.0f); }
    if (pre == 2) susa::svd(susa::matrix<float>("1 2;3 4;5 6"), u, s, v);
    susa::svd(ca, u, s, v);
    out.raw("u", enc_mat(u, 1048576, false)).raw("v", enc_mat(v, 1048576, false)).raw("sv", enc_mat(s, 16384 / f, false));
    out.raw("src", enc_mat(a, 1 / f));
}
