// root-raised cosine taps
#define VERIF_MAIN
#include "common.h"
void drv_reset() {}
void drv_command(const J& e, Out& out)
{
    double alpha = (double)e["A"].i / (double)e["B"].i;
    susa::rrcosine f((unsigned)e["L"].i, alpha, (int)e["N"].i);
    auto g = f.get();
    out.raw("g", enc_mat(g, 1048576, false));
    if (e.geti("twice", 0)) { g = susa::matrix<double>(1, 1, 3.0); susa::rrcosine o(3, 0.5, 7); out.raw("g2", enc_mat(f.get(), 1048576, false)); }
}
