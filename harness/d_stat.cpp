// reductions and elementwise maps
#define VERIF_MAIN
#include "common.h"

struct Ctx { const J& e; Out& out; std::string op; double s, q; bool ex; };

template <class M> static void putm(Ctx& c, const M& r) { c.out.raw("res", enc_mat(r, c.q, c.ex)); }
template <class M> static void puti(Ctx& c, const M& r) { c.out.raw("res", enc_mat(r, 1, true)); }

template <class T, class A> static void mat_ops(Ctx& c)
{
    using M = susa::matrix<T, A>;
    const J& e = c.e;
    M m = dec_mat<T, A>(e["mm"], c.s);
    const M& cm = m;
    const std::string& op = c.op;
    bool known = true;
    if (op == "sum") putm(c, susa::sum(cm));
    else if (op == "mean") putm(c, susa::mean(cm));
    else if constexpr (is_cx<T>::value)
    {
        if (op == "real") putm(c, susa::real(cm));
        else if (op == "imag") putm(c, susa::imag(cm));
        else if (op == "mag") putm(c, susa::mag(cm));
        else if (op == "conj") putm(c, susa::conj(cm));
        else if (op == "abs") putm(c, susa::abs(cm));
        else known = false;
    }
    else
    {
        if (op == "min") puti(c, susa::min(cm));
        else if (op == "max") puti(c, susa::max(cm));
        else if (op == "norm") putm(c, susa::norm(cm));
        else if (op == "abs") putm(c, susa::abs(cm));
        else if (op == "sign") puti(c, susa::sign(cm));
        else if (op == "log") putm(c, susa::log(cm));
        else if (op == "to_complex")
        {
            if constexpr (std::is_floating_point_v<T>) putm(c, susa::to_complex(cm)); else known = false;
        }
        else if (op == "round")
        {
            if constexpr (std::is_same_v<M, susa::matrix<double>>)
            {
                if (e.has("dec")) putm(c, susa::round(cm, (int)e["dec"].i)); else putm(c, susa::round(cm));
            }
            else known = false;
        }
        else known = false;
    }
    if (!known) { fprintf(stderr, "driver: %s is not defined on this type\n", op.c_str()); _exit(X_HARNESS); }
    c.out.raw("src", enc_mat(m, c.s, std::log2(c.s) == std::floor(std::log2(c.s))));
}

template <class T> static void vec_ops(Ctx& c)
{
    std::vector<T> v = dec_vec<T>(c.e["v"], c.s);
    const std::string& op = c.op;
    if (op == "vsum") c.out.raw("res", enc(susa::sum(v), c.q, c.ex));
    else if (op == "vmean") c.out.raw("res", enc(susa::mean(v), c.q, c.ex));
    else if (op == "vvar") c.out.raw("res", enc(susa::var(v), c.q, c.ex));
    else if (op == "vstdv") c.out.raw("res", enc(susa::stdv(v), c.q, c.ex));
    else if (op == "vabs") c.out.raw("res", enc_vec(susa::abs(v), c.q, c.ex));
    else if (op == "vdiff") c.out.raw("res", enc_vec(susa::diff(v), c.q, c.ex));
    else { fprintf(stderr, "driver: unknown op %s\n", op.c_str()); _exit(X_HARNESS); }
    c.out.raw("src", enc_vec(v, c.s, true));
}

template <class T> static void ops(Ctx& c)
{
    if (c.e.has("v"))
    {
        if constexpr (!is_cx<T>::value) vec_ops<T>(c); else _exit(X_HARNESS);
    }
    else if (c.e["al"].s == "log") mat_ops<T, susa::allocator_log<T>>(c);
    else mat_ops<T, std::allocator<T>>(c);
}

void drv_reset() {}
void drv_command(const J& e, Out& out)
{
    Ctx c{e, out, e["op"].s, (double)e["s"].i, (double)e["q"].i, e.geti("ex", 1) != 0};
    const std::string& t = e["t"].s;
    if (t == "d") ops<double>(c);
    else if (t == "f") ops<float>(c);
    else if (t == "i") ops<int>(c);
    else if (t == "b") ops<int8_t>(c);
    else if (t == "u") ops<uint8_t>(c);
    else if (t == "cd") ops<std::complex<double>>(c);
    else if (t == "cf") ops<std::complex<float>>(c);
    else _exit(X_HARNESS);
}
