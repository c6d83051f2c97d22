// linear solvers, rank
#define VERIF_MAIN
#include "common.h"
template <class T> static void ops(const J& e, Out& out)
{
    double s = (double)e["s"].i;
    const double Q = 65536;
    susa::matrix<T> a = dec_mat<T, std::allocator<T>>(e["x"], s);
    const susa::matrix<T>& ca = a;
    const std::string& op = e["op"].s;
    int again = (int)e.geti("again", 0);
    if constexpr (std::is_floating_point_v<T>)
    {
        if (op == "lu")
        {
            susa::lu<T> f(ca);
            bool ok = f.decompose();
            if (again) ok = f.decompose();
            out.i("ok", ok).raw("u", enc_mat(f.get_upper(), 1024, false)).raw("l", enc_mat(f.get_lower(), 1024, false));
        }
        else if (op == "lup" || op == "lupalt")
        {
            susa::matrix<T> first = ca;
            susa::lup<T> f = e["td"].i ? susa::lup<T>(a, (double)e["tn"].i / (double)e["td"].i / s) : susa::lup<T>(a);
            bool ok;
            if (again)
            {   // an earlier decomposition, of another content of the same matrix, leaves no trace
                for (size_t k = 0; k < a.size(); k++) a(k) = (T)((k * 7 + 3) % 5);
                if (again == 1) f.decompose(); else f.decompose_alt();
                a = first;
            }
            ok = op == "lup" ? f.decompose() : f.decompose_alt();
            out.i("ok", ok);
            if (ok)
            {
                out.raw("lu", enc_mat(f.get_lu(), 16384, false));
                if (op == "lupalt") out.raw("p", enc_mat(f.get_pivot()));
                for (int k = 0; k < 2; k++)
                {
                    susa::matrix<T> b = dec_mat<T, std::allocator<T>>(e[k ? "b2" : "b"]);
                    const susa::matrix<T>& cb = b;
                    out.raw(k ? "y2" : "y", enc_mat(f.solve(cb), Q * (1 / s), false));
                    out.raw(k ? "srcb2" : "srcb", enc_mat(b));
                }
                out.raw("inv", enc_mat(f.invert(), Q * (1 / s), false));
            }
        }
        else if (op == "linsolve")
        {
            susa::matrix<T> b = dec_mat<T, std::allocator<T>>(e["b"]);
            const susa::matrix<T>& cb = b;
            out.raw("y", enc_mat(susa::linsolve(ca, cb), Q * (1 / s), false)).raw("srcb", enc_mat(b));
        }
        else if (op == "inv") out.raw("inv", enc_mat(susa::inv(ca), Q * (1 / s), false));
        else _exit(X_HARNESS);
    }
    out.raw("src", enc_mat(a, s));
}
template <class T, template <typename> class A> static void rank_op(const J& e, Out& out)
{
    double s = (double)e["s"].i;
    susa::matrix<T, A<T>> a = dec_mat<T, A<T>>(e["x"], s);
    const auto& ca = a;
    out.i("res", (long long)(e["eps"].i ? susa::rank(ca, 1.0 / (double)e["eps"].i) : susa::rank(ca)));
    out.raw("src", enc_mat(a, s));
}
template <class T> static void rank1(const J& e, Out& out)
{
    if (e["al"].s == "log") rank_op<T, susa::allocator_log>(e, out); else rank_op<T, std::allocator>(e, out);
}
void drv_reset() {}
void drv_command(const J& e, Out& out)
{
    const std::string& t = e["t"].s;
    if (e["op"].s == "rank")
    {
        if (t == "f") rank1<float>(e, out); else if (t == "i") rank1<int>(e, out); else if (t == "b") rank1<int8_t>(e, out); else rank1<double>(e, out);
        return;
    }
    if (t == "f") ops<float>(e, out); else ops<double>(e, out);
}
