// A pool of live matrices of one element type and allocator, driven by commands.
#ifndef VERIF_POOL_H
#define VERIF_POOL_H
#include "common.h"

struct PoolBase
{
    virtual ~PoolBase() {}
    virtual void exec(const J& e, Out& out) = 0;
    virtual std::string dump(long long via) = 0;
    virtual size_t bytes() = 0;
};

template <class T, class A> struct Pool : PoolBase
{
    using M = susa::matrix<T, A>;
    double s;                       // scale of the elements in the trace
    bool ex;                        // values are exact at this scale
    std::map<int, std::unique_ptr<M>> m;

    explicit Pool(double scale) : s(scale), ex(std::log2(scale) == std::floor(std::log2(scale))) {}

    M& at(const J& e, const char* k)
    {
        int x = (int)e[k].i;
        auto it = m.find(x);
        if (it == m.end()) throw std::logic_error("dead slot");
        return *it->second;
    }
    const M& cat(const J& e, const char* k) { return at(e, k); }
    T v(const J& e, const char* k = "v") { return dec<T>(e[k], s); }
    // some numbers stand for those beyond the integers of the trace
    size_t p(const J& e, size_t n)
    {
        long long k = e["p"][n].i;
        return k == 2000000000 ? SIZE_MAX : k == 1999999999 ? (SIZE_MAX / 2 + 1) : k == 1999999998 ? (size_t)1 << 32 : (size_t)k;
    }
    // a new slot is constructed in place, an existing one is assigned to
    void put(const J& e, M&& r)
    {
        int x = (int)e["x"].i;
        auto it = m.find(x);
        if (it == m.end()) m[x].reset(new M(std::move(r)));
        else *it->second = r;
    }
    void fresh(const J& e, M* q) { m[(int)e["x"].i].reset(q); }

    static std::string num(size_t n) { return std::to_string(n > 2000000000ull ? NOTINT : (long long)n); }

    std::string dump(long long via) override
    {
        std::string t = "[";
        bool first = true;
        for (auto& q : m)
        {
            M& a = *q.second;
            const M& ca = a;
            if (!first) t += ",";
            first = false;
            size_t r = a.no_rows(), c = a.no_cols(), n = a.size();
            if (via == 1 || via == 4) std::tie(r, c) = a.shape();
            int flags = (a.is_square() ? 1 : 0) + (a.is_vector() ? 2 : 0) + (a.is_scalar() ? 4 : 0);
            t += "[" + std::to_string(q.first) + "," + num(r) + "," + num(c) + "," + num(n) + "," + std::to_string(flags) + ",[";
            if (n == r * c && n < 4000000)
            {
                std::vector<T> w(n);
                switch (via)
                {
                case 1: for (size_t j = 0; j < c; j++) for (size_t i = 0; i < r; i++) w[i + j * r] = ca.get(i, j); break;
                case 2: for (size_t k = 0; k < n; k++) w[k] = ca(k); break;
                case 3: for (size_t k = 0; k < n; k++) w[k] = a(k); break;
                case 4: for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) w[i + j * r] = a(i, j); break;
                case 5: for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) w[i + j * r] = ca(i, j); break;
                case 6: for (size_t i = 0; i < r; i++) { std::vector<T> u = a.get_row_as_vec(i); for (size_t j = 0; j < c; j++) w[i + j * r] = u.at(j); } break;
                case 7: for (size_t j = 0; j < c; j++) { std::vector<T> u = a.get_col_as_vec(j); for (size_t i = 0; i < r; i++) w[i + j * r] = u.at(i); } break;
                default: for (size_t k = 0; k < n; k++) w[k] = ca.get(k);
                }
                for (size_t k = 0; k < n; k++) { if (k) t += ","; t += enc(w[k], s, ex); }
            }
            t += "]]";
        }
        return t + "]";
    }

    size_t bytes() override { size_t n = 0; for (auto& q : m) n += q.second->size() * sizeof(T); return n; }

    static M byval(M a) { return a; }

    void exec(const J& e, Out& out) override
    {
        const std::string& op = e["op"].s;
        // ---- life cycle
        if (op == "new0") fresh(e, new M());
        else if (op == "newrc")  { if (e.geti("tup", 0)) fresh(e, new M(std::make_tuple(p(e, 0), p(e, 1)))); else fresh(e, new M(p(e, 0), p(e, 1))); }
        else if (op == "newrcv") { if (e.geti("tup", 0)) fresh(e, new M(std::make_tuple(p(e, 0), p(e, 1)), v(e))); else fresh(e, new M(p(e, 0), p(e, 1), v(e))); }
        else if (op == "load")   { put(e, dec_mat<T, A>(e["mm"], s)); }
        else if (op == "copy")   fresh(e, new M(cat(e, "y")));
        else if (op == "move")   fresh(e, new M(std::move(at(e, "y"))));
        else if (op == "assign") at(e, "x") = cat(e, "y");
        else if (op == "massign") at(e, "x") = std::move(at(e, "y"));
        else if (op == "assigntmp") at(e, "x") = M(p(e, 0), p(e, 1), v(e));
        else if (op == "assignval") at(e, "x") = byval(cat(e, "y"));
        else if (op == "swap")   std::swap(at(e, "x"), at(e, "y"));
        else if (op == "viavec")
        {
            std::vector<M> vec;
            vec.push_back(cat(e, "y"));
            for (int k = 0; k < 4; k++) vec.push_back(cat(e, "z"));
            vec.insert(vec.begin(), cat(e, "z"));
            vec.erase(vec.begin());
            std::reverse(vec.begin(), vec.end());
            at(e, "x") = vec.back();
        }
        else if (op == "del") { at(e, "x"); m.erase((int)e["x"].i); }
        else if (op == "resize") { bool r = at(e, "x").resize(p(e, 0), p(e, 1)); out.i("res_v", r); }
        // ---- elements
        else if (op == "set")  at(e, "x")(p(e, 0)) = v(e);
        else if (op == "set2") at(e, "x")(p(e, 0), p(e, 1)) = v(e);
        else if (op == "addto") { at(e, "x")(p(e, 0)) += v(e); }
        else if (op == "setall") at(e, "x").set_all(v(e));
        else if (op == "get")  out.raw("res_v", enc(cat(e, "y").get(p(e, 0)), s, ex));
        else if (op == "get2") out.raw("res_v", enc(cat(e, "y").get(p(e, 0), p(e, 1)), s, ex));
        else if (op == "at")   out.raw("res_v", enc(cat(e, "y")(p(e, 0)), s, ex));
        else if (op == "at2")  out.raw("res_v", enc(cat(e, "y")(p(e, 0), p(e, 1)), s, ex));
        else if (op == "mat")  out.raw("res_v", enc(T(at(e, "y")(p(e, 0))), s, ex));
        else if (op == "mat2") out.raw("res_v", enc(T(at(e, "y")(p(e, 0), p(e, 1))), s, ex));
        else if (op == "rowvec") out.raw("res_v", enc_vec(at(e, "y").get_row_as_vec(p(e, 0)), s, ex));
        else if (op == "colvec") out.raw("res_v", enc_vec(at(e, "y").get_col_as_vec(p(e, 0)), s));
        else if (op == "eq")
        {
            const M &a = cat(e, "x"), &b = cat(e, "y");
            bool r1 = a == b, r2 = a != b;
            out.i("res_v", (r1 ? 1 : 0) + (r2 ? 2 : 0));
        }
        // ---- slices
        else if (op == "row")    put(e, cat(e, "y").row(p(e, 0)));
        else if (op == "col")    put(e, cat(e, "y").col(p(e, 0)));
        else if (op == "left")   put(e, cat(e, "y").left(p(e, 0)));
        else if (op == "right")  put(e, cat(e, "y").right(p(e, 0)));
        else if (op == "mid")    put(e, cat(e, "y").mid(p(e, 0), p(e, 1)));
        else if (op == "shrink") put(e, cat(e, "y").shrink(p(e, 0), p(e, 1)));
        else if (op == "reshape") put(e, at(e, "y").reshape(p(e, 0), p(e, 1)));
        else if (op == "setrow") { bool r = at(e, "x").set_row(p(e, 0), cat(e, "y")); out.i("res_v", r); }
        else if (op == "setcol") { bool r = at(e, "x").set_col(p(e, 0), cat(e, "y")); out.i("res_v", r); }
        else if (op == "swaprows") at(e, "x").swap_rows(p(e, 0), p(e, 1));
        else if (op == "swapcols") at(e, "x").swap_cols(p(e, 0), p(e, 1));
        // ---- elementwise arithmetic
        else if (op == "add") put(e, cat(e, "y") + cat(e, "z"));
        else if (op == "sub") put(e, cat(e, "y") - cat(e, "z"));
        else if (op == "mul") put(e, cat(e, "y") * cat(e, "z"));
        else if (op == "div") put(e, cat(e, "y") / cat(e, "z"));
        else if (op == "adds") put(e, cat(e, "y") + v(e));
        else if (op == "subs") put(e, cat(e, "y") - v(e));
        else if (op == "muls") put(e, cat(e, "y") * v(e));
        else if (op == "divs") put(e, cat(e, "y") / v(e));
        else if (op == "sadd") put(e, v(e) + cat(e, "y"));
        else if (op == "ssub") put(e, v(e) - cat(e, "y"));
        else if (op == "smul") put(e, v(e) * cat(e, "y"));
        else if (op == "pluseq")  { M r = (at(e, "x") += cat(e, "y")); out.raw("res", enc_mat(r, s, ex)); }
        else if (op == "minuseq") { M r = (at(e, "x") -= cat(e, "y")); out.raw("res", enc_mat(r, s, ex)); }
        // ---- algebra
        else if (op == "transpose") put(e, susa::transpose(cat(e, "y")));
        else if (op == "matmul") put(e, susa::matmul(cat(e, "y"), cat(e, "z")));
        else if (op == "concat") put(e, susa::concat(cat(e, "y"), cat(e, "z")));
        else if (op == "fliplr") put(e, susa::fliplr(cat(e, "y")));
        else if (op == "flipud") put(e, susa::flipud(cat(e, "y")));
        else if (op == "eye") put(e, susa::eye<T, A>(p(e, 0)));
        else if (op == "kron") put(e, susa::kron(cat(e, "y"), cat(e, "z")));
        else if (op == "det")
        {
            if constexpr (!is_cx<T>::value)
            {
                // the determinant of f times the matrix, over the power of f that it brings
                M a = cat(e, "y");
                double f = (double)e.geti("f", 1);
                if (f != 1) for (size_t k = 0; k < a.size(); k++) a(k) = T(a(k) * T(f));
                out.raw("res_v", enc(susa::det(a) / std::pow(f, (double)a.no_rows()), std::pow(s, (double)a.no_rows()), ex));
            }
        }
        else if (op == "hermitian")
        {
            if constexpr (is_cx<T>::value) put(e, susa::hermitian(cat(e, "y")));
        }
        else if (op == "newtext" || op == "assigntext")
        {
            if constexpr (!is_cx<T>::value)
            {
                std::string t;
                for (auto& c : e["txt"].a) t += (char)c.i;
                if (op == "newtext") fresh(e, new M(t));
                else if (e.geti("cstr", 0)) at(e, "x") = t.c_str();
                else at(e, "x") = t;
            }
        }
        else { fprintf(stderr, "driver: unknown op %s\n", op.c_str()); _exit(X_HARNESS); }
    }
};

std::unique_ptr<PoolBase> make_pool(const std::string& t, const std::string& al, double s);
#endif
