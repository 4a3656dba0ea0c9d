#include "vq.hpp"

namespace vq
{
    void add_curves(Table& T)
    {
        // ---- curves
        T["ceval"] = [](Event& e, Args& A) {
            e.r = A.s(); double x = A.x();
            e.in("r", e.r)("x", x);
            e.out("res", need(W.curves, e.r).Evaluate(x));
        };
        T["cders"] = [](Event& e, Args& A) {
            e.r = A.s(); double x = A.x(); int m = A.n();
            e.in("r", e.r)("x", x)("m", m);
            auto v = need(W.curves, e.r).EvaluateAll(x, m);
            e.out.raw("res", arr(v.begin(), v.end(), v3));
        };
        T["cder"] = [](Event& e, Args& A) {
            e.r = A.s(); double x = A.x(); int m = A.n();
            e.in("r", e.r)("x", x)("m", m);
            e.out("res", need(W.curves, e.r).EvaluateDerivative(x, m));
        };
        T["crat"] = [](Event& e, Args& A) {
            e.r = A.s();
            e.in("r", e.r);
            e.out("res", (int)(need(W.curves, e.r).IsRational()));
        };
        T["cins"] = [](Event& e, Args& A) {
            e.d = A.s(); e.r = A.s(); std::string form = A.s(); auto xs = A.xs();
            e.in("d", e.d)("r", e.r)("xs", xs);
            const Curve& c = need(W.curves, e.r);
            const auto before = xs;
            Curve out = form == "one" ? c.InsertKnot(xs.at(0))
                      : form == "times" ? c.InsertKnot(xs.at(0), (int)xs.size())
                      : c.InsertKnot(std::span<Numeric>(xs));
            g_args_kept = g_args_kept && xs == before;
            e.out.raw("o", obj(out));
            W.put(e.d, out);
        };
        T["crem"] = [](Event& e, Args& A) {
            e.d = A.s(); e.r = A.s(); double x = A.x(); int n = A.n(); double tol = A.x();
            e.in("d", e.d)("r", e.r)("x", x)("n", n)("tol", tol);
            auto [out, t] = need(W.curves, e.r).RemoveKnot(x, n, tol);
            e.out("t", t).raw("o", obj(out));
            W.put(e.d, out);
        };
        T["celev"] = [](Event& e, Args& A) {
            e.d = A.s(); e.r = A.s(); int t = A.n();
            e.in("d", e.d)("r", e.r)("t", t);
            Curve out = need(W.curves, e.r).ElevateDegree(t);
            e.out.raw("o", obj(out));
            W.put(e.d, out);
        };
        T["cxform"] = [](Event& e, Args& A) {
            e.d = A.s(); e.r = A.s(); Mat3x3 M = A.m9();
            std::vector<double> m;
            for (int i = 0; i < 9; ++i) m.push_back(M(i / 3, i % 3));
            e.in("d", e.d)("r", e.r)("M", m);
            Curve out = need(W.curves, e.r).Transform(M);
            e.out.raw("o", obj(out));
            W.put(e.d, out);
        };
        T["cbez"] = [](Event& e, Args& A) {
            e.r = A.s();
            e.in("r", e.r);
            auto v = need(W.curves, e.r).ExtractBezier();
            e.out.raw("segs", arr(v.begin(), v.end(), [](const Curve& c) { return obj(c); }));
        };
        T["cbox"] = [](Event& e, Args& A) {
            e.r = A.s(); double eps = A.x();
            e.in("r", e.r)("eps", eps);
            e.out(need(W.curves, e.r).GetBoundingBox(eps));
        };
        T["csearch"] = [](Event& e, Args& A) {
            e.r = A.s(); Vec3 p = A.p3(); auto at = A.xs(); auto init = A.xs();
            e.in("r", e.r)("q", p)("at", at)("init", init);
            const Curve& c = need(W.curves, e.r);
            e.out("res", init.empty() ? c.SearchParameter(p) : init.size() == 1 ? c.SearchParameter(p, init[0])
                         : c.SearchParameter(p, init[0], init[1], init[2]));
        };
        T["cbsearch"] = [](Event& e, Args& A) {
            e.r = A.s(); Vec3 p = A.p3(); auto at = A.xs(); auto init = A.xs();
            e.in("r", e.r)("q", p)("at", at)("init", init);
            const Curve& c = need(W.curves, e.r);
            e.out("res", init.empty() ? c.BinarySearchParameter(p) : c.BinarySearchParameter(p, init[0], (int)init[1]));
        };

    }

    void add_basis(Table& T)
    {
        // ---- basis functions
        T["beval"] = [](Event& e, Args& A) {
            e.r = A.s(); int p = A.n(); double x = A.x();
            e.in("r", e.r)("p", p)("x", x);
            e.out.raw("res", vx(BSplineBasis::Evaluate(p, need(W.kvs, e.r), x)));
        };
        T["bevalat"] = [](Event& e, Args& A) {
            e.r = A.s(); int p = A.n(), k = A.n(); double x = A.x();
            e.in("r", e.r)("p", p)("k", k)("x", x);
            e.out.raw("res", vx(BSplineBasis::Evaluate(p, need(W.kvs, e.r).Values(), k, x)));
        };
        T["bders"] = [](Event& e, Args& A) {
            e.r = A.s(); int p = A.n(); double x = A.x(); int m = A.n();
            e.in("r", e.r)("p", p)("x", x)("m", m);
            e.out.raw("res", mx(BSplineBasis::EvaluateAll(p, need(W.kvs, e.r), x, m)));
        };
        T["bdersat"] = [](Event& e, Args& A) {
            e.r = A.s(); int p = A.n(), k = A.n(); double x = A.x(); int m = A.n();
            e.in("r", e.r)("p", p)("k", k)("x", x)("m", m);
            e.out.raw("res", mx(BSplineBasis::EvaluateAll(p, need(W.kvs, e.r).Values(), k, x, m)));
        };
        T["bder"] = [](Event& e, Args& A) {
            e.r = A.s(); int p = A.n(); double x = A.x(); int m = A.n();
            e.in("r", e.r)("p", p)("x", x)("m", m);
            e.out.raw("res", vx(BSplineBasis::EvaluateDerivative(p, need(W.kvs, e.r), x, m)));
        };
        T["bderat"] = [](Event& e, Args& A) {
            e.r = A.s(); int p = A.n(), k = A.n(); double x = A.x(); int m = A.n();
            e.in("r", e.r)("p", p)("k", k)("x", x)("m", m);
            e.out.raw("res", vx(BSplineBasis::EvaluateDerivative(p, need(W.kvs, e.r).Values(), k, x, m)));
        };

    }

}
