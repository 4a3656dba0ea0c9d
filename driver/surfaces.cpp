#include "vq.hpp"

namespace vq
{
namespace
{
    Surface::AlignAxis axis(int a)
    {
        return a == 1 ? Surface::AlignAxis::XAxis : a == 2 ? Surface::AlignAxis::YAxis : Surface::AlignAxis::ZAxis;
    }

}
    void add_surfaces(Table& T)
    {
        // ---- surfaces
        T["seval"] = [](Event& e, Args& A) {
            e.r = A.s(); double x = A.x(), y = A.x();
            e.in("r", e.r)("x", x)("y", y);
            e.out("res", need(W.surfs, e.r).Evaluate(x, y));
        };
        T["sders"] = [](Event& e, Args& A) {
            e.r = A.s(); double x = A.x(), y = A.x(); int a = A.n(), b = A.n();
            e.in("r", e.r)("x", x)("y", y)("a", a)("b", b);
            auto g = need(W.surfs, e.r).EvaluateAll(x, y, a, b);
            e.out("nu", (int)(g.UCount))("nv", (int)(g.VCount)).raw("tab", arr(g.Values.begin(), g.Values.end(), v3));
        };
        T["sder"] = [](Event& e, Args& A) {
            e.r = A.s(); double x = A.x(), y = A.x(); int a = A.n(), b = A.n();
            e.in("r", e.r)("x", x)("y", y)("a", a)("b", b);
            e.out("res", need(W.surfs, e.r).EvaluateDerivative(x, y, a, b));
        };
        T["srat"] = [](Event& e, Args& A) {
            e.r = A.s();
            e.in("r", e.r);
            e.out("res", (int)(need(W.surfs, e.r).IsRational()));
        };
        T["sins"] = [](Event& e, Args& A) {
            e.d = A.s(); e.r = A.s(); std::string dir = A.s(), form = A.s(); auto xs = A.xs();
            e.in("d", e.d)("r", e.r)("dir", dir)("xs", xs);
            const Surface& s = need(W.surfs, e.r);
            const auto before = xs;
            Surface out;
            if (dir == "u")
                out = form == "one" ? s.InsertKnotU(xs.at(0))
                    : form == "times" ? s.InsertKnotU(xs.at(0), (int)xs.size())
                    : s.InsertKnotU(std::span<Numeric>(xs));
            else
                out = form == "one" ? s.InsertKnotV(xs.at(0))
                    : form == "times" ? s.InsertKnotV(xs.at(0), (int)xs.size())
                    : s.InsertKnotV(std::span<Numeric>(xs));
            g_args_kept = g_args_kept && xs == before;
            e.out.raw("o", obj(out));
            W.put(e.d, out);
        };
        T["srem"] = [](Event& e, Args& A) {
            e.d = A.s(); e.r = A.s(); std::string dir = A.s(); double x = A.x(); int n = A.n(); double tol = A.x();
            e.in("d", e.d)("r", e.r)("dir", dir)("x", x)("n", n)("tol", tol);
            const Surface& s = need(W.surfs, e.r);
            auto [out, t] = dir == "u" ? s.RemoveKnotU(x, n, tol) : s.RemoveKnotV(x, n, tol);
            e.out("t", t).raw("o", obj(out));
            W.put(e.d, out);
        };
        T["selev"] = [](Event& e, Args& A) {
            e.d = A.s(); e.r = A.s(); std::string dir = A.s(); int t = A.n();
            e.in("d", e.d)("r", e.r)("dir", dir)("t", t);
            const Surface& s = need(W.surfs, e.r);
            Surface out = dir == "u" ? s.ElevateDegreeU(t) : s.ElevateDegreeV(t);
            e.out.raw("o", obj(out));
            W.put(e.d, out);
        };
        T["sxform"] = [](Event& e, Args& A) {
            e.d = A.s(); e.r = A.s(); Mat3x3 M = A.m9();
            std::vector<double> m;
            for (int i = 0; i < 9; ++i) m.push_back(M(i / 3, i % 3));
            e.in("d", e.d)("r", e.r)("M", m);
            Surface out = need(W.surfs, e.r).Transform(M);
            e.out.raw("o", obj(out));
            W.put(e.d, out);
        };
        T["salign"] = [](Event& e, Args& A) {
            e.d = A.s(); e.r = A.s(); int au = A.n(), av = A.n();
            e.in("d", e.d)("r", e.r)("au", au)("av", av);
            Surface out = need(W.surfs, e.r).AlignParameterDomain(axis(au), axis(av));
            e.out.raw("o", obj(out));
            W.put(e.d, out);
        };
        T["ssearch"] = [](Event& e, Args& A) {
            e.r = A.s(); Vec3 p = A.p3(); auto at = A.xs(); auto init = A.xs();
            e.in("r", e.r)("q", p)("at", at)("init", init);
            const Surface& s = need(W.surfs, e.r);
            auto [u, v] = init.empty() ? s.SearchParameter(p) : init.size() == 2 ? s.SearchParameter(p, init[0], init[1])
                                       : s.SearchParameter(p, init[0], init[1], init[2], init[3]);
            e.out("res", std::vector<double>{u, v});
        };
        T["ssearchon"] = [](Event& e, Args& A) {
            e.r = A.s(); Vec3 p = A.p3(); int dir = A.n(); double held = A.x(); auto at = A.xs(); auto init = A.xs();
            e.in("r", e.r)("q", p)("dir", dir)("held", held)("at", at)("init", init);
            const Surface& s = need(W.surfs, e.r);
            auto [u, v] = init.empty() ? s.SearchParameterOn(p, dir, held) : init.size() == 1 ? s.SearchParameterOn(p, dir, held, init[0])
                                       : s.SearchParameterOn(p, dir, held, init[0], init[1], init[2]);
            e.out("res", std::vector<double>{u, v});
        };
        T["sbsearchon"] = [](Event& e, Args& A) {
            e.r = A.s(); Vec3 p = A.p3(); int dir = A.n(); double held = A.x(); auto at = A.xs(); auto init = A.xs();
            e.in("r", e.r)("q", p)("dir", dir)("held", held)("at", at)("init", init);
            const Surface& s = need(W.surfs, e.r);
            auto [u, v] = init.empty() ? s.BinarySearchParameterOn(p, dir, held) : s.BinarySearchParameterOn(p, dir, held, init[0], init[1]);
            e.out("res", std::vector<double>{u, v});
        };

    }

    void add_builders(Table& T)
    {
        // ---- builders
        T["gseg"] = [](Event& e, Args& A) {
            e.d = A.s(); int p = A.n(), n = A.n(); Vec3 a = A.p3(), b = A.p3();
            e.in("d", e.d)("p", p)("n", n)("A", a)("B", b);
            auto g = GeomSegment::Make(a, b);
            g.Degree = p;
            g.ControlPointCount = n;
            Curve out = g.GetCurve();
            e.out.raw("o", obj(out));
            W.put(e.d, out);
        };
        T["grect"] = [](Event& e, Args& A) {
            e.d = A.s(); int pu = A.n(), pv = A.n(), nu = A.n(), nv = A.n(); Vec3 lb = A.p3(), rb = A.p3(), lt = A.p3();
            e.in("d", e.d)("pu", pu)("pv", pv)("nu", nu)("nv", nv)("LB", lb)("RB", rb)("LT", lt);
            auto g = GeomRect::Make(lb, rb, lt, rb + lt - lb);
            g.DegreeU = pu;
            g.DegreeV = pv;
            g.ControlPointCountU = nu;
            g.ControlPointCountV = nv;
            Surface out = g.GetSurface();
            e.out.raw("o", obj(out));
            W.put(e.d, out);
        };

    }

}
