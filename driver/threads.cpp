#include "vq.hpp"

namespace vq
{
    // Queries that touch nothing but the (const) objects: register first.
    std::string query(const std::string& line)
    {
        std::string op;
        Args A = split(line, op);
        const std::string r = A.s();
        const World& w = W;
        try
        {
            if (auto c = w.curves.find(r); c != w.curves.end())
            {
                const Curve& k = c->second;
                if (op == "eval") return v3(k.Evaluate(A.x()));
                if (op == "ders") { double x = A.x(); auto v = k.EvaluateAll(x, A.n()); return arr(v.begin(), v.end(), v3); }
                if (op == "der") { double x = A.x(); return v3(k.EvaluateDerivative(x, A.n())); }
                if (op == "rat") return I(k.IsRational());
                if (op == "search") return num(k.SearchParameter(A.p3()));
                if (op == "bsearch") return num(k.BinarySearchParameter(A.p3()));
                if (op == "ins") { auto xs = A.xs(); return obj(k.InsertKnot(std::span<Numeric>(xs))); }
                if (op == "ins1") { double x = A.x(); return obj(k.InsertKnot(x, A.n())); }
                if (op == "rem") { double x = A.x(); int n = A.n(); auto [o, t] = k.RemoveKnot(x, n, 1e-9); return "[" + I(t) + "," + obj(o) + "]"; }
                if (op == "elev") return obj(k.ElevateDegree(A.n()));
                if (op == "xform") return obj(k.Transform(A.m9()));
                if (op == "bez") { auto v = k.ExtractBezier(); return arr(v.begin(), v.end(), [](const Curve& z) { return obj(z); }); }
                if (op == "box") return "{" + box(k.GetBoundingBox(A.x())) + "}";
                if (op == "save") { std::ostringstream os; k.SaveToFile(os, A.n() == 1); return q(std::to_string(std::hash<std::string>{}(os.str()))); }
            }
            else if (auto s = w.surfs.find(r); s != w.surfs.end())
            {
                const Surface& k = s->second;
                if (op == "eval") { double x = A.x(); return v3(k.Evaluate(x, A.x())); }
                if (op == "ders") { double x = A.x(), y = A.x(); int a = A.n(); auto g = k.EvaluateAll(x, y, a, A.n()); return arr(g.Values.begin(), g.Values.end(), v3); }
                if (op == "der") { double x = A.x(), y = A.x(); int a = A.n(); return v3(k.EvaluateDerivative(x, y, a, A.n())); }
                if (op == "rat") return I(k.IsRational());
                if (op == "search") { auto [a, b] = k.SearchParameter(A.p3()); return nums({a, b}); }
                if (op == "searchon") { Vec3 p = A.p3(); int d = A.n(); auto [a, b] = k.SearchParameterOn(p, d, A.x()); return nums({a, b}); }
                if (op == "bsearchon") { Vec3 p = A.p3(); int d = A.n(); auto [a, b] = k.BinarySearchParameterOn(p, d, A.x()); return nums({a, b}); }
                if (op == "insu") { auto xs = A.xs(); return obj(k.InsertKnotU(std::span<Numeric>(xs))); }
                if (op == "insv") { auto xs = A.xs(); return obj(k.InsertKnotV(std::span<Numeric>(xs))); }
                if (op == "remu") { double x = A.x(); auto [o, t] = k.RemoveKnotU(x, A.n(), 1e-9); return "[" + I(t) + "," + obj(o) + "]"; }
                if (op == "remv") { double x = A.x(); auto [o, t] = k.RemoveKnotV(x, A.n(), 1e-9); return "[" + I(t) + "," + obj(o) + "]"; }
                if (op == "elevu") return obj(k.ElevateDegreeU(A.n()));
                if (op == "elevv") return obj(k.ElevateDegreeV(A.n()));
                if (op == "xform") return obj(k.Transform(A.m9()));
                if (op == "save") { std::ostringstream os; k.SaveToFile(os, A.n() == 1); return q(std::to_string(std::hash<std::string>{}(os.str()))); }
            }
            else if (auto u = w.kvs.find(r); u != w.kvs.end())
            {
                const KnotVector& k = u->second;
                if (op == "beval") { int p = A.n(); return vx(BSplineBasis::Evaluate(p, k, A.x())); }
                if (op == "bders") { int p = A.n(); double x = A.x(); return mx(BSplineBasis::EvaluateAll(p, k, x, A.n())); }
                if (op == "pairs") { auto v = k.GetKnotPairs(); return arr(v.begin(), v.end(), kp); }
                if (op == "span") { int p = A.n(); return I(k.FindSpanIndex(p, A.x())); }
                if (op == "mult") return I(k.GetMultiplicity(A.x()));
                if (op == "pspan") { auto v = k.FindSpan(A.x()); return "[" + I(v.Index) + "," + kp(v.Left) + "," + kp(v.Right) + "]"; }
                if (op == "flags") return "[" + I(k.IsValid()) + "," + I(k.IsClamped()) + "," + I(k.IsUniform()) + "]";
            }
        }
        catch (...)
        {
            return "\"exception\"";
        }
        std::fprintf(stderr, "script: unknown query %s\n", line.c_str());
        _exit(97);
    }
}
