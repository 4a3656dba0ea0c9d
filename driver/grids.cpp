#include "vq.hpp"

namespace vq
{
namespace
{
    int enc(int x, int*) { return x; }
    int dec(int x) { return x; }
    std::string enc(int x, std::string*) { return x == 0 ? std::string() : "a grid cell holding the value " + std::to_string(x); }
    int dec(const std::string& s)
    {
        static const std::string pre = "a grid cell holding the value ";
        if (s.empty()) return 0;
        if (s.compare(0, pre.size(), pre) != 0) return -999999;
        return std::atoi(s.c_str() + pre.size());
    }
    Vec4 enc(int x, Vec4*) { return {(double)x, 2.0 * x + 1, -(double)x, 1.0 / 3}; }
    int dec(const Vec4& p)
    {
        int x = (int)p.x();
        return p == enc(x, (Vec4*)nullptr) ? x : -999999;
    }

    template <class T>
    struct GridOf : AnyGrid
    {
        Grid<T> g;
        static T e(int x) { return enc(x, (T*)nullptr); }
        GridOf(int u, int v, int x) : g(u, v, e(x)) {}
        GridOf(int u, int v) : g(u, v) {}           // cells hold T()
        bool zero_is_default() const override { return !std::is_same_v<T, Vec4>; }
        int nu() const override { return g.UCount; }
        int nv() const override { return g.VCount; }
        int count() const override { return g.Count(); }
        int stored() const override { return (int)g.Values.size(); }
        int get(int u, int v, bool cst) const override { return cst ? dec(g.Get(u, v)) : dec(const_cast<Grid<T>&>(g).Get(u, v)); }
        void set(int u, int v, int x) override { g.Get(u, v) = e(x); }
        static std::vector<int> down(const std::vector<T>& a)
        {
            std::vector<int> r;
            for (auto& x : a) r.push_back(dec(x));
            return r;
        }
        static std::vector<T> up(const std::vector<int>& a)
        {
            std::vector<T> r;
            for (int x : a) r.push_back(e(x));
            return r;
        }
        std::vector<int> getu(int u) const override { return down(g.GetU(u)); }
        std::vector<int> getv(int v) const override { return down(g.GetV(v)); }
        void setu(int u, const std::vector<int>& xs) override { g.SetU(u, up(xs)); }
        void setv(int v, const std::vector<int>& xs) override { g.SetV(v, up(xs)); }
        void insu(int k, int x) override { g.InsertU(k, e(x)); }
        void insv(int k, int x) override { g.InsertV(k, e(x)); }
        void insu0(int k) override { g.InsertU(k); }
        void insv0(int k) override { g.InsertV(k); }
        void insucell(int k, int u, int v) override { g.InsertU(k, g.Get(u, v)); }
        void insvcell(int k, int u, int v) override { g.InsertV(k, g.Get(u, v)); }
    };

    AnyGrid& G(Event& e, Args& A)
    {
        e.r = A.s();
        e.in("r", e.r);
        return *need(W.grids, e.r);
    }
    std::vector<int> line(Args& A)
    {
        std::vector<int> v((size_t)A.n());
        for (auto& x : v) x = A.n();
        return v;
    }
}
    void add_grids(Table& T)
    {
        // ---- grids
        T["gnew"] = [](Event& e, Args& A) {
            e.d = A.s(); std::string ty = A.s(); int nu = A.n(), nv = A.n(), x = A.n();
            e.in("r", e.d)("nu", nu)("nv", nv)("x", x);
            // value 0 is T() for these types
            if (ty == "int" && x == 0) W.grids[e.d] = std::make_unique<GridOf<int>>(nu, nv);
            else if (ty == "str" && x == 0) W.grids[e.d] = std::make_unique<GridOf<std::string>>(nu, nv);
            else if (ty == "int") W.grids[e.d] = std::make_unique<GridOf<int>>(nu, nv, x);
            else if (ty == "str") W.grids[e.d] = std::make_unique<GridOf<std::string>>(nu, nv, x);
            else W.grids[e.d] = std::make_unique<GridOf<Vec4>>(nu, nv, x);
        };
        T["gset"] = [](Event& e, Args& A) {
            auto& g = G(e, A); int u = A.n(), v = A.n(), x = A.n();
            e.in("u", u)("v", v)("x", x);
            g.set(u, v, x);
        };
        T["gsetu"] = [](Event& e, Args& A) {
            auto& g = G(e, A); int u = A.n(); auto xs = line(A);
            e.in("u", u)("xs", xs);
            g.setu(u, xs);
        };
        T["gsetv"] = [](Event& e, Args& A) {
            auto& g = G(e, A); int v = A.n(); auto xs = line(A);
            e.in("v", v)("xs", xs);
            g.setv(v, xs);
        };
        T["ginsu"] = [](Event& e, Args& A) {
            auto& g = G(e, A); int k = A.n(), x = A.n();
            e.in("k", k)("x", x);
            if (x == 0 && g.zero_is_default()) g.insu0(k);
            else g.insu(k, x);
        };
        T["ginsv"] = [](Event& e, Args& A) {
            auto& g = G(e, A); int k = A.n(), x = A.n();
            e.in("k", k)("x", x);
            if (x == 0 && g.zero_is_default()) g.insv0(k);
            else g.insv(k, x);
        };
        T["ginsucell"] = [](Event& e, Args& A) {
            auto& g = G(e, A); int k = A.n(), u = A.n(), v = A.n();
            e.in("k", k)("u", u)("v", v);
            g.insucell(k, u, v);
        };
        T["ginsvcell"] = [](Event& e, Args& A) {
            auto& g = G(e, A); int k = A.n(), u = A.n(), v = A.n();
            e.in("k", k)("u", u)("v", v);
            g.insvcell(k, u, v);
        };
        T["gget"] = [](Event& e, Args& A) {
            auto& g = G(e, A); int u = A.n(), v = A.n();
            e.in("u", u)("v", v);
            int a = g.get(u, v, true), b = g.get(u, v, false);
            e.out("res", (int)(a == b ? a : -999998));
        };
        T["ggetu"] = [](Event& e, Args& A) {
            auto& g = G(e, A); int u = A.n();
            e.in("u", u);
            e.out("res", g.getu(u));
        };
        T["ggetv"] = [](Event& e, Args& A) {
            auto& g = G(e, A); int v = A.n();
            e.in("v", v);
            e.out("res", g.getv(v));
        };
        T["gshow"] = [](Event& e, Args& A) {
            auto& g = G(e, A);
            std::vector<int> cells;
            for (int v = 0; v < g.nv(); ++v)
                for (int u = 0; u < g.nu(); ++u) cells.push_back(g.get(u, v, true));
            e.out("nu", (int)(g.nu()))("nv", (int)(g.nv()))("count", (int)(g.count()))("stored", (int)(g.stored()))("cells", cells);
        };

    }

    void add_helpers(Table& T)
    {
        T["hbin"] = [](Event& e, Args& A) {
            int n = A.n(), k = A.n();
            e.in("n", n)("k", k);
            e.out("res", (int)Binomial(n, k));
        };
        T["hfact"] = [](Event& e, Args& A) {
            int n = A.n();
            e.in("n", n);
            e.out("res", (int)Factorial(n));
        };
        // size, two numbers or two points, epsilon (negative: the default)
        T["happ"] = [](Event& e, Args& A) {
            int m = A.n();
            std::vector<double> a, b;
            for (int i = 0; i < m; ++i) a.push_back(A.x());
            for (int i = 0; i < m; ++i) b.push_back(A.x());
            double eps = A.x();
            e.in("a", a)("b", b)("eps", eps < 0 ? 1e-6 : eps);
            bool r;
            if (m == 1) r = eps < 0 ? Approx(a[0], b[0]) : Approx(a[0], b[0], eps);
            else if (m == 3)
            {
                Vec3 p(a[0], a[1], a[2]), q(b[0], b[1], b[2]);
                r = eps < 0 ? Approx(p, q) : Approx(p, q, eps);
            }
            else
            {
                Vec4 p(a[0], a[1], a[2], a[3]), q(b[0], b[1], b[2], b[3]);
                r = eps < 0 ? Approx(p, q) : Approx(p, q, eps);
            }
            e.out("res", (int)r);
        };
        T["hhomo"] = [](Event& e, Args& A) {
            Vec4 p = A.p4();
            e.in("p", std::vector<double>(p.data(), p.data() + 4));
            Vec4 r = ToHomo(p);
            e.out("res", std::vector<double>(r.data(), r.data() + 4));
        };
        T["hcart"] = [](Event& e, Args& A) {
            Vec4 p = A.p4();
            e.in("p", std::vector<double>(p.data(), p.data() + 4));
            Vec4 r = FromHomo(p);
            e.out("res", std::vector<double>(r.data(), r.data() + 4));
        };
    }

    void add_boxes(Table& T)
    {
        // ---- boxes
        T["bxmake"] = [](Event& e, Args& A) {
            e.d = A.s(); Vec3 a = A.p3(), b = A.p3();
            e.in("r", e.d)("A", a)("B", b);
            W.boxes[e.d] = BoundingBox(a, b);
            e.out(W.boxes[e.d]);
        };
        T["bxpoint"] = [](Event& e, Args& A) {
            e.r = A.s(); Vec3 a = A.p3();
            e.in("r", e.r)("q", a);
            need(W.boxes, e.r).ExpandToInclude(a);
            e.out(W.boxes[e.r]);
        };
        T["bxbox"] = [](Event& e, Args& A) {
            e.r = A.s(); std::string s = A.s();
            e.in("r", e.r)("s", s);
            need(W.boxes, e.r).ExpandToInclude(need(W.boxes, s));
            e.out(W.boxes[e.r]);
        };
        T["bxhas"] = [](Event& e, Args& A) {
            e.r = A.s(); Vec3 a = A.p3();
            e.in("r", e.r)("q", a);
            e.out("res", (int)(need(W.boxes, e.r).Contains(a)));
        };
        T["bxhasbox"] = [](Event& e, Args& A) {
            e.r = A.s(); std::string s = A.s();
            e.in("r", e.r)("s", s);
            e.out("res", (int)(need(W.boxes, e.r).Contains(need(W.boxes, s))));
        };
        T["bxmeas"] = [](Event& e, Args& A) {
            e.r = A.s();
            e.in("r", e.r);
            const auto& b = need(W.boxes, e.r);
            e.out("ctr", b.Center())("len", b.Length())("vol", b.Volume());
        };

    }

}
