#include "vq.hpp"
#include <csignal>
#include <cstdio>
#include <memory>
#include <sys/resource.h>

namespace vq
{
namespace
{
    template <class O>
    void save_to(const O& o, const std::string& how, const std::string& f)
    {
        const bool bin = how[0] == 'b';
        if (how[1] == 'f')
        {
            const std::string path = g_scratch + "/" + f + ".nurbs";
            if (bin) o.SaveToFile(path, true);
            else if (how.size() > 2) o.SaveToFile(path);          // default mode: text
            else o.SaveToFile(path, false);
            std::ifstream in(path, std::ios::binary);
            std::stringstream ss;
            ss << in.rdbuf();
            W.files[f] = ss.str();
        }
        else
        {
            std::ostringstream os;
            if (bin) o.SaveToFile(os, true);
            else if (how.size() > 2) o.SaveToFile(os);
            else o.SaveToFile(os, false);
            W.files[f] = os.str();
        }
    }
    // A destination that takes the first `room` bytes.
    struct Sink : std::streambuf
    {
        std::string got;
        size_t room;
        explicit Sink(size_t n) : room(n) {}
        int_type overflow(int_type c) override
        {
            if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
            if (got.size() >= room) return traits_type::eof();
            got.push_back((char)c);
            return c;
        }
        std::streamsize xsputn(const char* p, std::streamsize n) override
        {
            const size_t k = std::min((size_t)n, room - got.size());
            got.append(p, k);
            return (std::streamsize)k;
        }
    };
    // No file may grow beyond n bytes (what a full disk looks like).
    struct FileLimit
    {
        rlimit old{};
        explicit FileLimit(size_t n)
        {
            std::signal(SIGXFSZ, SIG_IGN);
            getrlimit(RLIMIT_FSIZE, &old);
            rlimit now = old;
            now.rlim_cur = n;
            setrlimit(RLIMIT_FSIZE, &now);
        }
        ~FileLimit() { setrlimit(RLIMIT_FSIZE, &old); }
    };
    template <class O>
    void save_within(const O& o, const std::string& how, const std::string& f, size_t room)
    {
        const bool bin = how[0] == 'b';
        if (how[1] == 'f')
        {
            const std::string path = g_scratch + "/" + f + ".nurbs";
            std::remove(path.c_str());
            {
                FileLimit lim(room);
                o.SaveToFile(path, bin);
            }
            std::ifstream in(path, std::ios::binary);
            std::stringstream ss;
            ss << in.rdbuf();
            W.files[f] = ss.str();
        }
        else
        {
            Sink sink(room);
            std::ostream os(&sink);
            if (how.size() > 2) os.exceptions(std::ios::badbit | std::ios::failbit);
            o.SaveToFile(os, bin);
            W.files[f] = sink.got;
        }
    }
    std::string odd_path(const std::string& which)
    {
        if (which == "nodir") return g_scratch + "/no/such/dir/x.nurbs";
        if (which == "isdir") return g_scratch;
        if (which == "absent") return g_scratch + "/absent.nurbs";
        return "";
    }
    template <class O>
    O* load_back(O& o, const std::string& bytes, const std::string& how, const std::string& f)
    {
        if (how == "f")
        {
            const std::string path = g_scratch + "/" + f + ".nurbs";
            {
                std::ofstream os(path, std::ios::binary);
                os.write(bytes.data(), (std::streamsize)bytes.size());
            }
            return &o.LoadFromFile(path);
        }
        else
        {
            std::istringstream is(bytes);
            return &o.LoadFromFile(is);
        }
    }
    template <class O>
    std::string load_into(O& o, const std::string& bytes, const std::string& how, const std::string& f)
    {
        return obj(*load_back(o, bytes, how, f));
    }
    // Loads into register d; on failure the register is dropped.
    void do_load(Event& e, const std::string& d, const std::string& kind, const std::string& bytes,
                 const std::string& how, const std::string& f)
    {
        try
        {
            if (kind == "curve")
            {
                W.surfs.erase(d);
                const std::string s = load_into(W.curves[d], bytes, how, f);
                if (s != obj(W.curves[d])) throw std::logic_error("vq: returned reference is not the object");
            }
            else
            {
                W.curves.erase(d);
                const std::string s = load_into(W.surfs[d], bytes, how, f);
                if (s != obj(W.surfs[d])) throw std::logic_error("vq: returned reference is not the object");
            }
        }
        catch (...)
        {
            W.curves.erase(d);
            W.surfs.erase(d);
            throw;
        }
        e.out.raw("o", W.show(d));
    }

    // Large objects: the comparison is made here, the verdict is reported.
    std::vector<double> bulk_numbers(int n, unsigned long long seed)
    {
        std::vector<double> v((size_t)n);
        unsigned long long x = seed * 2862933555777941757ULL + 3037000493ULL;
        for (auto& e : v)
        {
            x = x * 6364136223846793005ULL + 1442695040888963407ULL;
            e = ((double)(long long)x) * 0x1p-60;
            if (e == 0) e = 1;
        }
        return v;
    }
    Vec4 bulk_point(const std::vector<double>& v, size_t i) { return Vec4(v[4 * i], v[4 * i + 1], v[4 * i + 2], v[4 * i + 3]); }
    int differ(const std::vector<double>& a, const std::vector<double>& b)
    {
        int bad = 0;
        for (size_t i = 0; i < a.size() || i < b.size(); ++i) bad += !(i < a.size() && i < b.size() && a[i] == b[i]);
        return bad;
    }
    int differ(const std::vector<Vec4>& a, const std::vector<Vec4>& b)
    {
        int bad = 0;
        for (size_t i = 0; i < a.size() || i < b.size(); ++i) bad += !(i < a.size() && i < b.size() && a[i] == b[i]);
        return bad;
    }
}
    void add_files(Table& T)
    {
        T["bulk"] = [](Event& e, Args& A) {
            std::string kind = A.s(); int k = A.n(), nu = A.n(), nv = A.n(); std::string how = A.s(); int seed = A.n();
            e.in("kind", kind)("k", k)("nu", nu)("nv", nv)("how", how)("seed", seed);
            const auto ks = bulk_numbers(k, seed), js = bulk_numbers(k + 1, seed + 1), ps = bulk_numbers(4 * nu * nv, seed + 2);
            int n = 0, bad = 0;
            if (kind == "curve")
            {
                Curve c, b;
                c.Degree = 3;
                c.Knots.Values() = ks;
                for (int i = 0; i < nu; ++i) c.ControlPoints.push_back(bulk_point(ps, (size_t)i));
                save_to(c, how, "bulk");
                load_back(b, W.files["bulk"], how.substr(1, 1), "bulk");
                n = (int)b.ControlPoints.size();
                bad = (b.Degree != 3) + differ(ks, b.Knots.Values()) + differ(c.ControlPoints, b.ControlPoints);
            }
            else
            {
                Surface c, b;
                c.DegreeU = 2, c.DegreeV = 5;
                c.KnotsU.Values() = ks;
                c.KnotsV.Values() = js;
                c.ControlPoints = Grid<Vec4>(nu, nv);
                for (int i = 0; i < nu * nv; ++i) c.ControlPoints.Values[(size_t)i] = bulk_point(ps, (size_t)i);
                save_to(c, how, "bulk");
                load_back(b, W.files["bulk"], how.substr(1, 1), "bulk");
                n = (int)b.ControlPoints.Values.size();
                bad = (b.DegreeU != 2) + (b.DegreeV != 5) + (b.ControlPoints.UCount != nu) + (b.ControlPoints.VCount != nv)
                    + differ(ks, b.KnotsU.Values()) + differ(js, b.KnotsV.Values()) + differ(c.ControlPoints.Values, b.ControlPoints.Values);
            }
            W.files.erase("bulk");
            e.out("n", n)("bad", bad);
        };
        // ---- files
        T["save"] = [](Event& e, Args& A) {
            std::string f = A.s(); e.r = A.s(); std::string how = A.s();
            e.in("f", f)("r", e.r)("how", how);
            W.files.erase(f);
            if (W.curves.count(e.r)) { save_to(W.curves[e.r], how, f); W.kinds[f] = "curve"; }
            else { save_to(need(W.surfs, e.r), how, f); W.kinds[f] = "surf"; }
            e.out("bytes", (int)((int)W.files[f].size()));
        };
        // Saving r where there is room for num/den of the bytes of the saved file f, and off.
        T["saveroom"] = [](Event& e, Args& A) {
            std::string g = A.s(), f = A.s(); e.r = A.s(); std::string how = A.s(); int nm = A.n(), dn = A.n(), off = A.n();
            const long long size = (long long)need(W.files, f).size();
            const int room = (int)std::max(0LL, size * nm / dn + off);
            e.in("g", g)("f", f)("r", e.r)("how", how)("room", room);
            W.files.erase(g);
            if (W.curves.count(e.r)) { save_within(W.curves[e.r], how, g, (size_t)room); W.kinds[g] = "curve"; }
            else { save_within(need(W.surfs, e.r), how, g, (size_t)room); W.kinds[g] = "surf"; }
            e.out("bytes", (int)W.files[g].size());
        };
        T["savenowhere"] = [](Event& e, Args& A) {
            e.r = A.s(); std::string how = A.s(), which = A.s();
            e.in("r", e.r)("how", how)("which", which);
            const std::string path = odd_path(which);
            if (W.curves.count(e.r)) W.curves[e.r].SaveToFile(path, how[0] == 'b');
            else need(W.surfs, e.r).SaveToFile(path, how[0] == 'b');
        };
        T["loadnowhere"] = [](Event& e, Args& A) {
            e.op = "loadbad";
            e.d = A.s(); std::string kind = A.s(), which = A.s();
            e.in("d", e.d)("kind", kind)("which", which);
            const std::string path = odd_path(which);
            if (kind == "curve") { Curve c; c.LoadFromFile(path); }
            else { Surface s; s.LoadFromFile(path); }
        };
        // One stream that objects are written to and read from.
        T["qnew"] = [](Event& e, Args& A) {
            std::string s = A.s();
            e.in("st", s);
            W.queues[s] = std::make_unique<std::stringstream>(std::ios::in | std::ios::out | std::ios::binary);
        };
        T["qput"] = [](Event& e, Args& A) {
            std::string s = A.s(); e.r = A.s(); std::string how = A.s();
            e.in("st", s)("r", e.r)("how", how);
            if (W.curves.count(e.r)) W.curves[e.r].SaveToFile(*need(W.queues, s), how[0] == 'b');
            else need(W.surfs, e.r).SaveToFile(*need(W.queues, s), how[0] == 'b');
        };
        T["qget"] = [](Event& e, Args& A) {
            e.d = A.s(); std::string s = A.s(), kind = A.s();
            e.in("d", e.d)("st", s)("kind", kind);
            if (kind == "curve") { Curve c; c.LoadFromFile(*need(W.queues, s)); W.put(e.d, c); }
            else { Surface c; c.LoadFromFile(*need(W.queues, s)); W.put(e.d, c); }
            e.out.raw("o", W.show(e.d));
        };
        T["load"] = [](Event& e, Args& A) {
            e.d = A.s(); std::string f = A.s(), how = A.s();
            e.in("d", e.d)("f", f)("kind", need(W.kinds, f))("how", how);
            do_load(e, e.d, W.kinds[f], need(W.files, f), how, f);
        };
        T["loadcut"] = [](Event& e, Args& A) {
            e.d = A.s(); std::string f = A.s(), how = A.s(); int n = A.n();
            const std::string& bytes = need(W.files, f);
            if (n < 0) n = (int)bytes.size() + n;          // -k: k bytes missing
            e.in("d", e.d)("f", f)("kind", need(W.kinds, f))("n", n);
            do_load(e, e.d, W.kinds[f], bytes.substr(0, (size_t)n), how, f + "_cut");
        };
        // The saved file f with its bytes at `at` replaced.
        T["loadpatch"] = [](Event& e, Args& A) {
            e.op = "loadbad";
            e.d = A.s(); std::string f = A.s(), how = A.s(); int at = A.n(); std::string with = unhex(A.s());
            std::string bytes = need(W.files, f);
            e.in("d", e.d)("f", f)("kind", need(W.kinds, f))("at", at);
            bytes.replace((size_t)at, with.size(), with);
            do_load(e, e.d, W.kinds[f], bytes, how, f + "_bad");
        };
        T["loadbad"] = [](Event& e, Args& A) {
            e.d = A.s(); std::string kind = A.s(), how = A.s(); std::string bytes = unhex(A.s());
            e.in("d", e.d)("kind", kind);
            do_load(e, e.d, kind, bytes, how, "raw_bad");
        };
        T["loadtxt"] = [](Event& e, Args& A) {
            e.d = A.s(); std::string kind = A.s(), how = A.s(); std::string bytes = unhex(A.s());
            e.in("d", e.d)("kind", kind).raw("lines", A.rest);
            do_load(e, e.d, kind, bytes, how, "txt");
        };
    }

    void add_objects(Table& T)
    {
        // ---- objects
        T["curve"] = [](Event& e, Args& A) {
            e.d = A.s();
            Curve c;
            c.Degree = A.n();
            c.Knots.Values() = A.xs();
            int n = A.n();
            for (int i = 0; i < n; ++i) c.ControlPoints.push_back(A.p4());
            e.in("r", e.d).raw("o", obj(c));
            W.set(e.d, c);
        };
        T["surf"] = [](Event& e, Args& A) {
            e.d = A.s();
            Surface s;
            s.DegreeU = A.n();
            s.DegreeV = A.n();
            s.KnotsU.Values() = A.xs();
            s.KnotsV.Values() = A.xs();
            int nu = A.n(), nv = A.n();
            s.ControlPoints.UCount = nu;
            s.ControlPoints.VCount = nv;
            for (int i = 0; i < nu * nv; ++i) s.ControlPoints.Values.push_back(A.p4());
            e.in("r", e.d).raw("o", obj(s));
            W.set(e.d, s);
        };
        T["kv"] = [](Event& e, Args& A) {
            e.d = A.s();
            KnotVector k;
            k.Values() = A.xs();
            e.in("r", e.d)("U", k.Values());
            W.kvs[e.d] = k;
        };

    }

    void add_knots(Table& T)
    {
        // ---- knot vectors
        T["kvlist"] = [](Event& e, Args& A) {
            e.d = A.s(); auto v = A.xs();
            e.in("d", e.d)("vs", v);
            KnotVector k(v);
            e.out("U", k.Values());
            W.kvs[e.d] = k;
        };
        T["kvpairs"] = [](Event& e, Args& A) {
            e.d = A.s(); int n = A.n();
            std::vector<KnotVector::KnotPair> ps;
            for (int i = 0; i < n; ++i) { double x = A.x(); int m = A.n(); ps.emplace_back(i, x, m); }
            e.in("d", e.d).raw("ps", arr(ps.begin(), ps.end(), [](const KnotVector::KnotPair& p) { return "[" + num(p.Value) + "," + I(p.Multiplicity) + "]"; }));
            KnotVector k(ps);
            e.out("U", k.Values());
            W.kvs[e.d] = k;
        };
        T["kvuni"] = [](Event& e, Args& A) {
            e.d = A.s(); int p = A.n(), n = A.n();
            e.in("d", e.d)("p", p)("n", n);
            KnotVector k = KnotVector::Uniform(p, n);
            e.out("U", k.Values());
            W.kvs[e.d] = k;
        };
        T["kspan"] = [](Event& e, Args& A) {
            e.r = A.s(); int p = A.n(); double x = A.x();
            e.in("r", e.r)("p", p)("x", x);
            e.out("res", (int)(need(W.kvs, e.r).FindSpanIndex(p, x)));
        };
        T["kpairs"] = [](Event& e, Args& A) {
            e.r = A.s();
            e.in("r", e.r);
            auto v = need(W.kvs, e.r).GetKnotPairs();
            e.out.raw("res", arr(v.begin(), v.end(), kp));
        };
        T["kpspan"] = [](Event& e, Args& A) {
            e.r = A.s(); double x = A.x();
            e.in("r", e.r)("x", x);
            auto s = need(W.kvs, e.r).FindSpan(x);
            e.out("idx", (int)(s.Index)).raw("lft", kp(s.Left)).raw("rgt", kp(s.Right));
        };
        T["kmult"] = [](Event& e, Args& A) {
            e.r = A.s(); double x = A.x();
            e.in("r", e.r)("x", x);
            e.out("res", (int)(need(W.kvs, e.r).GetMultiplicity(x)));
        };
        T["kflags"] = [](Event& e, Args& A) {
            e.r = A.s();
            e.in("r", e.r);
            const KnotVector& k = need(W.kvs, e.r);
            e.out("valid", (int)(k.IsValid()))("clamped", (int)(k.IsClamped()))("uniform", (int)(k.IsUniform()))("count", (int)(k.Count()));
            KnotVector m = k;
            std::vector<double> all;
            for (int i = 0; i < k.Count(); ++i) all.push_back(i % 2 ? m[i] : k(i));
            e.out("all", all);
        };
        T["kdeg"] = [](Event& e, Args& A) {
            e.r = A.s();
            e.in("r", e.r);
            e.out("res", (int)(need(W.kvs, e.r).DetectDegree()));
        };
        T["kins"] = [](Event& e, Args& A) {
            e.r = A.s(); double x = A.x(); int n = A.n();
            e.in("r", e.r)("x", x)("n", n);
            auto& k = need(W.kvs, e.r);
            int i = n == 1 ? k.InsertKnot(x) : k.InsertKnot(x, n);
            e.out("res", i)("U", k.Values());
        };
        T["krev"] = [](Event& e, Args& A) {
            e.r = A.s();
            e.in("r", e.r);
            need(W.kvs, e.r).Reverse();
            e.out("U", need(W.kvs, e.r).Values());
        };

    }

}
