// Runs a script of calls against the real library and writes one JSON object
// per call: operation, arguments as the doubles the library saw, results.
// Only the public interface is used.  See spec/Trace.tla for the events.
//
//   driver SCRIPT OUT FIRST SCRATCH [SECONDS]
//
// Behaviours in SCRIPT start with a line "reset".  Behaviours before number
// FIRST are skipped, so that the runner can go on after a crash.
#include "vq.hpp"

#include <atomic>
#include <thread>

namespace vq
{
    FILE* g_out = nullptr;
    int g_fd = -1;
    std::string g_scratch;
    World W;
    bool g_args_kept = true;

    std::string num(double x)
    {
        if (std::isnan(x)) return "\"nan\"";
        if (std::isinf(x)) return x < 0 ? "\"-inf\"" : "\"inf\"";
        char b[64];
        std::snprintf(b, sizeof b, "\"%a\"", x);
        return b;
    }

    std::string nums(const std::vector<double>& v) { return arr(v.begin(), v.end(), num); }
    std::string ints(const std::vector<int>& v) { return arr(v.begin(), v.end(), [](int i) { return std::to_string(i); }); }
    std::string v3(const Vec3& p) { return "[" + num(p.x()) + "," + num(p.y()) + "," + num(p.z()) + "]"; }
    std::string v4(const Vec4& p) { return "[" + num(p.x()) + "," + num(p.y()) + "," + num(p.z()) + "," + num(p.w()) + "]"; }
    std::string vx(const VecX& v)
    {
        std::vector<double> a(v.data(), v.data() + v.size());
        return nums(a);
    }
    std::string mx(const MatX& m)
    {
        std::string s = "[";
        for (int i = 0; i < m.rows(); ++i)
        {
            std::vector<double> row;
            for (int j = 0; j < m.cols(); ++j) row.push_back(m(i, j));
            s += (i ? "," : "") + nums(row);
        }
        return s + "]";
    }
    std::string obj(const Curve& c)
    {
        return "{\"p\":" + std::to_string(c.Degree) + ",\"U\":" + nums(c.Knots.Values()) +
               ",\"P\":" + arr(c.ControlPoints.begin(), c.ControlPoints.end(), v4) + "}";
    }
    std::string obj(const Surface& s)
    {
        return "{\"pu\":" + std::to_string(s.DegreeU) + ",\"pv\":" + std::to_string(s.DegreeV) +
               ",\"U\":" + nums(s.KnotsU.Values()) + ",\"V\":" + nums(s.KnotsV.Values()) +
               ",\"nu\":" + std::to_string(s.ControlPoints.UCount) + ",\"nv\":" + std::to_string(s.ControlPoints.VCount) +
               ",\"P\":" + arr(s.ControlPoints.Values.begin(), s.ControlPoints.Values.end(), v4) + "}";
    }
    std::string kp(const KnotVector::KnotPair& p)
    {
        return "[" + std::to_string(p.Index) + "," + num(p.Value) + "," + std::to_string(p.Multiplicity) + "]";
    }
    std::string box(const BoundingBox& b) { return "\"mn\":" + v3(b.Min) + ",\"mx\":" + v3(b.Max); }
    std::string q(const std::string& s) { return "\"" + s + "\""; }
    std::string I(int i) { return std::to_string(i); }


    Fields& Fields::raw(const char* k, const std::string& json)
    {
        s += ",\"";
        s += k;
        s += "\":";
        s += json;
        return *this;
    }
    Fields& Fields::operator()(const char* k, const std::string& v) { return raw(k, q(v)); }
    Fields& Fields::operator()(const char* k, int v) { return raw(k, I(v)); }
    Fields& Fields::operator()(const char* k, double v) { return raw(k, num(v)); }
    Fields& Fields::operator()(const char* k, const Vec3& v) { return raw(k, v3(v)); }
    Fields& Fields::operator()(const char* k, const std::vector<double>& v) { return raw(k, nums(v)); }
    Fields& Fields::operator()(const char* k, const std::vector<int>& v) { return raw(k, ints(v)); }
    Fields& Fields::operator()(const BoundingBox& b) { s += "," + box(b); return *this; }

    std::string unhex(const std::string& h)
    {
        std::string r;
        if (h == "-") return r;
        for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back((char)std::strtol(h.substr(i, 2).c_str(), nullptr, 16));
        return r;
    }

    Table make_table()
    {
        Table T;
        add_objects(T);
        add_basis(T);
        add_curves(T);
        add_surfaces(T);
        add_builders(T);
        add_knots(T);
        add_grids(T);
        add_boxes(T);
        add_helpers(T);
        add_files(T);
        return T;
    }
    Table TABLE = make_table();

    void emit(const std::string& line)
    {
        std::fputs(line.c_str(), g_out);
        std::fputc('\n', g_out);
        std::fflush(g_out);
    }

    // Returns the event without the closing brace.
    std::string run(const std::string& name, Args& A, Event& e)
    {
        e.op = name;
        auto f = TABLE.find(name);
        if (f == TABLE.end())
        {
            std::fprintf(stderr, "script: unknown command %s\n", name.c_str());
            _exit(97);
        }
        std::string exc;
        try
        {
            f->second(e, A);
            return "{\"op\":" + q(e.op) + ",\"ok\":1" + e.in.s + e.out.s;
        }
        catch (const std::invalid_argument&) { exc = "invalid_argument"; }
        catch (const std::out_of_range&) { exc = "out_of_range"; }
        catch (const std::logic_error& x)
        {
            exc = std::string(x.what()).rfind("vq: no object", 0) == 0 ? "no_operand"
                : std::string(x.what()).rfind("vq: ", 0) == 0 ? "wrong_reference" : "logic_error";
        }
        catch (const std::runtime_error&) { exc = "runtime_error"; }
        catch (const std::bad_alloc&) { exc = "bad_alloc"; }
        catch (const std::exception&) { exc = "exception"; }
        catch (...) { exc = "other"; }
        // A failed operation leaves nothing in its target register.
        if (!e.d.empty() && name != "kvlist" && name != "kvpairs")
        {
            W.curves.erase(e.d);
            W.surfs.erase(e.d);
        }
        return "{\"op\":" + q(e.op) + ",\"ok\":0,\"exc\":" + q(exc) + e.in.s;
    }

    Args split(const std::string& line, std::string& name)
    {
        Args A;
        std::string body = line;
        auto bar = line.find(" | ");
        if (bar != std::string::npos)
        {
            A.rest = line.substr(bar + 3);
            body = line.substr(0, bar);
        }
        std::istringstream is(body);
        is >> name;
        std::string t;
        while (is >> t) A.t.push_back(t);
        return A;
    }

    void on_alarm(int)
    {
        static const char m[] = "{\"op\":\"hang\",\"ok\":0}\n";
        if (write(g_fd, m, sizeof m - 1) < 0) {}
        _exit(98);
    }

    // par THREADS ROUNDS : the command lines up to "endpar" are executed by
    // every thread at the same time on the shared registers.  They must be
    // queries; results go to thread-local strings.

    struct Barrier
    {
        std::atomic<int> n{0};
        int total;
        explicit Barrier(int t) : total(t) {}
        void wait()
        {
            n.fetch_add(1);
            while (n.load() < total) std::this_thread::yield();
        }
    };

    void par(int threads, int rounds, const std::vector<std::string>& lines)
    {
        std::vector<std::vector<std::string>> out((size_t)threads, std::vector<std::string>(lines.size() * (size_t)rounds));
        Barrier b(threads);
        std::vector<std::thread> ts;
        for (int t = 0; t < threads; ++t)
            ts.emplace_back([&, t] {
                b.wait();
                for (int r = 0; r < rounds; ++r)
                    for (size_t i = 0; i < lines.size(); ++i)
                    {
                        size_t j = (i + (size_t)t * (size_t)(r % 2 ? 1 : 0) + (size_t)r) % lines.size();
                        out[(size_t)t][(size_t)r * lines.size() + j] = query(lines[j]);
                    }
            });
        for (auto& t : ts) t.join();
        emit("{\"op\":\"par\",\"ok\":1,\"race\":0,\"threads\":" + I(threads) + "}");
        for (size_t i = 0; i < lines.size(); ++i)
        {
            std::string name;
            Args A = split(lines[i], name);
            emit("{\"op\":\"alone\",\"ok\":1,\"call\":" + q(lines[i]) + ",\"r\":" + q(A.t.at(0)) + ",\"res\":" + query(lines[i]) + "}");
        }
        for (int t = 0; t < threads; ++t)
            for (int r = 0; r < rounds; ++r)
                for (size_t i = 0; i < lines.size(); ++i)
                {
                    std::string name;
                    Args A = split(lines[i], name);
                    emit("{\"op\":\"shared\",\"ok\":1,\"n\":" + I((int)i + 1) + ",\"call\":" + q(lines[i]) + ",\"r\":" + q(A.t.at(0)) +
                         ",\"res\":" + out[(size_t)t][(size_t)r * lines.size() + i] + "}");
                }
    }

}

using namespace vq;

int main(int argc, char** argv)
{
    if (argc < 5) return 97;
    std::ifstream in(argv[1]);
    g_out = std::fopen(argv[2], "a");
    if (!in || !g_out) return 97;
    g_fd = fileno(g_out);
    const int first = std::atoi(argv[3]);
    g_scratch = argv[4];
    const unsigned limit = argc > 5 ? (unsigned)std::atoi(argv[5]) : 20;
    std::signal(SIGALRM, on_alarm);

    int behaviour = -1;
    std::string line;
    while (std::getline(in, line))
    {
        if (line.empty() || line[0] == '#') continue;
        if (line == "reset")
        {
            ++behaviour;
            if (behaviour < first) continue;
            W = World();
            emit("{\"op\":\"reset\",\"ok\":1}");
            continue;
        }
        if (behaviour < first) continue;

        bool keep = false;
        int memo = 0;            // -1: remember, n > 0: repeat of the n-th remembered
        while (line.rfind("@", 0) == 0)
        {
            auto sp = line.find(' ');
            std::string pre = line.substr(1, sp - 1);
            line = line.substr(sp + 1);
            if (pre == "k") keep = true;
            else if (pre == "m") memo = -1;
            else memo = std::atoi(pre.c_str() + 1);
        }
        std::string name;
        Args A = split(line, name);
        alarm(limit);
        if (name == "par")
        {
            int threads = A.n(), rounds = A.n();
            std::vector<std::string> lines;
            while (std::getline(in, line) && line != "endpar") lines.push_back(line);
            par(threads, rounds, lines);
            alarm(0);
            continue;
        }
        if (name == "same")
        {
            std::string r0 = A.s(), r = A.s();
            emit("{\"op\":\"same\",\"ok\":1,\"r0\":" + q(r0) + ",\"r\":" + q(r) + "}");
            alarm(0);
            continue;
        }
        Event e;
        std::map<std::string, std::string> before;
        if (keep) before = W.snapshot();
        g_args_kept = true;
        std::string out = run(name, A, e);
        alarm(0);
        emit(out + "}");
        if (keep)
        {
            // Everything but the register the call was told to write.
            auto after = W.snapshot();
            before.erase(e.d);
            after.erase(e.d);
            const bool same = before == after && g_args_kept;
            emit(std::string("{\"op\":\"kept\",\"ok\":1,\"same\":") + (same ? "1" : "0") + "}");
        }
        if (memo != 0)
        {
            std::string arg;
            for (size_t i = 0; i < A.t.size(); ++i) arg += " " + A.t[i];
            std::string res = e.out.s.empty() ? std::string("{}") : "{" + e.out.s.substr(1) + "}";
            std::string tail = ",\"call\":" + q(name + arg) + ",\"r\":" + q(e.r) + ",\"res\":" + res + "}";
            if (memo < 0) emit("{\"op\":\"memo\",\"ok\":1" + tail);
            else emit("{\"op\":\"again\",\"ok\":1,\"n\":" + I(memo) + tail);
        }
    }
    std::fclose(g_out);
    return 0;
}
