// Shared by the parts of the driver.  See main.cpp.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <span>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unistd.h>
#include <vector>

#include <libnurbs/Basis/BSplineBasis.hpp>
#include <libnurbs/Core/BoundingBox.hpp>
#include <libnurbs/Core/Grid.hpp>
#include <libnurbs/Core/KnotVector.hpp>
#include <libnurbs/Curve/Curve.hpp>
#include <libnurbs/Geometry/GeomRect.hpp>
#include <libnurbs/Geometry/GeomSegment.hpp>
#include <libnurbs/Surface/Surface.hpp>
#include <libnurbs/Algorithm/MathUtils.hpp>     // needs Eigen

using namespace libnurbs;

namespace vq
{
    extern FILE* g_out;
    extern int g_fd;
    extern std::string g_scratch;

    // JSON.  Numbers are strings holding the exact double.
    std::string num(double x);
    template <class It, class F>
    std::string arr(It a, It b, F f)
    {
        std::string s = "[";
        for (It i = a; i != b; ++i)
        {
            if (i != a) s += ",";
            s += f(*i);
        }
        return s + "]";
    }


    std::string nums(const std::vector<double>& v);
    std::string ints(const std::vector<int>& v);
    std::string v3(const Vec3& p);
    std::string v4(const Vec4& p);
    std::string vx(const VecX& v);
    std::string mx(const MatX& m);
    std::string obj(const Curve& c);
    std::string obj(const Surface& s);
    std::string kp(const KnotVector::KnotPair& p);
    std::string box(const BoundingBox& b);
    std::string q(const std::string& s);
    std::string I(int i);
    std::string unhex(const std::string& h);

    struct Fields
    {
        std::string s;
        Fields& raw(const char* k, const std::string& json);
        Fields& operator()(const char* k, const std::string& v);
        Fields& operator()(const char* k, int v);
        Fields& operator()(const char* k, double v);
        Fields& operator()(const char* k, const Vec3& v);
        Fields& operator()(const char* k, const std::vector<double>& v);
        Fields& operator()(const char* k, const std::vector<int>& v);
        Fields& operator()(const BoundingBox& b);
    };

    // The arguments are collected in `in` before the call, so that they are
    // known if it throws.
    struct Event
    {
        std::string op;
        Fields in, out;
        std::string d, r;        // registers written / read
    };

    struct Args
    {
        std::vector<std::string> t;
        size_t i = 0;
        std::string rest;
        std::string s()
        {
            if (i >= t.size()) { std::fprintf(stderr, "script: missing argument\n"); _exit(97); }
            return t[i++];
        }
        int n() { return std::atoi(s().c_str()); }
        double x() { return parse(s()); }
        static double parse(const std::string& a)
        {
            auto slash = a.find('/');
            if (slash == std::string::npos) return std::strtod(a.c_str(), nullptr);
            long double p = std::strtold(a.substr(0, slash).c_str(), nullptr);
            long double d = std::strtold(a.substr(slash + 1).c_str(), nullptr);
            return (double)(p / d);
        }
        std::vector<double> xs()
        {
            int k = n();
            std::vector<double> v(k);
            for (auto& e : v) e = x();
            return v;
        }
        Vec3 p3() { double a = x(), b = x(), c = x(); return {a, b, c}; }
        Vec4 p4() { double a = x(), b = x(), c = x(), d = x(); return {a, b, c, d}; }
        Mat3x3 m9()
        {
            Mat3x3 m;
            for (int r = 0; r < 3; ++r)
                for (int c = 0; c < 3; ++c) m(r, c) = x();
            return m;
        }
    };

    // Grids of three element types behind one interface; values are integers.
    struct AnyGrid
    {
        virtual ~AnyGrid() = default;
        virtual bool zero_is_default() const = 0;
        virtual int nu() const = 0;
        virtual int nv() const = 0;
        virtual int count() const = 0;
        virtual int stored() const = 0;
        virtual int get(int u, int v, bool cst) const = 0;
        virtual void set(int u, int v, int x) = 0;
        virtual std::vector<int> getu(int u) const = 0;
        virtual std::vector<int> getv(int v) const = 0;
        virtual void setu(int u, const std::vector<int>& xs) = 0;
        virtual void setv(int v, const std::vector<int>& xs) = 0;
        virtual void insu(int k, int x) = 0;
        virtual void insv(int k, int x) = 0;
        virtual void insu0(int k) = 0;
        virtual void insv0(int k) = 0;
        virtual void insucell(int k, int u, int v) = 0;
        virtual void insvcell(int k, int u, int v) = 0;
    };

    struct World
    {
        std::map<std::string, Curve> curves;
        std::map<std::string, Surface> surfs;
        std::map<std::string, KnotVector> kvs;
        std::map<std::string, BoundingBox> boxes;
        std::map<std::string, std::unique_ptr<AnyGrid>> grids;
        std::map<std::string, std::string> files;   // bytes
        std::map<std::string, std::string> kinds;
        std::map<std::string, std::unique_ptr<std::stringstream>> queues;

        std::map<std::string, std::string> snapshot() const
        {
            std::map<std::string, std::string> s;
            for (auto& [k, c] : curves) s[k] = obj(c);
            for (auto& [k, c] : surfs) s[k] = obj(c);
            for (auto& [k, c] : kvs) s["kv " + k] = nums(c.Values());
            for (auto& [k, c] : boxes) s["box " + k] = box(c);
            return s;
        }
        void put(const std::string& d, Curve c) { surfs.erase(d); curves[d] = std::move(c); }
        void put(const std::string& d, Surface c) { curves.erase(d); surfs[d] = std::move(c); }
        // In place: an object that is there keeps its storage where it can.
        void set(const std::string& d, const Curve& c) { surfs.erase(d); curves[d] = c; }
        void set(const std::string& d, const Surface& c) { curves.erase(d); surfs[d] = c; }
        std::string show(const std::string& r) const
        {
            if (auto i = curves.find(r); i != curves.end()) return obj(i->second);
            if (auto i = surfs.find(r); i != surfs.end()) return obj(i->second);
            if (auto i = kvs.find(r); i != kvs.end()) return nums(i->second.Values());
            return "\"\"";
        }
    };
    extern World W;
    extern bool g_args_kept;      // lists handed to calls came back as they were

    template <class T>
    T& need(std::map<std::string, T>& m, const std::string& r)
    {
        auto i = m.find(r);
        if (i == m.end())
        {
            // An earlier call of this behaviour failed and left the register empty.
            throw std::logic_error("vq: no object in register " + r);
        }
        return i->second;
    }


    using Fn = void (*)(Event&, Args&);
    using Table = std::map<std::string, Fn>;
    void add_objects(Table&);
    void add_basis(Table&);
    void add_curves(Table&);
    void add_surfaces(Table&);
    void add_builders(Table&);
    void add_knots(Table&);
    void add_grids(Table&);
    void add_boxes(Table&);
    void add_helpers(Table&);
    void add_files(Table&);
    std::string query(const std::string& line);
    Args split(const std::string& line, std::string& name);
}
