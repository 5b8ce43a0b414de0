// Random environments, programs and graphs with an independent reference
// semantics (the oracle of the executable contracts).
#pragma once
#include "cdv.h"
#include <cmath>
#include <gegelati.h>
#include <limits>
#include <list>
#include <map>
#include <memory>

namespace world {
using cdv::Case;
using cdv::Gen;

inline bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); }

// ------------------------------------------------------------------ operands
struct OpSpec {
    char k;                    // 'd' double, 'i' int, 'c' Data::Constant
    std::vector<size_t> dims;  // {} scalar, {n}, {h,w}
    const std::type_info* ti;
    size_t count() const
    {
        size_t n = 1;
        for (auto d : dims)
            n *= d;
        return n;
    }
    std::string str() const
    {
        std::string s(1, k);
        for (auto d : dims)
            s += "[" + std::to_string(d) + "]";
        return s;
    }
};
template <class T> struct Kind;
template <> struct Kind<double> { static constexpr char k = 'd'; };
template <> struct Kind<int> { static constexpr char k = 'i'; };
template <> struct Kind<Data::Constant> { static constexpr char k = 'c'; };
template <class T> OpSpec specOf()
{
    OpSpec s;
    using E = std::remove_cv_t<std::remove_all_extents_t<T>>;
    s.k = Kind<E>::k;
    s.ti = &typeid(T);
    if constexpr (std::rank_v<T> == 1)
        s.dims = {std::extent_v<T, 0>};
    if constexpr (std::rank_v<T> == 2)
        s.dims = {std::extent_v<T, 0>, std::extent_v<T, 1>};
    return s;
}
// flatten an actual operand into doubles
template <class T> void flat(std::vector<double>& o, const T& v)
{
    o.push_back((double)v);
}
template <class T, class A> void gather(std::vector<double>& o, A a)
{
    if constexpr (!std::is_array_v<T>)
        o.push_back((double)a);
    else {
        using E = std::remove_cv_t<std::remove_all_extents_t<T>>;
        const E* p = (const E*)a;
        for (size_t i = 0; i < sizeof(T) / sizeof(E); i++)
            o.push_back((double)p[i]);
    }
}

struct InstrDef {
    std::string name;
    std::vector<OpSpec> ops;
    std::function<double(const std::vector<double>&)> eval; // on flattened operands
    std::shared_ptr<Instructions::Instruction> instr;
};

inline thread_local uint64_t executedInstructions = 0; // instructions run by the real code
template <class... Ts> InstrDef mk(const char* name, std::function<double(const std::vector<double>&)> ev)
{
    InstrDef d;
    d.name = name;
    d.ops = {specOf<Ts>()...};
    d.eval = ev;
    d.instr = std::make_shared<Instructions::LambdaInstruction<Ts...>>([ev](auto... a) -> double {
        std::vector<double> f;
        (gather<Ts>(f, a), ...);
        executedInstructions++;
        return ev(f);
    });
    return d;
}

using V = std::vector<double>;
inline double mix(const V& v, double a)
{
    double r = a;
    for (size_t i = 0; i < v.size(); i++)
        r += v[i] * (double)(i * 2 + 1);
    return r;
}
inline std::vector<InstrDef> instructionPool()
{
    std::vector<InstrDef> p;
    p.push_back(mk<double, double>("add", [](const V& v) { return v[0] + v[1]; }));
    p.push_back(mk<double, double>("sub", [](const V& v) { return v[0] - v[1]; }));
    p.push_back(mk<double, double>("mul", [](const V& v) { return v[0] * v[1]; }));
    p.push_back(mk<double, double>("div", [](const V& v) { return v[0] / v[1]; }));
    p.push_back(mk<double>("lin", [](const V& v) { return 3 * v[0] + 1; }));
    p.push_back(mk<double>("neg", [](const V& v) { return -v[0] - 0.5; }));
    p.push_back(mk<double>("log", [](const V& v) { return std::log(v[0]); }));
    p.push_back(mk<int>("itod", [](const V& v) { return v[0] + 0.25; }));
    p.push_back(mk<int, double>("imul", [](const V& v) { return v[0] * v[1] + 2; }));
    p.push_back(mk<double, int, double>("fma", [](const V& v) { return v[0] * v[1] - v[2]; }));
    p.push_back(mk<const double[2]>("d2", [](const V& v) { return mix(v, 0.5); }));
    p.push_back(mk<const double[3], double>("d3", [](const V& v) { return mix(v, 1); }));
    p.push_back(mk<double, const int[2]>("i2", [](const V& v) { return mix(v, -1); }));
    p.push_back(mk<const double[2][2]>("dd22", [](const V& v) { return mix(v, 2); }));
    p.push_back(mk<const int[2][3], double>("ii23", [](const V& v) { return mix(v, 3); }));
    p.push_back(mk<Data::Constant>("cst", [](const V& v) { return v[0] * 1.5; }));
    p.push_back(mk<double, Data::Constant>("addc", [](const V& v) { return v[0] + v[1]; }));
    p.push_back(mk<const Data::Constant[2], double>("c2", [](const V& v) { return mix(v, 0); }));
    return p;
}

// ------------------------------------------------------------------- sources
struct Src {
    char k;
    bool two, wrap;
    size_t h, w; // 1D: h = 1
    std::vector<double> content;
    std::shared_ptr<Data::DataHandler> handler;
    std::shared_ptr<std::vector<double>> bufD;
    std::shared_ptr<std::vector<int>> bufI;

    // number of addressable blocks of the operand type
    size_t space(const OpSpec& o) const
    {
        if (o.k != k)
            return 0;
        size_t a = 1, b = 1;
        if (o.dims.size() == 1)
            b = o.dims[0];
        if (o.dims.size() == 2) {
            if (!two)
                return 0;
            a = o.dims[0];
            b = o.dims[1];
        }
        if (a > h || b > w)
            return 0;
        return (h - a + 1) * (w - b + 1);
    }
    // element addresses of a block, row major
    std::vector<size_t> addresses(const OpSpec& o, size_t addr) const
    {
        size_t a = o.dims.size() == 2 ? o.dims[0] : 1, b = o.dims.empty() ? 1 : o.dims.back();
        size_t per = w - b + 1, y = addr / per, x = addr % per;
        std::vector<size_t> r;
        for (size_t i = 0; i < a; i++)
            for (size_t j = 0; j < b; j++)
                r.push_back((y + i) * w + x + j);
        return r;
    }
    void set(size_t i, double v)
    {
        content[i] = k == 'i' ? (double)(int)v : v;
        if (wrap) {
            if (k == 'd')
                (*bufD)[i] = v;
            else
                (*bufI)[i] = (int)v;
            if (k == 'd')
                static_cast<Data::ArrayWrapper<double>&>(*handler).invalidateCachedHash();
            else
                static_cast<Data::ArrayWrapper<int>&>(*handler).invalidateCachedHash();
        }
        else if (two) {
            if (k == 'd')
                static_cast<Data::PrimitiveTypeArray2D<double>&>(*handler).setDataAt(typeid(double), i, v);
            else
                static_cast<Data::PrimitiveTypeArray2D<int>&>(*handler).setDataAt(typeid(int), i, (int)v);
        }
        else {
            if (k == 'd')
                static_cast<Data::PrimitiveTypeArray<double>&>(*handler).setDataAt(typeid(double), i, v);
            else
                static_cast<Data::PrimitiveTypeArray<int>&>(*handler).setDataAt(typeid(int), i, (int)v);
        }
    }
    std::string str() const { return std::string(1, k) + (two ? std::to_string(h) + "x" : "") + std::to_string(w) + (wrap ? "w" : ""); }
};

inline double randomValue(Gen& g)
{
    switch (g.in(0, 9)) {
    case 0: return 0.0;
    case 1: return -(double)g.in(0, 5);
    case 2: return g.real(-1e3, 1e3);
    default: return (double)(int64_t)g.in(0, 40) - 20 + (g.chance(0.5) ? 0.5 : 0.0);
    }
}

inline Src makeSrc(Gen& g, char k, bool two, bool wrap, size_t h, size_t w)
{
    Src s;
    s.k = k;
    s.two = two;
    s.wrap = wrap;
    s.h = two ? h : 1;
    s.w = w;
    size_t n = s.h * s.w;
    s.content.assign(n, 0.0);
    if (wrap) {
        s.bufD = std::make_shared<std::vector<double>>(n);
        s.bufI = std::make_shared<std::vector<int>>(n);
        if (two) {
            if (k == 'd')
                s.handler = std::make_shared<Data::Array2DWrapper<double>>(s.w, s.h, s.bufD.get());
            else
                s.handler = std::make_shared<Data::Array2DWrapper<int>>(s.w, s.h, s.bufI.get());
        }
        else {
            if (k == 'd')
                s.handler = std::make_shared<Data::ArrayWrapper<double>>(n, s.bufD.get());
            else
                s.handler = std::make_shared<Data::ArrayWrapper<int>>(n, s.bufI.get());
        }
    }
    else if (two) {
        if (k == 'd')
            s.handler = std::make_shared<Data::PrimitiveTypeArray2D<double>>(s.w, s.h);
        else
            s.handler = std::make_shared<Data::PrimitiveTypeArray2D<int>>(s.w, s.h);
    }
    else {
        if (k == 'd')
            s.handler = std::make_shared<Data::PrimitiveTypeArray<double>>(n);
        else
            s.handler = std::make_shared<Data::PrimitiveTypeArray<int>>(n);
    }
    return s;
}
inline Src randomSrc(Gen& g)
{
    char k = g.chance(0.6) ? 'd' : 'i';
    bool two = g.chance(0.35), wrap = g.chance(0.3);
    return makeSrc(g, k, two, wrap, g.in(1, 4), g.in(1, 7));
}

// --------------------------------------------------------------- environment
struct World {
    std::vector<InstrDef> given, defs; // given: as passed; defs: usable ones
    std::vector<Src> srcs;
    size_t nbRegs = 1, nbConst = 0;
    std::unique_ptr<Environment> env;
    std::vector<std::reference_wrapper<const Data::DataHandler>> handlers;

    // operand source by data index: 0 registers, 1 constants if any, then data
    Src regs(const std::vector<double>& r) const
    {
        Src s;
        s.k = 'd';
        s.two = false;
        s.wrap = false;
        s.h = 1;
        s.w = nbRegs;
        s.content = r;
        return s;
    }
    Src consts(const std::vector<double>& c) const
    {
        Src s;
        s.k = 'c';
        s.two = false;
        s.wrap = false;
        s.h = 1;
        s.w = nbConst;
        s.content = c;
        return s;
    }
    size_t nbSrc() const { return srcs.size() + (nbConst ? 2 : 1); }
    size_t space(size_t dataIdx, const OpSpec& o) const
    {
        if (dataIdx == 0)
            return regs({}).space(o);
        if (nbConst && dataIdx == 1)
            return consts({}).space(o);
        size_t i = dataIdx - (nbConst ? 2 : 1);
        return i < srcs.size() ? srcs[i].space(o) : 0;
    }
    bool usable(const InstrDef& d) const
    {
        for (auto& o : d.ops) {
            bool ok = false;
            for (size_t i = 0; i < nbSrc(); i++)
                ok = ok || space(i, o) > 0;
            if (!ok)
                return false;
        }
        return true;
    }
    size_t maxOps() const
    {
        size_t m = 0;
        for (auto& d : defs)
            m = std::max(m, d.ops.size());
        return m;
    }
    size_t largestSpace() const
    {
        size_t m = std::max(nbRegs, nbConst);
        for (auto& s : srcs)
            m = std::max(m, s.h * s.w);
        return m;
    }
    std::string str() const
    {
        std::string s = "env(regs=" + std::to_string(nbRegs) + ",const=" + std::to_string(nbConst) + ",src=";
        for (auto& x : srcs)
            s += x.str() + " ";
        s += ",instr=";
        for (auto& d : defs)
            s += d.name + " ";
        return s + ")";
    }
};

struct QuietCout { // the library prints ignored instructions on std::cout
    std::streambuf* old;
    std::ostringstream sink;
    QuietCout() : old(std::cout.rdbuf(sink.rdbuf())) {}
    ~QuietCout() { std::cout.rdbuf(old); }
};

inline void fillSources(World& w, Gen& g)
{
    for (auto& s : w.srcs)
        for (size_t i = 0; i < s.content.size(); i++)
            s.set(i, randomValue(g));
}

inline std::unique_ptr<World> makeWorld(Gen& g, size_t minInstr = 2)
{
    while (true) {
        auto w = std::make_unique<World>();
        auto pool = instructionPool();
        w->nbRegs = g.in(1, 6);
        w->nbConst = g.chance(0.5) ? g.in(1, 4) : 0;
        size_t n = g.in(1, 3);
        for (size_t i = 0; i < n; i++)
            w->srcs.push_back(randomSrc(g));
        for (auto& d : pool)
            if (g.chance(0.5))
                w->given.push_back(d);
        for (auto& d : w->given)
            if (w->usable(d))
                w->defs.push_back(d);
        if (w->defs.size() < minInstr)
            continue;
        Instructions::Set set;
        for (auto& d : w->given)
            set.add(*d.instr);
        for (auto& s : w->srcs)
            w->handlers.push_back(*s.handler);
        QuietCout q;
        w->env = std::make_unique<Environment>(set, w->handlers, w->nbRegs, w->nbConst);
        fillSources(*w, g);
        return w;
    }
}

// ------------------------------------------------------------------ programs
// appends a random valid line to the program
inline void randomLine(const World& w, Gen& g, Program::Line& l)
{
    size_t ii = g.in(0, w.defs.size() - 1);
    l.setInstructionIndex(ii, false);
    l.setDestinationIndex(g.chance(0.4) ? 0 : g.in(0, w.nbRegs - 1), false);
    for (size_t o = 0; o < w.env->getMaxNbOperands(); o++) {
        size_t d;
        uint64_t loc = g.chance(0.1) ? g.next() : g.in(0, w.largestSpace() - 1);
        if (o < w.defs[ii].ops.size()) {
            do
                d = g.in(0, w.nbSrc() - 1);
            while (w.space(d, w.defs[ii].ops[o]) == 0);
            if (g.chance(0.5) && w.space(0, w.defs[ii].ops[o]))
                d = 0;
        }
        else
            d = g.in(0, w.nbSrc() - 1);
        l.setOperand(o, d, loc, false);
    }
}
inline void randomConstants(const World& w, Gen& g, Program::Program& p)
{
    for (size_t i = 0; i < w.nbConst; i++)
        p.getConstantHandler().setDataAt(typeid(Data::Constant), i, Data::Constant{(int32_t)((int64_t)g.in(0, 20) - 10)});
}
inline std::shared_ptr<Program::Program> randomProgram(const World& w, Gen& g, size_t nbLines)
{
    auto p = std::make_shared<Program::Program>(*w.env);
    for (size_t i = 0; i < nbLines; i++)
        randomLine(w, g, p->addNewLine());
    randomConstants(w, g, *p);
    return p;
}
// reference interpreter; skip: ignore the marked lines.  Returns all registers.
inline std::vector<double> reference(const World& w, const Program::Program& p, bool skip)
{
    std::vector<double> r(w.nbRegs, 0.0), c;
    for (size_t i = 0; i < w.nbConst; i++)
        c.push_back((double)(int32_t)p.getConstantAt(i));
    for (size_t i = 0; i < p.getNbLines(); i++) {
        if (skip && p.isIntron(i))
            continue;
        const Program::Line& l = p.getLine(i);
        const InstrDef& d = w.defs.at(l.getInstructionIndex());
        V args;
        for (size_t o = 0; o < d.ops.size(); o++) {
            size_t di = l.getOperand(o).first;
            Src s = di == 0 ? w.regs(r) : (w.nbConst && di == 1) ? w.consts(c) : w.srcs.at(di - (w.nbConst ? 2 : 1));
            size_t sp = s.space(d.ops[o]);
            for (size_t a : s.addresses(d.ops[o], l.getOperand(o).second % sp))
                args.push_back(s.content.at(a));
        }
        r.at(l.getDestinationIndex()) = d.eval(args);
    }
    return r;
}
inline std::string str(const World& w, const Program::Program& p)
{
    std::ostringstream o;
    for (size_t i = 0; i < p.getNbLines(); i++) {
        const Program::Line& l = p.getLine(i);
        const InstrDef& d = w.defs.at(l.getInstructionIndex());
        o << (p.isIntron(i) ? "(" : "") << "r" << l.getDestinationIndex() << "=" << d.name;
        for (size_t k = 0; k < d.ops.size(); k++)
            o << " " << l.getOperand(k).first << ":" << l.getOperand(k).second;
        o << (p.isIntron(i) ? ")" : "") << "; ";
    }
    return o.str();
}

// -------------------------------------------------------------------- graphs
struct G {
    std::unique_ptr<TPG::TPGGraph> g;
    std::vector<const TPG::TPGVertex*> teams, actions;
};
// random acyclic graph in which every team has at least one edge
inline G randomGraph(const World& w, Gen& g, size_t nbTeams, size_t nbActions, size_t maxOut, size_t maxLines, bool instrumented = false)
{
    G r;
    r.g = instrumented ? std::make_unique<TPG::TPGGraph>(*w.env, std::make_unique<TPG::TPGInstrumentedFactory>()) : std::make_unique<TPG::TPGGraph>(*w.env);
    for (size_t i = 0; i < nbActions; i++)
        r.actions.push_back(&r.g->addNewAction(i));
    std::vector<std::shared_ptr<Program::Program>> progs;
    for (size_t i = 0; i < nbTeams; i++) {
        const TPG::TPGTeam& t = r.g->addNewTeam();
        size_t n = g.in(1, maxOut);
        for (size_t e = 0; e < n; e++) {
            const TPG::TPGVertex* dst = (r.teams.empty() || g.chance(0.45)) ? r.actions[g.in(0, nbActions - 1)] : r.teams[g.in(0, r.teams.size() - 1)];
            std::shared_ptr<Program::Program> p;
            if (!progs.empty() && g.chance(0.3))
                p = progs[g.in(0, progs.size() - 1)];
            else {
                p = randomProgram(w, g, g.in(1, maxLines));
                if (g.chance(0.7))
                    p->identifyIntrons();
                progs.push_back(p);
            }
            r.g->addNewEdge(t, *dst, p);
        }
        r.teams.push_back(&t);
    }
    return r;
}
} // namespace world
