// C17 random numbers, C18 environment, C27 export identifiers, C28 parameter
// files, C31 cycle detection, C32 typed operand views.
#include "learn.h"
#include "data/untypedSharedPtr.h"
#include "file/parametersParser.h"
#include "mutator/rng.h"
#include "tpg/tpgAbstractEngine.h"
#include "file/tpgGraphDotExporter.h"
#include <array>
#include <fstream>
#include <regex>
using namespace world;

// ----------------------------------------------------------------- C17
namespace {
struct Req {
    int kind;
    uint64_t lo, hi;
    int32_t ilo, ihi;
    double dlo, dhi;
};
uint64_t wide(Gen& g)
{
    switch (g.in(0, 5)) {
    case 0: return 0;
    case 1: return UINT64_MAX;
    case 2: return g.next() >> g.in(0, 63);
    case 3: return g.in(0, 20);
    case 4: return (1ull << g.in(0, 63)) + (g.chance(0.5) ? 0 : (uint64_t)-1);
    default: return g.next();
    }
}
Req randomReq(Gen& g)
{
    Req r{};
    r.kind = g.in(0, 2);
    r.lo = wide(g);
    r.hi = g.chance(0.3) ? r.lo + g.in(0, 9) : wide(g);
    if (r.hi < r.lo)
        std::swap(r.lo, r.hi);
    r.ilo = (int32_t)wide(g);
    r.ihi = g.chance(0.3) ? (int32_t)std::min<int64_t>((int64_t)r.ilo + g.in(0, 9), INT32_MAX) : (int32_t)wide(g);
    if (r.ihi < r.ilo)
        std::swap(r.ilo, r.ihi);
    r.dlo = g.chance(0.4) ? 0.0 : g.real(-1, 1) * std::pow(10.0, (double)g.in(0, 40) - 20);
    r.dhi = g.chance(0.4) ? 1.0 : g.real(-1, 1) * std::pow(10.0, (double)g.in(0, 40) - 20);
    if (g.chance(0.1))
        r.dhi = std::nextafter(r.dlo, INFINITY);
    if (r.dhi < r.dlo)
        std::swap(r.dlo, r.dhi);
    if (r.dhi == r.dlo)
        r.dhi = r.dlo + 1;
    return r;
}
struct Drawn {
    uint64_t u;
    int32_t i;
    double d;
    bool operator==(const Drawn& o) const { return u == o.u && i == o.i && same(d, o.d); }
};
Drawn draw(Mutator::RNG& r, const Req& q)
{
    Drawn d{0, 0, 0};
    if (q.kind == 0) {
        d.u = r.getUnsignedInt64(q.lo, q.hi);
        REQUIRE(q.lo <= d.u && d.u <= q.hi, "getUnsignedInt64(" << q.lo << "," << q.hi << ") returned " << d.u);
    }
    else if (q.kind == 1) {
        d.i = r.getInt32(q.ilo, q.ihi);
        REQUIRE(q.ilo <= d.i && d.i <= q.ihi, "getInt32(" << q.ilo << "," << q.ihi << ") returned " << d.i);
    }
    else {
        d.d = r.getDouble(q.dlo, q.dhi);
        REQUIRE(q.dlo <= d.d && d.d <= q.dhi, "getDouble(" << q.dlo << "," << q.dhi << ") returned " << d.d);
    }
    return d;
}
} // namespace
SCENARIO("C17", drawsInBoundsAndReplay, 100000, 2000000)
{
    Gen& g = c.g;
    uint64_t seed = wide(g);
    size_t n = g.in(1, 25);
    std::vector<Req> q;
    for (size_t i = 0; i < n; i++)
        q.push_back(randomReq(g));
    c.trace << "seed " << seed << " requests " << n << " first (" << q[0].lo << "," << q[0].hi << ")";
    Mutator::RNG a(seed);
    std::vector<Drawn> ref;
    for (auto& r : q)
        ref.push_back(draw(a, r));
    // another generator, used in between with something else, replays the same values
    Mutator::RNG b(g.next()), other(g.next());
    for (size_t i = g.in(0, 5); i > 0; i--)
        draw(b, randomReq(g));
    b.setSeed(seed);
    size_t copyAt = g.in(0, n);
    for (size_t i = 0; i < n; i++) {
        if (i == copyAt) {
            Mutator::RNG k(b);
            for (size_t j = i; j < n; j++)
                REQUIRE(draw(k, q[j]) == ref[j], "the copy of a generator does not replay draw " << j);
        }
        if (g.chance(0.3))
            draw(other, randomReq(g));
        REQUIRE(draw(b, q[i]) == ref[i], "a generator with the same seed and requests does not replay draw " << i);
    }
    c.nontrivial = true;
}
SCENARIO("C17", drawsReachBothBounds, 3000, 60000)
{
    Gen& g = c.g;
    Mutator::RNG r(g.next());
    bool u = g.chance(0.5);
    uint64_t span = g.in(0, 7);
    if (u) {
        uint64_t lo = wide(g);
        if (lo > UINT64_MAX - span)
            lo = UINT64_MAX - span;
        std::set<uint64_t> seen;
        for (int i = 0; i < 500; i++)
            seen.insert(r.getUnsignedInt64(lo, lo + span));
        c.trace << "unsigned " << lo << "+" << span;
        REQUIRE(seen.size() == span + 1, "only " << seen.size() << " distinct values between " << lo << " and " << lo + span << " in 500 draws");
    }
    else {
        int32_t lo = (int32_t)wide(g);
        if (lo > INT32_MAX - (int32_t)span)
            lo = INT32_MAX - (int32_t)span;
        std::set<int32_t> seen;
        for (int i = 0; i < 500; i++)
            seen.insert(r.getInt32(lo, lo + (int32_t)span));
        c.trace << "signed " << lo << "+" << span;
        REQUIRE(seen.size() == span + 1, "only " << seen.size() << " distinct values between " << lo << " and " << lo + (int32_t)span << " in 500 draws");
    }
    // wide ranges are covered up to their ends (probability of a miss < 1e-9)
    uint64_t lo = wide(g), hi = wide(g);
    if (hi < lo)
        std::swap(lo, hi);
    uint64_t w = hi - lo, mn = UINT64_MAX, mx = 0;
    int32_t a = (int32_t)wide(g), b = (int32_t)wide(g);
    if (b < a)
        std::swap(a, b);
    int64_t iw = (int64_t)b - a, imn = INT64_MAX, imx = INT64_MIN;
    double dmn = 2, dmx = -1;
    for (int i = 0; i < 600; i++) {
        uint64_t x = r.getUnsignedInt64(lo, hi);
        mn = std::min(mn, x);
        mx = std::max(mx, x);
        int64_t y = r.getInt32(a, b);
        imn = std::min(imn, y);
        imx = std::max(imx, y);
        double z = r.getDouble(0, 1);
        dmn = std::min(dmn, z);
        dmx = std::max(dmx, z);
    }
    REQUIRE(mn - lo <= w / 16 + 1 && hi - mx <= w / 16 + 1, "600 draws between " << lo << " and " << hi << " only reach [" << mn << "," << mx << "]");
    REQUIRE(imn - a <= iw / 16 + 1 && b - imx <= iw / 16 + 1, "600 draws between " << a << " and " << b << " only reach [" << imn << "," << imx << "]");
    REQUIRE(dmn < 0.0625 && dmx > 0.9375, "600 draws between 0 and 1 only reach [" << dmn << "," << dmx << "]");
    c.nontrivial = true;
}

// ----------------------------------------------------------------- C18
namespace {
size_t bits(size_t n)
{
    size_t b = 0;
    while (b < 64 && (b == 63 ? (1ull << 63) : (1ull << b)) < n)
        b++;
    return b;
}
// the documented environment of the world w
void checkEnvironment(const World& w, const Environment& e)
{
    auto& set = e.getInstructionSet();
    REQUIRE(e.getNbInstructions() == w.defs.size() && set.getNbInstructions() == w.defs.size(), e.getNbInstructions() << "/" << set.getNbInstructions() << " instructions instead of " << w.defs.size());
    for (size_t i = 0; i < w.defs.size(); i++)
        REQUIRE(&set.getInstruction(i) == w.defs[i].instr.get(), "instruction " << i << " is not the " << i << "th usable one");
    REQUIRE(e.getNbRegisters() == w.nbRegs && e.getNbConstant() == w.nbConst, "registers or constants count");
    REQUIRE(e.getMaxNbOperands() == w.maxOps(), "operands " << e.getMaxNbOperands() << " instead of " << w.maxOps());
    REQUIRE(e.getNbDataSources() == w.nbSrc(), "sources " << e.getNbDataSources() << " instead of " << w.nbSrc());
    REQUIRE(e.getLargestAddressSpace() == w.largestSpace(), "largest address space " << e.getLargestAddressSpace() << " instead of " << w.largestSpace());
    REQUIRE(e.getDataSources().size() == w.srcs.size(), "data sources list");
    for (size_t i = 0; i < w.srcs.size(); i++)
        REQUIRE(&e.getDataSources()[i].get() == w.srcs[i].handler.get(), "data source " << i);
    auto& f = e.getFakeDataSources();
    REQUIRE(f.size() == w.nbSrc(), "all sources list");
    for (size_t i = 0; i < f.size(); i++)
        for (auto& d : w.given)
            for (auto& o : d.ops)
                REQUIRE(f[i].get().getAddressSpace(*o.ti) == w.space(i, o), "address space of source " << i << " for " << o.str() << ": " << f[i].get().getAddressSpace(*o.ti) << " instead of " << w.space(i, o));
}
} // namespace
SCENARIO("C18", environmentDimensions, 60000, 1000000)
{
    auto w = makeWorld(c.g);
    c.trace << w->str() << " given " << w->given.size();
    checkEnvironment(*w, *w->env);
    auto& l = w->env->getLineSize();
    size_t a = bits(w->defs.size()), b = bits(w->nbRegs), s = bits(w->nbSrc()), p = bits(w->largestSpace()), m = w->maxOps();
    REQUIRE(std::minmax(l.nbInstructionBits, l.nbDestinationBits) == std::minmax(a, b), "instruction and destination bits " << l.nbInstructionBits << "," << l.nbDestinationBits << " instead of " << a << "," << b);
    REQUIRE(l.nbOperandDataSourceIndexBits == s && l.nbOperandLocationBits == p, "operand bits " << l.nbOperandDataSourceIndexBits << "," << l.nbOperandLocationBits << " instead of " << s << "," << p);
    REQUIRE(l.nbOperandsBits == m * (s + p) && l.totalNbBits == a + b + m * (s + p) && (size_t)l == l.totalNbBits, "total bits");
    c.nontrivial = w->given.size() > w->defs.size();
}
SCENARIO("C18", lineSizeFieldOrder, 200, 2000)
{
    auto w = makeWorld(c.g);
    c.trace << w->str();
    auto& l = w->env->getLineSize();
    c.nontrivial = bits(w->defs.size()) != bits(w->nbRegs);
    REQUIRE(l.nbInstructionBits == bits(w->defs.size()) && l.nbDestinationBits == bits(w->nbRegs), "instruction bits " << l.nbInstructionBits << " for " << w->defs.size() << " instructions, destination bits " << l.nbDestinationBits << " for " << w->nbRegs << " registers");
}
SCENARIO("C18", copyOutlivesOriginal, 3000, 40000)
{
    auto w = makeWorld(c.g);
    c.trace << w->str();
    auto copy = std::make_unique<Environment>(*w->env);
    w->env.reset();
    for (int i = 0; i < 3; i++)
        std::make_unique<Data::PrimitiveTypeArray<double>>(c.g.in(1, 9));
    checkEnvironment(*w, *copy);
    c.nontrivial = true;
}
SCENARIO("C18", nothingUsableIsRejected, 5000, 50000)
{
    Gen& g = c.g;
    World w;
    auto pool = instructionPool();
    w.nbRegs = g.in(0, 3);
    w.nbConst = g.chance(0.5) ? g.in(1, 3) : 0;
    for (size_t i = g.in(0, 2); i > 0; i--)
        w.srcs.push_back(randomSrc(g));
    for (auto& d : pool)
        if (g.chance(0.4) && !w.usable(d))
            w.given.push_back(d);
    Instructions::Set set;
    for (auto& d : w.given)
        set.add(*d.instr);
    for (auto& s : w.srcs)
        w.handlers.push_back(*s.handler);
    c.trace << w.str() << " given " << w.given.size();
    QuietCout q;
    bool thrown = false;
    try {
        Environment e(set, w.handlers, w.nbRegs, w.nbConst);
    }
    catch (const std::domain_error&) {
        thrown = true;
    }
    REQUIRE(thrown, "an environment without usable instruction was accepted");
    c.nontrivial = !w.given.empty();
}

// ----------------------------------------------------------------- C27
namespace {
struct Ids : TPG::TPGAbstractEngine {
    explicit Ids(const TPG::TPGGraph& g) : TPGAbstractEngine(g) {}
    using TPG::TPGAbstractEngine::findProgramID;
    using TPG::TPGAbstractEngine::findVertexID;
};
} // namespace
SCENARIO("C27", identifiers, 20000, 300000)
{
    Gen& g = c.g;
    auto w = makeWorld(g);
    auto r = randomGraph(*w, g, g.in(1, 5), g.in(1, 4), 4, 2);
    Ids e(*r.g);
    std::map<const Program::Program*, uint64_t> ps;
    std::map<const TPG::TPGVertex*, uint64_t> vs;
    std::vector<const Program::Program*> allP;
    for (auto& ed : r.g->getEdges())
        allP.push_back(&ed->getProgram());
    auto allV = r.g->getVertices();
    size_t n = g.in(1, 40);
    c.trace << allP.size() << " edges " << allV.size() << " vertices " << n << " lookups";
    for (size_t i = 0; i < n; i++) {
        if (g.chance(0.5)) {
            auto p = allP[g.in(0, allP.size() - 1)];
            uint64_t id = 12345;
            bool isNew = e.findProgramID(*p, id);
            auto it = ps.emplace(p, ps.size());
            REQUIRE(isNew == it.second, "first encounter reported as " << isNew << " instead of " << it.second);
            REQUIRE(id == it.first->second, "program identifier " << id << " instead of " << it.first->second);
        }
        else {
            auto v = allV[g.in(0, allV.size() - 1)];
            auto it = vs.emplace(v, vs.size());
            uint64_t id = e.findVertexID(*v);
            REQUIRE(id == it.first->second, "vertex identifier " << id << " instead of " << it.first->second);
        }
    }
    c.nontrivial = ps.size() > 1 && vs.size() > 1;
}
SCENARIO("C27", exportedIdentifiers, 4000, 60000)
{
    Gen& g = c.g;
    auto w = makeWorld(g);
    auto r = randomGraph(*w, g, g.in(1, 6), g.in(1, 4), 4, 3);
    char file[] = "/tmp/cdv_dot_XXXXXX";
    close(mkstemp(file));
    {
        File::TPGGraphDotExporter x(file, *r.g);
        x.print();
    }
    std::ifstream in(file);
    std::string l;
    std::set<uint64_t> teams, progs;
    size_t nt = 0, np = 0;
    std::regex t("\\s*T([0-9]+) \\[.*"), p("\\s*P([0-9]+) \\[.*");
    std::smatch m;
    while (std::getline(in, l)) {
        if (std::regex_match(l, m, t)) {
            nt++;
            teams.insert(std::stoull(m[1]));
        }
        else if (std::regex_match(l, m, p)) {
            np++;
            progs.insert(std::stoull(m[1]));
        }
    }
    unlink(file);
    std::set<const Program::Program*> ps;
    for (auto& e : r.g->getEdges())
        ps.insert(&e->getProgram());
    c.trace << r.teams.size() << " teams " << ps.size() << " programs";
    REQUIRE(teams.size() == nt && nt == r.teams.size(), nt << " teams exported under " << teams.size() << " identifiers, the graph has " << r.teams.size());
    REQUIRE(progs.size() == np && np == ps.size(), np << " programs exported under " << progs.size() << " identifiers, the graph has " << ps.size());
    REQUIRE(teams.empty() || (*teams.begin() == 0 && *teams.rbegin() == nt - 1), "team identifiers are not consecutive from 0");
    REQUIRE(progs.empty() || (*progs.begin() == 0 && *progs.rbegin() == np - 1), "program identifiers are not consecutive from 0");
    c.nontrivial = nt > 1 && np > 1;
}

// ----------------------------------------------------------------- C28
namespace {
struct Param {
    const char* section; // "", "tpg", "prog"
    const char* name;
    char kind; // z size, i int32, d double, b bool, u uint64
    std::function<void*(Learn::LearningParameters&)> at;
    bool written; // part of the files written
};
#define PRM(s, n, k, f) {s, n, k, [](Learn::LearningParameters& p) -> void* { return &p.f; }, true}
const std::vector<Param>& table()
{
    static const std::vector<Param> t = {
        PRM("", "archiveSize", 'z', archiveSize),
        PRM("", "archivingProbability", 'd', archivingProbability),
        PRM("", "doValidation", 'b', doValidation),
        PRM("", "maxNbActionsPerEval", 'u', maxNbActionsPerEval),
        PRM("", "maxNbEvaluationPerPolicy", 'z', maxNbEvaluationPerPolicy),
        PRM("", "nbGenerations", 'u', nbGenerations),
        PRM("", "nbIterationsPerJob", 'z', nbIterationsPerJob),
        PRM("", "nbIterationsPerPolicyEvaluation", 'u', nbIterationsPerPolicyEvaluation),
        PRM("", "nbProgramConstant", 'z', nbProgramConstant),
        PRM("", "nbRegisters", 'z', nbRegisters),
        PRM("", "nbThreads", 'z', nbThreads),
        PRM("", "ratioDeletedRoots", 'd', ratioDeletedRoots),
        PRM("tpg", "forceProgramBehaviorChangeOnMutation", 'b', mutation.tpg.forceProgramBehaviorChangeOnMutation),
        PRM("tpg", "maxInitOutgoingEdges", 'z', mutation.tpg.maxInitOutgoingEdges),
        PRM("tpg", "maxOutgoingEdges", 'z', mutation.tpg.maxOutgoingEdges),
        PRM("tpg", "nbActions", 'z', mutation.tpg.nbActions),
        PRM("tpg", "nbRoots", 'z', mutation.tpg.nbRoots),
        PRM("tpg", "pEdgeAddition", 'd', mutation.tpg.pEdgeAddition),
        PRM("tpg", "pEdgeDeletion", 'd', mutation.tpg.pEdgeDeletion),
        PRM("tpg", "pEdgeDestinationChange", 'd', mutation.tpg.pEdgeDestinationChange),
        PRM("tpg", "pEdgeDestinationIsAction", 'd', mutation.tpg.pEdgeDestinationIsAction),
        PRM("tpg", "pProgramMutation", 'd', mutation.tpg.pProgramMutation),
        PRM("prog", "maxConstValue", 'i', mutation.prog.maxConstValue),
        PRM("prog", "maxProgramSize", 'z', mutation.prog.maxProgramSize),
        PRM("prog", "minConstValue", 'i', mutation.prog.minConstValue),
        PRM("prog", "pAdd", 'd', mutation.prog.pAdd),
        PRM("prog", "pConstantMutation", 'd', mutation.prog.pConstantMutation),
        PRM("prog", "pDelete", 'd', mutation.prog.pDelete),
        PRM("prog", "pMutate", 'd', mutation.prog.pMutate),
        PRM("prog", "pSwap", 'd', mutation.prog.pSwap),
    };
    return t;
}
std::string get(const Param& p, Learn::LearningParameters& s)
{
    void* a = p.at(s);
    switch (p.kind) {
    case 'z': return std::to_string(*(size_t*)a);
    case 'u': return std::to_string(*(uint64_t*)a);
    case 'i': return std::to_string(*(int32_t*)a);
    case 'b': return *(bool*)a ? "true" : "false";
    default: {
        char b[64];
        snprintf(b, 64, "%.17g", *(double*)a);
        return b;
    }
    }
}
void randomise(Gen& g, const Param& p, Learn::LearningParameters& s)
{
    void* a = p.at(s);
    switch (p.kind) {
    case 'z':
        *(size_t*)a = g.chance(0.2) ? g.next() >> g.in(0, 40) : g.in(0, 100000);
        break;
    case 'u': *(uint64_t*)a = g.chance(0.3) ? g.next() >> g.in(0, 63) : g.in(0, 100000); break;
    case 'i': *(int32_t*)a = g.chance(0.2) ? (int32_t)g.next() : (int32_t)g.in(0, 2000) - 1000; break;
    case 'b': *(bool*)a = g.chance(0.5); break;
    default: *(double*)a = g.chance(0.3) ? (double)g.in(0, 1) : g.chance(0.3) ? g.real(0, 1) * std::pow(10, -(double)g.in(0, 9)) : g.real(0, 1);
    }
}
bool agree(const Param& p, Learn::LearningParameters& x, Learn::LearningParameters& y)
{
    if (p.kind != 'd')
        return get(p, x) == get(p, y);
    double a = *(double*)p.at(x), b = *(double*)p.at(y);
    return a == b || std::abs(a - b) <= 6e-6 * std::max(std::abs(a), std::abs(b)); // 6 significant digits
}
struct Silence {
    std::streambuf* old;
    std::ostringstream s;
    Silence() : old(std::cerr.rdbuf(s.rdbuf())) {}
    ~Silence() { std::cerr.rdbuf(old); }
};
struct TmpFile {
    char n[32] = "/tmp/cdv_par_XXXXXX";
    TmpFile() { close(mkstemp(n)); }
    ~TmpFile() { unlink(n); }
};
} // namespace
SCENARIO("C28", writeThenLoad, 20000, 300000)
{
    Gen& g = c.g;
    Learn::LearningParameters a, b;
    for (auto& p : table())
        if (g.chance(0.7))
            randomise(g, p, a);
    for (auto& p : table())
        if (g.chance(0.5))
            randomise(g, p, b);
    TmpFile f;
    File::ParametersParser::writeParametersToJson(f.n, a);
    Silence sil;
    File::ParametersParser::loadParametersFromJson(f.n, b);
    c.trace << "archiveSize " << a.archiveSize << " pSwap " << a.mutation.prog.pSwap;
    for (auto& p : table())
        REQUIRE(agree(p, a, b), p.name << " was " << get(p, a) << " and is " << get(p, b) << " after a reload");
    c.nontrivial = true;
}
SCENARIO("C28", loadSubset, 30000, 400000)
{
    Gen& g = c.g;
    Learn::LearningParameters a, b, before;
    std::map<std::string, std::vector<std::string>> sec;
    std::set<std::string> named;
    for (auto& p : table()) {
        randomise(g, p, a);
        if (g.chance(0.5))
            randomise(g, p, before);
        if (g.chance(0.3)) {
            named.insert(p.name);
            sec[p.section].push_back("\"" + std::string(p.name) + "\": " + get(p, a));
        }
    }
    static const char* unknown[] = {"\"foo\": 3", "\"pswap\": 0.5", "\"archivesize\": 4", "\"nbRootsX\": 1", "\"Delete\": true"};
    for (auto s : {"", "tpg", "prog"})
        if (g.chance(0.4))
            sec[s].push_back(unknown[g.in(0, 4)]);
    b = before;
    auto join = [&](const std::string& s) {
        auto v = sec[s];
        for (size_t i = v.size(); i > 1; i--)
            std::swap(v[i - 1], v[g.in(0, i - 1)]);
        std::string o;
        for (auto& x : v)
            o += (o.empty() ? "" : ",\n") + x;
        return o;
    };
    std::string top = join(""), mu = "\"mutation\": {\"tpg\": {" + join("tpg") + "},\n // comment\n\"prog\": {" + join("prog") + "}}";
    TmpFile f;
    std::ofstream(f.n) << "{" << top << (top.empty() ? "" : ",") << mu << "}";
    {
        Silence sil;
        QuietCout q;
        File::ParametersParser::loadParametersFromJson(f.n, b);
    }
    c.trace << named.size() << " named:";
    for (auto& n : named)
        c.trace << " " << n;
    for (auto& p : table())
        REQUIRE(agree(p, named.count(p.name) ? a : before, b), p.name << (named.count(p.name) ? " named in the file as " + get(p, a) : " not named in the file and " + get(p, before)) << " is " << get(p, b) << " after loading");
    c.nontrivial = !named.empty() && named.size() < table().size();
}

// ----------------------------------------------------------------- C31
SCENARIO("C31", cycleReports, 40000, 600000)
{
    Gen& g = c.g;
    learn::FakeLE le(3, 4, 1, 0);
    Learn::LearningParameters p;
    p.nbThreads = 1;
    p.mutation.tpg.nbActions = 3;
    Learn::LearningAgent la(le, learn::instrSet(), p);
    auto& tpg = *la.getTPGGraph();
    tpg.clear();
    std::vector<const TPG::TPGVertex*> teams, all;
    size_t nt = g.in(0, 6), na = g.in(0, 2);
    for (size_t i = 0; i < nt; i++)
        teams.push_back(&tpg.addNewTeam());
    all = teams;
    for (size_t i = 0; i < na; i++)
        all.push_back(&tpg.addNewAction(i));
    auto prog = std::make_shared<Program::Program>(tpg.getEnvironment());
    size_t ne = nt ? g.in(0, 9) : 0;
    bool mostlyAcyclic = g.chance(0.6);
    std::vector<std::pair<size_t, size_t>> es;
    for (size_t i = 0; i < ne; i++) {
        size_t s = g.in(0, nt - 1), d = g.in(0, all.size() - 1);
        if (mostlyAcyclic && d < nt) {
            if (s == d)
                continue;
            if (s > d)
                std::swap(s, d);
        }
        es.push_back({s, d});
        tpg.addNewEdge(*teams[s], *all[d], prog);
        c.trace << s << ">" << d << " ";
    }
    // reference: reachability
    std::vector<std::vector<char>> reach(all.size(), std::vector<char>(all.size(), 0));
    for (auto& e : es)
        reach[e.first][e.second] = 1;
    for (size_t k = 0; k < all.size(); k++)
        for (size_t i = 0; i < all.size(); i++)
            for (size_t j = 0; j < all.size(); j++)
                if (reach[i][k] && reach[k][j])
                    reach[i][j] = 1;
    bool cyclic = false;
    for (size_t i = 0; i < all.size(); i++)
        cyclic = cyclic || reach[i][i];
    c.trace << (cyclic ? "cyclic " : "acyclic ") << nt << " teams";
    for (int ok = 0; ok < 2; ok++) {
        std::ostringstream o;
        Log::CycleDetectionLALogger l(la, o, ok);
        for (int rep = 0; rep < 2; rep++) {
            o.str("");
            l.logAfterPopulateTPG();
            bool says = o.str().find("A cycle was detected") != std::string::npos, success = o.str().find("No cycle detected") != std::string::npos;
            REQUIRE(says == cyclic, "a graph " << (cyclic ? "with" : "without") << " cycle was reported as " << o.str());
            REQUIRE(success == (ok && !cyclic), "logOnSuccess=" << ok << " cyclic=" << cyclic << " reported as " << o.str());
            REQUIRE(!o.str().empty() == (cyclic || ok), "unexpected report " << o.str());
        }
    }
    c.nontrivial = !es.empty();
}

// ----------------------------------------------------------------- C32
namespace {
long alive = 0, deletedOne = 0, deletedArray = 0;
struct Obj {
    int v;
    Obj(int v = 0) : v(v) { alive++; }
    Obj(const Obj& o) : v(o.v) { alive++; }
    ~Obj() { alive--; }
    static void* operator new(size_t n) { return malloc(n); }
    static void* operator new[](size_t n) { return malloc(n); }
    static void operator delete(void* p) { deletedOne++; free(p); }
    static void operator delete[](void* p) { deletedArray++; free(p); }
};
using Data::UntypedSharedPtr;
template <class Q> bool gives(const UntypedSharedPtr& u, const void* expected, bool should, const char* what)
{
    bool ok = true;
    try {
        auto p = u.getSharedPointer<Q>();
        static_assert(std::is_same<decltype(p), std::shared_ptr<std::remove_all_extents_t<Q>>>::value, "type of the returned pointer");
        REQUIRE((const void*)p.get() == expected, what << ": another object was returned");
    }
    catch (const std::runtime_error&) {
        ok = false;
    }
    REQUIRE(ok == should, what << ": " << (ok ? "handed out" : "refused"));
    return ok;
}
// T: type of the view as created (const U, U, U[], const U[])
template <class T> void queries(const UntypedSharedPtr& u, const void* p)
{
    using E = std::remove_const_t<std::remove_all_extents_t<T>>;
    constexpr bool arr = std::is_array<T>::value, cst = std::is_const<std::remove_all_extents_t<T>>::value;
    gives<E>(u, p, !arr && !cst, "asked as T");
    gives<const E>(u, p, !arr, "asked as const T");
    gives<E[]>(u, p, arr && !cst, "asked as T[]");
    gives<const E[]>(u, p, arr, "asked as const T[]");
    struct Unrelated {
        int v;
    };
    gives<Unrelated>(u, p, false, "asked as an unrelated type");
    gives<const Unrelated[]>(u, p, false, "asked as an array of an unrelated type");
    if (!std::is_same<E, double>::value) {
        gives<double>(u, p, false, "asked as double");
        gives<const double[]>(u, p, false, "asked as const double[]");
    }
    if (!std::is_same<E, int>::value) {
        gives<const int>(u, p, false, "asked as const int");
        gives<int[]>(u, p, false, "asked as int[]");
    }
    if (!std::is_same<E, float>::value)
        gives<const float>(u, p, false, "asked as const float");
    gives<E*>(u, p, false, "asked as a pointer");
    REQUIRE(u.getType() == typeid(T), "type reported");
    using P = std::remove_all_extents_t<T>*;
    REQUIRE(u.getPtrType() == typeid(P), "pointer type reported");
}
// own: destroys the object with the last owner
template <class T> void oneCase(cdv::Case& c, Gen& g, bool own)
{
    using EC = std::remove_all_extents_t<T>;
    using E = std::remove_const_t<EC>;
    constexpr bool arr = std::is_array<T>::value, isObj = std::is_same<E, Obj>::value;
    size_t n = g.in(1, 5);
    alive = deletedOne = deletedArray = 0;
    E* raw = arr ? new E[n]() : new E();
    long made = isObj ? (arr ? (long)n : 1) : 0;
    {
        std::vector<UntypedSharedPtr> us;
        std::vector<std::shared_ptr<const E>> ps;
        if constexpr (arr)
            us.emplace_back(std::shared_ptr<UntypedSharedPtr::Concept>(std::make_shared<UntypedSharedPtr::Model<T>>((EC*)raw)));
        else if (own)
            us.emplace_back((EC*)raw);
        else
            us.emplace_back((EC*)raw, UntypedSharedPtr::emptyDestructor<EC>());
        size_t steps = g.in(0, 8);
        for (size_t i = 0; i < steps; i++) {
            if (us.empty() && ps.empty())
                break;
            if (isObj)
                REQUIRE(alive == made && deletedOne + deletedArray == 0, "destroyed while owned");
            switch (g.in(0, 4)) {
            case 0:
                if (!us.empty())
                    us.push_back(us[g.in(0, us.size() - 1)]);
                break;
            case 1:
                if (!us.empty())
                    queries<T>(us[g.in(0, us.size() - 1)], raw);
                break;
            case 2:
                if (!us.empty()) {
                    if constexpr (arr)
                        ps.push_back(us[0].getSharedPointer<const E[]>());
                    else
                        ps.push_back(us[0].getSharedPointer<const E>());
                }
                break;
            case 3:
                if (!us.empty())
                    us.erase(us.begin() + g.in(0, us.size() - 1));
                break;
            default:
                if (!ps.empty())
                    ps.erase(ps.begin() + g.in(0, ps.size() - 1));
            }
        }
        if (isObj && own && us.empty() && ps.empty())
            REQUIRE(alive == 0 && deletedOne == (arr ? 0 : 1) && deletedArray == (arr ? 1 : 0), "the last owner disappeared: " << alive << " objects alive, " << deletedOne << "/" << deletedArray << " deallocations");
        c.trace << us.size() << "," << ps.size() << " owners";
    }
    if (isObj && own)
        REQUIRE(alive == 0 && deletedOne == (arr ? 0 : 1) && deletedArray == (arr ? 1 : 0), "after the last owner: " << alive << " objects alive, " << deletedOne << "/" << deletedArray << " deallocations");
    if (isObj && !own)
        REQUIRE(alive == made && deletedOne + deletedArray == 0, "a view destroyed the data it viewed");
    if (!own) {
        if (arr)
            delete[] raw;
        else
            delete raw;
    }
}
} // namespace
SCENARIO("C32", operandViews, 200000, 3000000)
{
    Gen& g = c.g;
    bool own = g.chance(0.6);
    int k = g.in(0, 7);
    c.trace << "kind " << k << (own ? " owned " : " viewed ");
    switch (k) {
    case 0: oneCase<Obj>(c, g, own); break;
    case 1: oneCase<const Obj>(c, g, own); break;
    case 2: oneCase<Obj[]>(c, g, true); break;
    case 3: oneCase<const Obj[]>(c, g, true); break;
    case 4: oneCase<double>(c, g, own); break;
    case 5: oneCase<const int>(c, g, own); break;
    case 6: oneCase<const double[]>(c, g, true); break;
    default: oneCase<const float>(c, g, own); break;
    }
    c.nontrivial = true;
}
CDV_MAIN
