// C26: statistics of policies and executions against counts made by the harness.
// C29: a graph survives an export to a dot file and an import.
#include "world.h"
#include <deque>
#include <fstream>
#include <json.h>
using namespace world;

namespace {
using Loc = std::map<std::pair<size_t, size_t>, size_t>;

struct Ref { // the expected policy statistics
    std::map<const Program::Program*, size_t> progs;
    std::map<const TPG::TPGTeam*, size_t> teams;
    std::map<const TPG::TPGAction*, size_t> actions;
    std::map<size_t, size_t> instr, ids;
    Loc locs;
    std::multiset<size_t> lines, introns, outs;
};
void countLine(const World& w, const Program::Line& l, Ref& r)
{
    r.instr[l.getInstructionIndex()]++;
    const InstrDef& d = w.defs.at(l.getInstructionIndex());
    for (size_t o = 0; o < d.ops.size(); o++) {
        size_t di = l.getOperand(o).first;
        Src s = di == 0 ? w.regs(std::vector<double>(w.nbRegs)) : (w.nbConst && di == 1) ? w.consts(std::vector<double>(w.nbConst)) : w.srcs.at(di - (w.nbConst ? 2 : 1));
        for (size_t a : s.addresses(d.ops[o], l.getOperand(o).second % s.space(d.ops[o])))
            r.locs[{di, a}]++;
    }
}
void countProgram(const World& w, const Program::Program& p, Ref& r)
{
    if (r.progs[&p]++ > 0)
        return;
    size_t in = 0;
    for (size_t i = 0; i < p.getNbLines(); i++) {
        if (p.isIntron(i))
            in++;
        else
            countLine(w, p.getLine(i), r);
    }
    r.lines.insert(p.getNbLines());
    r.introns.insert(in);
}
void countPolicy(const World& w, const TPG::TPGVertex* v, Ref& r)
{
    if (auto a = dynamic_cast<const TPG::TPGAction*>(v)) {
        r.actions[a]++;
        r.ids[a->getActionID()]++;
        return;
    }
    auto t = dynamic_cast<const TPG::TPGTeam*>(v);
    if (r.teams[t]++ > 0)
        return;
    r.outs.insert(t->getOutgoingEdges().size());
    for (auto e : t->getOutgoingEdges()) {
        countProgram(w, e->getProgram(), r);
        countPolicy(w, e->getDestination(), r);
    }
}
std::multiset<size_t> ms(const std::vector<size_t>& v) { return {v.begin(), v.end()}; }
void compare(const TPG::PolicyStats& s, const Ref& r, const char* what)
{
    REQUIRE(s.nbUsePerProgram == r.progs, what << ": uses per program");
    REQUIRE(s.nbUsePerTPGTeam == r.teams, what << ": uses per team");
    REQUIRE(s.nbUsePerTPGAction == r.actions, what << ": uses per action");
    REQUIRE(s.nbUsagePerActionID == r.ids, what << ": uses per action identifier");
    REQUIRE(s.nbUsagePerInstruction == r.instr, what << ": uses per instruction");
    REQUIRE(s.nbUsagePerDataLocation == r.locs, what << ": uses per data location");
    REQUIRE(ms(s.nbLinesPerProgram) == r.lines, what << ": lines per program");
    REQUIRE(ms(s.nbIntronPerProgram) == r.introns, what << ": introns per program");
    REQUIRE(s.nbLinesPerProgram.size() == s.nbIntronPerProgram.size(), what << ": lines and introns describe different numbers of programs");
    REQUIRE(ms(s.nbOutgoingEdgesPerTeam) == r.outs, what << ": outgoing edges per team");
    REQUIRE(s.nbDistinctTeams == r.teams.size(), what << ": " << s.nbDistinctTeams << " distinct teams instead of " << r.teams.size());
}
size_t longest(const TPG::TPGVertex* v)
{
    size_t m = 0;
    for (auto e : v->getOutgoingEdges())
        m = std::max(m, 1 + longest(e->getDestination()));
    return m;
}
void compareDepth(const TPG::PolicyStats& s, const TPG::TPGVertex* root)
{
    std::map<const TPG::TPGVertex*, size_t> dist{{root, 0}}, arrivals;
    std::deque<const TPG::TPGVertex*> q{root};
    size_t shortest = 0;
    bool tree = true;
    std::map<size_t, size_t> first{{0, 1}}, edgesTo{{0, 1}};
    while (!q.empty()) {
        auto v = q.front();
        q.pop_front();
        for (auto e : v->getOutgoingEdges()) {
            edgesTo[dist[v] + 1]++;
            if (arrivals[e->getDestination()]++)
                tree = false;
            if (!dist.count(e->getDestination())) {
                size_t d = dist[v] + 1;
                dist[e->getDestination()] = d;
                first[d]++;
                shortest = std::max(shortest, d);
                q.push_back(e->getDestination());
            }
        }
    }
    size_t lg = longest(root);
    REQUIRE(s.maxPolicyDepth >= shortest && s.maxPolicyDepth <= lg, "the policy is between " << shortest << " and " << lg << " deep, not " << s.maxPolicyDepth);
    REQUIRE(s.nbTPGVertexPerDepthLevel.size() == s.maxPolicyDepth + 1, "levels of the policy");
    for (auto& p : s.nbTPGVertexPerDepthLevel) {
        REQUIRE(p.second >= first[p.first] && p.second <= edgesTo[p.first], "level " << p.first << " has between " << first[p.first] << " and " << edgesTo[p.first] << " vertices, not " << p.second);
        if (tree)
            REQUIRE(p.second == first[p.first], "vertices at level " << p.first << " of a tree");
    }
}
G treeOrGraph(const World& w, Gen& g, bool instrumented = false)
{
    return randomGraph(w, g, g.in(1, 8), g.in(1, 6), g.in(1, 4), g.in(1, 8), instrumented);
}
} // namespace

SCENARIO("C26", policyStatistics, 1500, 60000)
{
    Gen& g = c.g;
    auto w = makeWorld(g);
    G gr = treeOrGraph(*w, g);
    c.trace << w->str();
    TPG::PolicyStats s;
    s.setEnvironment(*w->env);
    for (int round = 0; round < 2; round++) {
        Ref r;
        size_t n = g.in(1, 4);
        for (size_t i = 0; i < n; i++) {
            const TPG::TPGVertex* v = g.chance(0.6) ? (gr.teams.empty() ? nullptr : gr.teams.back()) : gr.teams[g.in(0, gr.teams.size() - 1)];
            if (g.chance(0.05))
                v = gr.actions[g.in(0, gr.actions.size() - 1)];
            c.trace << " policy(" << v->getOutgoingEdges().size() << ")";
            s.analyzePolicy(v);
            countPolicy(*w, v, r);
            compare(s, r, i ? "accumulated policies" : "one policy");
            if (i == 0)
                compareDepth(s, v);
        }
        c.nontrivial = true;
        s.clear();
        compare(s, Ref(), "after clear");
        REQUIRE(s.nbTPGVertexPerDepthLevel.empty() && s.maxPolicyDepth == 0, "depth after clear");
    }
}

SCENARIO("C26", programStatistics, 1500, 60000)
{
    Gen& g = c.g;
    auto w = makeWorld(g);
    TPG::PolicyStats s;
    s.setEnvironment(*w->env);
    Ref r;
    std::vector<std::shared_ptr<Program::Program>> ps;
    for (size_t i = 0, n = g.in(1, 4); i < n; i++) {
        ps.push_back(randomProgram(*w, g, g.in(0, 12)));
        if (g.chance(0.8))
            ps.back()->identifyIntrons();
    }
    for (size_t i = 0, n = g.in(1, 8); i < n; i++) {
        auto& p = ps[g.in(0, ps.size() - 1)];
        c.trace << str(*w, *p) << " | ";
        if (g.chance(0.3) && p->getNbLines()) {
            auto& l = p->getLine(g.in(0, p->getNbLines() - 1));
            s.analyzeLine(&l);
            countLine(*w, l, r);
        }
        else {
            s.analyzeProgram(p.get());
            countProgram(*w, *p, r);
        }
        compare(s, r, "programs and lines");
        c.nontrivial = true;
    }
}

namespace {
struct TraceRef {
    uint64_t teams = 0, programs = 0, lines = 0;
    std::map<uint64_t, uint64_t> instr;
};
TraceRef ofTrace(const std::vector<const TPG::TPGVertex*>& t)
{
    TraceRef r;
    std::set<const TPG::TPGVertex*> seen;
    for (size_t i = 0; i + 1 < t.size(); i++) {
        r.teams++;
        seen.insert(t[i]);
        for (auto e : t[i]->getOutgoingEdges()) {
            if (seen.count(e->getDestination()))
                continue;
            r.programs++;
            r.lines += e->getProgram().getNbLines();
            for (size_t l = 0; l < e->getProgram().getNbLines(); l++)
                r.instr[((const Program::Program&)e->getProgram()).getLine(l).getInstructionIndex()]++;
        }
    }
    return r;
}
void compareTraces(const TPG::ExecutionStats& s, const std::vector<std::vector<const TPG::TPGVertex*>>& ts, const char* what)
{
    std::map<size_t, size_t> dt, dp, dl;
    std::map<size_t, std::map<size_t, size_t>> di;
    std::map<const TPG::TPGVertex*, size_t> dv;
    auto& got = s.getInferenceTracesStats();
    REQUIRE(got.size() == ts.size(), what << ": " << got.size() << " traces instead of " << ts.size());
    for (size_t i = 0; i < ts.size(); i++) {
        TraceRef r = ofTrace(ts[i]);
        dt[r.teams]++;
        dp[r.programs]++;
        dl[r.lines]++;
        for (auto& p : r.instr)
            di[p.first][p.second]++;
        for (auto v : ts[i])
            dv[v]++;
        REQUIRE(got[i].trace == ts[i], what << ": trace " << i << " is not stored as given");
        REQUIRE(got[i].nbEvaluatedTeams == r.teams, what << ": teams of trace " << i << ": " << got[i].nbEvaluatedTeams << " instead of " << r.teams);
        REQUIRE(got[i].nbEvaluatedPrograms == r.programs, what << ": programs of trace " << i << ": " << got[i].nbEvaluatedPrograms << " instead of " << r.programs);
        REQUIRE(got[i].nbExecutedLines == r.lines, what << ": lines of trace " << i << ": " << got[i].nbExecutedLines << " instead of " << r.lines);
        REQUIRE(got[i].nbExecutionPerInstruction == r.instr, what << ": instructions of trace " << i);
    }
    REQUIRE(s.getDistribEvaluatedTeams() == dt, what << ": distribution of teams");
    REQUIRE(s.getDistribEvaluatedPrograms() == dp, what << ": distribution of programs");
    REQUIRE(s.getDistribExecutedLines() == dl, what << ": distribution of lines");
    REQUIRE(s.getDistribNbExecutionPerInstruction() == di, what << ": distribution of instructions");
    REQUIRE(s.getDistribUsedVertices() == dv, what << ": distribution of vertices");
}
bool close(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); }
std::vector<const TPG::TPGVertex*> randomTrace(Gen& g, const G& gr)
{
    std::vector<const TPG::TPGVertex*> t{gr.teams[g.in(0, gr.teams.size() - 1)]};
    while (!t.back()->getOutgoingEdges().empty())
        t.push_back(g.pick(t.back()->getOutgoingEdges())->getDestination());
    return t;
}
std::string tmpFile(const char* ext)
{
    char cwd[4096];
    if (!getcwd(cwd, sizeof cwd))
        return std::string("/tmp/cdv-out.") + ext;
    return std::string(cwd) + "/out." + ext;
}
} // namespace

SCENARIO("C26", traceStatistics, 1500, 60000)
{
    Gen& g = c.g;
    auto w = makeWorld(g);
    G gr = treeOrGraph(*w, g, g.chance(0.5));
    TPG::ExecutionStats s;
    for (int round = 0; round < 2; round++) {
        std::vector<std::vector<const TPG::TPGVertex*>> ts;
        for (size_t i = 0, n = g.in(1, 5); i < n; i++) {
            ts.push_back(randomTrace(g, gr));
            c.trace << " trace" << ts.back().size();
            s.analyzeInferenceTrace(ts.back());
            compareTraces(s, ts, "accumulated traces");
            c.nontrivial = true;
        }
        s.clearInferenceTracesStats();
        compareTraces(s, {}, "after clear");
    }
    // a cycle: edges towards teams met earlier in the trace are not evaluated
    if (gr.teams.size() >= 2 && g.chance(0.5)) {
        auto a = gr.teams.front(), b = gr.teams.back();
        gr.g->addNewEdge(*a, *b, randomProgram(*w, g, 3));
        gr.g->addNewEdge(*b, *a, randomProgram(*w, g, 2));
        std::vector<const TPG::TPGVertex*> t{b, a, gr.actions[0]};
        s.analyzeInferenceTrace(t);
        compareTraces(s, {t}, "trace through a cycle");
    }
    // a team with edges towards itself: never evaluated
    if (g.chance(0.5)) {
        auto a = gr.teams[g.in(0, gr.teams.size() - 1)];
        for (size_t i = g.in(1, 2); i > 0; i--)
            gr.g->addNewEdge(*a, *a, randomProgram(*w, g, 3));
        TPG::ExecutionStats s2;
        std::vector<const TPG::TPGVertex*> t{a, gr.actions[0]};
        s2.analyzeInferenceTrace(t);
        compareTraces(s2, {t}, "trace through a team with an edge to itself");
    }
    c.trace << w->str();
}

SCENARIO("C26", executionStatistics, 800, 40000)
{
    Gen& g = c.g;
    auto w = makeWorld(g);
    G gr = treeOrGraph(*w, g, true);
    for (auto it = gr.actions.begin(); it != gr.actions.end();)
        if ((*it)->getIncomingEdges().empty()) { // averages are counted from root teams
            gr.g->removeVertex(**it);
            it = gr.actions.erase(it);
        }
        else
            ++it;
    TPG::TPGExecutionEngineInstrumented ee(*w->env);
    TPG::ExecutionStats s;
    std::vector<std::vector<const TPG::TPGVertex*>> ts;
    c.trace << w->str();
    for (int round = 0; round < 2; round++) {
        if (round == 1 && g.chance(0.5)) {
            ee.clearTraceHistory();
            ts.clear();
            auto f = (TPG::TPGInstrumentedFactory*)&gr.g->getFactory();
            f->resetTPGGraphCounters(*gr.g);
        }
        auto roots = gr.g->getRootVertices();
        for (size_t i = 0, n = g.in(1, 6); i < n; i++) {
            fillSources(*w, g);
            ts.push_back(ee.executeFromRoot(*roots[g.in(0, roots.size() - 1)]));
            c.trace << " run" << ts.back().size();
        }
        s.analyzeExecution(ee, gr.g.get());
        compareTraces(s, ts, "execution");
        TraceRef tot;
        for (auto& t : ts) {
            TraceRef r = ofTrace(t);
            tot.teams += r.teams;
            tot.programs += r.programs;
            tot.lines += r.lines;
            for (auto& p : r.instr)
                tot.instr[p.first] += p.second;
        }
        double n = (double)ts.size();
        REQUIRE(close(s.getAvgEvaluatedTeams(), tot.teams / n), "average number of teams: " << s.getAvgEvaluatedTeams() << " instead of " << tot.teams / n);
        REQUIRE(close(s.getAvgEvaluatedPrograms(), tot.programs / n), "average number of programs: " << s.getAvgEvaluatedPrograms() << " instead of " << tot.programs / n);
        REQUIRE(close(s.getAvgExecutedLines(), tot.lines / n), "average number of lines: " << s.getAvgExecutedLines() << " instead of " << tot.lines / n);
        REQUIRE(s.getAvgNbExecutionPerInstruction().size() == tot.instr.size(), "instructions with an average");
        for (auto& p : tot.instr)
            REQUIRE(close(s.getAvgNbExecutionPerInstruction().at(p.first), p.second / n), "average number of executions of instruction " << p.first);
        c.nontrivial = true;
        if (g.chance(0.3)) {
            std::string f = tmpFile("json");
            s.writeStatsToJson(f.c_str(), g.chance(0.5));
            std::ifstream in(f);
            Json::Value v;
            in >> v;
            auto& x = v["ExecutionStats"];
            auto c6 = [](double a, double b) { return std::fabs(a - b) <= 1e-5 * (1e-9 + std::fabs(b)); };
            REQUIRE(c6(x["avgEvaluatedTeams"].asDouble(), tot.teams / n) && c6(x["avgEvaluatedPrograms"].asDouble(), tot.programs / n) && c6(x["avgExecutedLines"].asDouble(), tot.lines / n), "averages in the file");
            REQUIRE(v["TracesStats"].size() == ts.size(), "traces in the file");
            auto vs = gr.g->getVertices();
            for (size_t i = 0; i < ts.size(); i++) {
                auto& t = v["TracesStats"][std::to_string(i)];
                TraceRef r = ofTrace(ts[i]);
                REQUIRE(t["trace"].size() == ts[i].size(), "length of trace " << i << " in the file");
                for (size_t k = 0; k < ts[i].size(); k++)
                    REQUIRE(vs.at(t["trace"][(int)k].asUInt64()) == ts[i][k], "trace " << i << " in the file goes through another vertex");
                REQUIRE(t["nbEvaluatedTeams"].asUInt64() == r.teams && t["nbEvaluatedPrograms"].asUInt64() == r.programs && t["nbExecutedLines"].asUInt64() == r.lines, "counts of trace " << i << " in the file");
                REQUIRE(t["nbExecutionPerInstruction"].size() == r.instr.size(), "instructions of trace " << i << " in the file");
            }
            for (auto& p : s.getDistribExecutedLines())
                REQUIRE(x["distributionExecutedLines"][std::to_string(p.first)].asUInt64() == p.second, "distribution of lines in the file");
            for (auto& p : s.getDistribUsedVertices())
                REQUIRE(x["distributionUsedVertices"][std::to_string(std::find(vs.begin(), vs.end(), p.first) - vs.begin())].asUInt64() == p.second, "distribution of vertices in the file");
        }
    }
}

// ------------------------------------------------------------------------ C29
namespace {
// the longest line of the file this program needs
bool fits(const World& w, const Program::Program& p)
{
    size_t n = 64;
    for (size_t i = 0; i < p.getNbLines(); i++) {
        auto& l = p.getLine(i);
        n += 40;
        for (size_t o = 0; o < w.env->getMaxNbOperands(); o++)
            n += std::to_string(l.getOperand(o).first).size() + std::to_string(l.getOperand(o).second).size() + 2;
    }
    return n < 4000;
}
std::string content(const World& w, const Program::Program& p)
{
    std::ostringstream o;
    for (size_t i = 0; i < p.getNbLines(); i++) {
        auto& l = p.getLine(i);
        o << l.getInstructionIndex() << ">" << l.getDestinationIndex();
        for (size_t k = 0; k < w.env->getMaxNbOperands(); k++)
            o << " " << l.getOperand(k).first << ":" << l.getOperand(k).second;
        o << ";";
    }
    o << "constants";
    for (size_t i = 0; i < w.nbConst; i++)
        o << " " << (int32_t)p.getConstantAt(i);
    return o.str();
}
void sameGraph(const World& w, const TPG::TPGGraph& a, const std::vector<const TPG::TPGVertex*>& vertices, const TPG::TPGGraph& b, std::map<const TPG::TPGVertex*, const TPG::TPGVertex*>& to)
{
    // teams keep their order; actions are identified by their identifier
    std::vector<const TPG::TPGVertex*> ta, tb;
    std::map<uint64_t, const TPG::TPGVertex*> aa, ab;
    size_t edges = 0;
    for (auto v : vertices) {
        if (auto x = dynamic_cast<const TPG::TPGAction*>(v))
            aa[x->getActionID()] = v;
        else
            ta.push_back(v);
        edges += v->getOutgoingEdges().size();
    }
    for (auto v : b.getVertices()) {
        if (auto x = dynamic_cast<const TPG::TPGAction*>(v)) {
            REQUIRE(!ab.count(x->getActionID()), "action identifier " << x->getActionID() << " was imported twice");
            ab[x->getActionID()] = v;
        }
        else
            tb.push_back(v);
    }
    REQUIRE(b.getNbVertices() == vertices.size(), b.getNbVertices() << " vertices were imported instead of " << vertices.size());
    REQUIRE(b.getEdges().size() == edges, b.getEdges().size() << " edges were imported instead of " << edges);
    REQUIRE(ta.size() == tb.size(), tb.size() << " teams were imported instead of " << ta.size());
    for (auto& p : aa) {
        REQUIRE(ab.count(p.first), "action " << p.first << " was not imported");
        to[p.second] = ab[p.first];
    }
    for (size_t i = 0; i < ta.size(); i++)
        to[ta[i]] = tb[i];
    std::map<const Program::Program*, const Program::Program*> pa, pb;
    for (size_t i = 0; i < ta.size(); i++) {
        auto &ea = ta[i]->getOutgoingEdges(), &eb = tb[i]->getOutgoingEdges();
        REQUIRE(ea.size() == eb.size(), "team " << i << " has " << eb.size() << " edges instead of " << ea.size());
        auto x = ea.begin();
        auto y = eb.begin();
        for (size_t k = 0; x != ea.end(); ++x, ++y, ++k) {
            REQUIRE(to[(*x)->getDestination()] == (*y)->getDestination(), "edge " << k << " of team " << i << " has another destination");
            const Program::Program *p = &(*x)->getProgram(), *q = &(*y)->getProgram();
            REQUIRE(content(w, *p) == content(w, *q), "edge " << k << " of team " << i << " carries another program: " << content(w, *q) << " instead of " << content(w, *p));
            REQUIRE((!pa.count(p) || pa[p] == q) && (!pb.count(q) || pb[q] == p), "programs are not shared by the same edges");
            pa[p] = q;
            pb[q] = p;
            // introns are not stored but must be those of the program
            Program::Program ref(*p);
            ref.identifyIntrons();
            for (size_t l = 0; l < p->getNbLines(); l++)
                REQUIRE(ref.isIntron(l) == q->isIntron(l), "intron " << l << " of an imported program");
        }
    }
}
uint64_t chosen(const TPG::TPGVertex* v) { return ((const TPG::TPGAction*)v)->getActionID(); }
} // namespace

SCENARIO("C29", dotRoundTrip, 600, 30000)
{
    Gen& g = c.g;
    auto w = makeWorld(g);
    G gr;
    gr.g = std::make_unique<TPG::TPGGraph>(*w->env);
    std::set<uint64_t> ids;
    for (size_t i = 0, n = g.in(1, 5); i < n; i++) {
        uint64_t id;
        do
            id = g.chance(0.15) ? g.next() : g.in(0, 20);
        while (!ids.insert(id).second);
        gr.actions.push_back(&gr.g->addNewAction(id));
    }
    std::vector<std::shared_ptr<Program::Program>> progs;
    auto addTeam = [&]() {
        const TPG::TPGTeam& t = gr.g->addNewTeam();
        for (size_t e = 0, n = g.in(1, 4); e < n; e++) {
            const TPG::TPGVertex* dst = (gr.teams.empty() || g.chance(0.45)) ? gr.actions[g.in(0, gr.actions.size() - 1)] : gr.teams[g.in(0, gr.teams.size() - 1)];
            std::shared_ptr<Program::Program> p;
            if (!progs.empty() && g.chance(0.35))
                p = progs[g.in(0, progs.size() - 1)];
            else {
                do {
                    p = randomProgram(*w, g, g.chance(0.1) ? g.in(8, 24) : g.in(0, 7));
                    if (w->nbConst && g.chance(0.3))
                        p->getConstantHandler().setDataAt(typeid(Data::Constant), g.in(0, w->nbConst - 1), Data::Constant{(int32_t)g.next()});
                    for (size_t i = 0; i < p->getNbLines(); i++) // locations a line accepts
                        for (size_t o = 0; o < w->env->getMaxNbOperands(); o++)
                            p->getLine(i).setOperand(o, p->getLine(i).getOperand(o).first, p->getLine(i).getOperand(o).second % w->env->getLargestAddressSpace(), false);
                } while (!fits(*w, *p));
                p->identifyIntrons();
                progs.push_back(p);
            }
            gr.g->addNewEdge(t, *dst, p);
        }
        gr.teams.push_back(&t);
    };
    for (size_t i = 0, n = g.in(1, 7); i < n; i++)
        addTeam();
    std::string f = tmpFile("dot");
    std::unique_ptr<File::TPGGraphDotExporter> ex;
    std::unique_ptr<File::TPGGraphDotImporter> im;
    TPG::TPGGraph back(*w->env);
    c.trace << w->str();
    if (g.chance(0.3))
        back.addNewEdge(back.addNewTeam(), back.addNewAction(7), randomProgram(*w, g, 2));
    size_t rounds = g.in(1, 3);
    for (size_t r = 0; r < rounds; r++) {
        if (!ex)
            ex = std::make_unique<File::TPGGraphDotExporter>(f.c_str(), *gr.g);
        else
            ex->setNewFilePath(f.c_str());
        bool sub = g.chance(0.3);
        const TPG::TPGVertex* root = gr.teams[g.in(0, gr.teams.size() - 1)];
        std::vector<const TPG::TPGVertex*> exported;
        if (sub) {
            ex->printSubGraph(root);
            // breadth first, the order in which the teams are written
            std::deque<const TPG::TPGVertex*> q{root};
            std::set<const TPG::TPGVertex*> seen{root};
            while (!q.empty()) {
                auto v = q.front();
                q.pop_front();
                exported.push_back(v);
                for (auto e : v->getOutgoingEdges())
                    if (seen.insert(e->getDestination()).second)
                        q.push_back(e->getDestination());
            }
        }
        else {
            ex->print();
            exported = gr.g->getVertices();
        }
        if (!im)
            im = std::make_unique<File::TPGGraphDotImporter>(f.c_str(), *w->env, back);
        else {
            im->setNewFilePath(f.c_str());
            im->importGraph();
        }
        c.trace << (sub ? " subgraph " : " graph ") << exported.size() << "/" << gr.g->getEdges().size();
        std::map<const TPG::TPGVertex*, const TPG::TPGVertex*> to;
        sameGraph(*w, *gr.g, exported, back, to);
        c.nontrivial = true;
        // same answers on the same inputs
        TPG::TPGExecutionEngine ee(*w->env);
        for (int k = 0; k < 3; k++) {
            fillSources(*w, g);
            for (auto v : exported) {
                auto a = ee.executeFromRoot(*v), b = ee.executeFromRoot(*to[v]);
                REQUIRE(a.size() == b.size() && chosen(a.back()) == chosen(b.back()), "the imported graph answers " << chosen(b.back()) << " instead of " << chosen(a.back()));
                for (size_t i = 0; i < a.size(); i++)
                    REQUIRE(to[a[i]] == b[i], "the imported graph follows another path");
            }
        }
        // edit before the next round
        if (r + 1 < rounds) {
            if (g.chance(0.5))
                addTeam();
            else {
                auto roots = gr.g->getRootVertices();
                auto v = roots[g.in(0, roots.size() - 1)];
                if (dynamic_cast<const TPG::TPGTeam*>(v) && gr.teams.size() > 1) {
                    gr.teams.erase(std::find(gr.teams.begin(), gr.teams.end(), v));
                    gr.g->removeVertex(*v);
                }
            }
        }
    }
}

CDV_MAIN
