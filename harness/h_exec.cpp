// C04, C05, C25: inference against a reference evaluation of the policy.
#include "world.h"
using namespace world;

namespace {
struct Offer {
    const Program::Program* p;
    double v;
};
struct SpyArchive : Archive {
    std::vector<Offer> offers;
    SpyArchive() : Archive(1000, 1.0, 0) {}
    void addRecording(const Program::Program* const p, const std::vector<std::reference_wrapper<const Data::DataHandler>>& d, double r, bool forced = false) override
    {
        offers.push_back({p, r});
        Archive::addRecording(p, d, r, forced);
    }
};
double bidOf(const World& w, const TPG::TPGEdge& e)
{
    double r = reference(w, e.getProgram(), true)[0];
    return std::isnan(r) ? -INFINITY : r;
}
// the edge a team must follow
const TPG::TPGEdge* winner(const World& w, const TPG::TPGVertex& t, uint64_t* lines = nullptr)
{
    const TPG::TPGEdge* best = nullptr;
    double bb = 0;
    for (auto e : t.getOutgoingEdges()) {
        double b = bidOf(w, *e);
        if (lines)
            for (size_t i = 0; i < e->getProgram().getNbLines(); i++)
                *lines += !e->getProgram().isIntron(i);
        if (!best || b >= bb) {
            best = e;
            bb = b;
        }
    }
    return best;
}
std::string describe(const World& w, const G& g)
{
    std::ostringstream o;
    o << w.str() << " graph:";
    for (auto t : g.teams) {
        o << " T(";
        for (auto e : t->getOutgoingEdges())
            o << bidOf(w, *e) << " ";
        o << ")";
    }
    return o.str();
}
// more ties and more not-a-number bids than random programs give
void spice(const World& w, Gen& g, G& r)
{
    for (auto& e : r.g->getEdges()) {
        (void)e;
        break;
    }
    for (auto t : r.teams)
        if (g.chance(0.3)) {
            auto p = std::make_shared<Program::Program>(*w.env);   // empty: always bids 0
            r.g->addNewEdge(*t, *r.actions[g.in(0, r.actions.size() - 1)], p);
        }
}
} // namespace

SCENARIO("C04", teamEvaluation, 3000, 20000)
{
    Gen& g = c.g;
    auto w = makeWorld(g);
    G r = randomGraph(*w, g, g.in(1, 4), g.in(1, 4), 5, 6);
    spice(*w, g, r);
    c.trace << describe(*w, r);
    SpyArchive arch;
    int how = (int)g.in(0, 2); // 0: no archive, 1: by constructor, 2: attached later
    TPG::TPGExecutionEngine eng(*w->env, how == 1 ? &arch : nullptr);
    if (how == 2)
        eng.setArchive(&arch);
    for (int round = 0; round < 3; round++) {
        for (auto t : r.teams) {
            auto& team = dynamic_cast<const TPG::TPGTeam&>(*t);
            arch.offers.clear();
            uint64_t lines = 0;
            const TPG::TPGEdge* want = winner(*w, team, &lines);
            executedInstructions = 0;
            const TPG::TPGEdge& got = eng.evaluateTeam(team);
            REQUIRE(executedInstructions == lines, "the instructions executed are not those of each program once");
            size_t pos = 0, i = 0, wpos = 0;
            for (auto e : team.getOutgoingEdges()) {
                if (e == &got)
                    pos = i;
                if (e == want)
                    wpos = i;
                i++;
            }
            REQUIRE(&got == want, "followed edge " << pos << " (bid " << bidOf(*w, got) << ") instead of edge " << wpos << " (bid " << bidOf(*w, *want) << ")");
            if (how) {
                REQUIRE(arch.offers.size() == team.getOutgoingEdges().size(), "each bid must be offered once to the archive");
                i = 0;
                for (auto e : team.getOutgoingEdges()) {
                    REQUIRE(arch.offers[i].p == &e->getProgram(), "bid " << i << " offered with another program");
                    REQUIRE(same(arch.offers[i].v, bidOf(*w, *e)), "bid " << i << " offered as " << arch.offers[i].v << " but used as " << bidOf(*w, *e));
                    i++;
                }
            }
            else
                REQUIRE(arch.offers.empty(), "a bid reached an archive that is not attached");
            for (auto e : team.getOutgoingEdges()) {
                double b = eng.evaluateEdge(*e);
                REQUIRE(same(b, bidOf(*w, *e)), "evaluateEdge returned " << b << " instead of " << bidOf(*w, *e));
            }
            if (team.getOutgoingEdges().size() > 1)
                c.nontrivial = true;
        }
        fillSources(*w, g);
    }
}

SCENARIO("C05", inferencePath, 3000, 20000)
{
    Gen& g = c.g;
    auto w = makeWorld(g);
    bool ins = g.chance(0.5);
    G r = randomGraph(*w, g, g.in(1, 7), g.in(1, 4), 4, 5, ins);
    spice(*w, g, r);
    c.trace << describe(*w, r);
    SpyArchive arch;
    std::unique_ptr<TPG::TPGExecutionEngine> eng = r.g->getFactory().createTPGExecutionEngine(*w->env, g.chance(0.5) ? &arch : nullptr);
    for (int round = 0; round < 4; round++) {
        auto vs = r.g->getVertices();
        std::vector<std::vector<const TPG::TPGEdge*>> links;
        for (auto v : vs)
            links.push_back({v->getOutgoingEdges().begin(), v->getOutgoingEdges().end()});
        size_t ne = r.g->getEdges().size();
        for (auto v : vs) {
            auto path = eng->executeFromRoot(*v);
            REQUIRE(!path.empty() && path.front() == v, "the path does not start at the vertex");
            const TPG::TPGVertex* cur = v;
            size_t i = 1;
            while (dynamic_cast<const TPG::TPGTeam*>(cur)) {
                cur = winner(*w, *cur)->getDestination();
                REQUIRE(i < path.size() && path[i] == cur, "step " << i << " does not follow the winning edge");
                i++;
            }
            REQUIRE(i == path.size(), "the path continues after an action");
            if (path.size() > 2)
                c.nontrivial = true;
        }
        REQUIRE(r.g->getVertices() == vs && r.g->getEdges().size() == ne, "the walk changed the graph");
        for (size_t i = 0; i < vs.size(); i++)
            REQUIRE((links[i] == std::vector<const TPG::TPGEdge*>(vs[i]->getOutgoingEdges().begin(), vs[i]->getOutgoingEdges().end())), "the walk changed the links of a vertex");
        fillSources(*w, g);
    }
}

namespace {
struct Counts {
    std::map<const void*, uint64_t> vv, ev, et;
    bool operator==(const Counts& o) const { return vv == o.vv && ev == o.ev && et == o.et; }
};
Counts counts(const TPG::TPGGraph& g)
{
    Counts k;
    for (auto v : g.getVertices())
        k.vv[v] = dynamic_cast<const TPG::TPGVertexInstrumentation&>(*v).getNbVisits();
    for (auto& e : g.getEdges()) {
        auto& i = dynamic_cast<const TPG::TPGEdgeInstrumented&>(*e);
        k.ev[e.get()] = i.getNbVisits();
        k.et[e.get()] = i.getNbTraversal();
    }
    return k;
}
} // namespace

SCENARIO("C25", instrumentation, 2500, 15000)
{
    Gen& g = c.g;
    auto w = makeWorld(g);
    G r = randomGraph(*w, g, g.in(1, 7), g.in(1, 4), 4, 5, true);
    spice(*w, g, r);
    c.trace << describe(*w, r);
    TPG::TPGInstrumentedFactory fac;
    TPG::TPGExecutionEngineInstrumented eng(*w->env);
    Counts want = counts(*r.g);
    for (auto& x : want.vv)
        REQUIRE(x.second == 0, "a new vertex is already counted");
    std::vector<std::vector<const TPG::TPGVertex*>> traces;
    std::vector<std::vector<double>> states;
    auto run = [&](const TPG::TPGVertex* v) {
        auto path = eng.executeFromRoot(*v);
        const TPG::TPGVertex* cur = v;
        want.vv[cur]++;
        while (dynamic_cast<const TPG::TPGTeam*>(cur)) {
            for (auto e : cur->getOutgoingEdges())
                want.ev[e]++;
            auto e = winner(*w, *cur);
            want.et[e]++;
            cur = e->getDestination();
            want.vv[cur]++;
        }
        REQUIRE(counts(*r.g) == want, "the counters differ from the visited vertices, evaluated edges and followed edges");
        traces.push_back(path);
        REQUIRE(eng.getTraceHistory() == traces, "the trace history is not the list of inferences");
    };
    auto snapshot = [&] {
        std::vector<double> s;
        for (auto& x : w->srcs)
            s.insert(s.end(), x.content.begin(), x.content.end());
        return s;
    };
    auto restore = [&](const std::vector<double>& s) {
        size_t k = 0;
        for (auto& x : w->srcs)
            for (size_t i = 0; i < x.content.size(); i++)
                x.set(i, s[k++]);
    };
    auto roots = r.g->getRootVertices();
    auto all = r.g->getVertices();
    for (size_t n = g.in(0, 3); n > 0; n--) {
        run(all[g.in(0, all.size() - 1)]);
        fillSources(*w, g);
    }
    if (g.chance(0.7)) {
        fac.resetTPGGraphCounters(*r.g);
        for (auto& x : want.vv) x.second = 0;
        for (auto& x : want.ev) x.second = 0;
        for (auto& x : want.et) x.second = 0;
        REQUIRE(counts(*r.g) == want, "resetting leaves a counter");
    }
    eng.clearTraceHistory();
    traces.clear();
    REQUIRE(eng.getTraceHistory().empty(), "clearing keeps traces");
    for (size_t n = g.in(1, 6); n > 0; n--) {
        states.push_back(snapshot());
        run(roots[g.in(0, roots.size() - 1)]);
        fillSources(*w, g);
    }
    // pruning
    Counts before = counts(*r.g);
    fac.clearUnusedTPGGraphElements(*r.g);
    std::vector<const TPG::TPGVertex*> keepV;
    for (auto v : all)
        if (before.vv[v])
            keepV.push_back(v);
    REQUIRE(r.g->getVertices() == keepV, "pruning does not keep exactly the visited vertices");
    std::set<const void*> keepE, haveE;
    for (auto& x : before.et)
        if (x.second)
            keepE.insert(x.first);
    for (auto& e : r.g->getEdges())
        haveE.insert(e.get());
    REQUIRE(haveE == keepE, "pruning does not keep exactly the traversed edges");
    if (before.et.size() != keepE.size())
        c.nontrivial = true;
    TPG::TPGExecutionEngineInstrumented eng2(*w->env);
    for (size_t i = 0; i < states.size(); i++) {
        restore(states[i]);
        REQUIRE(eng2.executeFromRoot(*traces[i].front()) == traces[i], "the pruned graph answers differently on recorded execution " << i);
    }
}
CDV_MAIN
