// C14: generation and mutation of graphs.
#include "learn.h"
using namespace world;
using learn::instrSet;

namespace {
struct EdgeImage {
    const TPG::TPGEdge* e;
    const TPG::TPGVertex* dst;
    const Program::Program* prog;
    std::string content;
};
std::string content(const Program::Program& p)
{
    std::ostringstream o;
    for (size_t i = 0; i < p.getNbLines(); i++) {
        auto& l = p.getLine(i);
        o << l.getDestinationIndex() << "=" << l.getInstructionIndex();
        for (size_t k = 0; k < p.getEnvironment().getMaxNbOperands(); k++)
            o << "," << l.getOperand(k).first << ":" << l.getOperand(k).second;
        o << ";";
    }
    for (size_t i = 0; i < p.getEnvironment().getNbConstant(); i++)
        o << (int32_t)p.getConstantAt(i) << " ";
    return o.str();
}
using Image = std::map<const TPG::TPGVertex*, std::vector<EdgeImage>>;
Image image(const TPG::TPGGraph& g, const std::set<const TPG::TPGVertex*>* only = nullptr)
{
    Image m;
    for (auto v : g.getVertices())
        if (!only || only->count(v)) {
            auto& l = m[v];
            for (auto e : v->getOutgoingEdges())
                l.push_back({e, e->getDestination(), &e->getProgram(), content(e->getProgram())});
        }
    return m;
}
void unchanged(const Image& before, const TPG::TPGGraph& g, const char* what, const TPG::TPGEdge* except = nullptr)
{
    std::set<const TPG::TPGVertex*> vs;
    for (auto& b : before)
        vs.insert(b.first);
    Image now = image(g, &vs);
    for (auto& b : before) {
        auto it = now.find(b.first);
        REQUIRE(it != now.end(), what << ": a vertex disappeared");
        REQUIRE(it->second.size() == b.second.size(), what << ": a surviving vertex has " << it->second.size() << " edges instead of " << b.second.size());
        for (size_t i = 0; i < b.second.size(); i++) {
            const auto& x = b.second[i];
            const auto& y = it->second[i];
            REQUIRE(x.e == y.e, what << ": edge " << i << " of a surviving vertex was replaced");
            if (x.e == except)
                continue;
            REQUIRE(x.dst == y.dst && x.prog == y.prog, what << ": destination or program of a surviving edge changed");
            REQUIRE(x.content == y.content, what << ": the program of a surviving edge was modified");
        }
    }
}
void wellFormed(const TPG::TPGGraph& g, size_t nbActions, const char* what)
{
    std::map<const TPG::TPGVertex*, int> state;
    std::vector<uint64_t> ids;
    std::set<const TPG::TPGVertex*> all;
    for (auto v : g.getVertices())
        all.insert(v);
    size_t ne = 0;
    for (auto v : g.getVertices()) {
        if (auto a = dynamic_cast<const TPG::TPGAction*>(v)) {
            ids.push_back(a->getActionID());
            REQUIRE(v->getOutgoingEdges().empty(), what << ": an action has outgoing edges");
        }
        else
            REQUIRE(!v->getOutgoingEdges().empty(), what << ": a team has no outgoing edge");
        for (auto e : v->getOutgoingEdges()) {
            ne++;
            REQUIRE(e->getSource() == v && all.count(e->getDestination()), what << ": an edge is not between vertices of the graph");
            auto& in = e->getDestination()->getIncomingEdges();
            REQUIRE(std::count(in.begin(), in.end(), e) == 1, what << ": an edge is not registered at its destination");
            auto& p = e->getProgram();
            REQUIRE(p.getNbLines() >= 1, what << ": an empty program");
        }
    }
    REQUIRE(ne == g.getEdges().size(), what << ": " << g.getEdges().size() << " edges, " << ne << " reachable from their source");
    std::sort(ids.begin(), ids.end());
    REQUIRE(ids.size() == nbActions, what << ": " << ids.size() << " actions instead of " << nbActions);
    for (size_t i = 0; i < nbActions; i++)
        REQUIRE(ids[i] == i, what << ": action " << i << " is missing");
    std::function<void(const TPG::TPGVertex*)> visit = [&](const TPG::TPGVertex* v) {
        state[v] = 1;
        for (auto e : v->getOutgoingEdges()) {
            REQUIRE(state[e->getDestination()] != 1, what << ": the graph has a cycle");
            if (!state[e->getDestination()])
                visit(e->getDestination());
        }
        state[v] = 2;
    };
    for (auto v : g.getVertices())
        if (!state[v])
            visit(v);
}
struct Setup {
    Data::PrimitiveTypeArray<double> data;
    std::vector<std::reference_wrapper<const Data::DataHandler>> src;
    Environment env;
    Mutator::MutationParameters p;
    Mutator::RNG rng;
    size_t nbActions;
    Setup(Gen& g, size_t nA, const Learn::LearningParameters& lp) : data(g.in(1, 6)), src{data}, env(instrSet(), src, lp.nbRegisters, lp.nbProgramConstant), p(lp.mutation), rng(g.next()), nbActions(nA) {}
};
void describe(cdv::Case& c, const Mutator::MutationParameters& p)
{
    c.trace << "actions=" << p.tpg.nbActions << " init=" << p.tpg.maxInitOutgoingEdges << " max=" << p.tpg.maxOutgoingEdges << " roots=" << p.tpg.nbRoots << " del=" << p.tpg.pEdgeDeletion << " add=" << p.tpg.pEdgeAddition << " mut=" << p.tpg.pProgramMutation << " dst=" << p.tpg.pEdgeDestinationChange << "/" << p.tpg.pEdgeDestinationIsAction;
}
} // namespace

SCENARIO("C14", initialGraph, 30000, 400000)
{
    Gen& g = c.g;
    size_t nA = g.in(1, 8);
    Learn::LearningParameters lp = learn::randomParams(g, std::max<size_t>(nA, 2));
    lp.mutation.tpg.nbActions = nA;
    lp.mutation.tpg.maxInitOutgoingEdges = g.in(0, nA + 1);
    lp.mutation.prog.maxProgramSize = g.in(2, 4);
    Setup s(g, nA, lp);
    describe(c, s.p);
    TPG::TPGGraph tpg(s.env);
    for (size_t i = g.in(0, 2); i > 0; i--)
        tpg.addNewTeam();
    bool valid = nA >= 2 && s.p.tpg.maxInitOutgoingEdges <= nA && s.p.tpg.maxInitOutgoingEdges >= 2;
    size_t before = tpg.getNbVertices();
    bool thrown = cdv::throws([&] { Mutator::TPGMutator::initRandomTPG(tpg, s.p, s.rng); });
    if (!valid) {
        REQUIRE(thrown, "invalid parameters were accepted");
        REQUIRE(tpg.getNbVertices() == before, "a rejected generation modified the graph");
        return;
    }
    REQUIRE(!thrown, "valid parameters were rejected");
    wellFormed(tpg, nA, "initial graph");
    size_t teams = 0;
    for (auto v : tpg.getVertices())
        if (dynamic_cast<const TPG::TPGTeam*>(v)) {
            teams++;
            size_t n = v->getOutgoingEdges().size();
            REQUIRE(n >= 1 && n <= s.p.tpg.maxInitOutgoingEdges, "an initial team has " << n << " edges");
            REQUIRE(v->getIncomingEdges().empty(), "an initial team is not a root");
            for (auto e : v->getOutgoingEdges())
                REQUIRE(e->getProgram().getNbLines() <= s.p.prog.maxProgramSize, "program longer than configured");
        }
    REQUIRE(teams >= 1, "no team");
    c.nontrivial = true;
}

// several generations of decimation and population
SCENARIO("C14", generations, 6000, 80000)
{
    Gen& g = c.g;
    size_t nA = g.in(2, 6);
    Learn::LearningParameters lp = learn::randomParams(g, nA);
    if (g.chance(0.3))
        lp.mutation.tpg.pEdgeDestinationIsAction = g.real(0, 1);
    if (g.chance(0.2))
        lp.mutation.tpg.pEdgeDestinationChange = 1;
    lp.mutation.prog.maxProgramSize = g.in(2, 6);
    Setup s(g, nA, lp);
    describe(c, s.p);
    TPG::TPGGraph tpg(s.env);
    Archive archive(g.in(1, 8), 1.0, g.next());
    size_t threads = g.chance(0.15) ? g.in(2, 3) : 1;
    bool known = false; // see known_findings.txt, edgeDestinationAction
    size_t gens = g.in(1, 4);
    c.trace << " generations=" << gens << " threads=" << threads;
    std::set<const Program::Program*> archived;
    for (size_t k = 0; k < gens; k++) {
        // removal of roots, as a selection would do (never an action)
        for (size_t n = g.in(0, 6); n > 0 && k > 0; n--) {
            auto r = tpg.getRootVertices();
            auto v = r[g.in(0, r.size() - 1)];
            if (g.chance(0.97) && dynamic_cast<const TPG::TPGTeam*>(v))
                tpg.removeVertex(*v);
        }
        std::set<const TPG::TPGVertex*> teamsBefore;
        bool fresh = false;
        size_t rootTeams = 0;
        for (auto v : tpg.getRootVertices())
            rootTeams += dynamic_cast<const TPG::TPGTeam*>(v) != nullptr;
        fresh = rootTeams == 0;
        for (auto v : tpg.getVertices())
            teamsBefore.insert(v);
        Image before = image(tpg);
        size_t rootsBefore = tpg.getNbRootVertices(), teamsN = 0;
        for (auto v : teamsBefore)
            teamsN += dynamic_cast<const TPG::TPGTeam*>(v) != nullptr;
        try {
            Mutator::TPGMutator::populateTPG(tpg, archive, s.p, s.rng, threads);
        }
        catch (const std::out_of_range&) {
            if (s.p.tpg.pEdgeDestinationIsAction > 0 && teamsN < nA) {
                known = true;
                break;
            }
            throw;
        }
        wellFormed(tpg, nA, "populated graph");
        size_t want = fresh ? s.p.tpg.nbRoots : std::max(s.p.tpg.nbRoots, rootsBefore);
        REQUIRE(tpg.getNbRootVertices() >= s.p.tpg.nbRoots, "only " << tpg.getNbRootVertices() << " roots after a population step");
        if (!fresh) {
            unchanged(before, tpg, "population step");
            REQUIRE(tpg.getNbRootVertices() <= want, tpg.getNbRootVertices() << " roots after a population step from " << rootsBefore);
        }
        for (auto v : tpg.getVertices())
            if (dynamic_cast<const TPG::TPGTeam*>(v) && (fresh || !teamsBefore.count(v))) {
                size_t n = v->getOutgoingEdges().size(), lim = std::max(s.p.tpg.maxOutgoingEdges, s.p.tpg.maxInitOutgoingEdges);
                REQUIRE(n >= 1 && n <= lim, "a created team has " << n << " edges, at most " << lim << " are configured");
                for (auto e : v->getOutgoingEdges()) {
                    if (!fresh)
                        REQUIRE(teamsBefore.count(e->getDestination()), "an edge of a created team leads to another created team");
                    REQUIRE(e->getProgram().getNbLines() <= s.p.prog.maxProgramSize, "program longer than configured");
                }
            }
        // some recordings for the next step
        std::vector<std::shared_ptr<Program::Program>> ps;
        for (auto& e : tpg.getEdges())
            ps.push_back(e->getProgramSharedPointer());
        static std::vector<std::shared_ptr<Program::Program>> keep;
        if (keep.size() > 5000)
            keep.clear();
        for (size_t i = 0; i < 3; i++) {
            s.data.setDataAt(typeid(double), 0, g.real(-5, 5));
            auto p = ps[g.in(0, ps.size() - 1)];
            keep.push_back(p);
            Program::ProgramExecutionEngine pee(*p);
            archive.addRecording(p.get(), s.src, pee.executeProgram());
        }
    }
    c.nontrivial = !known;
}

// the elementary mutations
SCENARIO("C14", elementaryMutations, 20000, 300000)
{
    Gen& g = c.g;
    size_t nA = g.in(2, 6);
    Learn::LearningParameters lp = learn::randomParams(g, nA);
    lp.mutation.prog.maxProgramSize = g.in(2, 4);
    lp.mutation.tpg.nbRoots = g.in(2, 8);
    Setup s(g, nA, lp);
    TPG::TPGGraph tpg(s.env);
    Archive archive(1, 0.0);
    Mutator::TPGMutator::initRandomTPG(tpg, s.p, s.rng);
    if (g.chance(0.6))
        Mutator::TPGMutator::populateTPG(tpg, archive, s.p, s.rng, 1);
    std::vector<const TPG::TPGTeam*> teams;
    std::vector<const TPG::TPGAction*> actions;
    std::list<const TPG::TPGEdge*> edges;
    for (auto v : tpg.getVertices())
        if (auto t = dynamic_cast<const TPG::TPGTeam*>(v))
            teams.push_back(t);
        else
            actions.push_back((const TPG::TPGAction*)v);
    for (auto& e : tpg.getEdges())
        edges.push_back(e.get());
    Image before = image(tpg);
    // mutations are applied to a new root
    auto& root = (const TPG::TPGTeam&)tpg.cloneVertex(*teams[g.in(0, teams.size() - 1)]);
    Image cloned = image(tpg);
    size_t n = root.getOutgoingEdges().size();
    std::list<std::shared_ptr<Program::Program>> fresh;
    auto pick = [&] {
        auto it = root.getOutgoingEdges().begin();
        std::advance(it, g.in(0, n - 1));
        return *it;
    };
    int k = g.in(0, 4);
    describe(c, s.p);
    c.trace << " op=" << k << " edges=" << n;
    if (k == 0) {
        Mutator::TPGMutator::removeRandomEdge(tpg, root, s.rng);
        REQUIRE(root.getOutgoingEdges().size() == n - 1, "removeRandomEdge left " << root.getOutgoingEdges().size() << " of " << n << " edges");
        std::set<const TPG::TPGEdge*> old;
        for (auto& e : cloned[&root])
            old.insert(e.e);
        for (auto e : root.getOutgoingEdges())
            REQUIRE(old.count(e), "removeRandomEdge created an edge");
    }
    else if (k == 1) {
        Mutator::TPGMutator::addRandomEdge(tpg, root, edges, s.rng);
        REQUIRE(root.getOutgoingEdges().size() == n + 1, "addRandomEdge did not add one edge");
        std::set<const TPG::TPGEdge*> old;
        for (auto& e : cloned[&root])
            old.insert(e.e);
        size_t news = 0;
        for (auto e : root.getOutgoingEdges())
            if (!old.count(e)) {
                news++;
                REQUIRE(e->getDestination() != &root, "a team got an edge to itself");
                bool dup = false;
                for (auto p : edges)
                    dup = dup || (p->getDestination() == e->getDestination() && &p->getProgram() == &e->getProgram());
                REQUIRE(dup, "the added edge does not duplicate a pre-existing edge");
            }
        REQUIRE(news == 1, "addRandomEdge added " << news << " edges");
    }
    else if (k == 2) {
        auto e = pick();
        auto prog = &e->getProgram();
        Mutator::TPGMutator::mutateEdgeDestination(tpg, e, teams, actions, s.p, s.rng);
        REQUIRE(std::find(teams.begin(), teams.end(), e->getDestination()) != teams.end(), "with no probability for actions, an edge was not redirected to a pre-existing team");
        REQUIRE(&e->getProgram() == prog && e->getSource() == &root, "redirecting an edge changed its program or source");
        unchanged(cloned, tpg, "mutateEdgeDestination", e);
        wellFormed(tpg, nA, "after mutateEdgeDestination");
        c.nontrivial = true;
        return;
    }
    else if (k == 3) {
        auto e = pick();
        auto prog = &e->getProgram();
        auto dst = e->getDestination();
        auto cont = content(*prog);
        Mutator::TPGMutator::mutateOutgoingEdge(tpg, e, teams, actions, fresh, s.p, s.rng);
        REQUIRE(fresh.size() == 1 && fresh.front().get() == &e->getProgram() && &e->getProgram() != prog, "the program of a mutated edge is not a new copy to be mutated");
        REQUIRE(content(e->getProgram()) == cont, "the new program is not a copy of the original");
        REQUIRE(e->getDestination() == dst || std::find(teams.begin(), teams.end(), e->getDestination()) != teams.end(), "an edge was redirected outside of the pre-existing teams");
        if (s.p.tpg.pEdgeDestinationChange == 0)
            REQUIRE(e->getDestination() == dst, "an edge was redirected although configured never to be");
        unchanged(cloned, tpg, "mutateOutgoingEdge", e);
        wellFormed(tpg, nA, "after mutateOutgoingEdge");
        c.nontrivial = true;
        return;
    }
    else {
        Mutator::TPGMutator::mutateTPGTeam(tpg, archive, root, teams, actions, edges, fresh, s.p, s.rng);
        size_t m = root.getOutgoingEdges().size();
        REQUIRE(m >= 1 && m <= std::max(s.p.tpg.maxOutgoingEdges, n), "a mutated team has " << m << " edges");
        REQUIRE(!fresh.empty(), "no program of a mutated team is to be mutated");
        std::set<const Program::Program*> used;
        for (auto e : root.getOutgoingEdges()) {
            used.insert(&e->getProgram());
            REQUIRE(e->getDestination() != &root, "a team got an edge to itself");
        }
        size_t u = 0;
        for (auto& f : fresh)
            u += used.count(f.get());
        REQUIRE(u >= 1, "no edge of a mutated team has a new program");
    }
    unchanged(before, tpg, "elementary mutation");
    wellFormed(tpg, nA, "after an elementary mutation");
    c.nontrivial = true;
}

SCENARIO("C14", edgeDestinationAction, 300, 3000)
{
    Gen& g = c.g;
    size_t nA = g.in(2, 6);
    Learn::LearningParameters lp = learn::randomParams(g, nA);
    lp.mutation.prog.maxProgramSize = 3;
    lp.mutation.tpg.pEdgeDestinationIsAction = 1;
    Setup s(g, nA, lp);
    TPG::TPGGraph tpg(s.env);
    Mutator::TPGMutator::initRandomTPG(tpg, s.p, s.rng);
    std::vector<const TPG::TPGTeam*> teams;
    std::vector<const TPG::TPGAction*> actions;
    for (auto v : tpg.getVertices())
        if (auto t = dynamic_cast<const TPG::TPGTeam*>(v))
            teams.push_back(t);
        else
            actions.push_back((const TPG::TPGAction*)v);
    auto& root = (const TPG::TPGTeam&)tpg.cloneVertex(*teams[0]);
    auto e = root.getOutgoingEdges().front();
    describe(c, s.p);
    Mutator::TPGMutator::mutateEdgeDestination(tpg, e, teams, actions, s.p, s.rng);
    c.nontrivial = true;
    REQUIRE(std::find(actions.begin(), actions.end(), e->getDestination()) != actions.end(), "with probability 1 for actions, an edge was redirected to a team");
}
CDV_MAIN
