// C01, C02, C03: TPGGraph against a shadow model under random edit sequences.
#include "world.h"
using namespace world;

namespace {
struct SV {
    const TPG::TPGVertex* p;
    bool team;
    uint64_t id;
    std::list<const TPG::TPGEdge*> out;
};
struct SE {
    const TPG::TPGEdge* p;
    const TPG::TPGVertex *s, *d;
    std::shared_ptr<Program::Program> prog;
};
struct Shadow {
    std::vector<SV> v;
    std::vector<SE> e;
    SV* fv(const TPG::TPGVertex* p)
    {
        for (auto& x : v)
            if (x.p == p)
                return &x;
        return nullptr;
    }
    SE* fe(const TPG::TPGEdge* p)
    {
        for (auto& x : e)
            if (x.p == p)
                return &x;
        return nullptr;
    }
    void dropEdge(const TPG::TPGEdge* p)
    {
        SE* x = fe(p);
        fv(x->s)->out.remove(p);
        for (size_t i = 0; i < e.size(); i++)
            if (e[i].p == p) {
                e.erase(e.begin() + i);
                break;
            }
    }
};
template <class L, class X> size_t count(const L& l, X x)
{
    size_t n = 0;
    for (auto& y : l)
        n += (y == x);
    return n;
}

void consistent(const TPG::TPGGraph& g)
{
    auto vs = g.getVertices();
    std::set<const TPG::TPGVertex*> vset(vs.begin(), vs.end());
    REQUIRE(vset.size() == vs.size(), "a vertex is listed twice");
    std::set<const TPG::TPGEdge*> eset;
    for (auto& e : g.getEdges()) {
        REQUIRE(e.get() != nullptr && eset.insert(e.get()).second, "an edge is null or listed twice");
        REQUIRE(vset.count(e->getSource()), "the source of an edge is not a vertex of the graph");
        REQUIRE(vset.count(e->getDestination()), "the destination of an edge is not a vertex of the graph");
        REQUIRE(count(e->getSource()->getOutgoingEdges(), e.get()) == 1, "an edge is not listed exactly once by its source");
        REQUIRE(count(e->getDestination()->getIncomingEdges(), e.get()) == 1, "an edge is not listed exactly once by its destination");
    }
    for (auto v : vs) {
        for (auto e : v->getOutgoingEdges())
            REQUIRE(eset.count(e) && e->getSource() == v, "a vertex lists an outgoing edge that is not in the graph or leaves another vertex");
        for (auto e : v->getIncomingEdges())
            REQUIRE(eset.count(e) && e->getDestination() == v, "a vertex lists an incoming edge that is not in the graph or enters another vertex");
        if (dynamic_cast<const TPG::TPGAction*>(v))
            REQUIRE(v->getOutgoingEdges().empty(), "an action owns an outgoing edge");
        REQUIRE(dynamic_cast<const TPG::TPGAction*>(v) || dynamic_cast<const TPG::TPGTeam*>(v), "a vertex is neither team nor action");
    }
}
void exact(const TPG::TPGGraph& g, Shadow& s)
{
    auto vs = g.getVertices();
    REQUIRE(vs.size() == s.v.size(), "unexpected number of vertices");
    for (size_t i = 0; i < vs.size(); i++) {
        REQUIRE(vs[i] == s.v[i].p, "vertex order changed or unexpected vertex");
        auto a = dynamic_cast<const TPG::TPGAction*>(vs[i]);
        REQUIRE(s.v[i].team == (a == nullptr), "vertex kind changed");
        if (a)
            REQUIRE(a->getActionID() == s.v[i].id, "action identifier changed");
        std::vector<const TPG::TPGEdge*> o(vs[i]->getOutgoingEdges().begin(), vs[i]->getOutgoingEdges().end());
        REQUIRE(o.size() == s.v[i].out.size() && std::equal(o.begin(), o.end(), s.v[i].out.begin()), "outgoing edges of a vertex are not the expected ones in order");
    }
    REQUIRE(g.getEdges().size() == s.e.size(), "unexpected number of edges");
    for (auto& e : g.getEdges()) {
        SE* x = s.fe(e.get());
        REQUIRE(x, "an unexpected edge is in the graph");
        REQUIRE(e->getSource() == x->s, "source of an edge changed");
        REQUIRE(e->getDestination() == x->d, "destination of an edge changed");
        REQUIRE(&e->getProgram() == x->prog.get() && e->getProgramSharedPointer() == x->prog, "program of an edge changed");
    }
}
void queries(const TPG::TPGGraph& g, Shadow& s, const std::vector<const TPG::TPGVertex*>& foreign)
{
    auto vs = g.getVertices();
    REQUIRE(g.getNbVertices() == s.v.size() && vs.size() == s.v.size(), "number of vertices");
    std::vector<const TPG::TPGVertex*> roots;
    for (size_t i = 0; i < s.v.size(); i++) {
        REQUIRE(vs[i] == s.v[i].p, "vertex query is not in creation order");
        bool in = false;
        for (auto& e : s.e)
            in = in || e.d == s.v[i].p;
        if (!in)
            roots.push_back(s.v[i].p);
        REQUIRE(g.hasVertex(*s.v[i].p), "membership query false for a vertex of the graph");
    }
    auto r = g.getRootVertices();
    REQUIRE(r.size() == roots.size() && std::equal(r.begin(), r.end(), roots.begin()), "root query is not exactly the vertices without incoming edges in order");
    REQUIRE(g.getNbRootVertices() == roots.size(), "root count");
    for (auto f : foreign)
        REQUIRE(!g.hasVertex(*f), "membership query true for a vertex of another graph");
}

const World& fixedWorld()
{
    static Gen g(42);
    static auto w = makeWorld(g);
    return *w;
}

void edits(Case& c, int what)
{
    const World& w = fixedWorld();
    Gen& g = c.g;
    bool instr = g.chance(0.3);
    auto mkG = [&]() { return instr ? std::make_unique<TPG::TPGGraph>(*w.env, std::make_unique<TPG::TPGInstrumentedFactory>()) : std::make_unique<TPG::TPGGraph>(*w.env); };
    auto gp = mkG();
    TPG::TPGGraph& gr = *gp;
    TPG::TPGGraph other(*w.env);
    const TPG::TPGTeam& ft = other.addNewTeam();
    const TPG::TPGAction& fa = other.addNewAction(7);
    std::vector<std::shared_ptr<Program::Program>> progs;
    for (int i = 0; i < 3; i++)
        progs.push_back(std::make_shared<Program::Program>(*w.env));
    const TPG::TPGEdge& fe = other.addNewEdge(ft, fa, progs[0]);
    std::vector<const TPG::TPGVertex*> foreign{&ft, &fa};
    Shadow s;
    c.trace << (instr ? "instrumented " : "");
    bool rejected = false;
    auto check = [&]() {
        if (what & 1) {
            consistent(gr);
            consistent(other);
        }
        if ((what & 2) || rejected) // a rejected edit leaves everything as it was
            exact(gr, s);
        rejected = false;
        if (what & 4)
            queries(gr, s, foreign);
    };
    size_t n = g.in(3, c.thorough() ? 60 : 30);
    int bias = g.in(0, 2);
    auto anyV = [&](bool allowForeign) -> const TPG::TPGVertex* {
        if (s.v.empty() || (allowForeign && g.chance(0.08)))
            return g.chance(0.5) ? (const TPG::TPGVertex*)&ft : &fa;
        return s.v[g.in(0, s.v.size() - 1)].p;
    };
    auto anyE = [&]() -> const TPG::TPGEdge* {
        if (s.e.empty() || g.chance(0.06))
            return &fe;
        return s.e[g.in(0, s.e.size() - 1)].p;
    };
    auto idx = [&](const TPG::TPGVertex* v) {
        for (size_t i = 0; i < s.v.size(); i++)
            if (s.v[i].p == v)
                return std::to_string(i);
        return std::string(v == &ft ? "FT" : "FA");
    };
    for (size_t i = 0; i < n; i++) {
        int op = g.in(0, 19);
        if (i < 4)
            op = i % 2;
        if (op <= 1 && s.v.size() > 9 && i >= 4)
            op = 5;
        switch (op) {
        case 0: {
            auto& t = gr.addNewTeam();
            REQUIRE(!s.fv(&t), "new team is an existing vertex");
            s.v.push_back({&t, true, 0, {}});
            c.trace << "team;";
            break;
        }
        case 1: {
            uint64_t id = g.in(0, 5);
            auto& a = gr.addNewAction(id);
            s.v.push_back({&a, false, id, {}});
            c.trace << "action" << id << ";";
            break;
        }
        case 2:
        case 3:
        case 4:
        case 5:
        case 6:
        case 7:
        case 8: {
            auto src = anyV(true), dst = anyV(true);
            auto p = progs[g.in(0, 2)];
            bool ok = s.fv(src) && s.fv(dst) && s.fv(src)->team;
            c.trace << "edge " << idx(src) << ">" << idx(dst) << ";";
            const TPG::TPGEdge* e = nullptr;
            bool th = cdv::throws([&] { e = &gr.addNewEdge(*src, *dst, p); });
            REQUIRE(th == !ok, "addNewEdge rejects exactly foreign end points and action sources");
            rejected = !ok;
            if (ok) {
                REQUIRE(!s.fe(e), "new edge is an existing one");
                s.e.push_back({e, src, dst, p});
                s.fv(src)->out.push_back(e);
                c.nontrivial = true;
            }
            break;
        }
        case 9: {
            auto e = anyE();
            bool ok = s.fe(e);
            c.trace << "rmedge" << (ok ? "" : "F") << ";";
            bool th = cdv::throws([&] { gr.removeEdge(*e); });
            REQUIRE(th == !ok, "removeEdge rejects exactly foreign edges");
            rejected = !ok;
            if (ok)
                s.dropEdge(e);
            break;
        }
        case 10:
        case 11: {
            auto v = anyV(true);
            c.trace << "rmvertex " << idx(v) << ";";
            bool ok = s.fv(v);
            (void)cdv::throws([&] { gr.removeVertex(*v); });
            rejected = !ok;
            if (ok) {
                auto copy = s.e;
                for (auto& e : copy)
                    if (e.s == v || e.d == v)
                        s.dropEdge(e.p);
                for (size_t k = 0; k < s.v.size(); k++)
                    if (s.v[k].p == v) {
                        s.v.erase(s.v.begin() + k);
                        break;
                    }
            }
            break;
        }
        case 12:
        case 13: {
            auto v = anyV(true);
            c.trace << "clone " << idx(v) << ";";
            bool ok = s.fv(v);
            const TPG::TPGVertex* n = nullptr;
            bool th = cdv::throws([&] { n = &gr.cloneVertex(*v); });
            REQUIRE(th == !ok, "cloneVertex rejects exactly foreign vertices");
            rejected = !ok;
            if (ok) {
                SV o = *s.fv(v);
                REQUIRE(!s.fv(n), "the clone is an existing vertex");
                SV nv{n, o.team, o.id, {}};
                std::vector<const TPG::TPGEdge*> ne(n->getOutgoingEdges().begin(), n->getOutgoingEdges().end());
                REQUIRE(ne.size() == o.out.size(), "the clone has another number of outgoing edges");
                size_t k = 0;
                for (auto oe : o.out) {
                    SE x = *s.fe(oe);
                    REQUIRE(!s.fe(ne[k]), "the clone shares an edge of the original");
                    s.e.push_back({ne[k], n, x.d, x.prog});
                    nv.out.push_back(ne[k]);
                    k++;
                }
                s.v.push_back(nv);
            }
            break;
        }
        case 14: {
            auto e = anyE();
            bool ok = s.fe(e);
            c.trace << "cloneedge" << (ok ? "" : "F") << ";";
            const TPG::TPGEdge* n = nullptr;
            bool th = cdv::throws([&] { n = &gr.cloneEdge(*e); });
            REQUIRE(th == !ok, "cloneEdge rejects exactly foreign edges");
            rejected = !ok;
            if (ok) {
                SE x = *s.fe(e);
                REQUIRE(!s.fe(n), "the clone is an existing edge");
                s.e.push_back({n, x.s, x.d, x.prog});
                s.fv(x.s)->out.push_back(n);
            }
            break;
        }
        case 15:
        case 16: {
            auto e = anyE();
            auto v = anyV(true);
            bool ok = s.fe(e) && s.fv(v);
            c.trace << "setdst " << idx(v) << ";";
            bool r = false;
            bool th = cdv::throws([&] { r = gr.setEdgeDestination(*e, *v); });
            REQUIRE(!th && r == ok, "setEdgeDestination succeeds exactly on members");
            rejected = !ok;
            if (ok)
                s.fe(e)->d = v;
            break;
        }
        case 17:
        case 18: {
            auto e = anyE();
            auto v = anyV(true);
            bool mem = s.fe(e) && s.fv(v);
            bool ok = mem && s.fv(v)->team;
            c.trace << "setsrc " << idx(v) << ";";
            bool r = false;
            bool th = cdv::throws([&] { r = gr.setEdgeSource(*e, *v); });
            REQUIRE(ok ? (!th && r) : (th || !r), "setEdgeSource succeeds exactly on member teams");
            rejected = !ok;
            if (ok) {
                SE* x = s.fe(e);
                SV *a = s.fv(x->s), *b = s.fv(v);
                if (a != b) {
                    a->out.remove(e);
                    b->out.push_back(e);
                }
                else { // the order within the same team is not specified
                    std::list<const TPG::TPGEdge*> now(v->getOutgoingEdges().begin(), v->getOutgoingEdges().end());
                    auto p = now, q = a->out;
                    p.remove(e), q.remove(e);
                    if (p == q && now.size() == q.size() + 1)
                        a->out = now;
                }
                x->s = v;
            }
            break;
        }
        case 19:
            if (g.chance(0.15)) {
                gr.clear();
                s = Shadow();
                c.trace << "clear;";
            }
            break;
        }
        check();
    }
    consistent(other);
    REQUIRE(other.getNbVertices() == 2 && other.getEdges().size() == 1 && fe.getSource() == &ft && fe.getDestination() == &fa, "another graph was modified");
}
} // namespace
SCENARIO("C01", graphConsistency, 6000, 200000) { edits(c, 1); }
SCENARIO("C02", graphEffects, 6000, 200000) { edits(c, 2); }
SCENARIO("C03", graphQueries, 6000, 200000) { edits(c, 4); }
CDV_MAIN
