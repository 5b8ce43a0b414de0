// C15, C16: the archive against a plain list model.
#include "world.h"
using namespace world;

namespace {
struct Rec {
    const Program::Program* p;
    size_t hash;
    double r;
};
struct Arch : Archive {
    using Archive::Archive;
    const std::deque<ArchiveRecording>& recs() const { return recordings; }
    const std::map<const Program::Program*, std::deque<ArchiveRecording>>& byProg() const { return recordingsPerProgram; }
};
bool eqr(double a, double b) { return same(a, b) || a == b; }
size_t combined(const World& w)
{
    size_t h = 0;
    for (auto& x : w.handlers)
        h ^= x.get().getHash();
    return h;
}
using Content = std::vector<std::vector<double>>;
Content contentOf(const World& w)
{
    Content c;
    for (auto& s : w.srcs)
        c.push_back(s.content);
    return c;
}
double elem(const Src& s, const Data::DataHandler& h, size_t i)
{
    if (s.k == 'd')
        return *h.getDataAt(typeid(double), i).getSharedPointer<const double>();
    return *h.getDataAt(typeid(int), i).getSharedPointer<const int>();
}
void checkAll(const World& w, const Arch& a, const std::list<Rec>& model, const std::map<size_t, Content>& snaps, size_t max)
{
    REQUIRE(a.getNbRecordings() == model.size(), "the archive holds " << a.getNbRecordings() << " recordings instead of " << model.size());
    REQUIRE(a.getNbRecordings() <= max, "the archive exceeds its size");
    size_t i = 0;
    std::map<const Program::Program*, std::vector<Rec>> per;
    std::set<size_t> used;
    for (auto& m : model) {
        const ArchiveRecording& r = a.at(i);
        REQUIRE(r.prog == m.p && r.dataHash == m.hash && eqr(r.result, m.r), "recording " << i << " is not the expected one");
        per[m.p].push_back(m);
        used.insert(m.hash);
        i++;
    }
    REQUIRE(cdv::throws([&] { a.at(model.size()); }), "access past the last recording must be refused");
    REQUIRE(a.byProg().size() == per.size(), "the per-program index lists " << a.byProg().size() << " programs instead of " << per.size());
    for (auto& q : per) {
        auto it = a.byProg().find(q.first);
        REQUIRE(it != a.byProg().end() && it->second.size() == q.second.size(), "wrong number of recordings indexed for a program");
        for (size_t k = 0; k < q.second.size(); k++)
            REQUIRE(it->second[k].prog == q.first && it->second[k].dataHash == q.second[k].hash && eqr(it->second[k].result, q.second[k].r), "the per-program index differs from the held recordings");
    }
    REQUIRE(a.getNbDataHandlers() == used.size(), "the archive holds " << a.getNbDataHandlers() << " input states instead of " << used.size());
    REQUIRE(a.getDataHandlers().size() == used.size(), "snapshot map size");
    for (auto h : used) {
        REQUIRE(a.hasDataHandlers(h), "a referenced input state is not held");
        auto& v = a.getDataHandlers().at(h);
        REQUIRE(v.size() == w.srcs.size(), "a snapshot does not have one copy per source");
        REQUIRE(Archive::getCombinedHash(v) == h, "a snapshot does not have the hash of its state");
        auto& c = snaps.at(h);
        for (size_t s = 0; s < v.size(); s++) {
            REQUIRE(v[s].get().getId() == w.srcs[s].handler->getId(), "a snapshot does not keep the identity of its source");
            for (size_t k = 0; k < c[s].size(); k++)
                REQUIRE(same(elem(w.srcs[s], v[s].get(), k), c[s][k]), "snapshot content changed with the live data");
        }
    }
    REQUIRE(!a.hasDataHandlers(used.empty() ? 12345 : *used.rbegin() ^ 0x5a5a5a5a5a5aull), "unknown state reported as held");
}
double someResult(Gen& g)
{
    switch (g.in(0, 11)) {
    case 0: return INFINITY;
    case 1: return -INFINITY;
    case 2: return NAN;
    default: return (double)g.in(0, 6) * 0.25 - 0.75;
    }
}
} // namespace

SCENARIO("C15", archiveContent, 100000, 2000000)
{
    Gen& g = c.g;
    auto w = makeWorld(g);
    std::vector<std::shared_ptr<Program::Program>> ps;
    for (size_t i = 0, n = g.in(1, 4); i < n; i++)
        ps.push_back(std::make_shared<Program::Program>(*w->env));
    size_t max = g.chance(0.1) ? g.in(0, 1) : g.in(1, 7);
    double prob = g.chance(0.6) ? 1.0 : g.chance(0.3) ? 0.0 : 0.5;
    auto a = std::make_unique<Arch>(max, prob, g.next());
    // a few input states that come back
    std::vector<std::vector<std::pair<size_t, double>>> states;
    std::list<Rec> model;
    std::map<size_t, Content> snaps;
    std::vector<Content> known{contentOf(*w)};
    size_t steps = g.in(1, c.thorough() ? 60 : 30);
    c.trace << w->str() << " max=" << max << " prob=" << prob << " steps=" << steps;
    size_t refused = 0, evicted = 0;
    for (size_t s = 0; s < steps; s++) {
        if (g.chance(0.03)) {
            a->clear();
            model.clear();
            c.trace << " clear";
        }
        else if (g.chance(0.5)) { // change or restore the input state
            if (g.chance(0.4)) {
                Content k = known[g.in(0, known.size() - 1)];
                for (size_t i = 0; i < w->srcs.size(); i++)
                    for (size_t e = 0; e < k[i].size(); e++)
                        w->srcs[i].set(e, k[i][e]);
            }
            else {
                auto& x = w->srcs[g.in(0, w->srcs.size() - 1)];
                x.set(g.in(0, x.content.size() - 1), randomValue(g));
                known.push_back(contentOf(*w));
            }
            c.trace << " write";
        }
        else {
            auto p = ps[g.in(0, ps.size() - 1)].get();
            double r = someResult(g);
            bool forced = g.chance(0.3);
            size_t h = combined(*w);
            REQUIRE(Archive::getCombinedHash(w->handlers) == h, "the hash of a state is the combination of its sources' hashes");
            auto before = a->getNbRecordings();
            bool held = a->hasDataHandlers(h);
            const ArchiveRecording* oldLast = before ? &a->recs().back() : nullptr;
            a->addRecording(p, w->handlers, r, forced);
            bool accepted;
            if (forced || prob == 1.0)
                accepted = true;
            else if (max == 0)
                accepted = false; // cannot tell and does not matter
            else {
                auto& l = a->recs();
                // a refusal leaves the last recording object where it was
                accepted = l.size() && (!oldLast || &l.back() != oldLast);
                if (accepted)
                    accepted = l.back().prog == p && eqr(l.back().result, r) && l.back().dataHash == h;
            }
            c.trace << (accepted ? " +" : " -");
            refused += !accepted;
            if (accepted) {
                model.push_back({p, h, r});
                if (!held)
                    snaps[h] = contentOf(*w);
                while (model.size() > max) {
                    model.pop_front();
                    evicted++;
                }
            }
        }
        checkAll(*w, *a, model, snaps, max);
    }
    c.nontrivial = evicted > 0 || refused > 0 || model.size() > 1;
}

// acceptance is random but certain at probability one, impossible only when refused by the draw
SCENARIO("C15", archiveAcceptance, 3000, 30000)
{
    Gen& g = c.g;
    auto w = makeWorld(g);
    Program::Program p(*w->env);
    double prob = g.real(0.2, 0.8);
    Arch a(100000, prob, g.next());
    size_t n = 400, forced = 0;
    for (size_t i = 0; i < n; i++) {
        bool f = g.chance(0.2);
        size_t b = a.getNbRecordings();
        a.addRecording(&p, w->handlers, 1.0, f);
        REQUIRE(!f || a.getNbRecordings() == b + 1, "a forced recording was refused");
        forced += f;
    }
    double ratio = (double)(a.getNbRecordings() - forced) / (double)(n - forced);
    REQUIRE(std::fabs(ratio - prob) < 0.25, "acceptance ratio " << ratio << " with probability " << prob);
    c.trace << "prob=" << prob;
    c.nontrivial = true;
}

SCENARIO("C16", archiveUniqueness, 100000, 2000000)
{
    Gen& g = c.g;
    auto w = makeWorld(g);
    std::vector<std::shared_ptr<Program::Program>> ps;
    for (size_t i = 0, n = g.in(1, 4); i < n; i++)
        ps.push_back(std::make_shared<Program::Program>(*w->env));
    size_t max = g.in(1, 12);
    Arch a(max, 1.0, g.next());
    std::list<Rec> model;
    std::vector<Content> known;
    for (size_t i = 0, n = g.in(1, 4); i < n; i++) {
        fillSources(*w, g);
        known.push_back(contentOf(*w));
    }
    std::vector<size_t> hashes;
    auto goTo = [&](const Content& k) {
        for (size_t i = 0; i < w->srcs.size(); i++)
            for (size_t e = 0; e < k[i].size(); e++)
                w->srcs[i].set(e, k[i][e]);
    };
    for (auto& k : known) {
        goTo(k);
        hashes.push_back(combined(*w));
    }
    double tau = g.chance(0.3) ? 0.0 : g.chance(0.5) ? 1e-4 : g.real(0.1, 1.0);
    std::map<size_t, double> base; // most results are close to these
    for (auto h : hashes)
        base[h] = someResult(g);
    size_t steps = g.in(1, 20);
    c.trace << "tau=" << tau << " max=" << max;
    for (size_t s = 0; s < steps; s++) {
        size_t k = g.in(0, known.size() - 1);
        goTo(known[k]);
        auto p = ps[g.in(0, ps.size() - 1)].get();
        double r = g.chance(0.3) ? someResult(g) : base[hashes[k]] + (g.chance(0.5) ? 0 : tau * g.real(-1.5, 1.5));
        a.addRecording(p, w->handlers, r, false);
        model.push_back({p, hashes[k], r});
        if (model.size() > max)
            model.pop_front();
        std::map<size_t, double> q;
        for (auto h : hashes)
            if (g.chance(0.75))
                q[h] = g.chance(0.2) ? someResult(g) : base[h];
        if (g.chance(0.2))
            q[g.next()] = 0.5; // a state nobody recorded
        std::map<const Program::Program*, std::pair<bool, bool>> m; // compared, agrees
        for (auto& x : model) {
            auto it = q.find(x.hash);
            auto& e = m.emplace(x.p, std::make_pair(false, true)).first->second;
            if (it == q.end())
                continue;
            e.first = true;
            if (!(it->second == x.r || std::fabs(it->second - x.r) <= tau))
                e.second = false;
        }
        bool unique = true;
        for (auto& x : m)
            unique = unique && !(x.second.first && x.second.second);
        bool got = a.areProgramResultsUnique(q, tau);
        c.trace << (unique ? "U" : "N");
        REQUIRE(got == unique, "the archive answers " << (got ? "unique" : "not unique") << " with " << model.size() << " recordings and " << q.size() << " given results");
        c.nontrivial = c.nontrivial || (!unique && model.size() > 1);
    }
}
CDV_MAIN
