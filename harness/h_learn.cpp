// C19-C24: evaluation results, selection, evaluation budgets, parallel and
// adversarial training, classification.
#include "learn.h"
using namespace learn;
using Learn::AdversarialEvaluationResult;
using Learn::ClassificationEvaluationResult;
using Learn::EvaluationResult;
using TPG::TPGVertex;
using Results = std::multimap<std::shared_ptr<EvaluationResult>, const TPGVertex*>;

namespace {
bool near(double a, double b, double tol = 1e-9)
{
    if (std::isinf(a) || std::isinf(b) || std::isnan(a) || std::isnan(b))
        return a == b || (std::isnan(a) && std::isnan(b));
    return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b));
}
std::string num(double d)
{
    std::ostringstream o;
    o.precision(17);
    o << d;
    return o.str();
}
double anyScore(Gen& g) { return g.chance(0.3) ? (double)(int64_t)g.in(0, 6) - 3 : g.real(-50, 50); }

// the graph of an agent, made less regular than the initial one
template <class A> void grow(A& a, Gen& g)
{
    auto& gr = *a.getTPGGraph();
    // remove some roots, hang some below new teams, leave some actions without parents
    size_t n = g.in(0, 4);
    for (size_t i = 0; i < n; i++) {
        auto vs = gr.getVertices();
        auto roots = gr.getRootVertices();
        if (g.chance(0.4) && roots.size() > 1) {
            auto r = roots[g.in(0, roots.size() - 1)];
            if (dynamic_cast<const TPG::TPGTeam*>(r)) {
                a.perRoot().erase(r);
                gr.removeVertex(*r);
            }
        }
        else {
            auto& t = gr.addNewTeam();
            size_t k = g.in(1, 3);
            for (size_t e = 0; e < k; e++) {
                auto p = std::make_shared<Program::Program>(a.getEnvironment());
                Mutator::RNG r(g.next());
                Mutator::ProgramMutator::initRandomProgram(*p, a.par().mutation, r);
                gr.addNewEdge(t, *vs[g.in(0, vs.size() - 1)], p);
            }
        }
    }
    if (g.chance(0.3))
        gr.addNewAction(g.in(0, a.par().mutation.tpg.nbActions - 1));
}
std::string describe(const Learn::LearningParameters& p)
{
    std::ostringstream o;
    o << "actions=" << p.mutation.tpg.nbActions << " roots=" << p.mutation.tpg.nbRoots << " ratio=" << p.ratioDeletedRoots << " iterations=" << p.nbIterationsPerPolicyEvaluation
      << " maxActions=" << p.maxNbActionsPerEval << " maxEval=" << p.maxNbEvaluationPerPolicy << " archive=" << p.archiveSize << "/" << p.archivingProbability << " threads=" << p.nbThreads;
    return o.str();
}
struct Res {
    double v;
    size_t n;
};
} // namespace

// ------------------------------------------------------------------------ C19
SCENARIO("C19", combineResults, 200000, 4000000)
{
    Gen& g = c.g;
    size_t n = g.in(2, 5);
    std::vector<Res> xs;
    for (size_t i = 0; i < n; i++)
        xs.push_back({anyScore(g), g.in(1, g.chance(0.1) ? 1000000 : 12)});
    double sum = 0;
    size_t tot = 0;
    for (auto& x : xs) {
        sum += x.v * (double)x.n;
        tot += x.n;
        c.trace << x.v << "*" << x.n << " ";
    }
    auto fold = [&](size_t b, size_t e) {
        EvaluationResult r(xs[b].v, xs[b].n);
        for (size_t i = b + 1; i < e; i++)
            r += EvaluationResult(xs[i].v, xs[i].n);
        return r;
    };
    size_t cut = g.in(1, n - 1);
    EvaluationResult l = fold(0, cut), r = fold(cut, n), all = fold(0, n);
    EvaluationResult rBefore = r;
    l += r;
    REQUIRE(r.getResult() == rBefore.getResult() && r.getNbEvaluation() == rBefore.getNbEvaluation(), "combining changed the right operand");
    for (auto* e : {&l, &all}) {
        REQUIRE(near(e->getResult(), sum / (double)tot), "the combination of the results is " << num(e->getResult()) << ", their weighted mean is " << num(sum / tot));
        REQUIRE(e->getNbEvaluation() == tot, "the combination counts " << e->getNbEvaluation() << " evaluations of " << tot);
    }
    // ordering
    EvaluationResult a(xs[0].v, xs[0].n), b(xs[1].v, xs[1].n);
    REQUIRE((a < b) == (xs[0].v < xs[1].v) && (b < a) == (xs[1].v < xs[0].v), "results are not ordered by their scores");
    // rejection
    ClassificationEvaluationResult cl({xs[0].v, xs[1].v}, {xs[0].n, xs[1].n});
    AdversarialEvaluationResult ad({xs[0].v, xs[1].v}, xs[0].n);
    std::vector<std::pair<EvaluationResult*, EvaluationResult*>> bad = {{&a, &cl}, {&a, &ad}, {&cl, &a}, {&cl, &ad}, {&ad, &a}, {&ad, &cl}};
    for (auto& pr : bad) {
        double v0 = pr.first->getResult();
        size_t n0 = pr.first->getNbEvaluation();
        REQUIRE(throws([&] { *pr.first += *pr.second; }), "results of different kinds were combined");
        REQUIRE(pr.first->getResult() == v0 && pr.first->getNbEvaluation() == n0, "a rejected combination changed the left operand");
    }
    c.nontrivial = true;
}

SCENARIO("C19", combineClassification, 200000, 4000000)
{
    Gen& g = c.g;
    size_t k = g.in(1, 5), n = g.in(2, 4);
    std::vector<std::vector<double>> s(n, std::vector<double>(k));
    std::vector<std::vector<size_t>> w(n, std::vector<size_t>(k));
    for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < k; j++) {
            w[i][j] = g.chance(0.3) ? 0 : g.in(1, 9);
            s[i][j] = w[i][j] ? g.real(0, 1) : 0;
            c.trace << s[i][j] << "*" << w[i][j] << " ";
        }
    auto mk = [&](size_t i) { return ClassificationEvaluationResult(s[i], w[i]); };
    auto fold = [&](size_t b, size_t e) {
        auto r = mk(b);
        for (size_t i = b + 1; i < e; i++) {
            auto o = mk(i);
            r += o;
            REQUIRE(o.getScorePerClass() == s[i] && o.getNbEvaluationPerClass() == w[i], "combining changed the right operand");
        }
        return r;
    };
    size_t cut = g.in(1, n - 1);
    auto l = fold(0, cut), r = fold(cut, n), all = fold(0, n);
    l += r;
    for (auto* e : {&l, &all}) {
        double mean = 0;
        size_t total = 0;
        for (size_t j = 0; j < k; j++) {
            double sum = 0;
            size_t tot = 0;
            for (size_t i = 0; i < n; i++) {
                sum += s[i][j] * (double)w[i][j];
                tot += w[i][j];
            }
            double expect = tot ? sum / (double)tot : 0;
            REQUIRE(near(e->getScorePerClass().at(j), expect), "class " << j << ": combined score " << num(e->getScorePerClass().at(j)) << ", weighted mean " << num(expect));
            REQUIRE(e->getNbEvaluationPerClass().at(j) == tot, "class " << j << ": wrong number of evaluations");
            mean += expect;
            total += tot;
        }
        REQUIRE(e->getScorePerClass().size() == k, "wrong number of classes");
        REQUIRE(near(e->getResult(), mean / (double)k), "the result is not the mean over the classes");
        REQUIRE(e->getNbEvaluation() == total, "wrong total number of evaluations");
    }
    ClassificationEvaluationResult other(std::vector<double>(k + 1, 0.5), std::vector<size_t>(k + 1, 2));
    auto sc = l.getScorePerClass();
    auto nb = l.getNbEvaluationPerClass();
    double v = l.getResult();
    size_t ne = l.getNbEvaluation();
    REQUIRE(throws([&] { l += other; }), "results with different numbers of classes were combined");
    REQUIRE(l.getScorePerClass() == sc && l.getNbEvaluationPerClass() == nb && l.getResult() == v && l.getNbEvaluation() == ne, "a rejected combination changed the left operand");
    REQUIRE(throws([&] { ClassificationEvaluationResult x(std::vector<double>(k, 0.), std::vector<size_t>(k + 1, 1)); }), "mismatched sizes were accepted");
    c.nontrivial = true;
}

SCENARIO("C19", combineAdversarial, 200000, 4000000)
{
    Gen& g = c.g;
    size_t k = g.in(1, 5), n = g.in(2, 4);
    std::vector<AdversarialEvaluationResult> xs;
    std::vector<std::vector<double>> s;
    for (size_t i = 0; i < n; i++) {
        size_t w = g.in(1, 9);
        AdversarialEvaluationResult r = k == 1 ? AdversarialEvaluationResult({anyScore(g)}, w) : k == 2 ? AdversarialEvaluationResult({anyScore(g), anyScore(g)}, w) : k == 3 ? AdversarialEvaluationResult({anyScore(g), anyScore(g), anyScore(g)}, w) : k == 4 ? AdversarialEvaluationResult({anyScore(g), anyScore(g), anyScore(g), anyScore(g)}, w) : AdversarialEvaluationResult({anyScore(g), anyScore(g), anyScore(g), anyScore(g), anyScore(g)}, w);
        xs.push_back(r);
        s.emplace_back();
        double m = 0;
        for (size_t j = 0; j < k; j++) {
            s.back().push_back(r.getScoreOf(j));
            m += r.getScoreOf(j);
        }
        REQUIRE(near(r.getResult(), m / (double)k), "the result is not the mean over the agents");
        c.trace << m << "*" << w << " ";
    }
    AdversarialEvaluationResult acc(k); // the empty result the agents start from
    auto l = xs[0];
    size_t cut = g.in(1, n - 1);
    for (size_t i = 1; i < cut; i++)
        l += xs[i];
    auto r = xs[cut];
    for (size_t i = cut + 1; i < n; i++)
        r += xs[i];
    l += r;
    for (auto& x : xs)
        acc += x;
    for (auto* e : {&l, &acc}) {
        size_t tot = 0;
        for (auto& x : xs)
            tot += x.getNbEvaluation();
        for (size_t j = 0; j < k; j++) {
            double sum = 0;
            for (size_t i = 0; i < n; i++)
                sum += s[i][j] * (double)xs[i].getNbEvaluation();
            REQUIRE(near(e->getScoreOf(j), sum / (double)tot), "agent " << j << ": combined score " << num(e->getScoreOf(j)) << ", weighted mean " << num(sum / tot));
        }
        REQUIRE(e->getNbEvaluation() == tot && e->getSize() == k, "wrong number of evaluations or agents");
    }
    AdversarialEvaluationResult other(k + 1, 3);
    auto before = l;
    REQUIRE(throws([&] { l += other; }) && throws([&] { other += l; }), "results with different numbers of agents were combined");
    for (size_t j = 0; j < k; j++)
        REQUIRE(l.getScoreOf(j) == before.getScoreOf(j), "a rejected combination changed the left operand");
    REQUIRE(l.getNbEvaluation() == before.getNbEvaluation(), "a rejected combination changed the left operand");
    c.nontrivial = true;
}

// ------------------------------------------------------------------------ C20
namespace {
std::set<const TPGVertex*> reach(const TPGVertex* v)
{
    std::set<const TPGVertex*> s{v};
    std::vector<const TPGVertex*> todo{v};
    while (!todo.empty()) {
        auto x = todo.back();
        todo.pop_back();
        for (auto e : x->getOutgoingEdges())
            if (s.insert(e->getDestination()).second)
                todo.push_back(e->getDestination());
    }
    return s;
}
} // namespace
SCENARIO("C20", selection, 20000, 400000)
{
    Gen& g = c.g;
    size_t nbA = g.in(2, 4);
    auto p = randomParams(g, nbA);
    if (g.chance(0.1))
        p.ratioDeletedRoots = g.chance(0.5) ? 0 : 1;
    c.trace << describe(p);
    FakeLE le(nbA, 4, g.next(), g.in(0, 2));
    Open<Learn::LearningAgent> a(le, instrSet(), p);
    a.init(g.next());
    size_t gens = g.in(1, 4);
    for (size_t gen = 0; gen < gens; gen++) {
        grow(a, g);
        auto& gr = *a.getTPGGraph();
        auto roots = gr.getRootVertices();
        Results res;
        std::map<const TPGVertex*, std::shared_ptr<EvaluationResult>> of;
        bool ties = g.chance(0.4);
        for (auto r : roots) {
            std::shared_ptr<EvaluationResult> e;
            auto old = a.perRoot().find(r);
            if (old != a.perRoot().end() && g.chance(0.3))
                e = old->second;
            else
                e = std::make_shared<EvaluationResult>(ties ? (double)g.in(0, 2) : g.chance(0.05) ? -INFINITY : g.real(-9, 9), g.in(1, 9));
            if (g.chance(0.5) && old == a.perRoot().end()) // known from an earlier generation
                a.perRoot()[r] = std::make_shared<EvaluationResult>(0.5, 1);
            res.emplace(e, r);
            of[r] = e;
        }
        if (roots.empty())
            break;
        auto perRoot0 = a.perRoot();
        auto res0 = res;
        auto verts0 = gr.getVertices();
        std::set<const TPGVertex*> actions;
        for (auto r : roots)
            if (dynamic_cast<const TPG::TPGAction*>(r))
                actions.insert(r);
        auto best0 = a.best();
        size_t want = (size_t)std::floor(p.ratioDeletedRoots * (double)p.mutation.tpg.nbRoots);
        size_t expect = std::min(want, roots.size() - actions.size());
        a.decimateWorstRoots(res);
        c.nontrivial = c.nontrivial || expect > 0;
        auto now = gr.getVertices();
        std::set<const TPGVertex*> left(now.begin(), now.end());
        std::vector<const TPGVertex*> gone;
        for (auto v : verts0)
            if (!left.count(v))
                gone.push_back(v);
        REQUIRE(now.size() + gone.size() == verts0.size(), "the selection added vertices");
        REQUIRE(gone.size() == expect, gone.size() << " roots were removed instead of " << expect);
        for (auto v : gone) {
            REQUIRE(of.count(v), "a vertex that is not a root was removed");
            REQUIRE(!actions.count(v), "an action was removed");
            REQUIRE(!a.perRoot().count(v), "the recorded result of a removed root was kept");
            for (auto r : roots)
                if (left.count(r) && !actions.count(r))
                    REQUIRE(!(of[r]->getResult() < of[v]->getResult()), "a root with result " << of[v]->getResult() << " was removed and one with result " << of[r]->getResult() << " was kept");
        }
        REQUIRE(res.size() == roots.size() - expect, "the results do not list exactly the remaining roots");
        for (auto& x : res)
            REQUIRE(left.count(x.second) && of.at(x.second) == x.first, "the result of a remaining root changed");
        for (auto& x : perRoot0)
            if (left.count(x.first))
                REQUIRE(a.perRoot().count(x.first) && a.perRoot().at(x.first) == x.second, "the recorded result of a remaining root was lost");
        REQUIRE(a.perRoot().size() <= perRoot0.size(), "a recorded result appeared");

        // records of the remaining ones
        auto perRoot1 = a.perRoot();
        a.updateEvaluationRecords(res);
        for (auto& x : res)
            REQUIRE(a.perRoot().count(x.second) && a.perRoot().at(x.second) == x.first, "the result of an evaluated root was not recorded");
        for (auto& x : perRoot1)
            if (!of.count(x.first))
                REQUIRE(a.perRoot().count(x.first) && a.perRoot().at(x.first) == x.second, "the recorded result of a root that was not evaluated changed");
        size_t nr = perRoot1.size();
        for (auto& x : res)
            nr += !perRoot1.count(x.second);
        REQUIRE(a.perRoot().size() == nr, "a result was recorded for something not evaluated");
        if (res.empty()) {
            REQUIRE(a.best().first == nullptr || left.count(a.best().first), "the recorded best policy left the graph");
            break;
        }
        double top = (--res.end())->first->getResult();
        auto recorded = best0.second;
        bool inGraph = best0.first && left.count(best0.first);
        if (inGraph && of.count(best0.first) && perRoot1.count(best0.first) && of[best0.first] != perRoot1.at(best0.first))
            recorded = of[best0.first];
        if (best0.first && inGraph && !(recorded->getResult() < top)) {
            REQUIRE(a.best().first == best0.first, "the best policy was replaced by one without a strictly higher result");
            REQUIRE(a.best().second == recorded, "the recorded result of the best policy does not follow its re-evaluations");
        }
        else {
            REQUIRE(of.count(a.best().first) && left.count(a.best().first), "the new best policy is not one of the evaluated roots");
            REQUIRE(a.best().second == of[a.best().first] && a.best().second->getResult() == top, "the new best policy does not have the highest result");
        }
        REQUIRE(a.getBestRoot().first == a.best().first, "getBestRoot does not report the recorded best policy");
        a.updateBestScoreLastGen(res);
        REQUIRE(a.getBestScoreLastGen() == top, "the best score of the generation is not the highest result");
    }
    if (a.best().first && a.getTPGGraph()->hasVertex(*a.best().first) && g.chance(0.6)) {
        auto& gr = *a.getTPGGraph();
        auto b = a.best();
        auto keep = reach(b.first);
        auto order = gr.getVertices();
        a.keepBestPolicy();
        auto now = gr.getVertices();
        REQUIRE(gr.getNbRootVertices() == 1 && gr.getRootVertices()[0] == b.first, "after keepBestPolicy the best policy is not the only root");
        std::vector<const TPGVertex*> expect;
        for (auto v : order)
            if (keep.count(v))
                expect.push_back(v);
        REQUIRE(now == expect, "keepBestPolicy does not leave exactly the vertices the best policy can reach");
        REQUIRE(a.best() == b, "keepBestPolicy changed the recorded best policy");
        for (auto& x : a.perRoot())
            REQUIRE(keep.count(x.first), "the recorded result of a removed vertex was kept");
    }
}

// ------------------------------------------------------------------------ C21
SCENARIO("C21", evaluationBudget, 20000, 300000)
{
    Gen& g = c.g;
    size_t nbA = g.in(2, 4);
    auto p = randomParams(g, nbA);
    c.trace << describe(p);
    uint64_t salt = g.next();
    int kind = g.in(0, 1);
    FakeLE le(nbA, 4, salt, kind);
    Open<Learn::LearningAgent> a(le, instrSet(), p);
    uint64_t seed = g.next();
    a.init(seed);
    grow(a, g);
    auto& gr = *a.getTPGGraph();
    std::vector<Call> log;
    size_t rounds = g.in(1, 3);
    for (size_t round = 0; round < rounds; round++) {
        if (g.chance(0.15)) {
            a.init(g.next()); // starting again forgets everything about the previous policies
            REQUIRE(a.perRoot().empty(), "recorded results of a previous training survived init");
            REQUIRE(a.best().first == nullptr && a.getArchive().getNbRecordings() == 0, "init kept the best policy or archived executions");
        }
        uint64_t gen = g.in(0, 100);
        auto mode = g.chance(0.6) ? LearningMode::TRAINING : g.chance(0.5) ? LearningMode::VALIDATION : LearningMode::TESTING;
        bool training = mode == LearningMode::TRAINING;
        auto roots = gr.getRootVertices();
        auto perRoot = a.perRoot();
        std::string arch0 = archiveDump(a.getArchive());
        auto best0 = a.best();
        std::map<const TPGVertex*, std::pair<double, size_t>> prev;
        for (auto& x : perRoot)
            prev[x.first] = {x.second->getResult(), x.second->getNbEvaluation()};
        log.clear();
        le.log = &log;
        a.jobs.clear();
        Results res;
        bool one = g.chance(0.3) && !roots.empty();
        if (one) {
            auto v = roots[g.in(0, roots.size() - 1)];
            res.emplace(a.evaluateOneRoot(gen, mode, v), v);
            roots = {v};
        }
        else
            res = a.evaluateAllRoots(gen, mode);
        le.log = nullptr;
        REQUIRE(res.size() == roots.size(), "the evaluation returns " << res.size() << " results for " << roots.size() << " roots");
        size_t li = 0;
        for (auto r : roots) {
            const EvaluationResult* e = nullptr;
            for (auto& x : res)
                if (x.second == r) {
                    REQUIRE(!e, "a root has two results");
                    e = x.first.get();
                }
            REQUIRE(e, "a root has no result");
            if (training && prev.count(r) && prev[r].second >= p.maxNbEvaluationPerPolicy) {
                REQUIRE(e == perRoot[r].get() && e->getResult() == prev[r].first && e->getNbEvaluation() == prev[r].second, "a root that reached its evaluation budget did not keep its recorded result");
                continue;
            }
            // replay the evaluation on an environment of its own
            FakeLE mine(le);
            mine.log = nullptr;
            Environment env(instrSet(), mine.getDataSources(), p.nbRegisters, p.nbProgramConstant);
            TPG::TPGExecutionEngine tee(env, nullptr);
            double sum = 0;
            for (size_t it = 0; it < p.nbIterationsPerPolicyEvaluation; it++) {
                REQUIRE(li < log.size(), "a root was not evaluated for the configured number of iterations");
                Call& k = log[li++];
                REQUIRE(k.mode == (int)mode, "the environment was reset in another learning mode");
                REQUIRE(k.it == it && k.gen == gen, "the environment was reset with another iteration or generation number");
                Data::Hash<uint64_t> h;
                REQUIRE(k.seed == (h(gen) ^ h((uint64_t)it)), "the environment was reset with another seed");
                mine.reset(k.seed, mode, it, gen);
                size_t n = 0;
                while (!mine.isTerminal() && n < p.maxNbActionsPerEval) {
                    auto path = tee.executeFromRoot(*r);
                    uint64_t act = ((const TPG::TPGAction*)path.back())->getActionID();
                    REQUIRE(n < k.actions.size(), "the evaluation stopped after " << k.actions.size() << " actions");
                    REQUIRE(k.actions[n] == act, "the evaluation did not perform the action the policy answers");
                    mine.doAction(act);
                    n++;
                }
                REQUIRE(k.actions.size() == n, k.actions.size() << " actions were performed instead of " << n);
                sum += mine.getScore();
            }
            double mean = sum / (double)p.nbIterationsPerPolicyEvaluation;
            size_t ne = p.nbIterationsPerPolicyEvaluation;
            if (training && prev.count(r)) {
                mean = (mean * (double)ne + prev[r].first * (double)prev[r].second) / (double)(ne + prev[r].second);
                ne += prev[r].second;
                c.nontrivial = true;
            }
            REQUIRE(near(e->getResult(), mean), "the result of a root is " << num(e->getResult()) << " instead of " << num(mean));
            REQUIRE(e->getNbEvaluation() == ne, "the result of a root counts " << e->getNbEvaluation() << " evaluations instead of " << ne);
        }
        REQUIRE(li == log.size(), "more evaluations were performed than configured");
        REQUIRE(a.perRoot().size() == perRoot.size(), "evaluating changed the recorded results");
        for (auto& x : a.perRoot())
            REQUIRE(perRoot.count(x.first) && x.second == perRoot[x.first] && x.second->getResult() == prev[x.first].first && x.second->getNbEvaluation() == prev[x.first].second, "evaluating changed the recorded results");
        REQUIRE(a.best() == best0, "evaluating changed the best policy");
        if (!training)
            REQUIRE(archiveDump(a.getArchive()) == arch0, "evaluating outside training changed the archive");
        if (training && !one)
            a.updateEvaluationRecords(res);
    }
}

SCENARIO("C20 C21", wholeTraining, 6000, 100000)
{
    Gen& g = c.g;
    size_t nbA = g.in(2, 4);
    auto p = randomParams(g, nbA);
    p.doValidation = g.chance(0.5);
    c.trace << describe(p);
    FakeLE le(nbA, 4, g.next(), g.in(0, 2));
    Open<Learn::LearningAgent> a(le, instrSet(), p);
    a.init(g.next());
    bool stop = false;
    if (g.chance(0.3)) {
        REQUIRE(a.train(stop, false) == p.nbGenerations, "training did not last the configured number of generations");
        REQUIRE(a.evaluations.size() == p.nbGenerations * (p.doValidation ? 2 : 1), "training did not evaluate once per generation");
        stop = true;
        REQUIRE(a.train(stop, false) == 0, "a stopped training went on");
    }
    else
        for (size_t i = 0; i < p.nbGenerations; i++) {
            a.evaluations.clear();
            auto before = a.perRoot();
            a.trainOneGeneration(i);
            REQUIRE(a.evaluations.size() == (p.doValidation ? 2u : 1u), "a generation did not evaluate once in training and once in validation");
            auto& ev = a.evaluations[0];
            auto& gr = *a.getTPGGraph();
            // the recorded results are those of the surviving roots, and of former roots
            auto vs = gr.getVertices();
            std::set<const TPGVertex*> in(vs.begin(), vs.end());
            for (auto& x : ev)
                if (in.count(x.second))
                    REQUIRE(a.perRoot().count(x.second) && a.perRoot().at(x.second) == x.first, "the result of a surviving root was not recorded");
            for (auto& x : a.perRoot())
                REQUIRE(in.count(x.first), "a result is recorded for a vertex that left the graph");
            REQUIRE(a.best().first && in.count(a.best().first), "the best policy is not in the graph");
            REQUIRE(a.perRoot().count(a.best().first) && a.perRoot().at(a.best().first) == a.best().second, "the recorded result of the best policy is not its latest");
            for (auto& x : ev)
                if (in.count(x.second))
                    REQUIRE(!(a.best().second->getResult() < x.first->getResult()), "a surviving root has a higher result than the best policy");
            REQUIRE(ev.empty() || a.getBestScoreLastGen() == (--ev.end())->first->getResult(), "the best score of the generation is not the highest result");
        }
    c.nontrivial = true;
}

// ------------------------------------------------------------------------ C22
namespace {
struct Outcome {
    std::vector<std::string> steps;
};
template <class A> void compareGen(A& a, Outcome& o, uint64_t gen, std::map<const Program::Program*, size_t>& progs)
{
    std::map<const TPGVertex*, size_t> num;
    std::ostringstream s;
    s.precision(17);
    s << dump(*a.getTPGGraph(), num, progs) << " | results:";
    for (auto& ev : a.evaluations) {
        std::vector<std::pair<size_t, std::string>> l;
        for (auto& x : ev) {
            std::ostringstream q;
            q.precision(17);
            q << x.first->getResult() << "*" << x.first->getNbEvaluation();
            s << q.str() << " "; // in the order of the results
        }
        s << "/";
    }
    std::vector<std::string> pr(num.size());
    for (auto& x : a.perRoot())
        if (num.count(x.first)) {
            std::ostringstream q;
            q.precision(17);
            q << num[x.first] << ":" << x.second->getResult() << "*" << x.second->getNbEvaluation();
            pr[num[x.first]] = q.str();
        }
    s << " | recorded: ";
    for (auto& x : pr)
        s << x << " ";
    s << " | best: " << (num.count(a.best().first) ? (long)num[a.best().first] : -1L);
    if (a.best().second)
        s << "=" << a.best().second->getResult();
    s << " | archive: " << archiveDump(a.getArchive());
    a.evaluations.clear();
    o.steps.push_back(s.str());
}
template <class Base, class LE> Outcome runTraining(LE& le, Learn::LearningParameters p, uint64_t seed, size_t gens, bool checkOnce)
{
    Outcome o;
    Open<Base> a(le, instrSet(), p);
    Keeper keeper(a);
    a.addLogger(keeper);
    a.init(seed);
    std::map<const Program::Program*, size_t> progs;
    for (size_t i = 0; i < gens; i++) {
        a.jobs.clear();
        a.trainOneGeneration(i);
        progs.clear();
        compareGen(a, o, i, progs);
        if (checkOnce) {
            std::multiset<const TPGVertex*> ev;
            for (auto& j : a.jobs)
                ev.insert(j.root);
            // with validation every root that survived is evaluated a second time
            for (auto v : ev)
                REQUIRE(ev.count(v) <= (p.doValidation ? 2u : 1u), "a root was evaluated several times in a generation");
        }
    }
    std::ostringstream s;
    s << a.getRNG().getUnsignedInt64(0, UINT64_MAX);
    o.steps.push_back("random generator state: " + s.str());
    return o;
}
} // namespace
SCENARIO("C22", parallelIsSequential, 4000, 60000)
{
    Gen& g = c.g;
    size_t nbA = g.in(2, 4);
    auto p = randomParams(g, nbA);
    p.doValidation = g.chance(0.3);
    p.archivingProbability = g.chance(0.3) ? 1 : g.real(0, 1);
    uint64_t salt = g.next(), seed = g.next();
    int kind = g.in(0, 2);
    size_t gens = g.in(1, 3);
    c.trace << describe(p);
    FakeLE le0(nbA, 4, salt, kind);
    p.nbThreads = 1;
    auto ref = runTraining<Learn::LearningAgent>(le0, p, seed, gens, true);
    size_t th[] = {1, g.in(2, 3), g.in(4, 6)};
    for (size_t t : th) {
        p.nbThreads = t;
        FakeLE le(nbA, 4, salt, kind);
        le.jitter = g.chance(0.7);
        le.copyable = !g.chance(0.1);
        auto o = runTraining<Learn::ParallelLearningAgent>(le, p, seed, gens, true);
        REQUIRE(o.steps.size() == ref.steps.size(), "different number of generations");
        for (size_t i = 0; i < o.steps.size(); i++)
            if (o.steps[i] != ref.steps[i]) {
                size_t k = 0;
                while (k < o.steps[i].size() && k < ref.steps[i].size() && o.steps[i][k] == ref.steps[i][k])
                    k++;
                size_t b = k > 60 ? k - 60 : 0;
                REQUIRE(false, "training with " << t << " threads differs from sequential training at generation " << i << ": ..." << o.steps[i].substr(b, 160) << "... instead of ..." << ref.steps[i].substr(b, 160) << "...");
            }
    }
    c.nontrivial = true;
}

namespace {
struct Merger : Open<Learn::ParallelLearningAgent> {
    using Open<Learn::ParallelLearningAgent>::Open;
    using Learn::ParallelLearningAgent::mergeArchiveMap;
};
} // namespace
// merging the archives of the jobs equals recording all their recordings in the order of the jobs
SCENARIO("C22", mergeArchives, 20000, 400000)
{
    Gen& g = c.g;
    auto p = randomParams(g, 2);
    p.archiveSize = g.in(1, 12);
    p.nbThreads = 1;
    FakeLE le(2, 4, g.next(), 0);
    Merger a(le, instrSet(), p);
    std::vector<std::unique_ptr<Data::PrimitiveTypeArray<double>>> data;
    for (size_t i = 0; i < 4; i++) {
        data.push_back(std::make_unique<Data::PrimitiveTypeArray<double>>(2));
        data.back()->setDataAt(typeid(double), 0, (double)i + 1);
    }
    static const char ids[8] = {};
    struct R {
        const Program::Program* prog;
        size_t hash;
        double result;
    };
    std::vector<R> all;
    double next = 0;
    for (size_t round = 0, rounds = g.in(1, 3); round < rounds; round++) {
        std::map<uint64_t, Archive*> m;
        uint64_t idx = 0;
        c.trace << "size " << p.archiveSize << " jobs:";
        for (size_t j = 0, nj = g.in(0, 6); j < nj; j++) {
            auto ar = new Archive(p.archiveSize, 1.0, g.next());
            std::vector<R> kept;
            for (size_t r = 0, nr = g.in(0, 5); r < nr; r++) {
                auto prog = (const Program::Program*)&ids[g.in(0, 7)];
                auto& d = *data[g.in(0, 3)];
                ar->addRecording(prog, {d}, next += 1, true);
                kept.push_back({prog, Archive::getCombinedHash({d}), next});
            }
            if (kept.size() > p.archiveSize)
                kept.erase(kept.begin(), kept.end() - p.archiveSize);
            all.insert(all.end(), kept.begin(), kept.end());
            c.trace << " " << kept.size();
            idx += g.in(1, 3);
            m[idx] = ar;
        }
        a.mergeArchiveMap(m);
        if (all.size() > p.archiveSize)
            all.erase(all.begin(), all.end() - p.archiveSize);
        auto& arch = a.getArchive();
        REQUIRE(arch.getNbRecordings() == all.size(), "merged archive: " << arch.getNbRecordings() << " recordings instead of " << all.size());
        std::set<size_t> hashes;
        for (size_t i = 0; i < all.size(); i++) {
            auto& r = arch.at(i);
            REQUIRE(r.prog == all[i].prog && r.dataHash == all[i].hash && r.result == all[i].result, "merged archive: recording " << i << " is " << r.result << " instead of " << all[i].result);
            hashes.insert(r.dataHash);
            REQUIRE(arch.getDataHandlers().count(r.dataHash) && Archive::getCombinedHash({arch.getDataHandlers().at(r.dataHash)[0]}) == r.dataHash, "merged archive: the data of recording " << i << " is not stored");
        }
        REQUIRE(arch.getDataHandlers().size() == hashes.size(), "merged archive: data without recording");
        c.nontrivial = true;
    }
}

// ------------------------------------------------------------------------ C23
namespace {
struct AdvLE : Learn::AdversarialLearningEnvironment {
    Data::PrimitiveTypeArray<double> data;
    size_t agents;
    uint64_t salt, state = 0, steps = 0, end = 3, seed0 = 0;
    std::vector<Call>* log = nullptr;
    AdvLE(uint64_t nbA, size_t agents, uint64_t salt) : AdversarialLearningEnvironment(nbA), data(4), agents(agents), salt(salt) { refresh(); }
    AdvLE(const AdvLE& o) = default;
    void refresh()
    {
        for (size_t i = 0; i < 4; i++)
            data.setDataAt(typeid(double), i, (double)(mixh(state ^ salt, i) % 2000) / 100.0 - 10.0);
    }
    LearningEnvironment* clone() const override
    {
        auto l = new AdvLE(*this);
        l->log = nullptr;
        return l;
    }
    bool isCopyable() const override { return true; }
    void reset(size_t seed, LearningMode mode, uint16_t it, uint64_t gen) override
    {
        state = mixh(seed, (int)mode) ^ salt;
        steps = 0;
        end = state % 5 == 0 ? UINT64_MAX : state % 9;
        if (log)
            log->push_back({seed, (int)mode, it, gen, {}, 0});
        refresh();
    }
    void doAction(uint64_t a) override
    {
        LearningEnvironment::doAction(a);
        state = mixh(state, a + 1);
        steps++;
        if (log && !log->empty())
            log->back().actions.push_back(a);
        refresh();
    }
    std::vector<std::reference_wrapper<const Data::DataHandler>> getDataSources() override { return {data}; }
    double s(size_t i) const { return (double)(mixh(state, i) % 1000) / 10.0; }
    std::shared_ptr<AdversarialEvaluationResult> getScores() const override
    {
        switch (agents) {
        case 1:
            return std::make_shared<AdversarialEvaluationResult>(AdversarialEvaluationResult({s(0)}));
        case 2:
            return std::make_shared<AdversarialEvaluationResult>(AdversarialEvaluationResult({s(0), s(1)}));
        case 3:
            return std::make_shared<AdversarialEvaluationResult>(AdversarialEvaluationResult({s(0), s(1), s(2)}));
        default:
            return std::make_shared<AdversarialEvaluationResult>(AdversarialEvaluationResult({s(0), s(1), s(2), s(3)}));
        }
    }
    bool isTerminal() const override { return steps >= end; }
};
struct AdvAgent : Open<Learn::AdversarialLearningAgent> {
    using Open::Open;
    struct Fight {
        std::vector<const TPGVertex*> roots;
        int pos;
        uint64_t idx;
        std::vector<double> scores;
        size_t n;
    };
    mutable std::vector<Fight> fights;
    auto& champs() { return champions; }
    size_t agents() const { return agentsPerEvaluation; }
    void compile(std::map<uint64_t, std::pair<std::shared_ptr<EvaluationResult>, std::shared_ptr<Learn::Job>>>& m, Results& r, std::map<uint64_t, Archive*>& am) { evaluateAllRootsInParallelCompileResults(m, r, am); }
    std::shared_ptr<EvaluationResult> evaluateJob(TPG::TPGExecutionEngine& tee, const Learn::Job& job, uint64_t gen, LearningMode mode, Learn::LearningEnvironment& le) const override
    {
        auto r = Open::evaluateJob(tee, job, gen, mode, le);
        auto& j = dynamic_cast<const Learn::AdversarialJob&>(job);
        auto a = std::dynamic_pointer_cast<AdversarialEvaluationResult>(r);
        Fight f{j.getRoots(), j.getPosOfStudiedRoot(), j.getIdx(), {}, a->getNbEvaluation()};
        for (size_t i = 0; i < a->getSize(); i++)
            f.scores.push_back(a->getScoreOf(i));
        std::lock_guard<std::mutex> l(mtx);
        fights.push_back(f);
        return r;
    }
};
} // namespace
SCENARIO("C23", confrontations, 8000, 120000)
{
    Gen& g = c.g;
    size_t nbA = g.in(2, 4), n = g.in(1, 4);
    auto p = randomParams(g, nbA);
    p.nbIterationsPerJob = g.in(1, 3);
    p.nbIterationsPerPolicyEvaluation = g.in(1, 12);
    p.nbThreads = g.in(1, 4);
    if (g.chance(0.1))
        p.ratioDeletedRoots = 0;
    c.trace << describe(p) << " agents=" << n << " iterationsPerJob=" << p.nbIterationsPerJob;
    AdvLE le(nbA, n, g.next());
    AdvAgent a(le, instrSet(), p, n);
    a.init(g.next());
    size_t gens = g.in(1, 3);
    for (size_t gen = 0; gen < gens; gen++) {
        grow(a, g);
        auto& gr = *a.getTPGGraph();
        auto roots = gr.getRootVertices();
        if (roots.empty())
            break;
        auto vs = gr.getVertices();
        std::set<const TPGVertex*> in(vs.begin(), vs.end());
        // champions of a previous generation may have been removed by our own edits only
        auto& ch = a.champs();
        ch.erase(std::remove_if(ch.begin(), ch.end(), [&](const TPGVertex* v) { return !in.count(v); }), ch.end());
        // the jobs
        auto q = a.makeJobs(LearningMode::TRAINING);
        std::map<const TPGVertex*, size_t> jobs;
        std::map<const TPGVertex*, std::map<int, size_t>> positions;
        std::set<uint64_t> idx;
        std::set<const TPGVertex*> champions(ch.begin(), ch.end());
        while (!q.empty()) {
            auto j = std::dynamic_pointer_cast<Learn::AdversarialJob>(q.front());
            q.pop();
            REQUIRE(j, "a job of an adversarial agent is not an adversarial job");
            REQUIRE(j->getSize() == n, "a job has " << j->getSize() << " agents instead of " << n);
            REQUIRE(idx.insert(j->getIdx()).second, "two jobs share an index");
            int pos = j->getPosOfStudiedRoot();
            REQUIRE(pos >= 0 && (size_t)pos < n, "a job studies a position outside of it");
            jobs[(*j)[pos]]++;
            positions[(*j)[pos]][pos]++;
            for (size_t i = 0; i < n; i++) {
                REQUIRE(in.count((*j)[i]), "a job confronts a vertex that is not in the graph");
                if ((int)i != pos)
                    REQUIRE(champions.count((*j)[i]), "a root is confronted to one that is not a champion");
            }
        }
        for (auto r : roots) {
            REQUIRE(jobs[r] * p.nbIterationsPerJob >= p.nbIterationsPerPolicyEvaluation, "a root takes part in " << jobs[r] * p.nbIterationsPerJob << " evaluations instead of at least " << p.nbIterationsPerPolicyEvaluation);
            REQUIRE(jobs[r] == jobs[roots[0]], "roots are not confronted the same number of times");
            for (size_t i = 0; i < n; i++)
                REQUIRE(positions[r][i] == positions[r][0], "a root does not occupy every position equally often");
        }
        for (auto& x : jobs)
            REQUIRE(std::find(roots.begin(), roots.end(), x.first) != roots.end(), "a vertex that is not a root is evaluated");
        // the evaluation
        auto mode = g.chance(0.8) ? LearningMode::TRAINING : LearningMode::VALIDATION;
        a.fights.clear();
        auto res = a.evaluateAllRoots(gen, mode);
        REQUIRE(res.size() == roots.size(), "the evaluation returns " << res.size() << " results for " << roots.size() << " roots");
        std::map<const TPGVertex*, std::pair<double, size_t>> want;
        for (auto& f : a.fights) {
            REQUIRE(f.n == p.nbIterationsPerJob, "a job was not evaluated for the configured number of iterations");
            auto& w = want[f.roots[f.pos]];
            w.first += f.scores[f.pos] * (double)f.n;
            w.second += f.n;
        }
        for (auto& x : res) {
            REQUIRE(want.count(x.second), "a result for a root that was not evaluated");
            auto w = want[x.second];
            REQUIRE(near(x.first->getResult(), w.first / (double)w.second), "the score of a root is " << num(x.first->getResult()) << ", the mean over its confrontations is " << num(w.first / (double)w.second));
            REQUIRE(x.first->getNbEvaluation() == w.second, "wrong number of evaluations");
            want.erase(x.second);
        }
        REQUIRE(want.empty(), "an evaluated root got no result");
        for (auto v : a.champs())
            REQUIRE(std::find(roots.begin(), roots.end(), v) != roots.end(), "a champion is not one of the evaluated roots");
        for (auto& x : res)
            if (std::find(a.champs().begin(), a.champs().end(), x.second) == a.champs().end())
                for (auto& y : res)
                    if (std::find(a.champs().begin(), a.champs().end(), y.second) != a.champs().end())
                        REQUIRE(!(y.first->getResult() < x.first->getResult()), "a champion has a lower score than a root that is not");
        c.nontrivial = true;
    }
}
// one job, replayed turn by turn
SCENARIO("C23", oneConfrontation, 20000, 300000)
{
    Gen& g = c.g;
    size_t nbA = g.in(2, 4), n = g.in(1, 4);
    auto p = randomParams(g, nbA);
    p.nbIterationsPerJob = g.in(1, 3);
    uint64_t salt = g.next();
    AdvLE le(nbA, n, salt);
    AdvAgent a(le, instrSet(), p, n);
    a.init(g.next());
    grow(a, g);
    auto teams = a.getTPGGraph()->getVertices();
    Learn::AdversarialJob job({}, 0, 0, 0);
    std::vector<const TPGVertex*> who;
    for (size_t i = 0; i < n; i++) {
        who.push_back(teams[g.in(0, teams.size() - 1)]);
        job.addRoot(who.back());
    }
    std::vector<Call> log;
    le.log = &log;
    uint64_t gen = g.in(0, 50);
    TPG::TPGExecutionEngine tee(a.getEnvironment(), nullptr);
    auto r = std::dynamic_pointer_cast<AdversarialEvaluationResult>(a.evaluateJob(tee, job, gen, LearningMode::TRAINING, le));
    le.log = nullptr;
    REQUIRE(log.size() == p.nbIterationsPerJob, "a job was evaluated " << log.size() << " times instead of " << p.nbIterationsPerJob);
    AdvLE mine(le);
    mine.log = nullptr;
    Environment env(instrSet(), mine.getDataSources(), p.nbRegisters, p.nbProgramConstant);
    TPG::TPGExecutionEngine ref(env, nullptr);
    std::vector<double> sum(n, 0.0);
    for (size_t it = 0; it < log.size(); it++) {
        mine.reset(log[it].seed, LearningMode::TRAINING, 0, 0);
        size_t k = 0;
        while (!mine.isTerminal() && k < n * p.maxNbActionsPerEval) {
            uint64_t act = ((const TPG::TPGAction*)ref.executeFromRoot(*who[k % n]).back())->getActionID();
            REQUIRE(k < log[it].actions.size() && log[it].actions[k] == act, "turn " << k << " was not played by agent " << k % n);
            mine.doAction(act);
            k++;
        }
        REQUIRE(log[it].actions.size() == k, log[it].actions.size() << " actions were played instead of " << k);
        for (size_t i = 0; i < n; i++)
            sum[i] += mine.s(i);
        c.nontrivial = c.nontrivial || k > 0;
    }
    for (size_t i = 0; i < n; i++)
        REQUIRE(near(r->getScoreOf(i), sum[i] / (double)log.size()), "the score of agent " << i << " is not the mean over the iterations");
    REQUIRE(r->getNbEvaluation() == p.nbIterationsPerJob, "wrong number of evaluations");
    c.trace << describe(p) << " agents=" << n;
}
// crediting, including jobs in which every position is studied
SCENARIO("C23", credit, 20000, 300000)
{
    Gen& g = c.g;
    size_t nbA = g.in(2, 3), n = g.in(1, 4);
    auto p = randomParams(g, nbA);
    AdvLE le(nbA, n, g.next());
    AdvAgent a(le, instrSet(), p, n);
    a.init(g.next());
    grow(a, g);
    auto roots = a.getTPGGraph()->getRootVertices();
    if (roots.empty())
        return;
    std::map<uint64_t, std::pair<std::shared_ptr<EvaluationResult>, std::shared_ptr<Learn::Job>>> m;
    std::map<const TPGVertex*, std::pair<double, size_t>> want;
    uint64_t id = 0;
    auto add = [&](const TPGVertex* studied) {
        int pos = g.chance(0.3) ? -1 : (int)g.in(0, n - 1);
        auto j = std::make_shared<Learn::AdversarialJob>(Learn::AdversarialJob({}, 0, id, pos));
        double s[4] = {g.real(-5, 5), g.real(-5, 5), g.real(-5, 5), g.real(-5, 5)};
        size_t ne = g.in(1, 5);
        for (size_t i = 0; i < n; i++) {
            auto v = (int)i == std::max(pos, 0) ? studied : roots[g.in(0, roots.size() - 1)];
            j->addRoot(v);
            if (pos == -1 || (int)i == pos) {
                want[v].first += s[i] * (double)ne;
                want[v].second += ne;
            }
        }
        auto r = std::make_shared<AdversarialEvaluationResult>(n == 1 ? AdversarialEvaluationResult({s[0]}, ne) : n == 2 ? AdversarialEvaluationResult({s[0], s[1]}, ne) : n == 3 ? AdversarialEvaluationResult({s[0], s[1], s[2]}, ne) : AdversarialEvaluationResult({s[0], s[1], s[2], s[3]}, ne));
        m[id++] = {r, j};
    };
    for (auto r : roots) {
        size_t k = g.in(1, 3);
        for (size_t i = 0; i < k; i++)
            add(r);
    }
    Results res;
    std::map<uint64_t, Archive*> am;
    a.compile(m, res, am);
    REQUIRE(res.size() == roots.size(), res.size() << " results for " << roots.size() << " roots");
    for (auto& x : res) {
        REQUIRE(want.count(x.second), "a result for an unknown root");
        auto w = want[x.second];
        REQUIRE(near(x.first->getResult(), w.first / (double)w.second) && x.first->getNbEvaluation() == w.second, "the score of a root is " << num(x.first->getResult()) << "*" << x.first->getNbEvaluation() << ", the mean over the confrontations it was studied in is " << num(w.first / (double)w.second) << "*" << w.second);
        want.erase(x.second);
    }
    c.trace << "agents=" << n << " roots=" << roots.size() << " jobs=" << id;
    c.nontrivial = true;
}
SCENARIO("C23", adversarialTraining, 4000, 60000)
{
    Gen& g = c.g;
    size_t nbA = g.in(2, 4), n = g.in(1, 3);
    auto p = randomParams(g, nbA);
    p.nbIterationsPerJob = g.in(1, 2);
    p.nbIterationsPerPolicyEvaluation = g.in(1, 6);
    p.doValidation = g.chance(0.3);
    uint64_t salt = g.next(), seed = g.next();
    c.trace << describe(p) << " agents=" << n;
    size_t gens = g.in(2, 4);
    AdvLE le(nbA, n, salt);
    AdvAgent a(le, instrSet(), p, n);
    for (size_t round = 0; round < (g.chance(0.2) ? 2 : 1); round++) {
        a.init(seed);
        for (size_t i = 0; i < gens; i++) {
            a.fights.clear();
            // champions are policies of the graph, at every moment
            a.trainOneGeneration(i);
            auto vs = a.getTPGGraph()->getVertices();
            std::set<const TPGVertex*> in(vs.begin(), vs.end());
            for (auto v : a.champs())
                REQUIRE(in.count(v), "a champion is kept although its policy was removed from the graph");
        }
    }
    c.nontrivial = true;
}

// ------------------------------------------------------------------------ C24
namespace {
struct ClassLE : Learn::ClassificationLearningEnvironment {
    Data::PrimitiveTypeArray<double> data;
    uint64_t salt, state = 0, steps = 0, end = 6;
    std::vector<std::vector<std::vector<uint64_t>>>* tables = nullptr;
    ClassLE(uint64_t k, uint64_t salt) : ClassificationLearningEnvironment(k), data(4), salt(salt) { refresh(); }
    ClassLE(const ClassLE&) = default;
    auto& table() { return classificationTable; }
    auto& current() { return currentClass; }
    void refresh()
    {
        for (size_t i = 0; i < 4; i++)
            data.setDataAt(typeid(double), i, (double)(mixh(state ^ salt, i) % 2000) / 100.0 - 10.0);
    }
    LearningEnvironment* clone() const override { return new ClassLE(*this); }
    bool isCopyable() const override { return true; }
    void doAction(uint64_t a) override
    {
        ClassificationLearningEnvironment::doAction(a);
        steps++;
        state = mixh(state, steps);
        currentClass = state % 7 < 4 ? 0 : state % nbActions;
        refresh();
    }
    void reset(size_t seed, LearningMode mode, uint16_t, uint64_t) override
    {
        ClassificationLearningEnvironment::reset(seed, mode, 0, 0);
        state = mixh(seed, (int)mode);
        steps = 0;
        currentClass = state % nbActions;
        refresh();
    }
    std::vector<std::reference_wrapper<const Data::DataHandler>> getDataSources() override { return {data}; }
    bool isTerminal() const override { return steps >= end; }
};
double fscore(const std::vector<std::vector<uint64_t>>& t, size_t k)
{
    uint64_t row = 0, col = 0;
    for (size_t i = 0; i < t.size(); i++) {
        row += t[k][i];
        col += t[i][k];
    }
    if (t[k][k] == 0)
        return 0;
    double rec = (double)t[k][k] / (double)row, pre = (double)t[k][k] / (double)col;
    return 2 * pre * rec / (pre + rec);
}
} // namespace
SCENARIO("C24", classScore, 100000, 2000000)
{
    Gen& g = c.g;
    size_t k = g.in(1, 5);
    ClassLE le(k, 1);
    auto t = le.table();
    for (auto& r : t)
        for (auto& x : r)
            x = g.chance(0.35) ? 0 : g.in(0, g.chance(0.1) ? 1u << 20 : 9);
    le.table() = t;
    double s = 0;
    for (size_t i = 0; i < k; i++)
        s += fscore(t, i);
    for (auto& r : t)
        for (auto x : r)
            c.trace << x << " ";
    REQUIRE(near(le.getScore(), s / (double)k), "the score is " << num(le.getScore()) << ", the mean of the scores of the classes is " << num(s / k));
    REQUIRE(le.getClassificationTable() == t, "computing the score changed the classification table");
    // recording decisions
    for (size_t i = 0; i < 6; i++) {
        le.current() = g.in(0, k - 1);
        uint64_t a = g.in(0, k - (g.chance(0.9) ? 1 : 0));
        uint64_t cl = le.current();
        if (a >= k) {
            REQUIRE(throws([&] { le.doAction(a); }), "an action out of range was accepted");
        }
        else {
            le.doAction(a);
            t[cl][a]++;
        }
        REQUIRE(le.getClassificationTable() == t, "the classification table does not count the decision for class " << cl << " answered " << a);
    }
    le.reset(g.next(), LearningMode::TRAINING, 0, 0);
    for (auto& r : le.getClassificationTable())
        for (auto x : r)
            REQUIRE(x == 0, "reset kept recorded decisions");
    c.nontrivial = true;
}
SCENARIO("C24", classEvaluation, 10000, 150000)
{
    Gen& g = c.g;
    size_t k = g.in(2, 4);
    auto p = randomParams(g, k);
    p.maxNbActionsPerEval = g.in(1, 8);
    c.trace << describe(p);
    uint64_t salt = g.next();
    ClassLE le(k, salt);
    Open<Learn::ClassificationLearningAgent<Learn::ParallelLearningAgent>> a(le, instrSet(), p);
    a.init(g.next());
    grow(a, g);
    for (size_t round = 0; round < 2; round++) {
        auto roots = a.getTPGGraph()->getRootVertices();
        uint64_t gen = g.in(0, 9);
        auto mode = g.chance(0.7) ? LearningMode::TRAINING : LearningMode::VALIDATION;
        auto before = a.perRoot();
        std::map<const TPGVertex*, ClassificationEvaluationResult> prev;
        for (auto& x : before)
            prev.emplace(x.first, dynamic_cast<ClassificationEvaluationResult&>(*x.second));
        auto res = a.evaluateAllRoots(gen, mode);
        REQUIRE(res.size() == roots.size(), "wrong number of results");
        for (auto& x : res) {
            auto e = std::dynamic_pointer_cast<ClassificationEvaluationResult>(x.first);
            REQUIRE(e, "a result is not a classification result");
            if (mode == LearningMode::TRAINING && prev.count(x.second) && prev.at(x.second).getNbEvaluation() >= p.maxNbEvaluationPerPolicy) {
                REQUIRE(x.first == before[x.second], "a root beyond its budget was evaluated again");
                continue;
            }
            ClassLE mine(le);
            Environment env(instrSet(), mine.getDataSources(), p.nbRegisters, p.nbProgramConstant);
            TPG::TPGExecutionEngine tee(env, nullptr);
            std::vector<double> sum(k, 0.0);
            std::vector<size_t> nb(k, 0);
            for (size_t it = 0; it < p.nbIterationsPerPolicyEvaluation; it++) {
                Data::Hash<uint64_t> h;
                mine.reset(h(gen) ^ h((uint64_t)it), mode, 0, 0);
                for (size_t s = 0; !mine.isTerminal() && s < p.maxNbActionsPerEval; s++)
                    mine.doAction(((const TPG::TPGAction*)tee.executeFromRoot(*x.second).back())->getActionID());
                for (size_t j = 0; j < k; j++) {
                    sum[j] += fscore(mine.table(), j);
                    for (auto n : mine.table()[j])
                        nb[j] += n;
                }
            }
            double mean = 0;
            bool comb = mode == LearningMode::TRAINING && prev.count(x.second);
            for (size_t j = 0; j < k; j++) {
                double s = sum[j] / (double)p.nbIterationsPerPolicyEvaluation;
                if (comb) {
                    size_t pn = prev.at(x.second).getNbEvaluationPerClass()[j];
                    if (nb[j] + pn)
                        s = (s * (double)nb[j] + prev.at(x.second).getScorePerClass()[j] * (double)pn) / (double)(nb[j] + pn);
                    nb[j] += pn;
                }
                mean += s;
                REQUIRE(near(e->getScorePerClass()[j], s), "class " << j << ": score " << num(e->getScorePerClass()[j]) << " instead of " << num(s));
                REQUIRE(e->getNbEvaluationPerClass()[j] == nb[j], "class " << j << ": wrong number of evaluations");
            }
            REQUIRE(near(e->getResult(), mean / (double)k), "the overall result is not the mean over the classes");
            c.nontrivial = true;
        }
        if (mode == LearningMode::TRAINING)
            a.updateEvaluationRecords(res);
    }
}
SCENARIO("C24", classSelection, 20000, 400000)
{
    Gen& g = c.g;
    size_t k = g.in(2, 4);
    auto p = randomParams(g, k);
    p.mutation.tpg.nbRoots = g.in(4, 40);
    if (g.chance(0.1))
        p.ratioDeletedRoots = g.chance(0.5) ? 0 : 1;
    ClassLE le(k, 1);
    Open<Learn::ClassificationLearningAgent<Learn::LearningAgent>> a(le, instrSet(), p);
    a.init(g.next());
    size_t more = g.in(0, 25);
    auto& gr = *a.getTPGGraph();
    auto prog = std::make_shared<Program::Program>(a.getEnvironment());
    auto acts = gr.getVertices();
    for (size_t i = 0; i < more; i++)
        gr.addNewEdge(gr.addNewTeam(), *acts[0], prog);
    grow(a, g);
    auto roots = gr.getRootVertices();
    if (roots.empty())
        return;
    Results res;
    std::map<const TPGVertex*, std::shared_ptr<ClassificationEvaluationResult>> of;
    bool ties = g.chance(0.3);
    for (auto r : roots) {
        std::vector<double> s(k);
        std::vector<size_t> n(k, 1);
        for (auto& x : s)
            x = ties ? (double)g.in(0, 2) / 2 : g.real(0, 1);
        auto e = std::make_shared<ClassificationEvaluationResult>(s, n);
        of[r] = e;
        res.emplace(e, r);
        if (g.chance(0.5))
            a.perRoot()[r] = e;
    }
    auto perRoot0 = a.perRoot();
    size_t total = roots.size(), del = (size_t)std::floor(p.ratioDeletedRoots * total), keep = total - del, perClass = keep / k / 2;
    c.trace << "roots=" << total << " classes=" << k << " ratio=" << p.ratioDeletedRoots << " keep=" << keep << " perClass=" << perClass;
    size_t nbActionsRoots = 0;
    for (auto r : roots)
        nbActionsRoots += dynamic_cast<const TPG::TPGAction*>(r) != nullptr;
    std::set<const TPGVertex*> actions;
    for (auto r : roots)
        if (dynamic_cast<const TPG::TPGAction*>(r))
            actions.insert(r);
    auto verts0 = gr.getVertices();
    a.decimateWorstRoots(res);
    auto now = gr.getVertices();
    std::set<const TPGVertex*> left(now.begin(), now.end());
    std::vector<const TPGVertex*> gone;
    for (auto v : verts0)
        if (!left.count(v)) {
            REQUIRE(of.count(v), "a vertex that is not a root was removed");
            REQUIRE(!actions.count(v), "an action was removed");
            gone.push_back(v);
        }
    REQUIRE(gone.size() <= del && gone.size() + nbActionsRoots >= del, gone.size() << " roots were removed, " << del << " were to be");
    for (auto v : gone) {
        for (size_t j = 0; j < k; j++) {
            size_t better = 0;
            for (auto r : roots)
                better += r != v && of[r]->getScorePerClass()[j] >= of[v]->getScorePerClass()[j];
            REQUIRE(better >= perClass, "a root that is among the best " << perClass << " for class " << j << " was removed");
        }
        REQUIRE(!a.perRoot().count(v), "the recorded result of a removed root was kept");
        for (auto r : roots)
            if (left.count(r) && !actions.count(r) && of[r]->getResult() < of[v]->getResult()) {
                bool forClass = false; // then it is retained for one of its classes
                for (size_t j = 0; j < k; j++) {
                    size_t better = 0;
                    for (auto q : roots)
                        better += of[q]->getScorePerClass()[j] > of[r]->getScorePerClass()[j];
                    forClass = forClass || better < perClass;
                }
                REQUIRE(forClass, "a root was removed and one with a lower result, best for no class, was kept");
            }
        c.nontrivial = true;
    }
    REQUIRE(res.size() == roots.size() - gone.size(), "the results do not list exactly the remaining roots");
    for (auto& x : res)
        REQUIRE(left.count(x.second) && x.first == of[x.second], "the result of a remaining root changed");
    for (auto& x : perRoot0)
        if (left.count(x.first))
            REQUIRE(a.perRoot().count(x.first) && a.perRoot().at(x.first) == x.second, "the recorded result of a remaining root was lost");
}
CDV_MAIN
