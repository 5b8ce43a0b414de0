// Deterministic learning environments and opened-up agents.
#pragma once
#include "world.h"
#include "learn/adversarialLearningAgent.h"
#include "learn/classificationLearningAgent.h"
#include "learn/classificationLearningEnvironment.h"
#include "learn/parallelLearningAgent.h"
#include "mutator/programMutator.h"
#include "mutator/tpgMutator.h"
#include "data/primitiveTypeArray.h"
#include "log/laLogger.h"
#include <mutex>
#include <sched.h>

namespace learn {
using namespace cdv;
using Learn::LearningMode;

inline uint64_t mixh(uint64_t a, uint64_t b)
{
    Gen g(a * 0x100000001b3ull ^ (b + 0x1234567));
    return g.next();
}
struct Call {
    uint64_t seed;
    int mode;
    uint64_t it, gen;
    std::vector<uint64_t> actions;
    double score;
};

struct FakeLE : Learn::LearningEnvironment {
    Data::PrimitiveTypeArray<double> data;
    uint64_t salt, state = 0, steps = 0, end = 3;
    int scoreKind; // 0 spread, 1 few values (ties), 2 with infinities
    bool copyable = true, jitter = false;
    std::vector<Call>* log = nullptr;
    FakeLE(uint64_t nbA, size_t n, uint64_t salt, int kind) : LearningEnvironment(nbA), data(n), salt(salt), scoreKind(kind) { refresh(); }
    FakeLE(const FakeLE& o) = default;
    void refresh()
    {
        for (size_t i = 0; i < data.getLargestAddressSpace(); i++)
            data.setDataAt(typeid(double), i, (double)(int64_t)(mixh(state ^ salt, i) % 2000) / 100.0 - 10.0);
    }
    LearningEnvironment* clone() const override
    {
        FakeLE* l = new FakeLE(*this);
        l->log = nullptr;
        return l;
    }
    bool isCopyable() const override { return copyable; }
    void reset(size_t seed, LearningMode mode, uint16_t it, uint64_t gen) override
    {
        state = mixh(mixh(seed, (int)mode), it * 31 + gen) ^ salt;
        steps = 0;
        end = state % 5 == 0 ? UINT64_MAX : state % 6;
        if (log)
            log->push_back({seed, (int)mode, it, gen, {}, 0});
        refresh();
    }
    void doAction(uint64_t a) override
    {
        LearningEnvironment::doAction(a);
        if (jitter && mixh(state, steps) % 3 == 0)
            sched_yield();
        state = mixh(state, a + 1);
        steps++;
        if (log && !log->empty())
            log->back().actions.push_back(a);
        refresh();
    }
    std::vector<std::reference_wrapper<const Data::DataHandler>> getDataSources() override { return {data}; }
    double getScore() const override
    {
        uint64_t h = mixh(state, 77);
        double s = scoreKind == 1 ? (double)(h % 3) : (double)(int64_t)(h % 100000) / 1000.0 - 50.0;
        if (scoreKind == 2 && h % 11 == 0)
            s = -INFINITY;
        if (log && !log->empty())
            log->back().score = s;
        return s;
    }
    bool isTerminal() const override { return steps >= end; }
};

inline const Instructions::Set& instrSet()
{
    static Instructions::Set set;
    static std::vector<world::InstrDef> defs;
    if (defs.empty()) {
        using world::V;
        defs.push_back(world::mk<double, double>("add", [](const V& v) { return v[0] + v[1]; }));
        defs.push_back(world::mk<double, double>("sub", [](const V& v) { return v[0] - v[1]; }));
        defs.push_back(world::mk<double, double>("mul", [](const V& v) { return v[0] * v[1] * 0.5; }));
        defs.push_back(world::mk<double>("cos", [](const V& v) { return std::cos(v[0]); }));
        defs.push_back(world::mk<double>("inc", [](const V& v) { return v[0] + 0.37; }));
        defs.push_back(world::mk<Data::Constant, double>("cst", [](const V& v) { return v[0] * 0.1 + v[1]; }));
        for (auto& d : defs)
            set.add(*d.instr);
    }
    return set;
}

inline Learn::LearningParameters randomParams(Gen& g, size_t nbActions)
{
    Learn::LearningParameters p;
    p.mutation.tpg.nbActions = nbActions;
    p.mutation.tpg.maxInitOutgoingEdges = g.in(2, nbActions);
    p.mutation.tpg.maxOutgoingEdges = p.mutation.tpg.maxInitOutgoingEdges + g.in(0, 3);
    p.mutation.tpg.nbRoots = g.in(2, 12);
    p.mutation.tpg.pEdgeDeletion = g.real(0, 1);
    p.mutation.tpg.pEdgeAddition = g.real(0, 1);
    p.mutation.tpg.pProgramMutation = g.real(0.1, 1);
    p.mutation.tpg.pEdgeDestinationChange = g.real(0, 1);
    p.mutation.tpg.pEdgeDestinationIsAction = 0; // see known_findings.txt, C14
    p.mutation.tpg.forceProgramBehaviorChangeOnMutation = g.chance(0.3);
    p.mutation.prog.maxProgramSize = g.in(3, 12);
    p.mutation.prog.pConstantMutation = 0.3;
    p.archiveSize = g.in(1, 40);
    static const double probs[] = {0, 0.05, 0.5, 1};
    p.archivingProbability = probs[g.in(0, 3)];
    p.nbIterationsPerPolicyEvaluation = g.in(1, 3);
    p.maxNbActionsPerEval = g.in(0, 5);
    p.ratioDeletedRoots = g.chance(0.2) ? 0.5 : g.real(0.05, 0.9);
    p.maxNbEvaluationPerPolicy = g.in(1, 8);
    p.nbRegisters = g.in(2, 6);
    p.nbProgramConstant = g.in(0, 3);
    p.nbThreads = 1;
    p.nbGenerations = g.in(1, 4);
    return p;
}

struct Evaluated {
    const TPG::TPGVertex* root;
    uint64_t idx, seed;
    std::vector<double> scores;
    std::shared_ptr<Learn::EvaluationResult> res;
};

// opens the protected parts, records what is evaluated
template <class Base> struct Open : Base {
    using Base::Base;
    mutable std::mutex mtx;
    mutable std::vector<Evaluated> jobs;
    std::vector<std::multimap<std::shared_ptr<Learn::EvaluationResult>, const TPG::TPGVertex*>> evaluations;
    Learn::LearningParameters& par() { return this->params; }
    auto& perRoot() { return this->resultsPerRoot; }
    auto& best() { return this->bestRoot; }
    Archive& arch() { return this->archive; }
    std::shared_ptr<Learn::EvaluationResult> evaluateJob(TPG::TPGExecutionEngine& tee, const Learn::Job& job, uint64_t gen, LearningMode mode, Learn::LearningEnvironment& le) const override
    {
        auto r = Base::evaluateJob(tee, job, gen, mode, le);
        std::lock_guard<std::mutex> l(mtx);
        jobs.push_back({job.getRoot(), job.getIdx(), job.getArchiveSeed(), {}, r});
        return r;
    }
    std::multimap<std::shared_ptr<Learn::EvaluationResult>, const TPG::TPGVertex*> evaluateAllRoots(uint64_t gen, LearningMode mode) override
    {
        auto r = Base::evaluateAllRoots(gen, mode);
        evaluations.push_back(r);
        return r;
    }
};

// a textual form of everything observable of a graph, and numbering of its vertices
inline std::string dump(const TPG::TPGGraph& g, std::map<const TPG::TPGVertex*, size_t>& num, std::map<const Program::Program*, size_t>& progs)
{
    std::ostringstream o;
    o.precision(17);
    for (auto v : g.getVertices())
        num.emplace(v, num.size());
    for (auto v : g.getVertices()) {
        auto a = dynamic_cast<const TPG::TPGAction*>(v);
        o << (a ? "A" + std::to_string(a->getActionID()) : std::string("T")) << "(";
        for (auto e : v->getOutgoingEdges()) {
            o << num.at(e->getDestination()) << "/";
            auto it = progs.emplace(&e->getProgram(), progs.size());
            o << it.first->second;
            if (it.second) {
                const auto& p = e->getProgram();
                o << "{";
                for (size_t i = 0; i < p.getNbLines(); i++) {
                    auto& l = p.getLine(i);
                    o << l.getDestinationIndex() << "=" << l.getInstructionIndex();
                    for (size_t k = 0; k < p.getEnvironment().getMaxNbOperands(); k++)
                        o << "," << l.getOperand(k).first << ":" << l.getOperand(k).second;
                    o << (p.isIntron(i) ? "!;" : ";");
                }
                for (size_t i = 0; i < p.getEnvironment().getNbConstant(); i++)
                    o << (int32_t)p.getConstantAt(i) << " ";
                o << "}";
            }
            o << " ";
        }
        o << ") ";
    }
    return o.str();
}
// keeps every program alive, so that programs can be told apart by their address
struct Keeper : Log::LALogger {
    std::set<std::shared_ptr<Program::Program>> all;
    explicit Keeper(Learn::LearningAgent& la) : LALogger(la, sink()) {}
    static std::ostream& sink()
    {
        static std::ostringstream o;
        return o;
    }
    void logHeader() override {}
    void logNewGeneration(uint64_t&) override {}
    void keep()
    {
        for (auto& e : learningAgent.getTPGGraph()->getEdges())
            all.insert(e->getProgramSharedPointer());
    }
    void logAfterPopulateTPG() override { keep(); }
    void logAfterEvaluate(std::multimap<std::shared_ptr<Learn::EvaluationResult>, const TPG::TPGVertex*>&) override {}
    void logAfterDecimate() override {}
    void logAfterValidate(std::multimap<std::shared_ptr<Learn::EvaluationResult>, const TPG::TPGVertex*>&) override {}
    void logEndOfTraining() override {}
};
inline std::string archiveDump(const Archive& a)
{
    std::ostringstream o;
    o.precision(17);
    std::map<size_t, size_t> hs;
    std::map<const void*, size_t> ps;
    for (size_t i = 0; i < a.getNbRecordings(); i++) {
        auto& r = a.at(i);
        auto h = hs.emplace(r.dataHash, hs.size());
        o << ps.emplace(r.prog, ps.size()).first->second << "@" << h.first->second;
        if (h.second)
            for (auto& d : a.getDataHandlers().at(r.dataHash))
                for (size_t k = 0; k < d.get().getAddressSpace(typeid(double)); k++)
                    o << "," << *d.get().getDataAt(typeid(double), k).template getSharedPointer<const double>();
        o << "=" << r.result << " ";
    }
    return o.str();
}
} // namespace learn
