// C06, C07, C10, C11, C12, C13: programs against a reference register machine.
#include "world.h"
using namespace world;

namespace {
struct Spy : Program::ProgramExecutionEngine {
    using Program::ProgramExecutionEngine::ProgramExecutionEngine;
    std::vector<double> regs() const
    {
        std::vector<double> r;
        for (size_t i = 0; i < registers.getAddressSpace(typeid(double)); i++)
            r.push_back(*registers.getDataAt(typeid(double), i).getSharedPointer<const double>());
        return r;
    }
    void at(uint64_t pc) { programCounter = pc; }
    uint64_t pc() const { return programCounter; }
    void poke(size_t i, double v) { registers.setDataAt(typeid(double), i, v); }
};
struct Snap { // everything observable of a program
    std::vector<std::vector<uint64_t>> lines;
    std::vector<bool> introns;
    std::vector<int32_t> consts;
    bool operator==(const Snap& o) const { return lines == o.lines && introns == o.introns && consts == o.consts; }
};
std::vector<uint64_t> lineOf(const World& w, const Program::Line& l)
{
    std::vector<uint64_t> v{l.getInstructionIndex(), l.getDestinationIndex()};
    for (size_t o = 0; o < w.env->getMaxNbOperands(); o++) {
        v.push_back(l.getOperand(o).first);
        v.push_back(l.getOperand(o).second);
    }
    return v;
}
Snap snap(const World& w, const Program::Program& p)
{
    Snap s;
    for (size_t i = 0; i < p.getNbLines(); i++) {
        s.lines.push_back(lineOf(w, p.getLine(i)));
        s.introns.push_back(p.isIntron(i));
    }
    for (size_t i = 0; i < w.nbConst; i++)
        s.consts.push_back((int32_t)p.getConstantAt(i));
    return s;
}
std::vector<std::vector<double>> contents(const World& w)
{
    std::vector<std::vector<double>> c;
    for (auto& s : w.srcs) {
        std::vector<double> v;
        for (size_t i = 0; i < s.content.size(); i++)
            v.push_back(s.k == 'd' ? *s.handler->getDataAt(typeid(double), i).getSharedPointer<const double>() : (double)*s.handler->getDataAt(typeid(int), i).getSharedPointer<const int>());
        c.push_back(v);
    }
    return c;
}
bool sameAll(const std::vector<double>& a, const std::vector<double>& b)
{
    if (a.size() != b.size())
        return false;
    for (size_t i = 0; i < a.size(); i++)
        if (!same(a[i], b[i]))
            return false;
    return true;
}
std::shared_ptr<Program::Program> someProgram(World& w, Gen& g, bool thorough)
{
    return randomProgram(w, g, g.chance(0.05) ? 0 : g.in(1, thorough ? 40 : 14));
}
bool validLine(const World& w, const std::vector<uint64_t>& l, std::string& why)
{
    if (l[0] >= w.defs.size()) {
        why = "instruction " + std::to_string(l[0]);
        return false;
    }
    if (l[1] >= w.nbRegs) {
        why = "destination " + std::to_string(l[1]);
        return false;
    }
    auto& d = w.defs[l[0]];
    for (size_t o = 0; o < d.ops.size(); o++) {
        if (l[2 + 2 * o] >= w.nbSrc()) {
            why = "source " + std::to_string(l[2 + 2 * o]);
            return false;
        }
        if (l[3 + 2 * o] >= w.largestSpace()) {
            why = "location " + std::to_string(l[3 + 2 * o]);
            return false;
        }
        if (!w.space(l[2 + 2 * o], d.ops[o])) {
            why = "source " + std::to_string(l[2 + 2 * o]) + " cannot provide " + d.ops[o].str();
            return false;
        }
    }
    return true;
}
// a line all of whose fields the checked setters accept
void boundedLine(const World& w, Gen& g, Program::Line& l)
{
    randomLine(w, g, l);
    for (size_t o = 0; o < w.env->getMaxNbOperands(); o++)
        l.setOperand(o, l.getOperand(o).first, l.getOperand(o).second % w.largestSpace());
}
std::string strLine(const std::vector<uint64_t>& l)
{
    std::string s;
    for (auto x : l)
        s += std::to_string(x) + ",";
    return s;
}
} // namespace

SCENARIO("C06", registerMachine, 100000, 2000000)
{
    Gen& g = c.g;
    auto w = makeWorld(g);
    std::vector<std::shared_ptr<Program::Program>> ps;
    for (size_t i = 0, n = g.in(1, 3); i < n; i++) {
        ps.push_back(someProgram(*w, g, c.thorough()));
        if (g.chance(0.6))
            ps.back()->identifyIntrons();
    }
    Spy e(*w->env);
    // a second engine bound to copies of the data sources
    std::vector<std::shared_ptr<Data::DataHandler>> copies;
    std::vector<std::reference_wrapper<const Data::DataHandler>> copyRefs;
    for (auto& h : w->handlers) {
        copies.push_back(std::shared_ptr<Data::DataHandler>(h.get().clone()));
        copyRefs.push_back(*copies.back());
    }
    auto expectedCopy = contents(*w);
    size_t steps = g.in(2, 8);
    c.trace << w->str();
    for (size_t s = 0; s < steps; s++) {
        auto& p = *ps[g.in(0, ps.size() - 1)];
        auto before = snap(*w, p);
        auto data = contents(*w);
        std::vector<size_t> hashes;
        for (auto& h : w->handlers)
            hashes.push_back(h.get().getHash());
        e.setProgram(p);
        if (g.chance(0.3))
            for (size_t i = 0; i < w->nbRegs; i++)
                e.poke(i, 17.0 + i); // leftovers of a previous execution
        auto want = reference(*w, p, true);
        uint64_t n0 = executedInstructions;
        double got = e.executeProgram();
        uint64_t ran = executedInstructions - n0, must = 0;
        for (size_t i = 0; i < p.getNbLines(); i++)
            must += !p.isIntron(i);
        c.trace << " | " << str(*w, p) << "=" << want[0];
        REQUIRE(same(got, want[0]), "the program returns " << got << " instead of " << want[0]);
        REQUIRE(sameAll(e.regs(), want), "the registers after execution differ from the reference machine");
        REQUIRE(ran == must, ran << " instructions were executed instead of " << must);
        REQUIRE(same(e.executeProgram(), got), "a second execution gives another result");
        REQUIRE(same(e.executeProgram(true), got), "ignoring exceptions gives another result");
        REQUIRE(snap(*w, p) == before, "execution modified the program");
        REQUIRE(contents(*w) == data || std::any_of(data.begin(), data.end(), [](auto& v) { return std::any_of(v.begin(), v.end(), [](double x) { return std::isnan(x); }); }), "execution modified the data sources");
        for (size_t i = 0; i < hashes.size(); i++)
            REQUIRE(w->handlers[i].get().getHash() == hashes[i], "execution changed the hash of a data source");
        // a fresh engine, and an engine bound to (old) copies of the data
        Spy f(p);
        REQUIRE(same(f.executeProgram(), want[0]), "a fresh engine gives another result");
        if (g.chance(0.3)) {
            Spy k(p, copyRefs);
            std::vector<std::vector<double>> live;
            for (size_t i = 0; i < w->srcs.size(); i++) {
                live.push_back(w->srcs[i].content);
                w->srcs[i].content = expectedCopy[i];
            }
            double wk = reference(*w, p, true)[0];
            for (size_t i = 0; i < w->srcs.size(); i++)
                w->srcs[i].content = live[i];
            REQUIRE(same(k.executeProgram(), wk), "an engine bound to copied data does not execute on these data");
            k.setDataSources(w->env->getDataSources());
            REQUIRE(same(k.executeProgram(), want[0]), "an engine does not follow the data sources it is given");
        }
        c.nontrivial = c.nontrivial || (ran > 1);
        if (g.chance(0.6)) {
            auto& x = w->srcs[g.in(0, w->srcs.size() - 1)];
            x.set(g.in(0, x.content.size() - 1), randomValue(g));
        }
        if (g.chance(0.2) && w->nbConst)
            randomConstants(*w, g, p);
    }
}

SCENARIO("C06", engineBinding, 20000, 200000)
{
    Gen& g = c.g;
    auto w = makeWorld(g);
    auto p = someProgram(*w, g, false);
    // data sources with other identities are refused
    std::vector<Src> other;
    std::vector<std::reference_wrapper<const Data::DataHandler>> refs;
    size_t n = w->srcs.size();
    size_t bad = g.in(0, n - 1);
    for (size_t i = 0; i < n; i++) {
        auto& s = w->srcs[i];
        if (i == bad) {
            other.push_back(makeSrc(g, s.k, s.two, s.wrap, s.h, s.w));
            refs.push_back(*other.back().handler);
        }
        else
            refs.push_back(*s.handler);
    }
    REQUIRE(cdv::throws([&] { Spy e(*p, refs); }), "data sources of another environment were accepted");
    refs.clear();
    for (size_t i = 0; i + 1 < n; i++)
        refs.push_back(*w->srcs[i].handler);
    REQUIRE(cdv::throws([&] { Spy e(*p, refs); }), "a missing data source was accepted");
    c.trace << w->str() << " bad=" << bad;
    c.nontrivial = true;
}

SCENARIO("C07", operandFetch, 100000, 2000000)
{
    Gen& g = c.g;
    auto w = makeWorld(g);
    // every element of every source is different
    double v = 100;
    for (auto& s : w->srcs)
        for (size_t i = 0; i < s.content.size(); i++)
            s.set(i, v++);
    auto p = someProgram(*w, g, false);
    // any raw location, through the checked setter where it accepts it
    for (size_t i = 0; i < p->getNbLines(); i++) {
        auto& l = p->getLine(i);
        for (size_t o = 0; o < w->env->getMaxNbOperands(); o++)
            if (g.chance(0.5)) {
                uint64_t loc = g.chance(0.5) ? g.next() : g.in(0, 2 * w->largestSpace());
                l.setOperand(o, l.getOperand(o).first, loc, g.chance(0.3));
            }
    }
    for (size_t i = 0; i < w->nbConst; i++)
        p->getConstantHandler().setDataAt(typeid(Data::Constant), i, Data::Constant{(int32_t)(10000 + i)});
    Spy e(*p);
    std::vector<double> regs, cst;
    for (size_t i = 0; i < w->nbRegs; i++) {
        regs.push_back(-1000.0 - i);
        e.poke(i, regs[i]);
    }
    for (size_t i = 0; i < w->nbConst; i++)
        cst.push_back(10000.0 + i);
    c.trace << w->str() << str(*w, *p);
    for (size_t i = 0; i < p->getNbLines(); i++) {
        e.at(i);
        auto& l = p->getLine(i);
        auto& d = w->defs[l.getInstructionIndex()];
        REQUIRE(&e.getCurrentLine() == &l, "the engine is not on the designated line");
        REQUIRE(&e.getCurrentInstruction() == &w->env->getInstructionSet().getInstruction(l.getInstructionIndex()), "wrong current instruction");
        std::vector<Data::UntypedSharedPtr> ops;
        e.fetchCurrentOperands(ops);
        REQUIRE(ops.size() == d.ops.size(), "fetched " << ops.size() << " operands instead of " << d.ops.size());
        for (size_t o = 0; o < d.ops.size(); o++) {
            size_t di = l.getOperand(o).first;
            Src s = di == 0 ? w->regs(regs) : (w->nbConst && di == 1) ? w->consts(cst) : w->srcs.at(di - (w->nbConst ? 2 : 1));
            size_t sp = s.space(d.ops[o]);
            REQUIRE(e.getOperandLocation(o) == l.getOperand(o).second % sp, "raw location " << l.getOperand(o).second << " resolves to " << e.getOperandLocation(o) << " with " << sp << " addressable elements");
            auto ad = s.addresses(d.ops[o], l.getOperand(o).second % sp);
            for (size_t k = 0; k < ad.size(); k++) {
                double got;
                if (d.ops[o].dims.empty())
                    got = d.ops[o].k == 'd' ? *ops[o].getSharedPointer<const double>() : d.ops[o].k == 'i' ? (double)*ops[o].getSharedPointer<const int>() : (double)(int32_t)*ops[o].getSharedPointer<const Data::Constant>();
                else
                    got = d.ops[o].k == 'd' ? ops[o].getSharedPointer<const double[]>().get()[k] : d.ops[o].k == 'i' ? (double)ops[o].getSharedPointer<const int[]>().get()[k] : (double)(int32_t)ops[o].getSharedPointer<const Data::Constant[]>().get()[k];
                REQUIRE(got == s.content.at(ad[k]), "operand " << o << " of line " << i << " element " << k << " is " << got << " instead of " << s.content.at(ad[k]));
            }
            c.nontrivial = true;
        }
    }
}

SCENARIO("C10", lineMutation, 100000, 2000000)
{
    Gen& g = c.g;
    auto w = makeWorld(g);
    Mutator::RNG rng(g.next());
    Program::Program p(*w->env);
    std::string why;
    size_t n = g.in(1, c.thorough() ? 60 : 25);
    c.trace << w->str();
    Program::Line& l = p.addNewLine();
    bool fromMutator = g.chance(0.5);
    if (fromMutator)
        Mutator::LineMutator::initRandomCorrectLine(l, rng);
    else
        boundedLine(*w, g, l);
    c.trace << " start " << strLine(lineOf(*w, l));
    REQUIRE(validLine(*w, lineOf(*w, l), why), "initialising a line gives an invalid line: " << why);
    std::vector<uint64_t> before;
    size_t changed = 0;
    for (size_t i = 0; i < n; i++) {
        before = lineOf(*w, l);
        bool init = g.chance(0.1);
        if (init)
            Mutator::LineMutator::initRandomCorrectLine(l, rng);
        else
            Mutator::LineMutator::alterCorrectLine(l, rng);
        auto now = lineOf(*w, l);
        changed += now != before;
        REQUIRE(validLine(*w, now, why), (init ? "initialising" : "altering") << " the line " << strLine(before) << " gives the invalid line " << strLine(now) << ": " << why);
    }
    // the line can be executed
    Program::ProgramExecutionEngine e(p);
    (void)e.executeProgram();
    c.nontrivial = changed > 0;
}

namespace {
struct Lim {
    Mutator::MutationParameters q;
};
Mutator::MutationParameters randomParams(Gen& g)
{
    Mutator::MutationParameters q;
    q.prog.maxProgramSize = g.in(1, 12);
    auto pr = [&] { return g.chance(0.2) ? 0.0 : g.chance(0.2) ? 1.0 : g.real(0.1, 0.9); };
    q.prog.pDelete = pr();
    q.prog.pAdd = pr();
    q.prog.pMutate = pr();
    q.prog.pSwap = pr();
    q.prog.pConstantMutation = pr();
    q.prog.minConstValue = (int32_t)g.in(0, 20) - 15;
    q.prog.maxConstValue = q.prog.minConstValue + (int32_t)g.in(0, 20);
    return q;
}
// marking recomputed on a copy
std::vector<bool> marks(const World& w, const Program::Program& p)
{
    std::vector<bool> m(p.getNbLines());
    std::set<size_t> useful{0};
    for (size_t k = p.getNbLines(); k-- > 0;) {
        auto& l = p.getLine(k);
        m[k] = !useful.count(l.getDestinationIndex());
        if (m[k])
            continue;
        useful.erase(l.getDestinationIndex());
        auto& d = w.defs.at(l.getInstructionIndex());
        for (size_t o = 0; o < d.ops.size(); o++)
            if (l.getOperand(o).first == 0) {
                Src s = w.regs({});
                for (auto a : s.addresses(d.ops[o], l.getOperand(o).second % s.space(d.ops[o])))
                    useful.insert(a);
            }
    }
    return m;
}
} // namespace

SCENARIO("C11", programMutation, 60000, 1500000)
{
    Gen& g = c.g;
    auto w = makeWorld(g);
    Mutator::RNG rng(g.next());
    Program::Program p(*w->env);
    auto q = randomParams(g);
    std::string why;
    auto valid = [&](const char* what) {
        auto s = snap(*w, p);
        for (auto& l : s.lines)
            REQUIRE(validLine(*w, l, why), what << " produced an invalid line: " << why);
        return s;
    };
    c.trace << w->str() << " max=" << q.prog.maxProgramSize;
    if (g.chance(0.7)) {
        Mutator::ProgramMutator::initRandomProgram(p, q, rng);
        auto s = valid("initialisation");
        REQUIRE(p.getNbLines() >= 1 && p.getNbLines() <= q.prog.maxProgramSize, "initialisation gives " << p.getNbLines() << " lines for a maximum of " << q.prog.maxProgramSize);
        REQUIRE(s.introns == marks(*w, p), "initialisation does not mark the introns");
        for (auto x : s.consts)
            REQUIRE(x >= q.prog.minConstValue && x <= q.prog.maxConstValue, "initialisation draws the constant " << x << " out of bounds");
    }
    else
        for (size_t i = 0, n = g.in(1, q.prog.maxProgramSize); i < n; i++)
            boundedLine(*w, g, p.addNewLine());
    p.identifyIntrons();
    for (size_t st = 0, n = g.in(1, 12); st < n; st++) {
        auto b = snap(*w, p);
        auto other = [&](const Snap& a) { REQUIRE(a.consts == b.consts, "an edit of the lines changed the constants"); };
        switch (g.in(0, 6)) {
        case 0: {
            bool r = Mutator::ProgramMutator::deleteRandomLine(p, rng);
            auto a = valid("deletion");
            other(a);
            c.trace << " del";
            REQUIRE(r == (b.lines.size() > 1), "deletion reports " << r << " on " << b.lines.size() << " lines");
            if (!r) {
                REQUIRE(a == b, "a refused deletion changed the program");
                break;
            }
            bool ok = a.lines.size() + 1 == b.lines.size();
            bool found = false;
            for (size_t k = 0; ok && k < b.lines.size() && !found; k++) {
                auto t = b.lines;
                auto ti = b.introns;
                t.erase(t.begin() + k);
                ti.erase(ti.begin() + k);
                found = t == a.lines && ti == a.introns;
            }
            REQUIRE(found, "deletion did not delete exactly one line");
            break;
        }
        case 1: {
            Mutator::ProgramMutator::insertRandomLine(p, rng);
            auto a = valid("insertion");
            other(a);
            c.trace << " ins";
            bool found = false;
            for (size_t k = 0; a.lines.size() == b.lines.size() + 1 && k < a.lines.size() && !found; k++) {
                auto t = a.lines;
                auto ti = a.introns;
                t.erase(t.begin() + k);
                ti.erase(ti.begin() + k);
                found = t == b.lines && ti == b.introns;
            }
            REQUIRE(found, "insertion did not insert exactly one line");
            break;
        }
        case 2: {
            bool r = Mutator::ProgramMutator::swapRandomLines(p, rng);
            auto a = valid("swap");
            other(a);
            c.trace << " swap";
            REQUIRE(r == (b.lines.size() > 1), "swap reports " << r << " on " << b.lines.size() << " lines");
            if (!r) {
                REQUIRE(a == b, "a refused swap changed the program");
                break;
            }
            bool found = false;
            for (size_t i = 0; i < b.lines.size() && !found; i++)
                for (size_t j = i + 1; j < b.lines.size() && !found; j++) {
                    auto t = b.lines;
                    std::swap(t[i], t[j]);
                    found = t == a.lines;
                }
            REQUIRE(found, "swap did not exchange two distinct lines");
            break;
        }
        case 3: {
            bool r = Mutator::ProgramMutator::alterRandomLine(p, rng);
            auto a = valid("alteration");
            other(a);
            c.trace << " alt";
            REQUIRE(r == (b.lines.size() > 0), "alteration reports " << r);
            size_t diff = 0;
            REQUIRE(a.lines.size() == b.lines.size(), "alteration changed the number of lines");
            for (size_t i = 0; i < a.lines.size(); i++)
                diff += a.lines[i] != b.lines[i];
            REQUIRE(diff <= 1, "alteration changed " << diff << " lines");
            break;
        }
        case 4: {
            if (!w->nbConst)
                break;
            bool r = Mutator::ProgramMutator::alterRandomConstant(p, q, rng);
            auto a = valid("constant alteration");
            c.trace << " cst";
            REQUIRE(r && a.lines == b.lines && a.introns == b.introns, "redrawing a constant changed the lines");
            size_t diff = 0;
            for (size_t i = 0; i < a.consts.size(); i++)
                if (a.consts[i] != b.consts[i]) {
                    diff++;
                    REQUIRE(a.consts[i] >= q.prog.minConstValue && a.consts[i] <= q.prog.maxConstValue, "the redrawn constant " << a.consts[i] << " is out of bounds");
                }
            REQUIRE(diff <= 1, diff << " constants were redrawn");
            break;
        }
        default: {
            if (b.lines.size() > q.prog.maxProgramSize)
                break;
            p.identifyIntrons();
            b = snap(*w, p);
            bool r = Mutator::ProgramMutator::mutateProgram(p, q, rng);
            auto a = valid("mutation");
            c.trace << " mut" << r;
            REQUIRE(a.lines.size() >= 1 && a.lines.size() <= q.prog.maxProgramSize, "mutation gives " << a.lines.size() << " lines for a maximum of " << q.prog.maxProgramSize);
            REQUIRE(a.lines.size() + 1 >= b.lines.size() && a.lines.size() <= b.lines.size() + 1, "one mutation changed the number of lines from " << b.lines.size() << " to " << a.lines.size());
            REQUIRE(r || a == b, "mutation reports no change but changed the program");
            REQUIRE(a.introns == marks(*w, p), "the intron marking is not up to date after mutation");
            for (size_t i = 0; i < a.consts.size(); i++)
                REQUIRE(a.consts[i] == b.consts[i] || (a.consts[i] >= q.prog.minConstValue && a.consts[i] <= q.prog.maxConstValue), "a constant was redrawn out of bounds");
            bool never = q.prog.pMutate == 0 && q.prog.pSwap == 0 && (q.prog.pDelete == 0 || b.lines.size() == 1) && (q.prog.pAdd == 0 || (b.lines.size() == q.prog.maxProgramSize && q.prog.pDelete == 0)) && (q.prog.pConstantMutation == 0 || w->nbConst == 0);
            bool always = q.prog.pMutate == 1.0 || q.prog.pSwap == 1.0 || (q.prog.pDelete == 1.0 && b.lines.size() > 1) || (q.prog.pAdd == 1.0 && b.lines.size() < q.prog.maxProgramSize) || (q.prog.pConstantMutation == 1.0 && w->nbConst > 0);
            REQUIRE(!never || !r, "mutation reports a change although none is possible");
            REQUIRE(!always || r, "mutation reports no change although one is certain");
            c.nontrivial = true;
            break;
        }
        }
    }
}
// the program edits the mutator relies on
SCENARIO("C11", programEdits, 60000, 1000000)
{
    Gen& g = c.g;
    auto w = makeWorld(g);
    auto p = someProgram(*w, g, false);
    p->identifyIntrons();
    c.trace << w->str() << str(*w, *p);
    for (size_t st = 0, n = g.in(1, 10); st < n; st++) {
        auto b = snap(*w, *p), e = b;
        size_t N = b.lines.size();
        switch (g.in(0, 4)) {
        case 0: {
            size_t k = g.in(0, N + 1);
            bool t = cdv::throws([&] { p->addNewLine(k); });
            REQUIRE(t == (k > N), "inserting at " << k << " of " << N);
            if (!t) {
                e.lines.insert(e.lines.begin() + k, std::vector<uint64_t>(2 + 2 * w->env->getMaxNbOperands(), 0));
                e.introns.insert(e.introns.begin() + k, false);
            }
            REQUIRE(snap(*w, *p) == e, "inserting a line at " << k << " does more or less than that");
            if (!t) {
                randomLine(*w, g, p->getLine(k));
                p->identifyIntrons();
            }
            break;
        }
        case 1: {
            size_t k = g.in(0, N);
            bool t = cdv::throws([&] { p->removeLine(k); });
            REQUIRE(t == (k >= N), "removing line " << k << " of " << N);
            if (!t) {
                e.lines.erase(e.lines.begin() + k);
                e.introns.erase(e.introns.begin() + k);
            }
            REQUIRE(snap(*w, *p) == e, "removing line " << k << " does more or less than that");
            break;
        }
        case 2: {
            size_t i = g.in(0, N), j = g.in(0, N);
            bool t = cdv::throws([&] { p->swapLines(i, j); });
            REQUIRE(t == (i >= N || j >= N), "swapping " << i << " and " << j << " of " << N);
            if (!t) {
                std::swap(e.lines[i], e.lines[j]);
                bool x = e.introns[i];
                e.introns[i] = e.introns[j];
                e.introns[j] = x;
            }
            REQUIRE(snap(*w, *p) == e, "swapping lines does more or less than that");
            break;
        }
        case 3: {
            p->addNewLine();
            e.lines.push_back(std::vector<uint64_t>(2 + 2 * w->env->getMaxNbOperands(), 0));
            e.introns.push_back(false);
            REQUIRE(snap(*w, *p) == e, "appending a line does more or less than that");
            randomLine(*w, g, p->getLine(N));
            break;
        }
        case 4: {
            Program::Program q(*p);
            REQUIRE(snap(*w, q) == b, "the copy of a program differs from it");
            if (N) {
                randomLine(*w, g, q.getLine(g.in(0, N - 1)));
                if (w->nbConst)
                    randomConstants(*w, g, q);
            }
            REQUIRE(snap(*w, *p) == b, "changing the copy of a program changed the original");
            break;
        }
        }
        REQUIRE(cdv::throws([&] { p->getLine(p->getNbLines()); }) && cdv::throws([&] { p->isIntron(p->getNbLines()); }), "access past the last line must be refused");
        c.nontrivial = true;
    }
}

SCENARIO("C12", intronsAreHarmless, 100000, 2000000)
{
    Gen& g = c.g;
    auto w = makeWorld(g);
    auto p = someProgram(*w, g, c.thorough());
    if (g.chance(0.3))
        p->identifyIntrons();
    for (size_t i = 0, n = g.in(0, 2); i < n && p->getNbLines(); i++) // stale marks
        randomLine(*w, g, p->getLine(g.in(0, p->getNbLines() - 1)));
    auto b = snap(*w, *p);
    uint64_t n = p->identifyIntrons();
    auto a = snap(*w, *p);
    c.trace << w->str() << str(*w, *p);
    REQUIRE(a.lines == b.lines && a.consts == b.consts, "identifying introns changed the program");
    auto m = marks(*w, *p);
    REQUIRE(a.introns == m, "the marked lines are not exactly those that cannot reach the result");
    REQUIRE(n == (uint64_t)std::count(m.begin(), m.end(), true), "the reported number of introns is " << n);
    Program::ProgramExecutionEngine e(*p);
    std::vector<std::vector<std::vector<double>>> inputs;
    std::vector<double> r1;
    for (size_t k = 0; k < 3; k++) {
        fillSources(*w, g);
        double full = reference(*w, *p, false)[0];
        REQUIRE(same(e.executeProgram(), full), "skipping introns changes the result to " << e.executeProgram() << " instead of " << full);
        Program::Program q(*p);
        q.clearIntrons();
        Program::ProgramExecutionEngine f(q);
        REQUIRE(same(f.executeProgram(), full), "removing introns changes the result");
        std::vector<std::vector<uint64_t>> keep;
        for (size_t i = 0; i < a.lines.size(); i++)
            if (!a.introns[i])
                keep.push_back(a.lines[i]);
        REQUIRE(snap(*w, q).lines == keep, "removing introns does not keep the other lines in order");
        REQUIRE(snap(*w, q).consts == a.consts, "removing introns changed the constants");
    }
    c.nontrivial = n > 0 && n < p->getNbLines();
}

SCENARIO("C13", identicalBehaviour, 100000, 2000000)
{
    Gen& g = c.g;
    auto w = makeWorld(g);
    auto p = someProgram(*w, g, false);
    p->identifyIntrons();
    REQUIRE(p->hasIdenticalBehavior(*p), "a program is not identical to itself");
    auto q = std::make_shared<Program::Program>(*p);
    REQUIRE(p->hasIdenticalBehavior(*q) && q->hasIdenticalBehavior(*p), "a program is not identical to its copy");
    // changes of the introns only keep the declaration
    for (size_t i = 0; i < q->getNbLines(); i++)
        if (q->isIntron(i) && g.chance(0.4)) {
            Program::Line copy(q->getLine(i));
            uint64_t d = copy.getDestinationIndex();
            randomLine(*w, g, q->getLine(i));
            q->getLine(i).setDestinationIndex(d);
        }
    {
        auto before = marks(*w, *p);
        auto m = marks(*w, *q);
        if (before == m) {
            q->identifyIntrons();
            REQUIRE(p->hasIdenticalBehavior(*q) && q->hasIdenticalBehavior(*p), "changing only introns changes the declaration");
        }
        Program::Program r(*p);
        r.clearIntrons();
        REQUIRE(p->hasIdenticalBehavior(r) && r.hasIdenticalBehavior(*p), "removing introns changes the declaration");
    }
    // small changes: whatever is declared, identical programs must agree on all data
    for (size_t t = 0, n = g.in(1, 4); t < n; t++) {
        auto r = std::make_shared<Program::Program>(*p);
        size_t N = r->getNbLines();
        size_t what = g.in(0, 5);
        if (what == 0 && w->nbConst) {
            size_t i = g.in(0, w->nbConst - 1);
            r->getConstantHandler().setDataAt(typeid(Data::Constant), i, Data::Constant{(int32_t)g.in(0, 20) - 10});
        }
        else if (what == 1 && N)
            randomLine(*w, g, r->getLine(g.in(0, N - 1)));
        else if (what == 2 && N > 1)
            r->swapLines(g.in(0, N - 1), g.in(0, N - 1));
        else if (what == 3 && N)
            r->removeLine(g.in(0, N - 1));
        else if (what == 4)
            randomLine(*w, g, r->addNewLine(g.in(0, N)));
        else if (N) {
            auto& l = r->getLine(g.in(0, N - 1));
            size_t o = g.in(0, w->env->getMaxNbOperands() - 1);
            l.setOperand(o, l.getOperand(o).first, g.in(0, w->largestSpace() - 1), false);
        }
        r->identifyIntrons();
        bool same1 = p->hasIdenticalBehavior(*r), same2 = r->hasIdenticalBehavior(*p);
        c.trace << w->str() << str(*w, *p) << " vs " << str(*w, *r) << (same1 ? "same" : "different");
        REQUIRE(same1 == same2, "the declaration is not symmetric");
        if (!same1)
            continue;
        Program::ProgramExecutionEngine e1(*p), e2(*r);
        for (size_t k = 0; k < 4; k++) {
            fillSources(*w, g);
            double x = e1.executeProgram(), y = e2.executeProgram();
            REQUIRE(same(x, y), "two programs declared identical return " << x << " and " << y);
        }
        c.nontrivial = N > 0;
    }
}
CDV_MAIN
