// C08, C09: data sources against flat models.
#include "world.h"
using namespace world;

namespace {
// ------------------------------------------------------------ operand types
struct Ty {
    const std::type_info* ti;
    int elem;      // element type
    size_t a, b;   // block of a rows and b columns; 0, 0: single element
    bool two;      // declared with two dimensions
    std::function<std::vector<double>(const Data::UntypedSharedPtr&, size_t)> read;
    std::string name;
};
template <class E> constexpr int eid();
template <> constexpr int eid<double>() { return 0; }
template <> constexpr int eid<int>() { return 1; }
template <> constexpr int eid<Data::Constant>() { return 2; }
template <> constexpr int eid<float>() { return 3; }
template <> constexpr int eid<unsigned char>() { return 4; }
template <> constexpr int eid<int64_t>() { return 5; }
template <class E> double asD(const E& e)
{
    if constexpr (std::is_same_v<E, Data::Constant>)
        return e.value;
    else
        return (double)e;
}
template <class E> E fromD(double d)
{
    if constexpr (std::is_same_v<E, Data::Constant>)
        return E{(int32_t)d};
    else
        return (E)d;
}
template <class E> std::vector<double> readOne(const Data::UntypedSharedPtr& u, size_t)
{
    return {asD<E>(*u.getSharedPointer<const E>())};
}
template <class E> std::vector<double> readMany(const Data::UntypedSharedPtr& u, size_t n)
{
    std::vector<double> r;
    auto p = u.getSharedPointer<const E[]>();
    for (size_t i = 0; i < n; i++)
        r.push_back(asD<E>(p.get()[i]));
    return r;
}
template <class E, size_t N> void add1(std::vector<Ty>& v, const char* n)
{
    std::string s = std::string(n) + "[" + std::to_string(N) + "]";
    v.push_back({&typeid(E[N]), eid<E>(), 1, N, false, readMany<E>, s});
    v.push_back({&typeid(const E[N]), eid<E>(), 1, N, false, readMany<E>, "const " + s});
}
template <class E, size_t N, size_t M> void add2(std::vector<Ty>& v, const char* n)
{
    std::string s = std::string(n) + "[" + std::to_string(N) + "][" + std::to_string(M) + "]";
    v.push_back({&typeid(E[N][M]), eid<E>(), N, M, true, readMany<E>, s});
    v.push_back({&typeid(const E[N][M]), eid<E>(), N, M, true, readMany<E>, "const " + s});
}
template <class E> void addAll(std::vector<Ty>& v, const char* n)
{
    v.push_back({&typeid(E), eid<E>(), 0, 0, false, readOne<E>, n});
    add1<E, 1>(v, n);
    add1<E, 2>(v, n);
    add1<E, 3>(v, n);
    add1<E, 5>(v, n);
    add1<E, 8>(v, n);
    add1<E, 12>(v, n);
    add2<E, 1, 1>(v, n);
    add2<E, 1, 3>(v, n);
    add2<E, 2, 1>(v, n);
    add2<E, 2, 2>(v, n);
    add2<E, 2, 3>(v, n);
    add2<E, 3, 2>(v, n);
    add2<E, 3, 4>(v, n);
    add2<E, 5, 5>(v, n);
}
const std::vector<Ty>& types()
{
    static std::vector<Ty> v;
    if (v.empty()) {
        addAll<double>(v, "double");
        addAll<int>(v, "int");
        addAll<Data::Constant>(v, "Constant");
        addAll<float>(v, "float");
        addAll<unsigned char>(v, "uchar");
        addAll<int64_t>(v, "int64");
    }
    return v;
}
// ------------------------------------------------------------------ sources
// uniform view on one source of the library and its flat model
struct DS {
    int elem;
    bool two;
    size_t h, w;
    int kind; // 0 owning, 1 wrapping a vector, 2 wrapping one value
    std::string name;
    std::shared_ptr<Data::DataHandler> d;
    std::vector<double> model; // current content
    std::function<void(size_t, double)> set;
    std::function<void()> rebind;                // point to another container
    std::function<void(const DS&)> assign;       // operator=
    std::function<std::shared_ptr<Data::DataHandler>()> copy; // copy constructor
    std::shared_ptr<void> keep;
    void* typed = nullptr;
};
template <class E> void fillModel(Gen& g, std::vector<E>& v, std::vector<double>& m)
{
    for (size_t i = 0; i < v.size(); i++) {
        v[i] = fromD<E>((double)g.in(0, 90));
        m.push_back(asD<E>(v[i]));
    }
}
template <class E> DS makeDS(Gen& g, const char* en)
{
    DS s;
    s.elem = eid<E>();
    s.kind = (int)g.in(0, 8);
    s.kind = s.kind < 4 ? 0 : s.kind < 8 ? 1 : 2;
    s.two = s.kind != 2 && g.chance(0.5);
    s.h = s.two ? g.in(1, 5) : 1;
    s.w = s.kind == 2 ? 1 : g.in(1, s.two ? 6 : 13);
    size_t n = s.h * s.w;
    s.name = std::string(en) + (s.kind == 0 ? " owning " : s.kind == 1 ? " wrapping " : " pointer ") + (s.two ? std::to_string(s.h) + "x" : "") + std::to_string(s.w);
    if (s.kind == 2) {
        auto v = std::make_shared<std::vector<E>>(1);
        fillModel(g, *v, s.model);
        auto p = std::make_shared<Data::PointerWrapper<E>>(v->data());
        s.d = p;
        s.keep = v;
        auto raw = p.get();
        auto* sp = &s;
        (void)sp;
        s.copy = [raw] { return std::make_shared<Data::PointerWrapper<E>>(*raw); };
        return s;
    }
    if (s.kind == 0) {
        if (s.two) {
            auto p = std::make_shared<Data::PrimitiveTypeArray2D<E>>(s.w, s.h);
            s.d = p;
            s.typed = p.get();
        }
        else if constexpr (std::is_same_v<E, Data::Constant>) {
            auto p = std::make_shared<Data::ConstantHandler>(s.w);
            s.d = p;
            s.typed = static_cast<Data::PrimitiveTypeArray<E>*>(p.get());
        }
        else {
            auto p = std::make_shared<Data::PrimitiveTypeArray<E>>(s.w);
            s.d = p;
            s.typed = p.get();
        }
        s.model.assign(n, 0.0);
        return s;
    }
    auto v = std::make_shared<std::vector<E>>(n);
    fillModel(g, *v, s.model);
    s.keep = v;
    if (s.two) {
        auto p = std::make_shared<Data::Array2DWrapper<E>>(s.w, s.h, v.get());
        s.d = p;
        s.typed = static_cast<Data::ArrayWrapper<E>*>(p.get());
    }
    else {
        auto p = std::make_shared<Data::ArrayWrapper<E>>(n, v.get());
        s.d = p;
        s.typed = p.get();
    }
    return s;
}
// the operations that depend on the element type
template <class E> void writeDS(DS& s, size_t i, double x)
{
    E e = fromD<E>(x);
    s.model[i] = asD<E>(e);
    if (s.kind == 0) {
        if (s.two)
            static_cast<Data::PrimitiveTypeArray2D<E>*>(s.typed)->setDataAt(typeid(E), i, e);
        else
            static_cast<Data::PrimitiveTypeArray<E>*>(s.typed)->setDataAt(typeid(E), i, e);
    }
    else {
        (*std::static_pointer_cast<std::vector<E>>(s.keep))[i] = e;
        if (s.kind == 1)
            static_cast<Data::ArrayWrapper<E>*>(s.typed)->invalidateCachedHash();
    }
}
template <class E> void rebindDS(Gen& g, DS& s)
{
    auto v = std::make_shared<std::vector<E>>(s.model.size());
    if (g.chance(0.3)) {
        for (size_t i = 0; i < v->size(); i++)
            (*v)[i] = fromD<E>(s.model[i]);
    }
    else {
        s.model.clear();
        fillModel(g, *v, s.model);
    }
    if (s.kind == 2)
        static_cast<Data::PointerWrapper<E>*>(s.d.get())->setPointer(v->data());
    else {
        std::vector<E> bad(s.model.size() + 1);
        auto p = static_cast<Data::ArrayWrapper<E>*>(s.typed);
        size_t before = s.d->getHash();
        REQUIRE(cdv::throws([&] { p->setPointer(&bad); }), "a container of another size was accepted");
        REQUIRE(s.d->getHash() == before, "a refused container changed the hash");
        p->setPointer(v.get());
    }
    s.keep = v;
}
template <class E> bool assignDS(DS& s, const DS& o)
{
    if (s.kind != 0 || o.kind != 0 || s.two != o.two || s.elem != o.elem)
        return false;
    bool t;
    if (s.two)
        t = cdv::throws([&] { *static_cast<Data::PrimitiveTypeArray2D<E>*>(s.typed) = *static_cast<Data::PrimitiveTypeArray2D<E>*>(o.typed); });
    else
        t = cdv::throws([&] { *static_cast<Data::PrimitiveTypeArray<E>*>(s.typed) = *static_cast<Data::PrimitiveTypeArray<E>*>(o.typed); });
    REQUIRE(t == (s.model.size() != o.model.size()), "assignment between sizes " << s.model.size() << " and " << o.model.size());
    if (!t)
        s.model = o.model;
    return true;
}
#define BY_ELEM(e, F, ...)                                           \
    ((e) == 0   ? F<double>(__VA_ARGS__)                             \
     : (e) == 1 ? F<int>(__VA_ARGS__)                                \
     : (e) == 2 ? F<Data::Constant>(__VA_ARGS__)                     \
     : (e) == 3 ? F<float>(__VA_ARGS__)                              \
     : (e) == 4 ? F<unsigned char>(__VA_ARGS__)                      \
                : F<int64_t>(__VA_ARGS__))
DS randomDS(Gen& g, int e) { static const char* n[] = {"double", "int", "Constant", "float", "uchar", "int64"}; return BY_ELEM(e, makeDS, g, n[e]); }

size_t space(const DS& s, const Ty& t)
{
    if (t.elem != s.elem)
        return 0;
    if (t.a == 0)
        return s.h * s.w;
    if (s.kind == 2 || (t.two && !s.two))
        return 0;
    if (t.a > s.h || t.b > s.w)
        return 0;
    return (s.h - t.a + 1) * (s.w - t.b + 1);
}
std::vector<size_t> block(const DS& s, const Ty& t, size_t addr)
{
    if (t.a == 0)
        return {addr};
    size_t per = s.w - t.b + 1, y = addr / per, x = addr % per;
    std::vector<size_t> r;
    for (size_t i = 0; i < t.a; i++)
        for (size_t j = 0; j < t.b; j++)
            r.push_back((y + i) * s.w + x + j);
    return r;
}
double element(const DS& s, const Data::DataHandler& d, size_t i)
{
    for (auto& t : types())
        if (t.elem == s.elem && t.a == 0)
            return t.read(d.getDataAt(*t.ti, i), 1)[0];
    return NAN;
}
} // namespace

SCENARIO("C08", addressedBlocks, 30000, 600000)
{
    Gen& g = c.g;
    DS s = randomDS(g, (int)g.in(0, 5));
    if (s.kind == 0)
        for (size_t i = 0; i < s.model.size(); i++)
            BY_ELEM(s.elem, writeDS, s, i, (double)i);
    else
        for (size_t i = 0; i < s.model.size(); i++)
            if (g.chance(0.5))
                BY_ELEM(s.elem, writeDS, s, i, (double)(100 - i));
    // the source itself, or its snapshot
    std::shared_ptr<Data::DataHandler> d = s.d;
    bool cl = g.chance(0.3);
    if (cl) {
        if (g.chance(0.5))
            (void)d->getAddressSpace(typeid(double[2]));
        d.reset(s.d->clone());
        if (s.kind == 2)
            s.kind = 0; // the snapshot of one value is an array of one element
    }
    c.trace << s.name << (cl ? " clone" : "");
    REQUIRE(d->getLargestAddressSpace() == s.h * s.w, "largest address space");
    for (size_t q = 0, n = g.in(4, 10); q < n; q++) {
        const Ty* t = &types()[g.in(0, types().size() - 1)];
        if (g.chance(0.8))
            while (t->elem != s.elem)
                t = &types()[g.in(0, types().size() - 1)];
        size_t sp = space(s, *t);
        c.trace << " " << t->name;
        if (g.chance(0.5))
            REQUIRE(d->canHandle(*t->ti) == (sp > 0), "canHandle(" << t->name << ")");
        REQUIRE(d->getAddressSpace(*t->ti) == sp, t->name << " has " << d->getAddressSpace(*t->ti) << " addresses instead of " << sp);
        REQUIRE(d->canHandle(*t->ti) == (sp > 0), "canHandle(" << t->name << ")");
        REQUIRE(d->getAddressesAccessed(*t->ti, sp).empty() && d->getAddressesAccessed(*t->ti, sp + g.in(0, 50)).empty(), "element addresses reported for an access out of range");
        if (t->a == 0 && sp) {
            size_t bad = sp + g.in(0, 3);
            if (s.kind != 2 || true)
                if (s.kind != 2)
                    REQUIRE(cdv::throws([&] { (void)d->getDataAt(*t->ti, bad); }), "an element out of range was returned");
        }
        if (!sp)
            continue;
        uint64_t raw = g.next();
        REQUIRE(d->scaleLocation(raw, *t->ti) == raw % sp, "scaling of a raw location");
        for (size_t k = 0; k < std::min<size_t>(sp, 12); k++) {
            size_t addr = sp <= 12 ? k : g.in(0, sp - 1);
            auto b = block(s, *t, addr);
            REQUIRE(d->getAddressesAccessed(*t->ti, addr) == b, "the element addresses reported for " << t->name << " at " << addr << " are wrong");
            auto v = t->read(d->getDataAt(*t->ti, addr), b.size());
            REQUIRE(v.size() == b.size(), "operand size");
            for (size_t i = 0; i < b.size(); i++)
                REQUIRE(v[i] == s.model.at(b[i]), t->name << " at " << addr << " element " << i << " is " << v[i] << " instead of " << s.model.at(b[i]));
        }
        c.nontrivial = c.nontrivial || t->a != 0;
    }
}

SCENARIO("C09", hashFollowsData, 60000, 1500000)
{
    Gen& g = c.g;
    int e = (int)g.in(0, 5);
    std::vector<DS> v;
    for (size_t i = 0, n = g.in(1, 3); i < n; i++)
        v.push_back(randomDS(g, e));
    if (g.chance(0.6)) // several of the same shape, so that assignment is possible
        for (size_t i = 1; i < v.size(); i++) {
            Gen g2 = g;
            for (int t = 0; t < 60; t++) {
                DS x = randomDS(g, e);
                if (x.kind == v[0].kind && x.two == v[0].two && x.h == v[0].h && x.w == v[0].w) {
                    v[i] = x;
                    break;
                }
            }
            (void)g2;
        }
    for (auto& s : v)
        c.trace << s.name << "; ";
    // identity -> content -> hash, both ways
    std::map<size_t, std::map<std::vector<double>, size_t>> seen;
    std::map<size_t, std::map<size_t, std::vector<double>>> back;
    auto note = [&](size_t id, const std::vector<double>& m, size_t h, const char* who) {
        auto it = seen[id].emplace(m, h);
        REQUIRE(it.first->second == h, "the hash of " << who << " is not the one its content had before");
        if (e != 2 && e != 4) { // hashes of small types do collide
            auto jt = back[id].emplace(h, m);
        REQUIRE(jt.first->second == m, "the hash of " << who << " is that of another content");
        }
    };
    struct Shot {
        size_t of;
        std::shared_ptr<Data::DataHandler> d;
        std::vector<double> m;
    };
    std::vector<Shot> shots;
    auto verify = [&](const DS& s, const Data::DataHandler& d, const std::vector<double>& m, const char* who) {
        REQUIRE(d.getLargestAddressSpace() == m.size(), who << " has another size");
        for (size_t i = 0; i < m.size(); i++)
            REQUIRE(element(s, d, i) == m[i], "element " << i << " of " << who << " is " << element(s, d, i) << " instead of " << m[i]);
    };
    std::set<size_t> ids;
    for (auto& s : v)
        REQUIRE(ids.insert(s.d->getId()).second, "two sources have the same identity");
    for (size_t st = 0, n = g.in(2, c.thorough() ? 30 : 16); st < n; st++) {
        DS& s = v[g.in(0, v.size() - 1)];
        switch (g.in(0, 8)) {
        case 0:
        case 1:
        case 2: {
            size_t i = g.in(0, s.model.size() - 1);
            BY_ELEM(s.elem, writeDS, s, i, (double)g.in(0, 6));
            c.trace << "w";
            break;
        }
        case 3:
            s.d->resetData();
            if (s.kind == 0)
                s.model.assign(s.model.size(), 0.0);
            c.trace << "r";
            break;
        case 4:
            if (s.kind != 0)
                BY_ELEM(s.elem, rebindDS, g, s);
            c.trace << "b";
            break;
        case 5: {
            DS& o = v[g.in(0, v.size() - 1)];
            bool done = BY_ELEM(s.elem, assignDS, s, o);
            c.trace << (done ? "=" : "");
            break;
        }
        case 6: {
            Shot k{(size_t)(&s - v.data()), std::shared_ptr<Data::DataHandler>(s.d->clone()), s.model};
            REQUIRE(k.d->getId() == s.d->getId(), "a snapshot has another identity");
            REQUIRE(k.d->getHash() == s.d->getHash(), "a snapshot has another hash");
            shots.push_back(k);
            c.trace << "s";
            c.nontrivial = true;
            break;
        }
        case 7:
            if (!shots.empty()) { // a snapshot is independent: change it
                Shot& k = shots[g.in(0, shots.size() - 1)];
                k.d->resetData();
                k.m.assign(k.m.size(), 0.0);
                c.trace << "S";
            }
            break;
        default:
            (void)s.d->getHash();
            c.trace << "h";
        }
        if (g.chance(0.7))
            for (auto& x : v) {
                verify(x, *x.d, x.model, "the source");
                note(x.d->getId(), x.model, x.d->getHash(), "a source");
            }
        if (g.chance(0.4))
            for (auto& k : shots) {
                verify(v[k.of], *k.d, k.m, "a snapshot");
                note(k.d->getId(), k.m, k.d->getHash(), "a snapshot");
            }
    }
    for (auto& x : v) {
        verify(x, *x.d, x.model, "the source");
        note(x.d->getId(), x.model, x.d->getHash(), "a source");
    }
    for (auto& k : shots) {
        verify(v[k.of], *k.d, k.m, "a snapshot");
        note(k.d->getId(), k.m, k.d->getHash(), "a snapshot");
    }
}
CDV_MAIN
