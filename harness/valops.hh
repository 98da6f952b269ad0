// Operations on values, for the registry driver: every value lives in a slot
// (a heap block of exactly the size of its type).  What a value contains is
// observed by walking the memory with the type definitions only, never through
// the functions under test.
#ifndef VERIF_VALOPS_HH
#define VERIF_VALOPS_HH
#include "json.hh"
#include "common.hh"
#include <typelib/value.hh>
#include <typelib/value_ops.hh>
#include <typelib/value_cast.hh>
#include <typelib/memory_layout.hh>
#include <typelib/endianness.hh>
#include <typelib/csvoutput.hh>
#include <typelib/typedisplay.hh>
#include <functional>
#include <new>
#include <cstring>
#include <sys/resource.h>
#include <signal.h>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unistd.h>

// ---------------------------------------------------------------- accounting
// Blocks allocated while the library runs and not released yet
namespace blkacct {
    static const size_t N = 1 << 18;
    static void* table[N];
    static int on = 0;
    static long live = 0;
    static size_t slot(void* p) { size_t h = ((size_t)p >> 4) * 2654435761u; return (h >> 7) & (N - 1); }
    static void add(void* p) {
        size_t i = slot(p); while (table[i] && table[i] != (void*)1) i = (i + 1) & (N - 1);
        table[i] = p; ++live;
    }
    static void del(void* p) {
        size_t i = slot(p);
        for (; table[i]; i = (i + 1) & (N - 1)) if (table[i] == p) { table[i] = (void*)1; --live; break; }
        // tombstones at the end of a run are given back
        if (!table[(i + 1) & (N - 1)]) while (table[i] == (void*)1) { table[i] = 0; i = (i - 1) & (N - 1); }
    }
    struct On { On() { ++on; } ~On() { --on; } };
    struct Off { int s; Off() : s(on) { on = 0; } ~Off() { on = s; } };
}
__attribute__((visibility("default"))) void* operator new(size_t n) {
    void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc();
    if (blkacct::on) blkacct::add(p); return p;
}
__attribute__((visibility("default"))) void operator delete(void* p) noexcept { if (!p) return; if (blkacct::live) blkacct::del(p); free(p); }
__attribute__((visibility("default"))) void operator delete(void* p, size_t) noexcept { if (!p) return; if (blkacct::live) blkacct::del(p); free(p); }
__attribute__((visibility("default"))) void* operator new[](size_t n) { return operator new(n); }
__attribute__((visibility("default"))) void operator delete[](void* p) noexcept { operator delete(p); }
__attribute__((visibility("default"))) void operator delete[](void* p, size_t) noexcept { operator delete(p); }

struct ValueError : public std::runtime_error { ValueError() : std::runtime_error("value") {} };
static void counted(std::function<void()> const& f) {
    bool failed = false;
    {
        blkacct::On on;
        try { f(); } catch (NoRef&) { failed = true; } catch (std::exception&) { failed = true; } catch (char const*) { failed = true; }
    }
    if (failed) throw ValueError();
}

namespace val {
using namespace Typelib;
using std::string; using std::vector; using std::pair;

struct Slot { bool used; int r; Type const* type; uint8_t* data; bool ptr, opq; Slot() : used(false), r(0), type(0), data(0), ptr(false), opq(false) {} };
static const int NV = 4;
static Slot slots[NV + 1];
static vector<vector<uint8_t> > dumps;

// types that can be the type of a value of the driver
static bool usable(Type const& t, int depth = 0) {
    if (depth > 20) return false;
    switch (t.getCategory()) {
        case Type::NullType: return false;
        case Type::Enum: return t.getSize() == 4;
        case Type::Array: return t.getSize() <= 400 && usable(static_cast<Array const&>(t).getIndirection(), depth + 1);
        case Type::Container: {
            Container const& c = static_cast<Container const&>(t);
            return c.getSize() == (c.kind() == "/std/vector" ? sizeof(vector<int>) : sizeof(string))
                && c.getIndirection().getSize() > 0 && (c.kind() == "/std/vector" || c.getIndirection().getSize() == 1) && usable(c.getIndirection(), depth + 1);
        }
        case Type::Compound: {
            size_t end = 0;
            for (auto const& f : static_cast<Compound const&>(t).getFields()) {
                if (f.getOffset() < end || !usable(f.getType(), depth + 1)) return false;
                end = f.getOffset() + f.getType().getSize();
            }
            return end <= t.getSize() && t.getSize() <= 400;
        }
        default: return t.getSize() <= 400;
    }
}
static vector<uint8_t>& vec(uint8_t* p) { return *reinterpret_cast<vector<uint8_t>*>(p); }
static string& str(uint8_t* p) { return *reinterpret_cast<string*>(p); }
static bool isString(Container const& c) { return c.kind() == "/std/string"; }
static size_t count(Container const& c, uint8_t* p) { return isString(c) ? str(p).size() : vec(p).size() / c.getIndirection().getSize(); }
static uint8_t* elem(Container const& c, uint8_t* p, size_t i) {
    return isString(c) ? reinterpret_cast<uint8_t*>(&str(p)[0]) + i : &vec(p)[i * c.getIndirection().getSize()];
}
// containers at their offsets in an object
static void containers(Type const& t, size_t off, vector<pair<size_t, Container const*> >& out) {
    if (Container const* c = dynamic_cast<Container const*>(&t)) out.push_back(std::make_pair(off, c));
    else if (Array const* a = dynamic_cast<Array const*>(&t)) { for (size_t i = 0; i < a->getDimension(); ++i) containers(a->getIndirection(), off + i * a->getIndirection().getSize(), out); }
    else if (Compound const* c = dynamic_cast<Compound const*>(&t)) { for (auto const& f : c->getFields()) containers(f.getType(), off + f.getOffset(), out); }
}
static J obs(Type const& t, uint8_t* p) {
    vector<pair<size_t, Container const*> > cs; containers(t, 0, cs);
    vector<int> b(t.getSize());
    for (size_t i = 0; i < b.size(); ++i) b[i] = -1;
    vector<bool> hole(t.getSize());
    for (auto const& c : cs) for (size_t i = 0; i < c.second->getSize(); ++i) hole[c.first + i] = true;
    for (size_t i = 0; i < b.size(); ++i) if (!hole[i]) b[i] = p[i];
    J cj = J::arr();
    for (auto const& c : cs) {
        J e = J::arr();
        uint8_t* q = p + c.first;
        if (!isString(*c.second) && vec(q).size() % c.second->getIndirection().getSize()) e.push("!odd");
        size_t n = count(*c.second, q);
        for (size_t i = 0; i < n; ++i) e.push(obs(c.second->getIndirection(), elem(*c.second, q, i)));
        cj.push(J::arr({J((long)c.first), e}));
    }
    return J::obj().set("b", J::of(b)).set("c", cj);
}
// heap blocks the containers of an object should own
static long blocks(Type const& t, uint8_t* p) {
    vector<pair<size_t, Container const*> > cs; containers(t, 0, cs);
    long n = 0;
    for (auto const& c : cs) {
        uint8_t* q = p + c.first;
        if (isString(*c.second)) { if (str(q).capacity() > 15) ++n; }
        else {
            if (vec(q).capacity()) ++n;
            for (size_t i = 0; i < count(*c.second, q); ++i) n += blocks(c.second->getIndirection(), elem(*c.second, q, i));
        }
    }
    return n;
}
// releases what the containers own, without the library
static void rawDestroy(Type const& t, uint8_t* p) {
    vector<pair<size_t, Container const*> > cs; containers(t, 0, cs);
    for (auto const& c : cs) {
        uint8_t* q = p + c.first;
        if (isString(*c.second)) str(q).~string();
        else {
            for (size_t i = 0; i < count(*c.second, q); ++i) rawDestroy(c.second->getIndirection(), elem(*c.second, q, i));
            vec(q).~vector<uint8_t>();
        }
    }
}
// --------------------------------------------------------------- locations
struct Loc {
    int v; vector<pair<int, int> > p; int o; Type const* t; uint8_t* at;
    J json(string const& tn) const {
        J pj = J::arr(); for (auto const& x : p) pj.push(J::arr({J(x.first), J(x.second)}));
        return J::obj().set("v", v).set("p", pj).set("o", o).set("t", tn);
    }
};
static void enumerate(Loc l, vector<Loc>& out) {
    if (out.size() > 4000) return;
    out.push_back(l);
    if (Compound const* c = dynamic_cast<Compound const*>(l.t))
        for (auto const& f : c->getFields()) { Loc n(l); n.o += f.getOffset(); n.at += f.getOffset(); n.t = &f.getType(); enumerate(n, out); }
    else if (Array const* a = dynamic_cast<Array const*>(l.t))
        for (size_t i = 0; i < a->getDimension() && i < 5; ++i) { Loc n(l); size_t d = i * a->getIndirection().getSize(); n.o += d; n.at += d; n.t = &a->getIndirection(); enumerate(n, out); }
    else if (Container const* c = dynamic_cast<Container const*>(l.t))
        for (size_t i = 0; i < count(*c, l.at) && i < 5; ++i) { Loc n(l); n.p.push_back(std::make_pair(l.o, (int)i)); n.o = 0; n.t = &c->getIndirection(); n.at = elem(*c, l.at, i); enumerate(n, out); }
}
// types the text output has a representation of
static bool textual(Type const& t) {
    if (Compound const* x = dynamic_cast<Compound const*>(&t)) { for (auto const& f : x->getFields()) if (!textual(f.getType())) return false; return true; }
    if (Array const* x = dynamic_cast<Array const*>(&t)) return textual(x->getIndirection());
    return t.getCategory() != Type::Pointer && t.getCategory() != Type::Container;
}
static bool wanted(string const& w, Loc const& l, Type const* like) {
    Type::Category c = l.t->getCategory();
    if (w == "container") return c == Type::Container;
    if (w == "vector") return c == Type::Container && !isString(static_cast<Container const&>(*l.t));
    if (w == "string") return c == Type::Container && isString(static_cast<Container const&>(*l.t));
    if (w == "compound") return c == Type::Compound;
    if (w == "array") return c == Type::Array;
    if (w == "leaf") return c == Type::Numeric || c == Type::Enum;
    if (w == "plain") return textual(*l.t);
    if (w == "root") return l.p.empty() && l.t == slots[l.v].type;
    if (w == "like") return l.t == like;
    if (w == "same") return like && l.t->isSame(*like);
    if (w == "cast") return like && (l.t->canCastTo(*like) || like->canCastTo(*l.t));
    if (w == "elem") return like && l.t == &static_cast<Container const*>(like)->getIndirection();
    return true;
}
// {v, want, n}: the n-th of the wanted locations (v = 0: of all values);
// {v, p, o, t}: that location
static Loc locate(J const& a, Type const* like = 0, uint8_t const* other = 0) {
    vector<Loc> all, sel;
    int lo = a["v"].num(), hi = lo;
    if (lo == 0) { lo = 1; hi = NV; }
    for (int v = lo; v <= hi; ++v) {
        if (v > NV || !slots[v].used) continue;
        Loc l; l.v = v; l.o = 0; l.t = slots[v].type; l.at = slots[v].data; enumerate(l, all);
    }
    if (a.has("p")) {
        for (auto const& l : all) {
            if (l.o != a["o"].num() || l.t->getName() != a["t"].str() || l.p.size() != a["p"].size()) continue;
            bool ok = true;
            for (size_t i = 0; i < l.p.size(); ++i) if (l.p[i].first != a["p"].at(i).at(0).num() || l.p[i].second != a["p"].at(i).at(1).num()) ok = false;
            if (ok) return l;
        }
        throw NoRef();
    }
    for (auto const& l : all) if (wanted(a["want"].str(), l, like)) sel.push_back(l);
    if (sel.empty()) throw NoRef();
    // mostly something else than the other operand
    if (other && a["n"].num() % 8) {
        vector<Loc> rest;
        for (auto const& l : sel) if (l.at != other) rest.push_back(l);
        if (!rest.empty()) sel.swap(rest);
    }
    return sel[a["n"].num() % sel.size()];
}
static J addr(Loc const& l) { return l.json(l.t->getName()); }
// what is not asked for is left to the default arguments
static MemoryLayout layout(Type const& t, J const& c) {
    bool p = c["ptr"].boolean(), o = c["opq"].boolean(), u = c["unmerged"].boolean();
    MemoryLayout l = u ? layout_of(t, p, o, false) : o ? layout_of(t, p, o) : p ? layout_of(t, p) : layout_of(t);
    l.validate();
    { blkacct::Off off; std::ostringstream os; l.display(os); }
    return l;
}

// ------------------------------------------------------------------ helpers
static J bytes(vector<uint8_t> const& v) { J j = J::arr(); for (uint8_t b : v) j.push((int)b); return j; }
struct Visit : public ValueVisitor {
    J out; uint8_t* base; size_t size;
    Visit() : ValueVisitor(true), out(J::arr()) {}
    int rel(void const* p) { if (!base) return -1; uint8_t const* q = (uint8_t const*)p; return q >= base && q < base + size ? int(q - base) : -1; }
    template<typename T> bool leaf(const char* k, T& v) {
        blkacct::Off off;
        J b = J::arr(); for (size_t i = 0; i < sizeof(T); ++i) b.push((int)reinterpret_cast<uint8_t*>(&v)[i]);
        out.push(J::arr({J(k), J(rel(&v)), b})); return true;
    }
    bool visit_(int8_t& v) { return leaf("sint1", v); }
    bool visit_(uint8_t& v) { return leaf("uint1", v); }
    bool visit_(int16_t& v) { return leaf("sint2", v); }
    bool visit_(uint16_t& v) { return leaf("uint2", v); }
    bool visit_(int32_t& v) { return leaf("sint4", v); }
    bool visit_(uint32_t& v) { return leaf("uint4", v); }
    bool visit_(int64_t& v) { return leaf("sint8", v); }
    bool visit_(uint64_t& v) { return leaf("uint8", v); }
    bool visit_(float& v) { return leaf("float4", v); }
    bool visit_(double& v) { return leaf("float8", v); }
    bool visit_(Value const& v, OpaqueType const& t) { blkacct::Off off; out.push(J::arr({J("opaque " + t.getName()), J(rel(v.getData())), J::arr()})); return true; }
    bool visit_(Value const& v, Pointer const& t) { blkacct::Off off; out.push(J::arr({J("pointer " + t.getName()), J(rel(v.getData())), J::arr()})); return true; }
    bool visit_(Enum::integral_type& v, Enum const& e) { leaf(e.getName().c_str(), v); return true; }
    bool visit_(Value const& v, Array const& a) { { blkacct::Off off; out.push(J::arr({J("array " + a.getName()), J(rel(v.getData())), J::arr()})); } return ValueVisitor::visit_(v, a); }
    bool visit_(Value const& v, Container const& c) { { blkacct::Off off; out.push(J::arr({J("container " + c.getName()), J(rel(v.getData())), J::arr()})); }
        uint8_t* b = base; base = 0; bool r = ValueVisitor::visit_(v, c); base = b; return r; }    // (short strings are in the object)
    bool visit_(Value const& v, Compound const& c) { { blkacct::Off off; out.push(J::arr({J("compound " + c.getName()), J(rel(v.getData())), J::arr()})); } return ValueVisitor::visit_(v, c); }
    bool visit_(Value const& v, Compound const& c, Field const& f) { { blkacct::Off off; out.push(J::arr({J("field " + f.getName() + " " + v.getType().getName()), J(rel(v.getData())), J::arr()})); } return ValueVisitor::visit_(v, c, f); }
};
// callbacks of a visitor of types, up to the stop-th
struct TypeVisit : public TypeVisitor {
    J out; long stop;
    TypeVisit(long n) : out(J::arr()), stop(n) {}
    bool note(string const& s) { blkacct::Off off; out.push(s); return (long)out.a.size() != stop; }
    bool visit_(OpaqueType const& t) { return note("opaque " + t.getName()) && TypeVisitor::visit_(t); }
    bool visit_(Numeric const& t) { return note("numeric " + t.getName()) && TypeVisitor::visit_(t); }
    bool visit_(Enum const& t) { return note("enum " + t.getName()) && TypeVisitor::visit_(t); }
    bool visit_(Pointer const& t) { return note("pointer " + t.getName()) && TypeVisitor::visit_(t); }
    bool visit_(Array const& t) { return note("array " + t.getName()) && TypeVisitor::visit_(t); }
    bool visit_(Container const& t) { return note("container " + t.getName()) && TypeVisitor::visit_(t); }
    bool visit_(Compound const& t) { return note("compound " + t.getName()) && TypeVisitor::visit_(t); }
    bool visit_(Compound const& t, Field const& f) { return note("field " + f.getName()) && TypeVisitor::visit_(t, f); }
};
// the first byte of data, or the size of the first container
static long keyOf(Type const& t, uint8_t* p, bool& found) {
    if (Compound const* c = dynamic_cast<Compound const*>(&t)) { for (auto const& f : c->getFields()) { long k = keyOf(f.getType(), p + f.getOffset(), found); if (found) return k; } return 0; }
    if (Array const* a = dynamic_cast<Array const*>(&t)) { for (size_t i = 0; i < a->getDimension(); ++i) { long k = keyOf(a->getIndirection(), p + i * a->getIndirection().getSize(), found); if (found) return k; } return 0; }
    if (Container const* c = dynamic_cast<Container const*>(&t)) { found = true; return count(*c, p); }
    if (t.getCategory() == Type::Opaque || t.getSize() == 0) return 0;
    found = true; return *p;
}
struct FirstOdd { int mod, rem; FirstOdd(int m, int r) : mod(m), rem(r) {} bool operator()(Value const& v) const { bool f = false; return keyOf(v.getType(), reinterpret_cast<uint8_t*>(v.getData()), f) % mod == rem; } };
// destinations and sources with a limited capacity
struct LimitedOut : public OutputStream {
    vector<uint8_t> got; size_t limit; LimitedOut(size_t l) : limit(l) { got.reserve(1 << 16); }
    void write(uint8_t const* d, size_t n) { blkacct::Off off; if (got.size() + n > limit) throw std::runtime_error("full"); got.insert(got.end(), d, d + n); }
};
struct BufIn : public InputStream {
    vector<uint8_t> const& b; size_t pos; BufIn(vector<uint8_t> const& b) : b(b), pos(0) {}
    void read(uint8_t* d, size_t n) { if (n > b.size() - pos) throw std::runtime_error("short"); if (n) memcpy(d, &b[pos], n); pos += n; }
};
// Element counts of an input that would make a test allocate too much are
// replaced by enormous ones
static bool fixCounts(Type const& t, vector<uint8_t>& in, size_t& pos, J const& c, bool cut) {
    struct It { char k; size_t n; Container const* c; };
    vector<It> its;
    struct W { static void walk(Type const& t, vector<It>& its) {
        if (Compound const* c = dynamic_cast<Compound const*>(&t)) {
            size_t end = 0;
            for (auto const& f : c->getFields()) { It p = { 's', f.getOffset() - end, 0 }; its.push_back(p); walk(f.getType(), its); end = f.getOffset() + f.getType().getSize(); }
            It p = { 's', c->getSize() - end, 0 }; its.push_back(p);
        }
        else if (Array const* a = dynamic_cast<Array const*>(&t)) { for (size_t i = 0; i < a->getDimension(); ++i) walk(a->getIndirection(), its); It m = { 'a', 0, 0 }; its.push_back(m); }
        else if (Container const* c = dynamic_cast<Container const*>(&t)) { It m = { 'c', 0, c }; its.push_back(m); }
        else { It m = { t.getCategory() == Type::Opaque ? 's' : 'd', t.getSize(), 0 }; its.push_back(m); }
    } };
    W::walk(t, its);
    size_t last = its.size();
    if (cut) while (last > 0 && its[last - 1].k == 's') --last;
    bool merged = !c["unmerged"].boolean();
    for (size_t i = 0; i < last; ++i) {
        if (its[i].k == 'd' || (its[i].k == 's' && merged)) { if (pos + its[i].n > in.size()) return false; pos += its[i].n; }
        else if (its[i].k == 'c') {
            if (pos + 8 > in.size()) return false;
            uint64_t n = 0; for (int k = 7; k >= 0; --k) n = n * 256 + in[pos + k];
            if (n > 300) { for (int k = 0; k < 8; ++k) in[pos + k] = k == 0 ? n : 255; return false; }
            pos += 8;
            for (size_t k = 0; k < n; ++k) if (!fixCounts(its[i].c->getIndirection(), in, pos, c, false)) return false;
        }
    }
    return true;
}
static void doLoad(Loc const& l, vector<uint8_t> const& in, J const& c) {
    string how = c["how"].str();
    bool lay = c["lay"].boolean();
    Value v(l.at, *l.t);
    // an exact copy, so that reading past the end is seen
    uint8_t* raw = (uint8_t*)malloc(in.size()); if (!in.empty()) memcpy(raw, &in[0], in.size());
    bool failed = false;
    try {
        counted([&] {
            if (how == "vec") {
                vector<uint8_t> exact(in);
                if (lay) { if (c["rawp"].boolean()) load(l.at, *l.t, exact, layout(*l.t, c)); else load(v, exact, layout(*l.t, c)); } else load(v, exact);
            }
            else if (how == "bytes") {
                if (lay) { if (c["rawp"].boolean()) load(l.at, *l.t, raw, in.size(), layout(*l.t, c)); else load(v, raw, in.size(), layout(*l.t, c)); } else load(v, raw, in.size());
            }
            else {
                BufIn s(in);
                if (lay) { if (c["rawp"].boolean()) load(l.at, *l.t, s, layout(*l.t, c)); else load(v, s, layout(*l.t, c)); } else load(v, s);
            }
        });
    } catch (ValueError&) { failed = true; }
    free(raw);
    if (failed) throw ValueError();
}
static vector<uint8_t> slurp(string const& path) {
    std::ifstream f(path.c_str(), std::ios::binary); return vector<uint8_t>((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}
static vector<uint8_t> doDump(Loc const& l, J const& c, long& ret) {
    string how = c["how"].str();
    bool lay = c["lay"].boolean(), rawp = c["rawp"].boolean(), full = c["full"].boolean();
    long limit = c.has("limit") ? c["limit"].num() : -1;
    Value v(l.at, *l.t);
    vector<uint8_t> out;
    ret = -1;
    string path = scratch() + "/dump.bin";
    if (how == "vec") {
        counted([&] {
            vector<uint8_t> b;
            for (int i = 0; i < c["before"].num(); ++i) b.push_back(200 + i);
            if (lay) { if (rawp) dump(l.at, b, layout(*l.t, c)); else dump(v, b, layout(*l.t, c)); }
            else if (b.empty()) b = dump(v);
            else dump(v, b);
            blkacct::Off off; out = b;
        });
    }
    else if (how == "bytes") {
        size_t n = limit < 0 ? 1 << 16 : limit;
        uint8_t* raw = (uint8_t*)malloc(n); memset(raw, 0xEE, n);
        int r = 0; bool failed = false;
        try { counted([&] { r = lay ? (rawp ? dump(l.at, raw, n, layout(*l.t, c)) : dump(v, raw, n, layout(*l.t, c))) : dump(v, raw, n); }); } catch (ValueError&) { failed = true; }
        ret = r; if (r > 0 && (size_t)r <= n) out.assign(raw, raw + r);
        free(raw);
        if (failed) throw ValueError();
    }
    else if (how == "ostream") {
        std::ostringstream s;
        counted([&] { std::ostringstream s2; if (lay) { if (rawp) dump(l.at, s2, layout(*l.t, c)); else dump(v, s2, layout(*l.t, c)); } else dump(v, s2); blkacct::Off off; string x = s2.str(); out.assign(x.begin(), x.end()); });
    }
    else if (how == "fd" || how == "file") {
        int fd = open(full ? "/dev/full" : path.c_str(), full ? O_WRONLY : O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd < 0) throw std::runtime_error("driver: cannot open " + path);
        FILE* f = 0;
        if (how == "file") { f = fdopen(fd, "w"); setvbuf(f, 0, _IONBF, 0); }
        struct rlimit old, now; getrlimit(RLIMIT_FSIZE, &old); now = old;
        if (limit >= 0) { now.rlim_cur = limit; setrlimit(RLIMIT_FSIZE, &now); }
        bool failed = false;
        try {
            counted([&] {
                if (f) { if (lay) { if (rawp) dump(l.at, f, layout(*l.t, c)); else dump(v, f, layout(*l.t, c)); } else dump(v, f); }
                else { if (lay) { if (rawp) dump(l.at, fd, layout(*l.t, c)); else dump(v, fd, layout(*l.t, c)); } else dump(v, fd); }
            });
        } catch (ValueError&) { failed = true; }
        setrlimit(RLIMIT_FSIZE, &old);
        if (f) fclose(f); else close(fd);
        if (failed) throw ValueError();
        if (!full) out = slurp(path);
    }
    else {
        LimitedOut s(limit < 0 ? 1 << 16 : limit);
        counted([&] { if (lay) { if (rawp) dump(l.at, s, layout(*l.t, c)); else dump(v, s, layout(*l.t, c)); } else dump(v, s); });
        out = s.got;
    }
    return out;
}
template<typename T> static J castTo(Loc const& l) {
    T r = T(); counted([&] { r = value_cast<T>(l.at, *l.t); });
    J b = J::arr(); for (size_t i = 0; i < sizeof(T); ++i) b.push((int)reinterpret_cast<uint8_t*>(&r)[i]);
    return b;
}
static J cells(string const& line, string const& sep) {
    J r = J::arr(); size_t pos = 0;
    while (true) {
        size_t e = line.find(sep, pos);
        J cell = J::arr(); for (char ch : line.substr(pos, e == string::npos ? e : e - pos)) cell.push((int)(unsigned char)ch);
        r.push(cell);
        if (e == string::npos) return r;
        pos = e + sep.size();
    }
}
static void freeSlot(Slot& s) { if (s.used) { rawDestroy(*s.type, s.data); free(s.data); } s = Slot(); }
static void dropAll() { for (int i = 1; i <= NV; ++i) freeSlot(slots[i]); dumps.clear(); }

// Runs a value operation; c is updated with what was resolved
static J exec(string const& op, J& c, Registry** regs) {
    J out("");
    if (op == "vnew") {
        Slot& s = slots[c["v"].num()];
        Type const* t = regs[c["r"].num() - 1]->get(c["t"].str());
        if (s.used || !t || !usable(*t)) throw NoRef();
        c.set("t", t->getName());
        Slot n; n.r = c["r"].num(); n.type = t; n.ptr = c["ptr"].boolean(); n.opq = c["opq"].boolean();
        n.data = (uint8_t*)malloc(t->getSize());
        for (size_t i = 0; i < t->getSize(); ++i) n.data[i] = (c["fill"].num() + 7 * i) % 251;
        try {
            counted([&] {
                if (c["lay"].boolean()) { if (c["rawp"].boolean()) init(n.data, layout(*t, c)); else init(Value(n.data, *t), layout(*t, c)); }
                else init(Value(n.data, *t));
            });
        } catch (...) { free(n.data); throw; }
        n.used = true; s = n;
    }
    else if (op == "vdel") {
        Slot& s = slots[c["v"].num()];
        if (!s.used) throw NoRef();
        counted([&] {
            if (c["lay"].boolean() || s.ptr || s.opq) {
                MemoryLayout l = layout_of(*s.type, s.ptr, s.opq, !c["unmerged"].boolean());
                if (c["rawp"].boolean()) destroy(s.data, l); else destroy(Value(s.data, *s.type), l);
            }
            else destroy(Value(s.data, *s.type));
        });
        free(s.data); s = Slot();
    }
    else if (op == "vpoke") {
        Loc l = locate(c["a"]); c.set("a", addr(l));
        // byte classes: data or the rest (padding, opaques)
        vector<char> k(l.t->getSize(), 's');
        std::function<void(Type const&, size_t)> walk = [&](Type const& t, size_t o) {
            if (Compound const* x = dynamic_cast<Compound const*>(&t)) { for (auto const& f : x->getFields()) walk(f.getType(), o + f.getOffset()); }
            else if (Array const* x = dynamic_cast<Array const*>(&t)) { for (size_t i = 0; i < x->getDimension(); ++i) walk(x->getIndirection(), o + i * x->getIndirection().getSize()); }
            else if (t.getCategory() != Type::Opaque) for (size_t i = 0; i < t.getSize(); ++i) k[o + i] = t.getCategory() == Type::Container ? 'c' : 'd';
        };
        walk(*l.t, 0);
        J const& b = c["bytes"];
        bool d = c["mode"].str() != "pads", p = c["mode"].str() != "data";
        for (size_t i = 0; i < k.size(); ++i)
            if ((k[i] == 'd' && d) || (k[i] == 's' && p)) l.at[i] = b.at(i % b.size()).num();
    }
    else if (op == "vzero") {
        Loc l = locate(c["a"]); c.set("a", addr(l));
        counted([&] {
            if (c["lay"].boolean()) { if (c["rawp"].boolean()) zero(l.at, layout(*l.t, c)); else zero(Value(l.at, *l.t), layout(*l.t, c)); }
            else zero(Value(l.at, *l.t));
        });
    }
    else if (op == "vcopy") {
        Loc b = locate(c["b"]); Loc a = locate(c["a"], b.t, b.at); c.set("a", addr(a)); c.set("b", addr(b));
        if (c["lay"].boolean() && !a.t->isSame(*b.t)) throw NoRef();
        bool raw = c["rawp"].boolean() && a.t->isSame(*b.t);
        counted([&] {
            if (c["lay"].boolean()) copy(a.at, b.at, layout(*a.t, c));
            else if (raw) copy(a.at, b.at, *a.t);
            else copy(Value(a.at, *a.t), Value(b.at, *b.t));
        });
    }
    else if (op == "vcmp") {
        Loc b = locate(c["b"]); Loc a = locate(c["a"], b.t, b.at); c.set("a", addr(a)); c.set("b", addr(b));
        bool r = false;
        bool raw = c["rawp"].boolean() && a.t->isSame(*b.t);
        counted([&] { r = raw ? compare(a.at, b.at, *a.t) : compare(Value(a.at, *a.t), Value(b.at, *b.t)); });
        out = J(r);
    }
    else if (op == "vpush" || op == "verase" || op == "vset") {
        // a container for which there is an element, if there is one
        Loc a, b;
        for (int n = c["a"]["n"].num(), last = n + 16; ; ++n) {
            J ca(c["a"]); if (ca.has("want")) ca.set("n", n);
            a = locate(ca);
            if (a.t->getCategory() != Type::Container) throw NoRef();
            if (op == "vset" && !count(static_cast<Container const&>(*a.t), a.at) && ca.has("want") && n < last) continue;
            try { b = locate(c["b"], a.t, a.at); break; } catch (NoRef&) { if (!ca.has("want") || n >= last) throw; }
        }
        Container const& k = static_cast<Container const&>(*a.t);
        c.set("a", addr(a)); c.set("b", addr(b));
        if (op == "vpush") counted([&] { k.push(a.at, Value(b.at, *b.t)); });
        else if (op == "verase") { bool r = false; counted([&] { r = k.erase(a.at, Value(b.at, *b.t)); }); out = J(r); }
        else {
            size_t n = count(k, a.at); if (!n) throw NoRef();
            int i = c["i"].num() % n; c.set("i", i);
            counted([&] { k.setElement(a.at, i, Value(b.at, *b.t)); });
        }
    }
    else if (op == "vdelif" || op == "vclear" || op == "vcount" || op == "vget" || op == "vkind") {
        Loc a;
        for (int n = c["a"]["n"].num(), last = n + 16; ; ++n) {
            J ca(c["a"]); if (ca.has("want")) ca.set("n", n);
            a = locate(ca);
            if (a.t->getCategory() != Type::Container) throw NoRef();
            if (op == "vget" && ca.has("want") && n < last && !count(static_cast<Container const&>(*a.t), a.at)) continue;
            break;
        }
        c.set("a", addr(a));
        Container const& k = static_cast<Container const&>(*a.t);
        if (op == "vdelif") counted([&] { k.delete_if(a.at, FirstOdd(c["mod"].num(), c["rem"].num())); });
        else if (op == "vclear") counted([&] { k.clear(a.at); });
        else if (op == "vcount") { size_t n = 0; counted([&] { n = k.getElementCount(a.at); }); out = J((long)n); }
        else if (op == "vkind") out = J::arr({J(k.isRandomAccess()), J(k.getNaturalSize()), J(k.kind())});
        else {
            size_t n = count(k, a.at); if (!n) throw NoRef();
            int i = c["i"].num() % n; c.set("i", i);
            Value e; counted([&] { e = k.getElement(a.at, i); });
            if (e.getData() != elem(k, a.at, i)) out = J("!address"); else if (&e.getType() != &k.getIndirection()) out = J("!type");
            else out = obs(e.getType(), (uint8_t*)e.getData());
        }
    }
    else if (op == "vvisit") {
        Loc a = locate(c["a"]); c.set("a", addr(a));
        Visit v; v.base = a.at; v.size = a.t->getSize();
        counted([&] { v.apply(Value(a.at, *a.t)); });
        out = v.out;
    }
    else if (op == "vshape") {
        Loc a = locate(c["a"]); c.set("a", addr(a));
        TypeVisit v(c.has("stop") ? c["stop"].num() : 0);
        counted([&] { v.apply(*a.t); });
        out = v.out;
    }
    else if (op == "vdump") {
        Loc a = locate(c["a"]); c.set("a", addr(a));
        long ret; vector<uint8_t> b = doDump(a, c, ret);
        out = J::obj().set("ret", ret).set("bytes", bytes(b));
        if (dumps.size() > 8) dumps.erase(dumps.begin());
        if (!c.has("before")) dumps.push_back(b);
    }
    else if (op == "vsize") {
        Loc a = locate(c["a"]); c.set("a", addr(a));
        size_t n = 0;
        counted([&] { n = c["lay"].boolean() ? (c["rawp"].boolean() ? getDumpSize(a.at, layout(*a.t, c)) : getDumpSize(Value(a.at, *a.t), layout(*a.t, c))) : getDumpSize(Value(a.at, *a.t)); });
        out = J((long)n);
    }
    else if (op == "vload") {
        Loc a = locate(c["a"]); c.set("a", addr(a));
        vector<uint8_t> in;
        if (c.has("in")) for (auto const& x : c["in"].a) in.push_back(x.num());
        else {
            if (dumps.empty()) throw NoRef();
            in = dumps[c["n"].num() % dumps.size()];
            if (c.has("cut") && !in.empty()) in.resize(in.size() - 1 - c["cut"].num() % in.size());
            if (c.has("ext")) for (int i = 0; i < c["ext"].num(); ++i) in.push_back(77);
            if (c.has("pad")) for (size_t i = 0; i < a.t->getTrailingPadding(); ++i) in.push_back(78);
            if (c.has("flip") && !in.empty()) in[c["flip"].num() % in.size()] += 1 + c["ext"].num();
        }
        { size_t pos = 0; fixCounts(*a.t, in, pos, c["lay"].boolean() ? c : J::obj(), true); }
        c.set("in", bytes(in));
        doLoad(a, in, c);
    }
    else if (op == "vtrunc") {
        Loc a = locate(c["a"]); c.set("a", addr(a));
        J dc = J::obj().set("how", "vec").set("lay", c["lay"]).set("ptr", c["ptr"]).set("opq", c["opq"]).set("unmerged", c["unmerged"]);
        long ret; vector<uint8_t> d = doDump(a, dc, ret);
        J good = J::arr();
        int differ = 0;
        for (size_t n = 0; n <= d.size() + a.t->getTrailingPadding() + 2; ++n) {
            vector<uint8_t> in(d); in.resize(n, 79);
            Loc l(a); l.at = (uint8_t*)malloc(a.t->getSize()); memset(l.at, 0, a.t->getSize());
            bool failed = false;
            try { counted([&] { init(l.at, layout_of(*a.t, true, true)); }); } catch (ValueError&) { free(l.at); throw; }
            if (n % 3 == 2) try { doLoad(l, d, c); } catch (ValueError&) { }     // not always empty before
            try { doLoad(l, in, c); } catch (ValueError&) { failed = true; }
            if (!failed) {
                good.push((long)n);
                vector<uint8_t> d2 = doDump(l, dc, ret);
                if (d2 != d) ++differ;
            }
            counted([&] { destroy(l.at, layout_of(*a.t, true, true)); });
            free(l.at);
        }
        out = J::obj().set("size", (long)d.size()).set("good", good).set("differ", differ);
    }
    else if (op == "veswap") {
        Loc a = locate(c["a"]); c.set("a", addr(a));
        counted([&] { endian_swap(Value(a.at, *a.t)); });
    }
    else if (op == "vcswap") {
        Loc a = locate(c["a"]); Loc b = locate(c["b"], a.t, a.at); c.set("a", addr(a)); c.set("b", addr(b));
        if (!a.t->isSame(*b.t) || (a.at < b.at + b.t->getSize() && b.at < a.at + a.t->getSize())) throw NoRef();
        counted([&] {
            CompileEndianSwapVisitor s; s.apply(*a.t);
            if (c["twice"].boolean()) s.apply(*a.t);
            s.swap(Value(a.at, *a.t), Value(b.at, *b.t));
        });
    }
    else if (op == "vcsv" || op == "vhead") {
        Loc a = locate(c["a"]); c.set("a", addr(a));
        if (!textual(*a.t)) throw NoRef();
        string sep = c["sep"].str(), res;
        // through a pointer, if the registry has one
        Type const* pt = c["viaptr"].boolean() ? regs[slots[a.v].r - 1]->get(a.t->getName() + "*") : 0;
        c.set("viaptr", pt ? true : false);
        counted([&] {
            std::ostringstream os;
            bool num = c["num"].boolean();
            if (pt) { void* ptr = a.at; if (op == "vcsv") os << csv(*pt, &ptr, sep, num); else os << csv_header(*pt, c["name"].str(), sep); }
            else if (op == "vcsv") { if (!num) os << csv(*a.t, a.at, sep, num); else if (sep != " ") os << csv(*a.t, a.at, sep); else os << csv(*a.t, a.at); }
            else if (sep != " ") os << csv_header(*a.t, c["name"].str(), sep);
            else os << csv_header(*a.t, c["name"].str());
            blkacct::Off off; res = string(os.str().c_str(), os.str().size());
        });
        out = cells(res, sep);
    }
    else if (op == "vfield") {
        Loc a = locate(c["a"]); c.set("a", addr(a));
        if (a.t->getCategory() != Type::Compound) throw NoRef();
        Compound const& k = static_cast<Compound const&>(*a.t);
        string f = c["f"].str();
        if (f.empty()) { if (k.getFields().empty()) throw NoRef(); auto it = k.getFields().begin(); std::advance(it, c["n"].num() % k.getFields().size()); f = it->getName(); c.set("f", f); }
        Value r; counted([&] { r = c["rawp"].boolean() ? value_get_field(a.at, *a.t, f) : value_get_field(Value(a.at, *a.t), f); });
        out = J::arr({J(r.getType().getName()), J((long)((uint8_t*)r.getData() - a.at))});
    }
    else if (op == "vcast") {
        Loc a = locate(c["a"]); c.set("a", addr(a));
        if (a.t->getCategory() != Type::Numeric && a.t->getCategory() != Type::Enum && a.t->getCategory() != Type::Opaque) throw NoRef();
        string k = c["k"].str();
        if (k.empty()) {
            k = "sint4";
            if (Numeric const* n = dynamic_cast<Numeric const*>(a.t)) { std::ostringstream os; os << (n->getNumericCategory() == Numeric::Float ? "float" : n->getNumericCategory() == Numeric::SInt ? "sint" : "uint") << n->getSize(); k = os.str(); }
            c.set("k", k);
        }
        out = k == "sint1" ? castTo<int8_t>(a) : k == "uint1" ? castTo<uint8_t>(a) : k == "sint2" ? castTo<short>(a) : k == "uint2" ? castTo<unsigned short>(a)
            : k == "sint4" ? castTo<int>(a) : k == "uint4" ? castTo<unsigned int>(a) : k == "sint8" ? castTo<long>(a) : k == "uint8" ? castTo<uint64_t>(a)
            : k == "float4" ? castTo<float>(a) : castTo<double>(a);
    }
    else throw std::runtime_error("driver: unknown op " + op);
    return out;
}
static string last[NV + 1];
static J changes() {
    J r = J::arr();
    for (int i = 1; i <= NV; ++i) {
        J e = J::arr();
        if (slots[i].used) e.push(slots[i].r).push(slots[i].type->getName()).push(obs(*slots[i].type, slots[i].data));
        string now = jstr(e);
        if (now == last[i]) continue;
        last[i] = now;
        r.push(J::arr({J(i), e}));
    }
    return r;
}
static bool inUse(int r) { for (int i = 1; i <= NV; ++i) if (slots[i].used && slots[i].r == r) return true; return false; }
static long leak() {
    long n = blkacct::live;
    for (int i = 1; i <= NV; ++i) if (slots[i].used) n -= blocks(*slots[i].type, slots[i].data);
    return n;
}
}
#endif
