// Conformance driver of configuration sets (utilmm/configset.hh).
#include "json.hh"
#include <typelib/utilmm/configset.hh>
#include <fstream>
#include <iostream>
#include <new>
#include <unistd.h>
using utilmm::config_set;
using std::string; using std::list; using std::map;

// blocks allocated by the library and not released
static long live = 0; static bool on = false;
struct On { On() { on = true; } ~On() { on = false; } };
struct Off { bool s; Off() : s(on) { on = false; } ~Off() { on = s; } };
static const size_t HDR = 16;
__attribute__((visibility("default"))) void* operator new(size_t n) {
    char* p = (char*)malloc(n + HDR); if (!p) throw std::bad_alloc();
    *p = on; live += on; return p + HDR;
}
__attribute__((visibility("default"))) void operator delete(void* p) noexcept { if (!p) return; char* q = (char*)p - HDR; live -= *q; free(q); }
__attribute__((visibility("default"))) void operator delete(void* p, size_t) noexcept { operator delete(p); }

static map<int, config_set*> sets;
static map<config_set const*, int> ids;
static std::vector<string> keys;
static int idof(config_set const* c) { Off off; return c ? (ids.count(c) ? ids[c] : -1) : 0; }
static config_set& at(int i) { if (!sets.count(i)) { fprintf(stderr, "driver: no set\n"); _exit(97); } return *sets[i]; }
static list<string> strs(J const& j) { list<string> r; for (auto const& x : j.a) r.push_back(x.str()); return r; }
static J names(list<config_set const*> const& l) { J j = J::arr(); for (auto c : l) j.push(idof(c)); return j; }
static void forget(int i) {
    config_set* c = sets[i];
    std::vector<int> kids;
    for (auto const& k : keys) for (auto x : c->children(k)) kids.push_back(idof(x));
    for (int k : kids) if (k > 0 && sets.count(k)) forget(k);
    ids.erase(c); sets.erase(i);
}
template<typename T> static list<T> deflist(J const& c);
template<> list<int> deflist(J const& c) { list<int> r; for (auto const& x : c.a) r.push_back(x.num()); return r; }
template<> list<bool> deflist(J const& c) { list<bool> r; for (auto const& x : c.a) r.push_back(x.boolean()); return r; }
template<> list<string> deflist(J const& c) { return strs(c); }
template<typename T> static J getter(config_set const& s, J const& c) {
    J out = J::arr();
    string k = c["k"].str();
    if (c["list"].boolean()) {
        list<T> d = deflist<T>(c["def"]);
        list<T> r; { On on; r = c["def"].size() ? s.get< list<T> >(k, d) : s.get< list<T> >(k); }
        Off off; for (auto x : r) out.push(J(T(x)));
    } else {
        list<T> d = deflist<T>(c["def"]);
        T r = T(); { On on; r = c["def"].size() ? s.get<T>(k, d.front()) : s.get<T>(k); }
        Off off; out.push(J(r));
    }
    return out;
}
static J exec(J const& c) {
    string op = c["op"].str();
    J out = "";
    if (op == "reset") {
        while (!sets.empty()) {
            // a root: the set which no other one owns
            config_set* r = sets.begin()->second;
            bool again = true;
            while (again) { again = false; for (auto& x : sets) for (auto const& k : keys) for (auto y : x.second->children(k)) if (!again && y == r) { r = x.second; again = true; } }
            forget(idof(r)); delete r; }
        keys.clear();
        return "";
    }
    if (op == "keys") { for (auto const& k : c["keys"].a) keys.push_back(k.str()); return ""; }
    if (op == "new") {
        config_set* p = c["p"].num() ? &at(c["p"].num()) : 0, *n;
        { On on; n = p ? new config_set(p) : new config_set; }
        sets[c["s"].num()] = n; ids[n] = c["s"].num();
        return "";
    }
    config_set& s = at(c["s"].num());
    string k = c["k"].str(), v = c["v"].str(); list<string> l = strs(c["l"]);
    if (op == "set") { On on; s.set(k, v); }
    else if (op == "insert") { On on; s.insert(k, v); }
    else if (op == "setl") { On on; s.set(k, l); }
    else if (op == "insl") { On on; s.insert(k, l); }
    else if (op == "add") { On on; s.insert(k, (config_set const*)&at(c["c"].num())); }
    else if (op == "erase") { On on; s.erase(k); }
    else if (op == "del") { forget(c["s"].num()); delete &s; }
    else if (op == "get") {
        string t = c["t"].str();
        if (t == "int") out = getter<int>(s, c); else if (t == "bool") out = getter<bool>(s, c); else out = getter<string>(s, c);
    }
    else { fprintf(stderr, "driver: unknown op %s\n", op.c_str()); _exit(97); }
    return out;
}
static J observe() {
    J obs = J::arr();
    for (auto& x : sets) {
        config_set& s = *x.second; config_set const& cs = s;
        J ks = J::arr();
        for (auto const& k : keys) {
            J q = J::arr();
            list<string> def; def.push_back("#");
            for (auto const& v : cs.get< list<string> >(k, def)) q.push(v);
            config_set const& ch = cs.child(k);
            J none = J::arr(); if (idof(&ch) <= 0) none.push(ch.empty());
            ks.push(J::arr({q, names(cs.children(k)), J(idof(&ch) > 0 ? idof(&ch) : 0), none, J(cs.exists(k))}));
        }
        obs.push(J::arr({J(x.first), J(idof(s.parent())), J(idof(cs.parent())), J(cs.empty()), ks}));
    }
    return obs;
}
int main(int, char** argv) {
    std::ifstream in(argv[1]); std::ofstream os(argv[2]);
    string line;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        J c = jparse(line), out(""); string res = "ok";
        try { out = exec(c); } catch (std::bad_cast const& e) { on = false; res = "badcast"; } catch (std::exception const& e) { on = false; res = "error"; }
        J obs = observe();
        // the library owns nothing when there are no sets
        J left = sets.empty() ? J(live) : J(0);
        jwrite(os, c.set("res", res).set("out", out).set("obs", obs).set("left", left)); os << "\n"; os.flush();
    }
}
