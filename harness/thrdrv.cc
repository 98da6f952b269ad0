// Conformance driver of the shared singletons and of the plugin manager:
// programs of several threads; what happened is logged in an order that agrees
// with what each thread could see, without adding synchronisation of its own.
#include "json.hh"
#include <typelib/registry.hh>
#include <typelib/typemodel.hh>
#include <typelib/pluginmanager.hh>
#include <typelib/plugins.hh>
#include <typelib/importer.hh>
#include <typelib/exporter.hh>
#include <typelib/registryiterator.hh>
#include <typelib/utilmm/configset.hh>
#include <atomic>
#include <functional>
#include <fstream>
#include <iostream>
#include <memory>
#include <set>
#include <thread>
#include <unistd.h>
#include <sys/stat.h>
using namespace Typelib;
using utilmm::singleton::use;
using std::string; using std::vector;

// ------------------------------------------------------------------ event log
struct Ev { int t; char k; int a, b; };
static Ev evlog[1 << 16];
static std::atomic<unsigned> nev(0);
static thread_local int tid = -1;
static void ev(char k, int a = 0, int b = 0) {
    unsigned i = nev.fetch_add(1, std::memory_order_relaxed);
    if (i < sizeof(evlog) / sizeof(evlog[0])) { evlog[i].t = tid; evlog[i].k = k; evlog[i].a = a; evlog[i].b = b; }
}
static std::atomic<int> spin(0);
static void pause_() { int n = spin.load(std::memory_order_relaxed); for (int i = 0; i < n; ++i) std::this_thread::yield(); }

// ----------------------------------------------------------------- singletons
static const int NS = 4, P = 5;
struct Handle { virtual ~Handle() {} virtual Handle* copy() const = 0; virtual void assign(Handle const&) = 0; virtual int inst() const = 0; int n; };
static Handle* make(int n);
static vector<int> deps[NS + 1], temps[NS + 1], dtemps[NS + 1];
static std::atomic<int> fails[NS + 1];
static std::atomic<int> births(0);
struct CtorFailed : std::runtime_error { CtorFailed() : std::runtime_error("no") {} };
struct Base {
    int n, id; unsigned magic; vector<Handle*> held;
    Base(int n) : n(n), magic(0) {
        try {
            pause_();
            for (int d : deps[n]) held.push_back(make(d));
            for (int d : temps[n]) delete make(d);
            if (fails[n].load(std::memory_order_relaxed) > 0) { fails[n].fetch_sub(1, std::memory_order_relaxed); throw CtorFailed(); }
        } catch (...) { drop(); throw; }
        id = births.fetch_add(1, std::memory_order_relaxed) + 1; magic = 0x51e55ed;
        ev('b', n, id);
        pause_();
    }
    void drop() { while (!held.empty()) { Handle* h = held.back(); held.pop_back(); delete h; } }
    ~Base() {
        pause_();
        ev('d', n, magic == 0x51e55ed ? id : -id); magic = 0;
        for (int d : dtemps[n]) try { delete make(d); } catch (std::exception&) {}
        drop();
    }
};
template<int N> struct S : Base { S() : Base(N) {} };
template<typename T> struct HandleOf : Handle {
    use<T> u;
    HandleOf(int k) { n = k; }
    HandleOf(HandleOf const& o) : u(o.u) { n = o.n; }
    Handle* copy() const { return new HandleOf(*this); }
    void assign(Handle const& o) { u = static_cast<HandleOf const&>(o).u; }
    int inst() const;
};
template<typename T> int HandleOf<T>::inst() const { Base& b = *u; return &b == (Base*)u.operator->() && &b == (Base*)&u.instance() && b.magic == 0x51e55ed ? b.id : -1; }
template<> int HandleOf<PluginManager>::inst() const { return &*u == u.operator->() && &*u == &u.instance() ? 1 : -1; }
static Handle* make(int n) {
    switch (n) {
        case 1: return new HandleOf< S<1> >(n);
        case 2: return new HandleOf< S<2> >(n);
        case 3: return new HandleOf< S<3> >(n);
        case 4: return new HandleOf< S<4> >(n);
        case P: return new HandleOf<PluginManager>(n);
    }
    fprintf(stderr, "driver: no such singleton\n"); _exit(97);
}
static const int NH = 64;
static Handle* handles[NH];
static Handle& at(J const& j) { Handle* h = handles[j.num()]; if (!h) throw std::runtime_error("no handle"); return *h; }
static PluginManager& pm(J const& j) { return *dynamic_cast<HandleOf<PluginManager>&>(at(j)).u; }

// -------------------------------------------------------------------- plugins
static thread_local vector<int>* regcalls = 0;
struct TExp : Exporter {
    int id; TExp(int id) : id(id) {}
    void save(std::ostream& s, utilmm::config_set const& c, Registry const&) { s << "exp" << id << c.get<string>("opt"); }
    bool save(std::ostream&, RegistryIterator const&) { return true; }
};
struct TImp : Importer {
    int id; TImp(int id) : id(id) {}
    void load(std::istream& s, utilmm::config_set const& c, Registry& r) { string x; s >> x; r.add(new OpaqueType("/imp" + std::to_string(id) + x + c.get<string>("opt"), 1)); }
    void load(string const& f, utilmm::config_set const& c, Registry& r) { std::ifstream s(f.c_str()); load(s, c, r); }
};
struct PExp : ExportPlugin { int id; bool owned; PExp(string n, int id) : ExportPlugin(n), id(id), owned(false) {} ~PExp() { if (owned) ev('p', id); } Exporter* create() { return new TExp(id); } };
struct PImp : ImportPlugin { int id; bool owned; PImp(string n, int id) : ImportPlugin(n), id(id), owned(false) {} ~PImp() { if (owned) ev('p', id); } Importer* create() { return new TImp(id); } };
struct PDef : TypeDefinitionPlugin {
    int id; PDef(int id) : id(id) {} ~PDef() { ev('p', id); }
    void registerTypes(Registry& r) { if (regcalls) regcalls->push_back(id); r.add(new OpaqueType("/def" + std::to_string(id), 1)); }
};
static vector< std::unique_ptr<Exporter> > exporters; static vector< std::unique_ptr<Importer> > importers;
static string scratch() { return getenv("VERIF_SCRATCH"); }

static J op(J const& c, std::pair<std::set<void*>, vector<std::function<void()> > >* keep) {
    string o = c["op"].str();
    if (o == "acq") { handles[c["h"].num()] = make(c["n"].num()); return ""; }
    if (o == "copy") { handles[c["h"].num()] = at(c["from"]).copy(); return ""; }
    if (o == "assign") { at(c["h"]).assign(at(c["from"])); return ""; }
    if (o == "rel") { Handle* h = &at(c["h"]); handles[c["h"].num()] = 0; delete h; return ""; }
    if (o == "inst") return at(c["h"]).inst();
    if (o == "padd") {
        PluginManager& m = pm(c["h"]); string k = c["kind"].str();
        if (k == "def") { m.add(new PDef(c["id"].num())); return true; }
        if (k == "exp") { PExp* p = new PExp(c["name"].str(), c["id"].num()); bool r = m.add(p); if (r) p->owned = true; else delete p; return r; }
        PImp* p = new PImp(c["name"].str(), c["id"].num()); bool r = m.add(p); if (r) p->owned = true; else delete p; return r;
    }
    if (o == "pget") {
        PluginManager& m = pm(c["h"]); int id; void* addr;
        if (c["kind"].str() == "exp") {
            Exporter* e = m.exporter(c["name"].str()); addr = dynamic_cast<void*>(e); TExp* t = dynamic_cast<TExp*>(e); id = t ? t->id : 0; keep->second.push_back([e]() { delete e; });
        } else {
            Importer* e = m.importer(c["name"].str()); addr = dynamic_cast<void*>(e); TImp* t = dynamic_cast<TImp*>(e); id = t ? t->id : 0; keep->second.push_back([e]() { delete e; });
        }
        return J::arr({J(id), J(keep->first.insert(addr).second)});
    }
    if (o == "preg") { vector<int> calls; regcalls = &calls; { Registry r; int n = 0; for (auto it = r.begin(); it != r.end(); ++it) ++n; if (n != (int)calls.size()) calls.push_back(-1); } regcalls = 0; return J::of(calls); }
    if (o == "psave" || o == "pload") {
        // none of the registries made here creates or uses the manager
        Registry r;
        utilmm::config_set conf; conf.set("opt", c["opt"].str());
        string name = c["name"].str(), how = c["how"].str(), f = scratch() + "/in" + std::to_string(tid);
        if (o == "psave") {
            if (how == "string") return PluginManager::save(name, conf, r);
            if (how == "plain") return PluginManager::save(name, r);
            std::ostringstream s;
            if (how == "stream") PluginManager::save(name, conf, r, s); else PluginManager::save(name, r, s);
            return s.str();
        }
        std::istringstream in("z"); { std::ofstream x(f.c_str()); x << "z"; }
        std::unique_ptr<Registry> got;
        if (how == "new") got.reset(PluginManager::load(name, in, conf));
        else if (how == "newfile") got.reset(PluginManager::load(name, f, conf));
        else if (how == "newplain") got.reset(PluginManager::load(name, in));
        else if (how == "newfileplain") got.reset(PluginManager::load(name, f));
        else if (how == "into") PluginManager::load(name, in, conf, r);
        else if (how == "intofile") PluginManager::load(name, f, conf, r);
        else if (how == "intoplain") PluginManager::load(name, in, r);
        else PluginManager::load(name, f, r);
        string out;
        Registry& g = got ? *got : r;
        for (auto it = g.begin(); it != g.end(); ++it) if (it.getName().compare(0, 4, "/imp") == 0) out += it.getName();
        return out;
    }
    fprintf(stderr, "driver: unknown op %s\n", o.c_str()); _exit(97);
}

static J exec(J& c) {
    string o = c["op"].str();
    if (o == "reset") {
        for (int i = 0; i < NH; ++i) { delete handles[i]; handles[i] = 0; }
        for (int i = 0; i <= NS; ++i) { deps[i].clear(); temps[i].clear(); dtemps[i].clear(); fails[i] = 0; }
        setenv("TYPELIB_PLUGIN_PATH", (scratch() + "/d_none").c_str(), 1);
        births = 0; spin = 0;
        return "";
    }
    if (o == "conf") {
        for (int i = 1; i <= NS; ++i) {
            for (auto const& x : c["deps"].at(i - 1).a) deps[i].push_back(x.num());
            for (auto const& x : c["temp"].at(i - 1).a) temps[i].push_back(x.num());
            for (auto const& x : c["dtemp"].at(i - 1).a) dtemps[i].push_back(x.num());
            fails[i] = c["fails"].at(i - 1).num();
        }
        string p; bool first = true;
        for (auto const& x : c["dirs"].a) { if (!first) p += ":"; first = false; if (!x.str().empty()) p += scratch() + "/d_" + x.str(); }
        setenv("TYPELIB_PLUGIN_PATH", p.c_str(), 1);
        spin = c["spin"].num();
        return "";
    }
    if (o != "par") { fprintf(stderr, "driver: unknown op %s\n", o.c_str()); _exit(97); }
    nev = 0;
    vector<J> ths = c["threads"].a;
    vector<J> outs(ths.size(), J::arr());
    std::atomic<int> ready(0);
    vector<std::thread> run;
    for (size_t t = 0; t < ths.size(); ++t) run.emplace_back([&, t]() {
        tid = t + 1;
        std::pair<std::set<void*>, vector<std::function<void()> > > keep;
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < (int)ths.size()) std::this_thread::yield();
        int k = 0;
        for (auto const& x : ths[t].a) {
            J r(""); string res = "ok";
            ev('c', ++k);
            try { r = op(x, &keep); }
            catch (PluginNotFound&) { res = "PluginNotFound"; }
            catch (CtorFailed&) { res = "failed"; }
            catch (std::exception& e) { res = "error"; }
            ev('r', k);
            outs[t].push(J::arr({J(res), r}));
        }
        for (auto& f : keep.second) f();
    });
    for (auto& t : run) t.join();
    J log = J::arr();
    unsigned n = nev;
    for (unsigned i = 0; i < n; ++i) log.push(J::arr({J(evlog[i].t), J(string(1, evlog[i].k)), J(evlog[i].a), J(evlog[i].b)}));
    J all = J::arr(); for (auto const& x : outs) all.push(x);
    c.set("log", log);
    return all;
}
static void link(string const& dir, string const& from, string const& as) { symlink(from.c_str(), (scratch() + "/d_" + dir + "/" + as).c_str()); }
int main(int, char** argv) {
    std::ifstream in(argv[1]); std::ofstream os(argv[2]);
    string plug = getenv("TYPELIB_PLUGIN_PATH");
    for (string d : {"none", "tlb", "idl", "all", "junk", "empty"}) mkdir((scratch() + "/d_" + d).c_str(), 0755);
    link("none", plug + "/libcsup.so", "libcsup.so");
    link("tlb", plug + "/libtlb.so", "libtlb.so");
    link("idl", plug + "/libidl.so", "libidl.so");
    link("all", plug + "/libidl.so", "libidl.so"); link("all", plug + "/libtlb.so", "libtlb.so");
    { std::ofstream x((scratch() + "/d_junk/a.so").c_str()); x << "junk"; }
    link("junk", plug + "/../libtypeLib.so", "b.so"); link("junk", plug + "/libtlb.so", "tlb.txt"); link("junk", plug + "/libidl.so", "c.so");
    string line;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        J c = jparse(line), out("");
        out = exec(c);
        jwrite(os, c.set("res", "ok").set("out", out)); os << "\n"; os.flush();
    }
}
