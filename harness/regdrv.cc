// Conformance driver for the type registry, the type model and the TLB / IDL
// import-export.  Reads one JSON operation per line, executes it on the real
// typelib code and writes the operation, its outcome and the projected abstract
// state as one JSON line (the event of the trace).
#include "json.hh"
#include "common.hh"
#include "valops.hh"
#include <typelib/registry.hh>
#include <typelib/registryiterator.hh>
#include <typelib/typemodel.hh>
#include <typelib/typebuilder.hh>
#include <typelib/typename.hh>
#include <typelib/pluginmanager.hh>
#include <typelib/plugins.hh>
#include <typelib/importer.hh>
#include <typelib/exporter.hh>
#include <typelib/typedisplay.hh>
#include <lang/csupport/standard_types.hh>
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <iostream>
#include <fstream>
#include <algorithm>
#include <set>
using namespace Typelib;
using std::string;

static const int NREG = 3;
static Registry* regs[NREG];
static std::set<string> probes;

typedef std::map<Type const*, string> Known;
static Known known(Registry const& r) {
    Known k;
    for (RegistryIterator it = r.begin(); it != r.end(); ++it)
        if (!it.isAlias()) k[&*it] = it.getName();
    return k;
}
static string refname(Known const& k, Type const& t) {
    Known::const_iterator it = k.find(&t);
    return it == k.end() ? string("!unregistered") : it->second;
}
static J metaJ(MetaData const& m) {
    J r = J::arr();
    for (auto const& e : m.get()) { J v = J::arr(); for (auto const& x : e.second) v.push(x); r.push(J::arr({J(e.first), v})); }
    return r;
}
static const char* catname(Type const& t) {
    switch (t.getCategory()) {
        case Type::NullType: return "null"; case Type::Array: return "array"; case Type::Pointer: return "pointer";
        case Type::Numeric: return "numeric"; case Type::Enum: return "enum"; case Type::Compound: return "compound";
        case Type::Opaque: return "opaque"; case Type::Container: return "container"; default: return "?";
    }
}
// Accessors that have to agree with the ones the projection is made of: the
// first that does not is reported in place of the type's name
static string disagreement(Registry const& r, RegistryIterator const& it, Type const& t) {
    string name = t.getName();
    if (t.getNamespace() + t.getBasename() != name) return "!namespace";
    if (it.getNamespace() + it.getBasename() != it.getName()) return "!iterator namespace";
    if (t.isNull() != (t.getCategory() == Type::NullType)) return "!isNull";
    if (!(t == t) || t != t) return "!==";
    if (!r.isIncluded(t)) return "!isIncluded";
    if (&it.aliased() != &t || &it.getRegistry() != &r) return "!aliased";
    for (auto const& e : t.getMetaData().get())
        if (!t.getMetaData().include(e.first) || t.getMetaData().get(e.first) != e.second || t.getMetaData(e.first) != e.second) return "!metadata";
    if (Compound const* c = dynamic_cast<Compound const*>(&t)) {
        size_t end = 0;
        for (auto const& f : c->getFields()) {
            end = std::max(end, f.getOffset() + f.getType().getSize());
            Field const* g = c->getField(f.getName());
            bool first = true;
            for (auto const& h : c->getFields()) { if (&h == &f) break; if (h.getName() == f.getName()) first = false; }
            if (!g || (first && g != &f)) return "!getField";
            for (auto const& e : f.getMetaData().get())
                if (!f.getMetaData().include(e.first) || f.getMetaData(e.first) != e.second) return "!field metadata";
        }
        if (c->getField("!none")) return "!getField";
        if (end <= t.getSize() && t.getTrailingPadding() != t.getSize() - end) return "!trailing padding";
    }
    else if (t.getTrailingPadding() != 0) return "!trailing padding";
    if (Enum const* e = dynamic_cast<Enum const*>(&t)) {
        std::list<string> n = e->names();
        auto i = n.begin();
        for (auto const& v : e->values()) {
            if (i == n.end() || *i++ != v.first) return "!names";
            if (e->get(v.first) != v.second || e->values().find(e->get(v.second))->second != v.second) return "!get";
        }
        if (i != n.end()) return "!names";
    }
    return name;
}
static J typeJ(Known const& k, Registry const& r, RegistryIterator const& it) {
    string name = it.getName();
    Type const& t = *it;
    J j = J::obj();
    string num, on, kind; int dim = 0, next = 0; J fields = J::arr(), vals = J::arr();
    if (t.getCategory() == Type::Numeric) {
        Numeric::NumericCategory c = dynamic_cast<Numeric const&>(t).getNumericCategory();
        num = c == Numeric::SInt ? "sint" : c == Numeric::UInt ? "uint" : c == Numeric::Float ? "float" : "?";
    }
    if (Indirect const* i = dynamic_cast<Indirect const*>(&t)) on = refname(k, i->getIndirection());
    if (Array const* a = dynamic_cast<Array const*>(&t)) dim = a->getDimension();
    if (Container const* c = dynamic_cast<Container const*>(&t)) kind = c->kind();
    if (Compound const* c = dynamic_cast<Compound const*>(&t))
        for (auto const& f : c->getFields()) {
            J fj = J::obj(); fj.set("n", f.getName()).set("t", refname(k, f.getType())).set("off", f.getOffset()).set("m", metaJ(f.getMetaData()));
            fields.push(fj);
        }
    if (Enum const* e = dynamic_cast<Enum const*>(&t)) next = e->getNextValue();
    if (Enum const* e = dynamic_cast<Enum const*>(&t))
        for (auto const& v : e->values()) vals.push(J::arr({J(v.first), J(v.second)}));
    J deps = J::arr();
    std::set<string> d;
    for (Type const* x : t.dependsOn()) d.insert(refname(k, *x));
    for (auto const& x : d) deps.push(x);
    j.set("n", name).set("self", disagreement(r, it, t)).set("cat", catname(t)).set("size", t.getSize()).set("num", num).set("on", on)
     .set("dim", dim).set("kind", kind).set("fields", fields).set("vals", vals).set("next", next).set("meta", metaJ(t.getMetaData())).set("deps", deps);
    return j;
}
static J regJ(Registry const& r) {
    J j = J::obj(), names = J::arr(), types = J::arr(), q = J::arr();
    Known k = known(r);
    int count = 0;
    for (RegistryIterator it = r.begin(); it != r.end(); ++it) {
        J e = J::obj();
        e.set("n", it.getName()).set("t", refname(k, *it)).set("p", it.isPersistent()).set("s", it.getSource());
        names.push(e); ++count;
        if (!it.isAlias()) types.push(typeJ(k, r, it));
    }
    std::set<string> pr(probes);
    for (auto const& p : pr) {
        Type const* t = r.get(p);
        bool h = r.has(p, false);
        string out = t ? refname(k, *t) : string();
        if (h != (t != 0)) out = "!has";
        if (!out.empty()) q.push(J::arr({J(p), J(out)}));
    }
    j.set("ns", r.getDefaultNamespace()).set("size", r.size()).set("names", names).set("types", types).set("q", q);
    return j;
}
static void note(string const& n) {
    if (n.empty()) return;
    probes.insert(n);
    size_t pos = 0;
    int lvl = 0;
    for (pos = 0; pos < n.size(); ++pos) {
        if (n[pos] == '<') ++lvl; else if (n[pos] == '>') --lvl;
        else if (n[pos] == '/' && lvl == 0 && pos + 1 < n.size()) probes.insert(n.substr(pos + 1));
    }
}
static void noteAll() {
    for (int i = 0; i < NREG; ++i)
        for (RegistryIterator it = regs[i]->begin(); it != regs[i]->end(); ++it) note(it.getName());
}
static Type const& need(Registry const& r, string const& n) {
    Type const* t = r.get(n);
    if (!t) throw NoRef();
    return *t;
}
static Type* mk(Registry& r, J const& s) {
    string n = s["n"].str(), cat = s["cat"].str();
    if (cat == "null") return new NullType(n);
    if (cat == "opaque") return new OpaqueType(n, s["size"].num());
    if (cat == "numeric") {
        string c = s["num"].str();
        return new Numeric(n, s["size"].num(), c == "sint" ? Numeric::SInt : c == "uint" ? Numeric::UInt : Numeric::Float);
    }
    if (cat == "enum") {
        std::unique_ptr<Enum> e(new Enum(n));
        for (auto const& v : s["vals"].a) e->add(v.at(0).str(), v.at(1).num());
        return e.release();
    }
    if (cat == "compound") {
        std::unique_ptr<Compound> c(new Compound(n));
        for (auto const& f : s["fields"].a) c->addField(f["n"].str(), need(r, f["t"].str()), f["off"].num());
        if (s["size"].num() > 0) c->setSize(s["size"].num());
        return c.release();
    }
    if (cat == "array") { Type* t = new Array(need(r, s["on"].str()), s["dim"].num()); return t; }
    if (cat == "pointer") return new Pointer(need(r, s["on"].str()));
    throw std::runtime_error("driver: bad category " + cat);
}
// Recursive definition: fields may point to the compound itself (through T*)
static void addRec(Registry& r, J const& s) {
    std::unique_ptr<Compound> c(new Compound(s["n"].str()));
    std::unique_ptr<Pointer> p(new Pointer(*c));
    for (auto const& f : s["fields"].a)
        if (f["t"].str() == "self") c->addField(f["n"].str(), *p, f["off"].num());
        else c->addField(f["n"].str(), need(r, f["t"].str()), f["off"].num());
    if (s["size"].num() > 0) c->setSize(s["size"].num());
    if (r.has(p->getName(), false) || r.has(c->getName(), false)) throw AlreadyDefined(c->getName());
    if (!isValidTypename(c->getName(), true)) throw BadName(c->getName());
    r.add(c.get(), ""); Compound* cc = c.release(); (void)cc;
    r.add(p.get(), ""); p.release();
}

struct RecordingExporter : public Exporter {
    J order; J marks;
    RecordingExporter() : order(J::arr()), marks(J::arr()) {}
    void begin(std::ostream&, Registry const&) { marks.push("begin"); }
    void end(std::ostream&, Registry const&) { marks.push("end"); }
    bool save(std::ostream&, RegistryIterator const& t) { order.push(t.getName()); return true; }
    using Exporter::save;
};

static J xmlMeta(xmlNodePtr n) {
    std::map<string, std::set<string> > m;
    for (xmlNodePtr c = n->children; c; c = c->next)
        if (c->type == XML_ELEMENT_NODE && string((char const*)c->name) == "metadata") {
            xmlChar* k = xmlGetProp(c, (xmlChar const*)"key"); string key = k ? (char const*)k : "!nokey"; if (k) xmlFree(k);
            m[key];
            xmlChar* v = xmlNodeGetContent(c); string val = v ? (char const*)v : ""; if (v) xmlFree(v);
            if (c->children) m[key].insert(val);
        }
    J r = J::arr();
    for (auto const& e : m) { J v = J::arr(); for (auto const& x : e.second) v.push(x); r.push(J::arr({J(e.first), v})); }
    return r;
}
static string xattr(xmlNodePtr n, char const* k) {
    xmlChar* v = xmlGetProp(n, (xmlChar const*)k); if (!v) return "";
    string s((char const*)v); xmlFree(v); return s;
}
// The exported document, as an abstract sequence of nodes
static J docJ(string const& xml) {
    J r = J::arr();
    xmlDocPtr d = xmlReadMemory(xml.c_str(), xml.size(), "x", 0, XML_PARSE_NOERROR | XML_PARSE_NOWARNING);
    if (!d) { r.push(J::obj().set("k", "!malformed")); return r; }
    xmlNodePtr root = xmlDocGetRootElement(d);
    for (xmlNodePtr n = root ? root->children : 0; n; n = n->next) {
        if (n->type != XML_ELEMENT_NODE) continue;
        J j = J::obj();
        j.set("k", (char const*)n->name).set("name", xattr(n, "name")).set("source_id", xattr(n, "source_id"))
         .set("size", xattr(n, "size")).set("category", xattr(n, "category")).set("of", xattr(n, "of"))
         .set("kind", xattr(n, "kind")).set("source", xattr(n, "source")).set("dimension", xattr(n, "dimension"));
        J f = J::arr(), v = J::arr();
        for (xmlNodePtr c = n->children; c; c = c->next) {
            if (c->type != XML_ELEMENT_NODE) continue;
            string cn = (char const*)c->name;
            if (cn == "field") f.push(J::obj().set("n", xattr(c, "name")).set("t", xattr(c, "type")).set("off", xattr(c, "offset")).set("m", xmlMeta(c)));
            else if (cn == "value") v.push(J::arr({J(xattr(c, "symbol")), J(xattr(c, "value"))}));
        }
        j.set("fields", f).set("vals", v).set("meta", xmlMeta(n));
        r.push(j);
    }
    xmlFreeDoc(d);
    return r;
}
static string esc(string const& s) {
    string r; for (char c : s) { if (c == '<') r += "&lt;"; else if (c == '>') r += "&gt;"; else if (c == '&') r += "&amp;"; else if (c == '"') r += "&quot;"; else if (c == '\t' || c == '\n' || c == '\r') r += "&#" + std::to_string((int)c) + ";"; else r += c; }
    return r;
}
static string cdata(string const& s) {
    string r = s;
    for (size_t p = 0; (p = r.find("]]>", p)) != string::npos; p += 12) r.replace(p, 3, "]]]]><![CDATA[>");
    for (size_t p = 0; (p = r.find('\r', p)) != string::npos; ) r.replace(p, 1, "]]>&#13;<![CDATA[");
    return r;
}
static string metaXml(J const& m) {
    string r;
    for (auto const& e : m.a) {
        if (e.at(1).a.empty()) r += "<metadata key=\"" + esc(e.at(0).str()) + "\"/>";
        for (auto const& v : e.at(1).a) r += "<metadata key=\"" + esc(e.at(0).str()) + "\"><![CDATA[" + cdata(v.str()) + "]]></metadata>";
    }
    return r;
}
// Inverse of docJ: builds a TLB document from abstract nodes (attributes that
// are absent from a node are not written)
static string docXml(J const& doc, string const& root = "typelib") {
    string r = "<?xml version=\"1.0\"?>\n<" + root + ">\n";
    static const char* attrs[] = { "name", "source_id", "size", "category", "of", "kind", "source", "dimension" };
    for (auto const& n : doc.a) {
        if (n["k"].str() == "!garbage") { r += "<compound name=\"/x\""; continue; }
        string comment = n.has("cm") ? "<!-- <" + n["k"].str() + "> -->" : "";
        r += comment + "<" + n["k"].str();
        for (auto a : attrs) if (n.has(a) && !n[a].isNull() && !(n[a].str().empty() && string(a) != "name")) r += string(" ") + a + "=\"" + esc(n[a].str()) + "\"";
        r += ">" + comment;
        for (auto const& f : n["fields"].a) {
            r += "<field";
            if (f.has("n")) r += " name=\"" + esc(f["n"].str()) + "\"";
            if (f.has("t")) r += " type=\"" + esc(f["t"].str()) + "\"";
            if (f.has("off")) r += " offset=\"" + f["off"].str() + "\"";
            r += ">" + comment + metaXml(f["m"]) + "</field>";
        }
        for (auto const& v : n["vals"].a) r += "<value symbol=\"" + esc(v.at(0).str()) + "\" value=\"" + v.at(1).str() + "\"/>";
        r += metaXml(n["meta"]) + comment;
        r += "</" + n["k"].str() + ">\n";
    }
    return r + "</" + root + ">\n";
}
static J idlJ(string const& text) {
    J r = J::arr(); std::istringstream is(text); string l;
    while (std::getline(is, l)) {
        size_t ind = l.find_first_not_of(' ');
        if (ind == string::npos) continue;
        r.push(J::arr({J((int)ind), J(l.substr(ind))}));
    }
    return r;
}
static J sizeset(std::set<Type*> const& s) { std::set<string> n; for (Type* t : s) n.insert(t->getName()); return J::of(n); }

static J exec(string const& op, J const& c) {
    J out = J("");
    if (op == "reset") {
        val::dropAll();
        for (int i = 0; i < NREG; ++i) { delete regs[i]; regs[i] = new Registry; }
        probes.clear();
        for (auto const& p : c["probes"].a) note(p.str());
        return out;
    }
    Registry& r = *regs[c.has("r") ? c["r"].num() - 1 : 0];
    static const std::set<string> unsafe = { "remove", "clear", "resize", "enumadd" };
    if ((unsafe.count(op) && val::inUse(c.has("r") ? c["r"].num() : 1)) || (c.has("d") && val::inUse(c["d"].num())))
        throw std::runtime_error("driver: " + op + " on a registry that has values");
    if (op == "add") {
        std::unique_ptr<Type> t(mk(r, c["spec"]));
        note(t->getName());
        if (c.has("p")) r.add(t.get(), c["p"].boolean(), c["s"].str()); else if (c["s"].str().empty()) r.add(t.get()); else r.add(t.get(), c["s"].str());
        t.release();
    }
    else if (op == "addrec") { note(c["spec"]["n"].str()); note(c["spec"]["n"].str() + "*"); addRec(r, c["spec"]); }
    else if (op == "container" && c.has("args")) {      // not the number of elements that containers have
        std::list<Type const*> on(c["args"].num(), &need(r, c["of"].str()));
        if (Container::availableContainers().count(c["kind"].str()) != (c["kind"].str() == "/std/vector" || c["kind"].str() == "/std/string")) out = J("!available");
        else out = J(Container::createContainer(r, c["kind"].str(), on).getName());
    }
    else if (op == "container") out = J(Container::createContainer(r, c["kind"].str(), need(r, c["of"].str())).getName());
    else if (op == "alias") {
        note(c["name"].str());
        if (c.has("p")) r.alias(c["base"].str(), c["name"].str(), c["p"].boolean(), c["s"].str());
        else if (c["s"].str().empty()) r.alias(c["base"].str(), c["name"].str());
        else r.alias(c["base"].str(), c["name"].str(), c["s"].str());
    }
    else if (op == "removeAlias") { note(c["name"].str()); r.removeAlias(c["name"].str()); }
    else if (op == "clearAliases") r.clearAliases();
    else if (op == "clear") r.clear();
    else if (op == "remove") {
        std::set<Type*> rem = r.remove(need(r, c["n"].str()));
        out = sizeset(rem);
        for (Type* t : rem) delete t;
    }
    else if (op == "rdeps") {
        Known k = known(r); std::set<string> s;
        for (Type const* t : const_cast<Registry const&>(r).reverseDepends(need(r, c["n"].str()))) s.insert(refname(k, *t));
        out = J::of(s);
    }
    else if (op == "aliasesOf") out = J::of(r.getAliasesOf(need(r, c["n"].str())));
    else if (op == "build") {
        note(c["n"].str());
        Type const* t = c.has("sz") ? r.build(c["n"].str(), c["sz"].num()) : r.build(c["n"].str());
        out = J(t ? refname(known(r), *t) : string());
    }
    else if (op == "tb") {
        // the type builder, step by step
        std::unique_ptr<TypeBuilder> b;
        if (c.has("base")) {
            std::list<string> words;
            for (auto const& w : c["base"].a) words.push_back(w.str());
            b.reset(new TypeBuilder(r, words));
        }
        else b.reset(new TypeBuilder(r, &need(r, c["n"].str())));
        for (auto const& s : c["steps"].a) {
            string k = s.a[0].str(); int n = s.a[1].num();
            if (k == "p") b->addPointer(n);
            else if (k == "a") b->addArrayMajor(n);
            else if (k == "m") b->addArrayMinor(n);
            else b->setSize(n);
        }
        out = J(refname(known(r), b->getType()));
    }
    else if (op == "tbs") {
        string n = c["n"].str();
        note(n);
        out = J::arr();
        out.push(J(TypeBuilder::getBaseTypename(n)));
        Type const* base = TypeBuilder::getBaseType(r, n);
        out.push(J(base ? refname(known(r), *base) : string()));
        Type const* t = c.has("sz") ? TypeBuilder::build(r, n, c["sz"].num()) : TypeBuilder::build(r, n);
        out.push(J(t ? refname(known(r), *t) : string()));
    }
    else if (op == "has") out = J(r.has(c["n"].str()));
    else if (op == "find") { RegistryIterator it = r.find(c["n"].str()); out = it == r.end() ? J("") : J(it.getName()); }
    else if (op == "included") out = J(r.isIncluded(need(*regs[c["r2"].num() - 1], c["n"].str())));
    else if (op == "prefix") {
        out = J::arr();
        for (RegistryIterator it = r.begin(c["n"].str()); it != r.end(c["n"].str()); ++it) out.push(it.getName());
    }
    else if (op == "setns") out = J(r.setDefaultNamespace(c["ns"].str()));
    else if (op == "import") { if (c["erase"].boolean()) r.importNamespace(c["ns"].str(), true); else r.importNamespace(c["ns"].str()); }
    else if (op == "fullname") out = J(r.getFullName(c["n"].str()));
    else if (op == "merge") r.merge(*regs[c["from"].num() - 1]);
    else if (op == "minimal") {
        Registry* m = c["al"].boolean() ? r.minimal(c["n"].str()) : r.minimal(c["n"].str(), false);
        delete regs[c["d"].num() - 1]; regs[c["d"].num() - 1] = m;
    }
    else if (op == "minimal2") {
        Registry const& autos = *regs[c["auto"].num() - 1];
        Registry* m = c["keep"].boolean() ? r.minimal(autos, true) : r.minimal(autos);
        delete regs[c["d"].num() - 1]; regs[c["d"].num() - 1] = m;
    }
    else if (op == "resize") {
        std::map<string, size_t> s;
        for (auto const& e : c["sizes"].a) s[e.at(0).str()] = e.at(1).num();
        r.resize(s);
    }
    else if (op == "setsrc") r.setSourceID(need(r, c["n"].str()), c["s"].str());
    else if (op == "meta") {
        Type const& t = need(r, c["n"].str());
        MetaData* m = &t.getMetaData();
        if (c.has("f") && !c["f"].str().empty()) {
            Compound const* cc = dynamic_cast<Compound const*>(&t);
            Field const* f = cc ? cc->getField(c["f"].str()) : 0;
            if (!f) throw NoRef();
            m = &f->getMetaData();
        }
        string mode = c["mode"].str();
        if (mode == "set") m->set(c["k"].str(), c["v"].str());
        else if (mode == "add") m->add(c["k"].str(), c["v"].str());
        else if (mode == "both") { MetaData::Values vs; vs.insert(c["v"].str()); vs.insert("w"); m->add(c["k"].str(), vs); }
        else if (mode == "key") m->add(c["k"].str(), MetaData::Values());
        else if (mode == "clear") m->clear(c["k"].str());
        else if (mode == "clearall") m->clear();
        else throw std::runtime_error("driver: meta mode");
        J g = J::arr(); for (auto const& x : m->get(c["k"].str())) g.push(x);
        out = J::arr({J(m->include(c["k"].str())), g});
    }
    else if (op == "mergemeta") r.mergeMetaData(*regs[c["from"].num() - 1]);
    else if (op == "enumget") {
        Enum const* e = dynamic_cast<Enum const*>(&need(r, c["n"].str()));
        if (!e) throw NoRef();
        if (c.has("sym")) out = J(e->get(c["sym"].str())); else out = J(e->get(c["val"].num()));
    }
    else if (op == "enumadd") {
        Enum* e = dynamic_cast<Enum*>(r.get_(c["n"].str()));
        if (!e) throw NoRef();
        if (c["auto"].boolean()) e->add(c["sym"].str(), e->getNextValue()); else e->add(c["sym"].str(), c["val"].num());
        J nm = J::arr(); for (auto const& x : e->names()) nm.push(x);
        out = J::arr({J(e->getNextValue()), nm});
    }
    else if (op == "same") {
        Registry& r2 = *regs[c["r2"].num() - 1];
        Known k1 = known(r), k2 = known(r2);
        J same = J::arr(), cast = J::arr();
        for (auto const& a : k1) for (auto const& b : k2) {
            if (a.first->isSame(*b.first)) same.push(J::arr({J(a.second), J(b.second)}));
            if (a.first->canCastTo(*b.first)) cast.push(J::arr({J(a.second), J(b.second)}));
        }
        out = J::obj().set("reg", r.isSame(r2)).set("same", same).set("cast", cast);
    }
    else if (op == "order") {
        RecordingExporter e; std::ostringstream os; utilmm::config_set cfg;
        Exporter& ex = e;
        ex.save(os, cfg, r);
        out = J::obj().set("order", e.order).set("marks", e.marks);
    }
    else if (op == "tlbsave") out = docJ(PluginManager::save("tlb", r));
    else if (op == "tlbload") {      // abstract document -> registry d
        std::istringstream is(docXml(c["doc"], c.has("root") ? c["root"].str() : "typelib"));
        PluginManager::load("tlb", is, r);
    }
    else if (op == "tlbraw") { std::istringstream is(c["text"].str()); PluginManager::load("tlb", is, r); }
    else if (op == "iofail") {       // files that cannot be read or written
        string how = c["how"].str(), path = how == "full" ? string("/dev/full") : scratch() + (how == "dir" ? "" : how == "nodir" ? "/none/t.tlb" : "/none.tlb");
        string fmt = c["fmt"].str();
        bool failed = false;
        try {
            if (how == "missing" || how == "dir") PluginManager::load("tlb", path, r);
            else { std::unique_ptr<Exporter> e(PluginManager::self()->exporter(fmt)); utilmm::config_set cfg; e->save(path, cfg, r); }
        } catch (std::exception&) { failed = true; }
        if (failed) throw std::runtime_error("file");
    }
    else if (op == "tlbtrip") {      // r -> text -> fresh registry d (via file or stream), nodes permuted
        string text = PluginManager::save("tlb", r);
        if (c.has("perm") && !c["perm"].a.empty()) {
            J d = docJ(text), d2 = J::arr();
            size_t n = d.a.size();
            for (auto const& i : c["perm"].a) if (n) { size_t at = i.num() % d.a.size(); d2.push(d.a[at]); d.a.erase(d.a.begin() + at); if (d.a.empty()) break; }
            for (auto const& x : d.a) d2.push(x);
            text = docXml(d2);
        }
        std::unique_ptr<Registry> n(new Registry);
        if (c["file"].boolean()) {
            string path = scratch() + "/t.tlb";
            { std::unique_ptr<Exporter> e(PluginManager::self()->exporter("tlb")); utilmm::config_set cfg; e->save(path, cfg, r); }
            PluginManager::load("tlb", path, *n);
        }
        else { std::istringstream is(text); PluginManager::load("tlb", is, *n); }
        delete regs[c["d"].num() - 1]; regs[c["d"].num() - 1] = n.release();
    }
    else if (op == "idl") {
        utilmm::config_set cfg;
        if (c.has("prefix")) cfg.set("namespace_prefix", c["prefix"].str());
        if (c.has("suffix")) cfg.set("namespace_suffix", c["suffix"].str());
        if (c.has("any")) cfg.set("opaque_as_any", "true");
        if (c.has("blob")) cfg.set("blob_threshold", std::to_string(c["blob"].num()));
        for (auto const& s : c["sel"].a) cfg.insert("selected", s.str());
        if (c.has("again")) {   // an exporter that has been used before
            static std::unique_ptr<Exporter> exporter(PluginManager::self()->exporter("idl"));
            std::ostringstream os;
            exporter->save(os, cfg, r);
            out = idlJ(os.str());
        }
        else out = idlJ(PluginManager::save("idl", cfg, r));
    }
    else if (op == "copysrc") r.copySourceIDs(*regs[c["from"].num() - 1]);
    else if (op == "dump") {
        std::ostringstream os;
        bool all = c["all"].boolean(), src = c["src"].boolean(); string flt = c["flt"].str();
        int mode = (all ? Registry::AllType : Registry::NameOnly) | (src ? Registry::WithSourceId : 0);
        if (flt != "*") r.dump(os, mode, flt); else if (mode != Registry::AllType) r.dump(os, mode); else r.dump(os);
        out = J(os.str());
    }
    else if (op == "show") {
        std::ostringstream os;
        string ind = c["ind"].str();
        if (ind.empty()) os << need(r, c["n"].str()); else os << type_display(need(r, c["n"].str()), ind);
        out = J(os.str());
    }
    else if (op == "stdtypes") CXX::addStandardTypes(r);
    else if (op == "noop") { }
    else throw std::runtime_error("driver: unknown op " + op);
    return out;
}

static void xmlquiet(void*, const char*, ...) {}
int main(int argc, char** argv) {
    std::ifstream in(argv[1]); std::ofstream os(argv[2]);
    xmlSetGenericErrorFunc(0, xmlquiet);
    struct NullBuf : public std::streambuf { int overflow(int c) { return c; } std::streamsize xsputn(char const*, std::streamsize n) { return n; } };
    NullBuf* sink = new NullBuf;     // the streams are flushed at exit
    std::clog.rdbuf(sink); std::cout.rdbuf(sink);
    signal(SIGXFSZ, SIG_IGN);
    PluginManager::self keep;
    for (int i = 0; i < NREG; ++i) regs[i] = new Registry;
    string line;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        J c = jparse(line), out("");
        if (c.has("grow")) {    // increments of the current sizes: made absolute
            Registry& r = *regs[c["r"].num() - 1];
            J sz = J::arr();
            std::set<Type const*> seen;     // a type is given a single size
            for (auto const& e : c["grow"].a) {
                Type const* t = r.get(e.at(0).str());
                if (t && !seen.insert(t).second) continue;
                sz.push(J::arr({J(e.at(0).str()), J((long long)((t ? t->getSize() : 0) + e.at(1).num()))}));
            }
            c.set("sizes", sz);
        }
        string res;
        // announce the operation first so that a crash can be attributed
        { std::ofstream cur(string(argv[2]) + ".cur", std::ios::trunc); cur << line << "\n"; }
        bool isval = c["op"].str()[0] == 'v' && c["op"].str().size() > 1;
        try { if (isval) out = val::exec(c["op"].str(), c, regs); else out = exec(c["op"].str(), c); res = "ok"; }
        catch (std::exception const& e) { res = excname(e); if (getenv("VERBOSE")) std::cerr << e.what() << std::endl; }
        catch (char const* e) { res = "error"; }
        if (c["op"].str() != "reset" && !isval) noteAll();
        J ev = c;
        if (ev.has("doc")) { }
        ev.set("res", res).set("out", out);
        // names that are looked up in every registry from now on
        J np = J::arr();
        static std::set<string> known_probes;
        if (c["op"].str() == "reset") known_probes.clear();
        for (auto const& p : probes) if (known_probes.insert(p).second) np.push(p);
        ev.set("np", np);
        J st = J::arr();
        static string last[NREG];
        for (int i = 0; i < NREG; ++i) {
            J rj = regJ(*regs[i]);
            string now = jstr(rj);
            if (now == last[i]) rj = J::arr(); else last[i] = now;   // unchanged: not repeated
            st.push(rj);
        }
        ev.set("st", st).set("vs", val::changes()).set("leak", val::leak());
        jwrite(os, ev); os << "\n"; os.flush();
    }
    for (int i = 0; i < NREG; ++i) delete regs[i];
    return 0;
}
