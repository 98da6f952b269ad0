// Conformance driver of the functions on type names (typename.hh).
#include "json.hh"
#include <typelib/typename.hh>
#include <typelib/typebuilder.hh>
#include <fstream>
#include <iostream>
using namespace Typelib;
using std::string; using std::vector;

static J parts(string const& s) { J j = J::arr(); for (auto const& x : splitTypename(s)) j.push(x); return j; }
static J describe(string const& s) { return J::arr({J(s), parts(s), J(getTypename(s)), J(getNamespace(s)), J(isAbsoluteName(s))}); }
static J exec(J const& c) {
    string op = c["op"].str();
    J out = J::obj();
    if (op == "enum" || op == "list") {
        // all strings made of the prefix and n characters, or the given ones
        vector<string> q;
        if (op == "list") for (auto const& x : c["q"].a) q.push_back(x.str());
        else {
            q.push_back(c["prefix"].str());
            for (int i = 0; i < c["n"].num(); ++i) {
                vector<string> n;
                for (auto const& s : q) for (auto const& x : c["chars"].a) n.push_back(s + x.str());
                q.swap(n);
            }
        }
        J va = J::arr(), vr = J::arr(), na = J::arr(), nr = J::arr(), norm = J::arr();
        for (auto const& s : q) {
            bool a = isValidTypename(s, true), r = isValidTypename(s, false);
            if (a) va.push(s);
            if (r) vr.push(describe(s));
            if (isValidNamespace(s, true)) na.push(s);
            if (isValidNamespace(s, false)) { nr.push(s); norm.push(getNormalizedNamespace(s)); }
        }
        out.set("va", va).set("vr", vr).set("na", na).set("nr", nr).set("norm", norm);
    }
    else if (op == "sort") {
        J m = J::arr();
        for (auto const& a : c["q"].a) { string row; for (auto const& b : c["q"].a) row += nameSort(a.str(), b.str()) ? '1' : '0'; m.push(row); }
        out = m;
    }
    else if (op == "paths") {
        out = J::arr();
        for (auto const& n : c["q"].a) for (auto const& s : c["ns"].a) {
            bool in = isInNamespace(n.str(), s.str(), true);
            out.push(J::arr({n, s, J(isInNamespace(n.str(), s.str(), false)), J(in), J(in ? getRelativeName(n.str(), s.str()) : string()), J(getMinimalPathTo(n.str(), s.str()))}));
        }
    }
    return out;
}
int main(int, char** argv) {
    std::ifstream in(argv[1]); std::ofstream os(argv[2]);
    string line;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        J c = jparse(line), out(""); string res = "ok";
        try { out = exec(c); } catch (std::exception const& e) { res = "error"; }
        jwrite(os, c.set("res", res).set("out", out)); os << "\n"; os.flush();
    }
}
