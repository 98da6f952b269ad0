// Minimal JSON reader / writer used by the conformance drivers.
#ifndef VERIF_JSON_HH
#define VERIF_JSON_HH
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <cstdlib>
#include <cstdio>
#include <initializer_list>

struct J {
    enum K { Nul, Bool, Int, Str, Arr, Obj } k;
    bool b; long long i; std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J> > o;
    J() : k(Nul), b(false), i(0) {}
    J(bool v) : k(Bool), b(v), i(0) {}
    J(int v) : k(Int), b(false), i(v) {}
    J(unsigned v) : k(Int), b(false), i(v) {}
    J(long v) : k(Int), b(false), i(v) {}
    J(unsigned long v) : k(Int), b(false), i((long long)v) {}
    J(long long v) : k(Int), b(false), i(v) {}
    J(const char* v) : k(Str), b(false), i(0), s(v) {}
    J(std::string const& v) : k(Str), b(false), i(0), s(v) {}
    static J arr() { J j; j.k = Arr; return j; }
    static J arr(std::initializer_list<J> l) { J j; j.k = Arr; j.a = l; return j; }
    static J obj() { J j; j.k = Obj; return j; }
    template<typename C> static J of(C const& c) { J j = arr(); for (auto const& e : c) j.a.push_back(J(e)); return j; }
    J& push(J const& v) { if (k == Nul) k = Arr; a.push_back(v); return *this; }
    J& set(std::string const& key, J const& v) {
        if (k == Nul) k = Obj;
        for (auto& e : o) if (e.first == key) { e.second = v; return *this; }
        o.push_back(std::make_pair(key, v)); return *this;
    }
    bool has(std::string const& key) const { for (auto& e : o) if (e.first == key) return true; return false; }
    J const& operator[](std::string const& key) const {
        for (auto& e : o) if (e.first == key) return e.second;
        static J nul; return nul;
    }
    J const& at(size_t n) const { return a.at(n); }
    size_t size() const { return k == Arr ? a.size() : o.size(); }
    bool isNull() const { return k == Nul; }
    std::string str() const { return s; }
    int num() const { return (int)i; }
    bool boolean() const { return k == Bool ? b : i != 0; }
};

inline void jesc(std::ostream& os, std::string const& s) {
    os << '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') os << '\\' << c;
        else if (c < 0x20 || c >= 0x7f) { char buf[8]; snprintf(buf, 8, "\\u%04x", c); os << buf; }
        else os << c;
    }
    os << '"';
}
inline void jwrite(std::ostream& os, J const& j) {
    switch (j.k) {
        case J::Nul: os << "\"\""; break;
        case J::Bool: os << (j.b ? "true" : "false"); break;
        case J::Int: os << j.i; break;
        case J::Str: jesc(os, j.s); break;
        case J::Arr: { os << '['; bool f = true; for (auto& e : j.a) { if (!f) os << ','; f = false; jwrite(os, e); } os << ']'; break; }
        case J::Obj: { os << '{'; bool f = true; for (auto& e : j.o) { if (!f) os << ','; f = false; jesc(os, e.first); os << ':'; jwrite(os, e.second); } os << '}'; break; }
    }
}
inline std::string jstr(J const& j) { std::ostringstream os; jwrite(os, j); return os.str(); }

struct JP {
    const char* p; const char* e;
    JP(std::string const& s) : p(s.data()), e(s.data() + s.size()) {}
    void ws() { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) ++p; }
    void fail() { throw std::runtime_error(std::string("bad json near: ") + std::string(p, std::min(e, p + 30))); }
    J val() {
        ws(); if (p >= e) fail();
        if (*p == '{') {
            J j = J::obj(); ++p; ws();
            if (*p == '}') { ++p; return j; }
            while (true) { ws(); std::string k = str(); ws(); if (*p++ != ':') fail(); j.o.push_back(std::make_pair(k, val())); ws();
                if (*p == ',') { ++p; continue; } if (*p == '}') { ++p; return j; } fail(); }
        }
        if (*p == '[') {
            J j = J::arr(); ++p; ws();
            if (*p == ']') { ++p; return j; }
            while (true) { j.a.push_back(val()); ws(); if (*p == ',') { ++p; continue; } if (*p == ']') { ++p; return j; } fail(); }
        }
        if (*p == '"') return J(str());
        if (*p == 't') { p += 4; return J(true); }
        if (*p == 'f') { p += 5; return J(false); }
        if (*p == 'n') { p += 4; return J(); }
        char* q; long long v = strtoll(p, &q, 10); if (q == p) fail(); p = q; return J(v);
    }
    std::string str() {
        if (*p != '"') fail(); ++p; std::string r;
        while (p < e && *p != '"') {
            if (*p == '\\') { ++p;
                switch (*p) { case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break;
                    case 'b': r += '\b'; break; case 'f': r += '\f'; break;
                    case 'u': r += (char)strtol(std::string(p + 1, 4).c_str(), 0, 16); p += 4; break;
                    default: r += *p; } ++p; }
            else r += *p++;
        }
        ++p; return r;
    }
};
inline J jparse(std::string const& s) { JP p(s); return p.val(); }
#endif
