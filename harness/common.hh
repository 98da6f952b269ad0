#ifndef VERIF_COMMON_HH
#define VERIF_COMMON_HH
#include <typelib/registry.hh>
#include <typelib/typemodel.hh>
#include <typelib/typevisitor.hh>
#include <typelib/pluginmanager.hh>
#include <typelib/importer.hh>
#include <cstdlib>
#include <string>
struct NoRef : public std::runtime_error { NoRef() : std::runtime_error("driver: no such reference") {} };
static inline std::string excname(std::exception const& e) {
    using namespace Typelib;
    if (dynamic_cast<NoRef const*>(&e)) return "NoRef";
    if (dynamic_cast<AlreadyDefined const*>(&e)) return "AlreadyDefined";
    if (dynamic_cast<BadName const*>(&e)) return "BadName";
    if (dynamic_cast<Undefined const*>(&e)) return "Undefined";
    if (dynamic_cast<DefinitionMismatch const*>(&e)) return "DefinitionMismatch";
    if (dynamic_cast<ExportError const*>(&e)) return "ExportError";
    if (dynamic_cast<UnknownContainer const*>(&e)) return "UnknownContainer";
    std::string w = e.what();
    if (w.compare(0, 7, "driver:") == 0) { fprintf(stderr, "%s\n", e.what()); _exit(97); }
    return "error";
}
static inline std::string scratch() { char const* s = getenv("VERIF_SCRATCH"); return s ? s : "/tmp"; }
#endif
