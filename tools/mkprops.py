#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties are kept here so that they
are easy to edit)."""
import json
P = []


def p(id, title, st, over, q, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))


REG = ["typelib/registry.cc", "typelib/registry.hh"]
p("C01", "A registry is always closed and consistent",
  "After any sequence of registry operations (additions, aliases, derived types, containers, merges, imports, resizes, removals), whether they succeed or fail, every registered name refers to a type the registry owns, every owned type is registered under its own name, and every type a registered type refers to is registered in the same registry. Names are unique: registering an existing name under another definition or an invalid name is refused and leaves the registry as it was. Each name keeps the persistence flag and source ID it was given, and iteration, size and prefix lookup agree on the set of names.",
  ["histories", "inputs"], "every sequence of public registry calls on several registries, including calls that fail",
  "Tests make a handful of fixed registries; the guarantee is over all histories, including failed merges and imports and removals in the middle.",
  REG + ["typelib/registryiterator.cc", "typelib/typemodel.cc"],
  [("Registry::add / alias / merge / remove keep the global and current maps in step", "typelib/registry.cc"), ("Type::merge / try_merge copy dependencies first", "typelib/typemodel.cc")],
  [("m_global", "absolute name -> (type, persistent, source id)", "typelib/registry.hh"), ("m_current", "names usable relative to the default namespace", "typelib/registry.hh")],
  ["Registry::begin/end, get, has, size, source, isPersistent"])
p("C02", "Name lookup depends only on registered names and the namespace",
  "Looking up a name gives the same answer whatever the order and kind of the operations that led to the registry's contents: an absolute name gives the type registered under it, and a relative name gives the type registered in the innermost of the default namespace and its enclosing namespaces that has such a name. Types, aliases and removals made after the default namespace was set are taken into account at once. Names brought in by an explicit namespace import (erasing previous meanings or not) are found relatively as well until the default namespace changes.",
  ["histories"], "every interleaving of additions, aliases, removals and namespace changes",
  "Tests set the namespace once, on a few names; shadowing between namespaces and removal of a shadowing name need particular histories.",
  REG + ["typelib/typename.cc"], [("importNamespace / setDefaultNamespace / updateCurrentNameMap", "typelib/registry.cc"), ("nameSort order", "typelib/typename.cc")],
  [("m_current", "relative name map", "typelib/registry.hh")], ["Registry::get, has, getFullName, setDefaultNamespace"])
p("C03", "Merging gives the union of two registries or fails",
  "A successful merge leaves every name of the target with the definition it had and gives the target every name of the source with the same definition as in the source; types are matched by name and definition, recursive and indirect types included. A merge fails with a definition mismatch or name clash exactly when some name is defined differently on both sides, and a failed merge only ever adds complete types. Merging the same registry again changes nothing, and the source is never modified.",
  ["inputs", "histories"], "all pairs of registries built by any history, in both directions, repeated",
  "Tests merge a few fixed registries; conflicts hidden behind aliases, recursive types and containers are not sampled.",
  REG + ["typelib/typemodel.cc"], [("Registry::merge, Type::merge, try_merge", "typelib/registry.cc, typelib/typemodel.cc")], (), ["Registry::merge, isSame"])
p("C04", "A minimal registry is exactly the dependency closure",
  "The minimal registry of a type contains exactly the types this type depends on, directly or not, with the same definitions, metadata and source IDs; the aliases of these types are included if and only if they are asked for. The minimal registry relative to a registry of automatic types contains every persistent or needed type that is not available there, with its dependencies and the aliases that apply. The original registry is not modified.",
  ["inputs"], "every registry and every name of it, with and without aliases",
  "Tests ask for one type of one registry.",
  REG, [("Registry::minimal", "typelib/registry.cc")], (), ["Registry::minimal"])
p("C05", "Removing a type removes exactly what depends on it",
  "The reverse dependencies of a type are the type itself and all types that depend on it directly or through others, arrays, pointers, containers and recursive compounds included. Removing a type removes exactly these types, with all their names and aliases, hands them to the caller and leaves everything else untouched and usable. Names that were hidden by a removed name become visible again, and removing aliases or clearing the registry leaves no dangling name.",
  ["histories", "inputs"], "every dependency graph and every type of it",
  "Tests remove one type of a small graph.",
  REG + ["typelib/typemodel.cc"], [("reverseDepends, remove, clearAliases, removeAlias", "typelib/registry.cc"), ("dependsOn", "typelib/typemodel.cc")], (), ["Registry::remove, reverseDepends, getAliasesOf"])
p("C06", "Aliases of a type also name the types derived from it",
  "When a type has an alias, its arrays, pointers and containers are found under the name derived from the alias as well as under the one derived from the type's own name, at any nesting depth. This holds whether the alias is created before or after the derived type and whether it comes from a direct call, a merge or an import. The set of aliases reported for a type is exactly the set of its other names.",
  ["histories"], "all orders of creation of types, derived types and aliases",
  "Tests check a single alias created in one order.",
  REG + ["typelib/typemodel.cc", "typelib/typebuilder.cc"], [("modifiedDependencyAliases", "typelib/typemodel.cc"), ("Registry::alias", "typelib/registry.cc")], (), ["Registry::get, getAliasesOf"])
p("C07", "Type comparison is a well-defined equivalence",
  "Being the same type is reflexive, symmetric and transitive, terminates on recursive types, and holds exactly when category, size, element types, dimensions, symbols, field names and offsets agree, whatever registries the two types come from. Castability holds whenever two types are the same, is reflexive and transitive, and otherwise only allows an enumeration to gain symbols and a compound to differ in padding. Two registries are the same exactly when they have the same names with the same definitions.",
  ["inputs"], "all pairs and triples of types, recursive ones included, within and across registries",
  "Tests compare a few pairs; symmetry and transitivity need all pairs.",
  ["typelib/typemodel.cc", "typelib/registry.cc"], [("Type::isSame, canCastTo, do_compare, rec_compare", "typelib/typemodel.cc"), ("Registry::isSame", "typelib/registry.cc")], (), ["Type::isSame, canCastTo, Registry::isSame"])
p("C08", "TLB export then import gives back the registry",
  "Exporting any registry without recursive types to TLB and importing the result in an empty registry gives back every persistent type, alias, field, offset, size, enumeration symbol and value, container, metadata entry and source ID, whatever characters names, metadata values and source IDs contain. Derived types that are not stored are found again on the imported registry. Exporting does not modify the registry, and a registry with recursive types is refused with an export error. Files that cannot be read or written (completely) are reported as an error.",
  ["inputs"], "all registries that can be built through the API, metadata and sources with any text",
  "Tests round-trip one fixed registry.",
  ["lang/tlb/export.cc", "lang/tlb/import.cc", "typelib/exporter.cc"], [("TlbExport", "lang/tlb/export.cc"), ("TlbImport two-pass loading", "lang/tlb/import.cc")], (), ["PluginManager::save/load with tlb"])
p("C09", "TLB import is independent of entry order and rejects bad input",
  "The registry that results from importing a TLB document does not depend on the order of its entries (which define each name once): types may be used before they are defined. A document that is malformed, misses attributes, uses an unknown category, or refers to undefined types is refused with an error and never crashes or leaves an incomplete type behind. What an accepted document defines is exactly what ends up in the registry, in addition to what was there; a name that was registered before keeps its definition, and of several entries for one name the first counts.",
  ["inputs"], "all permutations of generated documents, valid and invalid documents, import into non-empty registries",
  "Tests load a few files in one order.",
  ["lang/tlb/import.cc"], [("RegistryNodes worklist and cycle detection", "lang/tlb/import.cc")], (), ["PluginManager::load with tlb, Importer"])
p("C10", "Exporters see each persistent name once, dependencies first",
  "An export presents each persistent type and alias exactly once, never a non-persistent one, and each type only after the types it needs and each alias after its source, between one begin and one end notification. Exporting ends for every registry: with an export error exactly when a type depends on itself. The registry is the same after the export.",
  ["inputs"], "all dependency graphs, aliases across namespaces included",
  "Tests export one fixed registry and compare the text.",
  ["typelib/exporter.cc"], [("Exporter::save worklist over namespaces", "typelib/exporter.cc")], (), ["Exporter::save (begin, save, end)"])
p("C11", "Dumping then loading a value restores it byte for byte",
  "For every type without pointers and opaques (fields in order and not overlapping) and every value of it, dumping the value and loading the dump into an initialized value of the same type gives a value equal to the original, containers of any nesting and size included. The same bytes are produced whatever the destination: byte array, stream, file descriptor or FILE. The format is fixed: raw bytes of plain data including inner padding, containers as a 64-bit count followed by their elements.",
  ["inputs"], "all type structures (compounds, arrays, vectors, strings, padding) and all values, merged and unmerged layouts",
  "Tests use a few fixed structures.",
  ["typelib/value_ops.cc", "typelib/memory_layout.cc", "lang/csupport/containers.cc"], [("ValueOps::dump, load", "typelib/value_ops.cc"), ("MemLayout::Visitor", "typelib/memory_layout.cc"), ("Vector::dump, load", "lang/csupport/containers.cc")], (), ["dump, load, layout_of"])
p("C12", "Loading rejects truncated and oversized input; sizes are exact",
  "The announced dump size is the exact number of bytes a dump produces, and dumping into a buffer that is too small is reported and writes nothing past it. Loading a prefix of a dump, a dump followed by extra bytes, or a dump whose element count exceeds the input is refused with an exception, without reading outside the input, leaking or corrupting the destination, which can still be cleared, loaded again and destroyed. Write errors of the destination are reported.",
  ["inputs", "fault_sequences"], "every truncation point and extension of every dump, every buffer size, failing streams",
  "Tests try one truncation.",
  ["typelib/value_ops.cc", "lang/csupport/containers.cc"], [("ByteArrayInputStream / OutputStream checks", "typelib/value_ops.cc"), ("getDumpSize", "typelib/value_ops.cc")], (), ["dump, load, getDumpSize"])
p("C13", "Values can be initialized, copied, compared and destroyed safely",
  "For every type whose fields are in order and do not overlap, initializing, zeroing, copying and destroying values releases every allocation exactly once and never touches memory outside the value. A copy compares equal to its source, is independent of it, and comparison is an equivalence that looks at the contents only, not at padding bytes; copying onto a value with other contents replaces them entirely. Zeroing gives zero bytes and empty containers; initialization gives valid enumerations and empty containers and leaves the rest as it was.",
  ["histories", "inputs"], "all sequences of init, set, copy, zero, compare, destroy on several values of all type structures",
  "Tests copy a few structures once.",
  ["typelib/value_ops.cc", "typelib/value.cc", "lang/csupport/containers.cc"], [("ValueOps::init, copy, compare, destroy, zero", "typelib/value_ops.cc"), ("Vector::copy, compare", "lang/csupport/containers.cc")], (), ["init, zero, destroy, copy, compare, Typelib::Value"])
p("C14", "Containers behave as sequences",
  "A container value behaves as a sequence: pushing appends one equal copy, erasing removes the first equal element, conditional deletion removes exactly the elements that satisfy the predicate, clearing empties it, and size, element access and visiting in order agree at all times. Elements that are themselves containers or compounds are copied deeply, and operations on one container never affect another. An operation with a value of the wrong element type is refused and changes nothing. Strings are sequences that only support pushing, clearing, counting and visiting: setting or reading single elements is refused, erasing and conditional deletion leave them as they are.",
  ["histories"], "all sequences of container operations on vectors (nested, of compounds, of strings) and strings",
  "Tests run a short fixed sequence.",
  ["lang/csupport/containers.cc", "typelib/typemodel.hh"], [("Vector, String", "lang/csupport/containers.cc")], (), ["Container::push, erase, delete_if, clear, getElementCount, getElement, setElement, visit"])
p("C15", "Endian swapping reverses each number, is an involution",
  "Swapping the byte order of a value reverses the bytes of each number and enumeration in it, wherever it is nested, and leaves everything else (padding included where it is copied) as it was; swapping twice gives the original value. The compiled swap and the in-place swap agree on every type both support. Types that cannot be swapped are refused with an error.",
  ["inputs"], "all type structures over all number sizes, nested arrays and compounds with padding, all byte contents",
  "Tests swap one structure.",
  ["typelib/endianness.cc", "typelib/endianness.hh"], [("CompileEndianSwapVisitor", "typelib/endianness.cc"), ("EndianSwapVisitor", "typelib/endianness.hh")], (), ["CompileEndianSwapVisitor::apply, swap, endian_swap"])
p("C16", "CSV header and lines line up for every type",
  "For every type without pointers and containers the CSV header has one column per leaf of the type, named by its path, and for every value the CSV line has exactly one cell per leaf in the same order, holding the value of this leaf: number, enumeration symbol (or number, for a value without symbol), or a placeholder naming the type for opaque data. For a pointer to such a value, the line shows what it points to and paths start with *(name). Nothing outside the value is read.",
  ["inputs"], "all type structures and values, any separator",
  "Tests print one structure.",
  ["typelib/csvoutput.cc", "typelib/csvoutput.hh"], [("HeaderVisitor, LineVisitor", "typelib/csvoutput.cc")], (), ["CSVOutput::header, display"])
p("C17", "Type names obey one algebra",
  "Every name is either valid or not, the check is total and terminates, and a valid name splits into namespace and base name that join to the same name again, template arguments and array brackets never being cut. Normalization is idempotent, the ordering of names is a strict weak ordering under which a namespace's contents are contiguous, and the shortest relative name computed for a type in a namespace designates that type. A name accepted for a type is accepted for its arrays, pointers and containers.",
  ["inputs"], "all strings over the alphabet of names up to a length, and all pairs and triples of them for the ordering",
  "Tests check a list of names.",
  ["typelib/typename.cc", "typelib/typename.hh"], [("isValidTypename, NameTokenizer, splitTypename, nameSort, getMinimalPathTo", "typelib/typename.cc")], (), ["functions of typename.hh"])
p("C18", "Building a derived type is deterministic and idempotent",
  "Asking for a name made of a known type followed by array and pointer marks gives the type made by these marks applied from left to right, with the size and name they imply, and creates each missing intermediate type once; asking again gives the same type. A name whose base is unknown or whose marks are malformed gives nothing and leaves the registry unchanged. Whether a name is reported as available agrees with whether building it succeeds.",
  ["inputs", "histories"], "all sequences of marks on all types, via aliases and relative names",
  "Tests build a few names.",
  ["typelib/typebuilder.cc", "typelib/registry.cc"], [("TypeBuilder::parseTypename, build", "typelib/typebuilder.cc"), ("Registry::build, has", "typelib/registry.cc")], (), ["Registry::build, has; TypeBuilder"])
p("C19", "Resizing types keeps every dependent layout consistent",
  "After resizing types, each resized type has its new size, arrays have their dimension times the size of their elements, compounds grow by the growth of their fields and the fields after a grown field move by this growth, through any nesting and each exactly once. Fields never overlap where they did not before, types that do not contain a resized type are unchanged, and resizing an unknown type is refused and changes nothing.",
  ["inputs", "histories"], "all nestings of compounds, arrays, pointers and containers, several types resized at once",
  "Tests resize one type used once.",
  ["typelib/typemodel.cc", "typelib/registry.cc"], [("Type::resize, do_resize", "typelib/typemodel.cc"), ("Registry::resize", "typelib/registry.cc")], (), ["Registry::resize"])
p("C20", "Shared singletons and plugins survive concurrent use",
  "A shared singleton exists exactly while at least one reference to it does: concurrent acquisition gives all users the same instance, it is constructed once, destroyed once after the last release, and can be created again afterwards. The plugin manager lists each registered exporter and importer once, gives a new working object for each request and reports unknown names with an error, under any interleaving of uses.",
  ["schedules", "histories"], "all interleavings of acquire, use and release by several threads",
  "Tests are single threaded.",
  ["typelib/utilmm/singleton/server.cc", "typelib/utilmm/singleton/use.hh", "typelib/utilmm/singleton/wrapper.hh", "typelib/utilmm/singleton/dummy.cc", "typelib/pluginmanager.cc"], [("singleton server reference counting under lock", "typelib/utilmm/singleton/server.cc")], (), ["utilmm::singleton::use, PluginManager"])
p("C21", "IDL export is complete, ordered and well nested",
  "The IDL produced for any exportable registry defines each selected persistent type and alias exactly once, with the members, element types and dimensions it has in the registry, after the selected definitions it uses, inside properly opened and closed modules that match its namespace with the configured prefix and suffix. Builtins of IDL are used for numeric types and strings; aliases whose names cannot be given to a typedef are left out. Types that IDL cannot express are refused with an error rather than left out, except where the options say how to represent them (opaques as any, large types as octet sequences). An exporter can be used again, and the registry is not modified.",
  ["inputs", "configurations"], "all registries and all combinations of the export options",
  "Tests compare two fixed outputs.",
  ["lang/idl/export.cc"], [("IDLExport, IDLTypeIdentifierVisitor", "lang/idl/export.cc")], (), ["PluginManager::save with idl"])
p("C22", "Metadata behaves as a multimap and is never lost",
  "Metadata of a type or field is a set of values per key: setting replaces, adding extends, clearing a key or everything removes exactly that, and nothing else changes. Merging registries or metadata unites the sets of both sides for types and fields of the same name; minimal registries and round trips keep them. A type's source ID, its metadata entry and its registration agree.",
  ["histories"], "all sequences of metadata operations interleaved with merges, minimal registries and round trips",
  "Tests set and merge one key.",
  ["typelib/typemodel.cc", "typelib/registry.cc"], [("MetaData", "typelib/typemodel.cc"), ("Registry::mergeMetaData, setSourceID", "typelib/registry.cc")], (), ["Type::getMetaData, Field::getMetaData, Registry::mergeMetaData, setSourceID"])
p("C23", "Enumerations map symbols to values consistently",
  "In an enumeration each symbol has exactly one value: looking up a symbol gives the value it was added with, looking up a value gives a symbol that has it, and unknown symbols and values are refused. Adding a symbol again with another value is refused and changes nothing; adding it with the same value is accepted. The next automatic value is one more than that of the last symbol added.",
  ["histories"], "all sequences of additions and lookups",
  "Tests look up a few symbols.",
  ["typelib/typemodel.cc", "typelib/typemodel.hh"], [("Enum::add, get, getNextValue", "typelib/typemodel.cc")], (), ["Enum::add, get, symbols, names, getNextValue"])
p("C24", "Visiting and casting reach exactly the right data",
  "Visiting a value calls exactly one callback per leaf in layout order with the address, type and contents of that leaf, arrays and containers element by element. Visiting a type calls one callback per part of its definition, depth first, until one returns false. Getting a field of a compound by name gives the value at the field's offset with the field's type, and an unknown field is refused. Casting a number to a C++ type succeeds exactly when category and size match, and then gives its value.",
  ["inputs"], "all type structures and values",
  "Tests visit one structure.",
  ["typelib/value.cc", "typelib/value.hh", "typelib/typedisplay.cc", "typelib/typevisitor.cc"], [("ValueVisitor dispatch", "typelib/value.cc"), ("value_get_field, value_cast", "typelib/value.hh")], (), ["ValueVisitor, value_get_field, value_cast"])
p("C25", "Configuration sets keep every entry and its order",
  "A configuration set returns exactly what was stored: setting a key replaces its values, inserting appends one, typed access converts the stored text or fails, missing keys give the default, and list access gives all values in order of insertion. Child sets are owned by their parent and independent of each other; clearing and destroying releases all of them exactly once.",
  ["histories"], "all sequences of set, insert, get, child and clear operations",
  "No test covers it directly.",
  ["typelib/utilmm/configset.cc", "typelib/utilmm/configset.hh"], [("config_set", "typelib/utilmm/configset.cc")], (), ["utilmm::config_set"])
p("C26", "Text listings describe exactly what is registered",
  "The listing of a registry has one entry for each persistent name whose source matches the filter (a given source, no source, or any), in the order of names, and no other: the complete definition of a type (category, size, offset, type and name of each field in order, enumeration symbols and values, dimensions and element types, to any depth of nesting), the target for an alias, or only the name when names are asked for, preceded by its source when sources are asked for. The listing of a single type gives the same description. Listing never changes the registry.",
  ["inputs", "histories"], "all registries and types, any filter, mode and indentation",
  "No test looks at listings.",
  ["typelib/registry.cc", "typelib/typedisplay.cc", "typelib/typedisplay.hh"], [("Registry::dump, filter_source", "typelib/registry.cc"), ("TypeDisplayVisitor", "typelib/typedisplay.cc")], (), ["Registry::dump, type_display, operator<< for types"])
p("C27", "The Ruby registry is the C++ registry",
  "What is done to a registry from Ruby has the effect the corresponding operation has on types and names: types created from Ruby (numbers, enumerations with automatic values, compounds with given or automatic offsets, arrays, pointers, containers), aliases, removal, merging, extraction, resizing, metadata, import and export. Everything Ruby shows of types and registries (definitions, sizes, fields and offsets, dependencies, names, sources, comparisons, iteration) agrees with it after every operation, type objects are unique per registry and stay valid; the Ruby constants and methods through which a registry is exported reach every type (or the Ruby class that stands for it) by the names of its namespaces and template arguments, in the given or the relaxed spelling, and nothing else; and every failure is a Ruby exception of the documented class that leaves the registry as it was (or, for merges and imports, only extended) and never ends the interpreter.",
  ["inputs", "histories"], "all sequences of registry operations from Ruby on several registries, failing ones included",
  "The tests of the Ruby bindings are not part of the reliable tests, and try a few calls.",
  ["bindings/ruby/ext/registry.cc", "bindings/ruby/ext/metadata.cc", "bindings/ruby/ext/value.cc", "bindings/ruby/ext/specialized_types.cc", "bindings/ruby/lib/typelib/registry.rb", "bindings/ruby/lib/typelib/type.rb", "bindings/ruby/lib/typelib/compound_type.rb", "bindings/ruby/lib/typelib/enum_type.rb", "bindings/ruby/lib/typelib/registry_export.rb"],
  [("Registry methods, exception mapping", "bindings/ruby/ext/registry.cc"), ("CompoundBuilder, EnumBuilder, import, resize, minimal", "bindings/ruby/lib/typelib/registry.rb"), ("type_wrap, Type.== and accessors", "bindings/ruby/ext/value.cc"), ("RegistryExport: namespaces and types as constants", "bindings/ruby/lib/typelib/registry_export.rb")], (), ["Typelib::Registry, Typelib::Type (Ruby)"])
p("C28", "Ruby values are the C++ values",
  "Values created, read and modified from Ruby hold exactly what they are given: assigning a number, a symbol, a string, an array, a hash or another value to a value, a field, an array element or a container element stores the same thing "
  "or raises an exception that leaves the value as it was; reading gives back what the memory holds, by whichever accessor and in whatever order accessors were used before; changes made through Ruby objects that stand for converted "
  "fields (strings, nested compounds) and through elements reach the memory. Copies, comparisons, byte arrays, from_buffer, zero!, byte swaps, CSV, plain Ruby data, searches for sub-values, pointers and container operations have the effect of the C++ operation on that memory, and no call ends the interpreter or touches memory outside of the value.",
  ["inputs", "histories"], "all sequences of value operations from Ruby over all types, failing ones included",
  "The tests of the Ruby bindings are not part of the reliable tests, and try a few values.",
  ["bindings/ruby/ext/value.cc", "bindings/ruby/ext/specialized_types.cc", "bindings/ruby/lib/typelib/type.rb", "bindings/ruby/lib/typelib/compound_type.rb", "bindings/ruby/lib/typelib/container_type.rb", "bindings/ruby/lib/typelib/array_type.rb", "bindings/ruby/lib/typelib/numeric_type.rb", "bindings/ruby/lib/typelib/standard_convertions.rb"],
  [("conversions, field and element access", "bindings/ruby/ext/specialized_types.cc"), ("Type#to_byte_array, from_buffer, ==, copy, zero!", "bindings/ruby/ext/value.cc"), ("CompoundType accessors", "bindings/ruby/lib/typelib/compound_type.rb"), ("ContainerType, ArrayType", "bindings/ruby/lib/typelib/container_type.rb"), ("standard conversions", "bindings/ruby/lib/typelib/standard_convertions.rb")], (), ["Typelib::Type instances (Ruby)"])
p("C29", "Ruby wrappers never denote memory that is gone",
  "The Ruby object for a part of a value (a field, an array element, an element of a container at any depth) either denotes that part's current memory and sees its current contents, or refuses every use with an exception. "
  "Operations that replace or move the elements of a container (push, erase, delete_if, clear, assignment, copy, zero!, from_buffer) leave no wrapper that reads or writes memory the container gave up; other wrappers stay usable and keep denoting the same part; garbage collection never frees memory that a reachable wrapper denotes.",
  ["histories", "schedules"], "all interleavings of taking wrappers, modifying what surrounds them, and garbage collection",
  "The tests hold a wrapper across one modification of a vector of compounds.",
  ["bindings/ruby/ext/memory.cc", "bindings/ruby/ext/value.cc", "bindings/ruby/lib/typelib/type.rb", "bindings/ruby/lib/typelib/container_type.rb", "bindings/ruby/lib/typelib/compound_type.rb", "bindings/ruby/lib/typelib/array_type.rb"],
  [("memory table, memory_wrap, memory_unref", "bindings/ruby/ext/memory.cc"), ("value_wrap, do_invalidate", "bindings/ruby/ext/value.cc"), ("handle_container_invalidation, element cache", "bindings/ruby/lib/typelib/container_type.rb"), ("handle_invalidation, invalidate", "bindings/ruby/lib/typelib/type.rb")], (), ["Typelib::Type#raw_get, #invalidate, container operations (Ruby)"])
p("C30", "Importing C++ declarations gives the types that can be represented",
  "Importing the declarations that a C++ parser (castxml, GCC-XML) reports for a header gives a registry with the types which that header defines and which can be represented, and what they need: each public, named class whose bases and fields can be represented is a compound "
  "of the reported size with its fields, inherited ones included, at the reported offsets; enumerations have the reported values; typedefs are aliases of what they stand for; arrays, pointers, std::string and std::vector are the derived types, const and volatile make no difference, and types declared as opaques stay opaque. "
  "What cannot be represented (incomplete classes, virtual methods or bases, members or bases that are not public, references, types that refer to themselves, and what depends on these) is left out, and never aborts the import or affects the rest. The result does not depend on the order of the declarations. "
  "Definitions and fields carry the C++ name, the place, the base classes and the documentation (with its metadata tags) that the declarations and the header give them.",
  ["inputs"], "all sets of declarations of namespaces, classes, enumerations, typedefs, arrays, pointers, qualified types, vectors and strings, in any order, referring to each other in any way",
  "The tests of the importers need castxml, gccxml or clang and are not part of the reliable tests; they try one header for each feature, never features nested in each other or declarations in another order.",
  ["bindings/ruby/lib/typelib/gccxml.rb", "bindings/ruby/lib/typelib/cxx.rb"],
  [("GCCXMLLoader: resolve_type_definition, resolve_compound, resolve_opaques, find_node_by_name", "bindings/ruby/lib/typelib/gccxml.rb"), ("GCCXMLInfo: reading the document", "bindings/ruby/lib/typelib/gccxml.rb"), ("parse_template, template_tokenizer", "bindings/ruby/lib/typelib/cxx.rb")], (), ["Typelib::GCCXMLLoader.registry_from_gccxml_output (Ruby)", "Typelib::Registry, Typelib::Type (Ruby)"])
if __name__ == "__main__":
    with open("/verif/properties.jsonl", "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
