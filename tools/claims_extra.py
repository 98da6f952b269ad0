"""Claims beyond the registry domain."""
VALNOTE = ("Exhaustive TLC exploration of small universes of operations on values (every transition taken by the real code) plus seeded histories over arbitrary nestings of types; "
           "after each call the complete memory of all values (walked by the driver, without the functions under test), its result and the balance of allocations must be "
           "the transition of Values.tla; AddressSanitizer watches every access. Bounded by the universes and the generated histories.")
T = "TLA+ specification checked with TLC; trace validation of the real library against it (%s)"
CLAIMS = {p: (T % w, "model_checking", VALNOTE) for p, w in dict(
    C11="Values.tla DumpV/LoadV", C12="Values.tla LoadAll, TrailPad", C13="Values.tla InitV/ZeroV/CopyV/EqV", C14="Values.tla containers",
    C15="Values.tla SwapV/CanCompileSwap", C16="Values.tla Headers/CsvCells", C24="Values.tla Visited").items()}
CLAIMS["C17"] = (T % "Names.tla", "model_checking",
               "Exhaustive TLC exploration of all names over a small alphabet (every one given to the real functions) and of the ordering on triples; "
               "seeded random names, incl. template arguments, in long recorded runs. Assumes the driver's encoding of characters is right.")
CLAIMS["C20"] = (T % "Singleton.tla", "model_checking",
               "Exhaustive TLC exploration of single operations on singletons that use each other and on the plugin manager, all replayed; programs of up to four real threads, "
               "whose recorded events (calls, returns, constructions, destructions) TLC must be able to explain by some order of atomic operations; ThreadSanitizer and "
               "AddressSanitizer watch the runs. Schedules are those the machine produces (with pauses in constructors and destructors), not all.")
CLAIMS["C25"] = (T % "ConfigSet.tla", "model_checking",
               "Exhaustive TLC exploration of two universes of calls, every transition replayed, and seeded histories; everything readable from every set is compared after each call, "
               "and the balance of the blocks the library allocated.")
CLAIMS["C21"] = (T % "Idl.tla", "model_checking",
               "Exhaustive TLC exploration of a small universe of registries and export options, every transition replayed, and seeded registries with arbitrary options; the document the real "
               "exporter writes is read by the specification (nesting, definitions, members) and compared with the set of definitions that Idl.tla derives from the registry, and their order. "
               "Names that become the same IDL identifier are not generated.")
CLAIMS["C27"] = (T % "RubyOps.tla over Registry.tla", "model_checking",
               "Exhaustive TLC exploration of two universes of Ruby calls, every transition replayed by the real bindings (the extension is built from the working tree, with AddressSanitizer), and seeded "
               "histories; each call's result or exception class and everything Ruby shows of all registries afterwards must be the transition of RubyOps.tla. The libraries the bindings need "
               "and that are not installed (utilrb, facets, backports) are replaced by small stand-ins.")
CLAIMS["C28"] = (T % "RubyValues.tla over Values.tla and RubyOps.tla", "model_checking",
               "Exhaustive TLC exploration of a universe of Ruby operations on values (invariants: the Ruby data that describes a value builds an equal value, whatever the history), every transition replayed by the real bindings "
               "under AddressSanitizer, and seeded histories; the memory of all values, read by address and not through the bindings, and what every accessor returns must be what RubyValues.tla derives. "
               "What is converted is given as plain Ruby data: integers, floats, strings, symbols, arrays, hashes, nil, booleans and other values; other conversions that users register are not covered.")
CLAIMS["C29"] = (T % "RubyValues.tla (the wrappers that are held)", "model_checking",
               "Exhaustive TLC exploration of a universe of operations on containers and wrappers of their elements (invariant: a usable wrapper denotes a part that exists), every transition replayed by the real bindings under "
               "AddressSanitizer, and seeded histories. Up to three wrappers are held; after every operation each must be at its part's address or refuse to be used. Garbage collections happen at seeded points only.")
CLAIMS["C30"] = (T % "CxxImport.tla over Registry.tla", "model_checking",
               "Exhaustive TLC exploration of four small universes of headers (invariants: the result is closed, does not depend on which declaration is resolved first, nothing that refers to itself is represented, declaring more in "
               "the header only adds), every header imported by the real importer, and seeded headers with source text; the registry that the import gives must be the one CxxImport.tla derives from the declarations. "
               "The parsers themselves (castxml, clang) are not installed: their output is written by the harness. Enumerations are stored as int; unions and bit fields only appear as what cannot be represented.")
NA = {}
