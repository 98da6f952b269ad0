#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json
REGNOTE = ("Exhaustive TLC exploration of a finite universe of calls (every transition replayed on the real code) plus seeded long histories; "
           "each call's outcome and the complete observable registry state afterwards must be the transition of the TLA+ specification. "
           "Assumes the driver's projection of the registry (public accessors only) and TLC are right; bounded by the universes and the generated histories.")
TECH = "TLA+ specification checked with TLC; trace validation of the real library against it (%s)"
CLAIMS = {}
for pid, what in dict(C01="Registry.tla", C02="Registry.tla, Names.tla", C03="Registry.tla Merge", C04="Registry.tla Minimal", C05="Registry.tla ReverseDepends/RemoveTypes",
                      C06="Registry.tla PropagateAliases", C07="Registry.tla Cmp", C08="Tlb.tla RoundTrip", C09="Tlb.tla ImportDoc", C10="Tlb.tla OrderOk",
                      C18="Registry.tla BuildType", C19="Registry.tla Resize", C22="Registry.tla metadata", C23="RegistryOps.tla enumerations", C26="Listing.tla").items():
    CLAIMS[pid] = (TECH % what, "model_checking", REGNOTE)
NA = {}
try:
    import claims_extra
    CLAIMS.update(claims_extra.CLAIMS)
    NA.update(claims_extra.NA)
except ImportError:
    pass
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         checks=[dict(property=i, quick_cmd="python3 tools/check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 tools/check.py %s" % i,
                      technique=CLAIMS[i][0], level=CLAIMS[i][1], level_note=CLAIMS[i][2]) for i in ids if i in CLAIMS],
         not_applicable=[dict(property=i, reason=NA.get(i, "no check yet")) for i in ids if i not in CLAIMS],
         notes="No hooks in /repo: the drivers use the public API only. See DESIGN.md.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
