#!/usr/bin/env python3
# Writes /verif/MANIFEST.json. CLAIMED holds the properties with a check.
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
BASE=("Bounded verdict: the solver decides the assertions and every implicit panic for all values within the bounds "
      "listed in evidence (paths cut by a budget are counted there as reduced bound). Trusted: the SSA interpreter in "
      "/verif/engine, z3, and the listed models; each run replays sampled symbolic paths natively against them. ")
CLAIMED={
 "C01":"Models: badger as a map with optimistic transactions, rbf and roaring as sets, arrow3 records as lists of messages, xxhash as an injective function.",
 "C02":"Models: badger as a map with optimistic transactions, rbf and roaring as sets, arrow3 records as lists of messages, xxhash as an injective function.",
 "C03":"Models: badger as a map with optimistic transactions, rbf and roaring as sets, arrow3 records as lists of messages, xxhash as an injective function.",
 "C05":"Models: badger as a map with optimistic transactions, rbf and roaring as sets, arrow3 records as lists of messages, xxhash as an injective function.",
 "C18":"Models: badger as a map with optimistic transactions, rbf and roaring as sets, arrow3 records as lists of messages, xxhash as an injective function. A crash keeps exactly the transactions that had committed.",
 "C19":"Models: badger as a map with optimistic transactions, rbf and roaring as sets, arrow3 records as lists of messages, xxhash as an injective function. Files in memory.",
 "C20":"Models: badger as a map with optimistic transactions, rbf and roaring as sets, arrow3 records as lists of messages, xxhash as an injective function. One failing operation per run.",
 "C21":"Models: roaring bitmaps as sets.",
 "C22":"Models: roaring bitmaps as sets.",
 "C24":"Models: OpenTelemetry attribute sets without reflection.",
 "C25":"Models: OpenTelemetry attribute sets without reflection.",
 "C06":"Models: badger as a map with optimistic transactions and leased sequences.",
 "C07":"Models: badger as a map with optimistic transactions and leased sequences; sync.Pool hands the last item back to any goroutine.",
 "C08":"Models: roaring bitmaps as sets, time formatting by the real code.",
 "C15":"Models: none beyond the interpreter.",
 "C10":"Models: xxhash as an injective function, roaring64 as a set.",
 "C11":"Models: xxhash as an injective function, roaring64 as a set.",
 "C12":"Models: xxhash as an injective function, roaring64 as a set.",
 "C13":"Models: xxhash as an injective function, roaring64 as a set.",
 "C30":"Models: the zstd library as a framing of plain bytes (the property is decided for the wrappers and pools around it).",
 "C29":"Models: the zstd library as a framing of plain bytes, proto marshalling by struct tags.",
 "C27":"Models: badger as a map, roaring64 as a set (serialised injectively), the columnar builder of internal/arrow3 as a list of copied messages, xxhash as an injective function.",
 "C31":"Models: goja's and esbuild's compilers as functions that keep the text, xxhash as an injective function, files in memory with atomic renames, the ristretto cache as one that may forget any entry.",
 "C17":"Models: the storage as a recorder of what it is handed, the ticker as a channel, badger's leased sequences, no-op instruments. A counterexample's schedule is replayed by repeated runs.",
 "C16":"Models: time.Time.Sub without its overflow check by division. The JavaScript engine that calls the builder is outside.",
 "C32":"Models: xxhash as an injective function, roaring64 as a set, sync.Pool hands the last item back. The JavaScript engine that issues the scan is outside.",
 "C04":"Models: rbf and roaring bitmaps as sets, time.Time.Sub without its overflow check by division.",
 "C28":"Models: none beyond the interpreter.",
 "C14":"Models: xxhash as an injective function, proto.Clone/Equal/Merge by struct tags.",
 "C34":"Models: badger as a map with optimistic transactions and leased sequences, rbf and roaring as sets, arrow3 records as lists of messages, xxhash as an injective function. A crash keeps exactly the transactions that had committed.",
 "C35":"Models: badger as a map with optimistic transactions and leased sequences, rbf and roaring as sets, arrow3 records as lists of messages, xxhash as an injective function. A schedule-dependent counterexample is replayed by repeated runs under the race detector.",
 "C09":"Models: roaring bitmaps as sets, fmt verbs %d and %s, label ids from a recording callback.",
}
NA={
 "C26":"the codec is driven by protobuf reflection and Arrow/Parquet builders (library code over unsafe memory and generated descriptors) that the SSA encoder cannot reach; a model of the builders would replace the very code the property is about",
 "C33":"the client library is TypeScript; no symbolic encoder for it is available here",
}
exec(open(here+'/tools/claimed.py').read()) if os.path.exists(here+'/tools/claimed.py') else None
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMED:
        checks.append({"property":i,"quick_cmd":"./run.sh %s quick"%i,"thorough_cmd":"./run.sh %s thorough"%i,
          "evidence_file":"evidence/%s.json"%i,
          "technique":"symbolic execution of the Go SSA with SMT (z3), native replay of counterexamples",
          "level":"model_checking","level_note":BASE+CLAIMED[i]})
    else:
        na.append({"property":i,"reason":NA.get(i,"no check yet: harness under construction")})
m={"version":1,"setup_cmd":"./build.sh","checks":checks,"not_applicable":na,
   "notes":"No hooks in /repo: harnesses, models and the vsym package are added by overlay. fix: commits in /repo are listed in known_findings.json."}
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1)
print(len(checks),"checks",len(na),"not applicable")
