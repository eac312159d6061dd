import json
o='''# Solver-based checking of gernest/requiemdb

## Engine (`/verif/engine`)

Go has no packaged symbolic engine, so `/verif/engine` is one: a symbolic
interpreter of `golang.org/x/tools/go/ssa`. On every run it loads `/repo`'s
current sources (plus harness, model and `vsym` packages added by overlay),
builds SSA and executes a harness function. Integers, booleans, floats (as bit
patterns), string bytes, map keys, thread choices, crash points and failing
calls may be symbolic (SMT bit-vectors); heap shape, slice lengths and
capacities are concrete per path. At every branch on a symbolic condition an
SMT solver (z3, one incremental process per worker) decides which sides are
feasible and both are explored; `vsym.Assert(p)` and every implicit Go panic is
a query "is there an assignment satisfying the path condition and not p".
`unsat` on all paths is the verdict "holds for every value within the bounds".
`sat` gives concrete values, which are replayed through the same harness
compiled natively (`go test -overlay`) against the real code and the real
dependencies (badger, rbf, roaring, arrow...). Only a reproduced counterexample
is reported as a VIOLATION.

* **Models.** Third-party storage is replaced, in the symbolic run only, by
  short models in Go (`/verif/overlay/internal/vmodel`, `//vsym:model`):
  badger as a map with optimistic transactions and leased sequences, rbf and
  roaring as sets, the arrow3 record/parquet file as a list of messages, zstd
  as an invertible function with pooled state, ristretto as a cache that may
  miss, files in memory, `time.Time.Sub`, attribute sets without reflection,
  xxhash as an injective function. To check translator and models, a sample of
  the passing symbolic paths is replayed natively on each run, too, comparing
  every observed value (`traces_validated_against_impl`); a difference is
  reported as `divergences` in the evidence and makes no verdict.
* **Threads.** Goroutines are interpreted with a scheduler whose switches (at
  locks, channel operations, pools, transactions, `vsym.Preempt`) are choices.
  A vector-clock race detector (locks, channels, WaitGroup, Once, atomics,
  `sync.Pool` Put/Get edges) runs where a harness asks for it; races and
  schedule-dependent counterexamples are replayed natively by repetition or
  under `-race`.
* **Faults and crashes.** The storage models call a hook before each operation;
  a harness lets the solver choose which one fails, or after which commit the
  process dies. In the native replay the same points are reached by wrapping
  the real libraries (`mods=yes`: patched copies of badger/rbf in a scratch
  module directory, never the module cache).
* **Partial paths.** Where a path meets something the engine cannot interpret
  (an unmodelled library function, a step limit) the solver's model of the path
  condition so far is run natively to the end (at most 24 per harness); an
  assertion that fails there is reported like any replayed counterexample, and
  the cut is in the evidence as `unsupported`. On the unchanged tree no harness
  has such paths; they matter for changes that call new library functions.
* **Time.** A query has a limit (10 s) and a watchdog that ends a solver that
  ignores it; a harness has a time cap (quick: 480 s over all harnesses of a
  check); what was left unexplored is in the evidence (`reduced bound`). Native
  runs that are merely slow are repeated alone and never taken for failures.
* **Robustness.** Harnesses use exported API or long-standing internal entry
  points and judge results by content (tags, sets), not by order where the
  order is nobody's promise. A harness that no longer compiles against the
  tree is dropped and noted in the evidence.

## Per property

Bounds are the quick ones; thorough bounds and times are in the `//vsym:`
directives of each harness and repeated in the evidence. "Seeds" are the
planted changes of `/verif/seeded` that the check of that property catches
(all of them are caught, except c35-early-label-release: it needs two scans of
different kinds at once, and C35 lets both calls ask for the same kind).

@TABLE@

### Why this reaches what tests cannot

The tests sample a handful of fixed payloads, instants and sequences. Each path
above stands for all values satisfying its condition (all 64-bit ids, all
instants of an hour, all byte strings of a length), and choices (which storage
operation fails, where a crash falls, which thread runs) are explored
exhaustively within the bounds.

### Outside the bounds

* More samples, items, filters, threads than listed; lengths are concrete and
  mostly small, with single long shapes (300 to 7000 bytes) where a length
  limit could hide (C06, C09 to C14, C28 to C31).
* Characters `=` and `\\` in end-to-end harnesses (their escaping is decided by
  C28 alone).
* Columns in the very last shard of 2^64 (`NewRowFromBitmap` does not end there).
* Real durability of badger, rbf and parquet (modelled as their documentation
  promises), real zstd coding (C30 decides the code around it).
* Samples are indexed by their earliest timestamp only (a design decision: a
  sample whose first item lies outside a window is not found there); C01 and
  C03 state this.
* Time and space. A crash skips the leased sample ids (up to a million) and the
  column store keeps a blank row per skipped id: the first save after a crash
  takes seconds (measured: 9 s) though its answers are right. C34 therefore
  saves under small ids.
* A flush whose save fails logs the error and drops those samples (C17 decides
  what is handed to storage, C20 that storage reports the error).
* C07 excludes two goroutines registering the same label for the first time at
  once: badger reports a conflict, which the caller sees as an error.

## Findings

Genuine defects found by the checks and repaired (`known_findings.json` has the
commits):

@FIXES@

@OPEN@

False alarms met on the way and removed: a slow native replay (killed by its
own test timeout) was taken for a failure of C20; the order of resources in
merged data was compared where nothing promises it; a harness for C15 assumed
windows finer than seconds. The machinery or the property was corrected.

## Planted changes

@SEEDS@

Found missing on the way, and what was strengthened: c06-bulk-order (ids
translated in bulk), c07-uncloned-key (pool hand-over as a scheduling point),
c29-reclaim (several messages per arena), c14-span-dedupe (neighbouring spans
with one id), c15-late-offset (sub-millisecond offsets).

## Not addressed

@NA@
'''
import re,glob,os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
m=json.load(open('MANIFEST.json')); props={}
for l in open('properties.jsonl'):
    p=json.loads(l); props[p['id']]=p
seeds={}
allseeds=[]
for d in sorted(glob.glob('seeded/*/meta.json')):
    j=json.load(open(d)); n=d.split('/')[1]
    seeds.setdefault(j['property'],[]).append(n); allseeds.append((n,j['property'],j['needs']))
h={}
for f in sorted(glob.glob('harness/**/zz_vsym_*.go',recursive=True)):
    s=open(f).read()
    for mm in re.finditer(r'//vsym:harness (\S+)[^\n]*\n((?://vsym:[^\n]*\n)*)func (\w+)',s):
        b=re.findall(r'//vsym:bound ([^\n]*)',mm.group(2))
        for i in mm.group(1).split(','):
            h.setdefault(i,[]).append((mm.group(3),os.path.dirname(f)[len('harness/'):],' '.join(b)))
t=''
for c in m['checks']:
    i=c['property']; p=props[i]
    t+='**%s %s.** '%(i,p['title'])
    for n,d,b in h.get(i,[]): t+='`%s` (%s): %s. '%(n,d,b.rstrip('.'))
    t+='Seeds: %s.\n\n'%(', '.join(seeds.get(i,['none yet'])))
k=json.load(open('known_findings.json'))['findings']
fx=''; op=''
for e in k:
    if 'fixed' in e:
        a=e['fixed'].split(None,3); fx+='* %s (%s): %s\n'%(a[1][9:],a[2],a[3])
    else: op+='* '+json.dumps(e)+'\n'
o=o.replace('@TABLE@',t.rstrip()).replace('@FIXES@',fx.rstrip()).replace('@OPEN@','Recorded, not repaired:\n\n'+op if op else 'None is recorded without a repair.')
o=o.replace('@SEEDS@','| change | property | needs |\n|---|---|---|\n'+'\n'.join('| %s | %s | %s |'%x for x in allseeds))
o=o.replace('@NA@','\n'.join('* %s: %s'%(x['property'],x['reason']) for x in m['not_applicable']))
open('DESIGN.md','w').write(o)
