#!/usr/bin/env python3
# Writes /verif/properties.jsonl. One call per property.
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,
        "state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
        "mechanism":[{"name":a,"where":b} for a,b in mech],
        "observe_at":list(observe),"hook_needed":None}})

prop("C01","No stored sample is lost to a ranged scan that should find it",
 "After a batch of samples has been saved successfully, a ranged scan of a resource kind whose window covers the earliest timestamp of a saved sample of that kind returns the contents of that sample whenever every filter of the scan is satisfied by something the sample contains (names, log levels, trace/span/parent-span ids, schemas, scope name and version, string attributes of resource, scope and data item). It does so regardless of what other samples (of the same or other kinds) were saved before it, in the same batch or in earlier batches.",
 ["inputs","histories"],"every batch of small metrics/logs/traces samples, every saved-before history, every filter list drawn from the stored and foreign strings, every window",
 "store_test.go stores one metrics fixture in one batch and scans its last sample with one attribute filter; a ranged scan, a second kind, a second batch or another filter is never tried.",
 ["internal/store/store.go","internal/store/scan.go","internal/transform/transform.go","internal/shards/shards.go","internal/dataframe/dataframe.go"],
 [("labels extracted at save time, looked up at scan time","internal/transform, internal/store/scan.go CompileFilters"),("intersection of label rows","internal/shards Rows")],
 observe=["Storage.SaveSamples","Storage.Scan"])
prop("C02","A scan returns only samples of the requested kind matching every filter",
 "Everything a ranged scan returns comes from saved samples of the requested resource kind, each returned at most once, and each of which contains something satisfying every one of the scan's filters (the filters are a conjunction). A filter naming a value that was never stored makes the scan return an empty result, never an unfiltered one.",
 ["inputs","histories"],"every history of saves, every filter list, labels spread over any number of index shards",
 "Tests have no filter that excludes anything; the conjunction across index shards needs more than a million labels to be observed concretely.",
 ["internal/store/scan.go","internal/shards/shards.go","internal/dataframe/dataframe.go"],
 [("AND over columns and shards","internal/shards/shards.go rows"),("per-view resource sets","internal/dataframe/dataframe.go read")],
 observe=["Storage.Scan","Shards.Rows"])
prop("C03","An instant scan returns the most recent matching sample and only that",
 "A scan without a time range returns the contents of exactly one sample: the matching sample with the greatest sample id among those stored in the consulted time partitions (an empty result when there is none). It never mixes in other samples.",
 ["inputs","histories"],"every history of up to a few samples of mixed kinds and times, with and without filters",
 "store_test.go performs two instant scans over one fixture of a single kind.",
 ["internal/store/scan.go"],[("last element of the matching set","internal/store/scan.go Scan")],observe=["Storage.Scan"])
prop("C04","The partitions searched for a time window cover every instant in it",
 "For every window start <= end, every instant in [start, end] belongs to exactly one of the time partitions searched for that window, at whichever granularity (hour, day, month, year) the window length selects. Hence no timestamp inside the window is skipped and none is searched twice.",
 ["inputs"],"every start, end and timestamp, including windows that cross hour, day, month, leap-day and year boundaries at unaligned minutes",
 "view_test.go checks four hand-picked windows; boundary-crossing windows are a small measure of the input space.",
 ["internal/view/view.go","internal/shards/shards.go","internal/dataframe/dataframe.go","internal/batch/time.go"],
 [("quantum choice and partition enumeration","internal/view/view.go"),("partition names of a timestamp","internal/batch/time.go ViewsBuf")],observe=["view.Search","batch.QuantizedTime.Views"])
prop("C05","Stored samples read back unchanged under their own id",
 "In every time partition (year, month, day, hour of its earliest timestamp), a sample appended to the column store is read back, by its own id, exactly as it was written (an absent sub-message may read back as an empty one) and exactly once, whatever increasing ids were appended before or after it, in the same or later batches, and whatever gaps lie between the ids. Appending never alters what is read for ids stored earlier, and ids of other resource kinds are not returned.",
 ["inputs","histories"],"every increasing id sequence (including a first id > 0 and gaps), every split into batches, every mix of kinds",
 "The dataframe test only checks the column split; nothing appends twice or reads by id.",
 ["internal/dataframe/dataframe.go"],[("row number equals sample id, gaps padded","internal/dataframe/dataframe.go appendView")],
 state=[("sets_*_<partition>","which ids of a kind live in the partition","internal/dataframe/dataframe.go")],observe=["DataFrame.Append","DataFrame.Metrics/Logs/Traces"])
prop("C06","Label ids are stable, unique and invertible, across reopen",
 "Every distinct label ever registered has its own id; registering or looking it up again returns the same id, and translating an id back yields the exact label bytes. This holds for any label bytes, for any namespace prefix, across closing and reopening of the translator, and lookups of unregistered labels report not-found without creating anything.",
 ["inputs","histories","configurations"],"every sequence of register/lookup/reverse/reopen operations on arbitrary short byte strings with arbitrary prefixes (any spare capacity)",
 "translate_test.go registers a fixed list once with one nil-ish prefix and never reopens.",
 ["internal/translate/translate.go","internal/seq/seq.go"],[("two-way key/id records and a leased sequence","internal/translate/translate.go")],
 observe=["Translate.TranslateKey","Translate.Find","Translate.TranslateID","Translate.TranslateBulkID"])
prop("C07","Concurrent label lookups do not disturb each other",
 "Any interleaving of concurrent lookups and registrations gives each caller the answer for its own label, the same as if the calls had run one after the other.",
 ["schedules","inputs"],"every interleaving at store operations of two or three concurrent calls",
 "Tests are single-threaded; a shared scratch buffer only shows under a specific interleaving.",
 ["internal/translate/translate.go","internal/store/scan.go"],[("private key buffers","internal/translate/translate.go")],observe=["Translate.Find","Translate.TranslateKey"])
prop("C08","The index built for a batch contains exactly its (sample, label) pairs",
 "For a batch of samples with ids, timestamps and label-id sets, the generated index has, for each label shard and each of the four time partitions of a sample's timestamp, exactly one position per (sample, label) pair of that shard, from which the sample id and the label id within the shard are recoverable, and no others. Building again after a build starts from an empty index.",
 ["inputs"],"every batch up to a few samples with arbitrary 64-bit label ids and bounded sample ids",
 "batch_test.go has a fixed example.",
 ["internal/batch/batch.go","internal/batch/time.go","internal/view/view.go"],[("position arithmetic","internal/batch/batch.go makeFragments")],observe=["Batch.Add","Batch.Build"])
prop("C09","Label extraction indexes everything a scan can filter on",
 "For every metrics, logs or traces payload, the labels extracted for a sample are exactly: the kind's own label, and one label per non-empty schema URL, scope name, scope version, item name, log level, trace/span/parent-span id, and per string-valued attribute of resource, scope and item - each under the payload's own resource kind. The sample's recorded time bounds are the minimum and maximum of the timestamps of its items (start and end for spans).",
 ["inputs","histories"],"every payload up to two items per level with arbitrary short strings, ids and non-zero timestamps, and any previously processed payload",
 "Tests only dump the labels of three fixtures.",
 ["internal/transform/transform.go","internal/transform/metrics.go","internal/transform/logs.go","internal/transform/trace.go"],
 [("per-kind traversal","internal/transform")],observe=["Context.ProcessSamples","TranslateFunc argument"])
prop("C10","Metric filtering keeps exactly the matching data points, unaltered",
 "Filtering metrics data by a query keeps exactly the data points whose resource, scope, metric name, attributes and timestamp (start <= t < end) satisfy it, in order, for all five metric types. Each kept point stays under its own resource, scope (with schema URLs) and metric identity (name, description, unit, temporality, monotonicity), nothing else is left behind, and the input is not modified.",
 ["inputs"],"every payload up to two points per level with arbitrary short strings and timestamps, and every filter combination",
 "There is no test of the filter package.",
 ["internal/visit/metrics.go","internal/visit/visit.go"],[("visitor","internal/visit/metrics.go")],observe=["visit.All.Visit"])
prop("C11","Log filtering keeps exactly the matching records, unaltered",
 "Filtering logs data by a query keeps exactly the log records whose resource, scope, level, trace id, span id, attributes and timestamp (start <= t < end) satisfy it, in order. Each kept record stays under its own resource and scope (with schema URLs), and the input is not modified.",
 ["inputs"],"every payload up to two records per level with arbitrary short strings and timestamps, and every filter combination",
 "There is no test of the filter package.",
 ["internal/visit/logs.go","internal/visit/visit.go"],[("visitor","internal/visit/logs.go")],observe=["visit.All.Visit"])
prop("C12","Span filtering keeps exactly the matching spans, unaltered",
 "Filtering traces data by a query keeps exactly the spans whose resource, scope, name, trace id, span id, parent span id, attributes and start time (start <= t < end) satisfy it, in order. Each kept span stays under its own resource and scope (with schema URLs), and the input is not modified.",
 ["inputs"],"every payload up to two spans per level with arbitrary short strings and timestamps, and every filter combination",
 "There is no test of the filter package.",
 ["internal/visit/trace.go","internal/visit/visit.go"],[("visitor","internal/visit/trace.go")],observe=["visit.All.Visit"])
prop("C13","Attribute filters match exactly the data carrying the attribute",
 "A data item satisfies a set of attribute filters if and only if, for each filter, it carries a string attribute with that exact key and value, whatever the lengths of key and value, whatever other (string, non-string or valueless) attributes it carries and in whatever order. Filters set for one query never influence a later query.",
 ["inputs","histories"],"every attribute list up to three entries, keys and values up to 40 bytes, and any filter state left by a previous query",
 "No test covers attribute filters; length-dependent hashing differences need >= 32 byte attributes.",
 ["internal/visit/visit.go"],[("hash-set membership","internal/visit/visit.go attr/matchAttr")],observe=["visit.All.AcceptAttributes"])
prop("C14","Merging query results conserves every item under its own identity",
 "Merging the samples of a query result keeps every data point, log record and span exactly once, in order, under a resource, scope (schema URL, name, version, attributes) and metric (name, description, unit, type, temporality, monotonicity) equal to the one it came with. Items are merged together only when those identities are equal, each resource identity of an input appears once in its first-seen order, and merging neither panics nor keeps anything from earlier merges.",
 ["inputs","histories"],"every list up to three samples, two resources/scopes/metrics per level, arbitrary short strings",
 "data_test.go merges one fixture of identical resources.",
 ["internal/data/data.go","internal/data/metrics.go","internal/data/logs.go","internal/data/trace.go","internal/data/sort.go"],
 [("hash of identity","internal/data/sort.go")],observe=["data.Collapse"])
prop("C15","Scan time bounds follow the request",
 "The time window of a scan is exactly the requested range when one is given; otherwise it ends at the request's own 'now' (or the clock), moved back by the offset, and starts 15 minutes before that end.",
 ["inputs"],"every now/offset/range combination within +-100 years",
 "Tests use one fixed now.",
 ["internal/x/x.go"],[("TimeBounds","internal/x/x.go")],observe=["x.TimeBounds"])
prop("C16","The script scan builder builds the scan it was asked for",
 "Each builder call sets exactly the requested part of the scan (kind, limit, offset, now, ordering, range, or one appended filter with the given property, key and value) and leaves everything else unchanged; millisecond ranges are converted exactly, and relative ranges (ago, today, this week/month/year) end at the script's now and start at the corresponding instant not after it.",
 ["programs","inputs"],"every single call with arbitrary arguments on a builder in an arbitrary state, hence every sequence of calls",
 "rq_test.go checks one call per method against golden files with a fixed clock.",
 ["internal/js/scan.go"],[("builder methods","internal/js/scan.go")],observe=["js.Scan methods"])
prop("C17","Accepted samples are saved exactly once",
 "Every export that was acknowledged is handed to storage exactly once, with its own unique id and its own payload and in the order of the ids (which the column store relies on), under any interleaving of concurrent exports with the periodic flush. No sample is handed over twice, and none is lost between two flushes or when the service is closed.",
 ["schedules","histories"],"every interleaving of up to four exports, two flushes and a shutdown",
 "No test runs the service.",
 ["internal/service/service.go","internal/samples/samples.go"],[("swap of the buffer under a lock","internal/service/service.go start")],observe=["Service.Save","Storage.SaveSamples"])
prop("C18","A crash between the two stores never yields wrong answers",
 "Whatever prefix of the writes of a save reaches the disk before a crash, samples from earlier successful saves are still returned unchanged after restart, and anything returned for the interrupted save equals what was being saved. No query returns another sample's contents or fails because of the partial save.",
 ["crash_points","histories"],"every crash point between the individual commits of one save following an earlier save",
 "No test crashes between commits.",
 ["internal/store/store.go","internal/dataframe/dataframe.go","internal/shards/shards.go"],[("write order: samples first, index second","internal/store/store.go SaveSamples")],observe=["Storage.Scan after reopen"])
prop("C19","Saved data survives a restart",
 "After closing and reopening the database on the same directories, every scan and label lookup returns what it returned before closing, without any write having to happen first.",
 ["histories"],"every history of saves followed by close and reopen",
 "No test reopens a store or scans after a restart.",
 ["internal/shards/shards.go","internal/store/store.go"],[("index shard registry","internal/shards/shards.go")],observe=["Shards.Rows","Shards.Row"])
prop("C20","Storage errors reach the caller",
 "If any storage operation underlying a save, scan or label lookup fails, the call returns an error: it never reports success, and never returns a partial or empty result as if complete.",
 ["fault_sequences"],"every single storage operation of a save, scan, lookup or flush failing",
 "No test injects faults.",
 ["internal/store/store.go","internal/store/scan.go","internal/dataframe/dataframe.go","internal/shards/shards.go","internal/translate/translate.go"],[("error propagation","internal/store")],observe=["Storage.SaveSamples","Storage.Scan"])
prop("C21","Row set algebra is exact and leaves its operands alone",
 "Union, intersection, difference, symmetric difference, shift, merge, count, includes and column listing of rows agree with the mathematical set operations for any columns in any shards. Shifting is defined within a shard (as documented). Rows are values: no operation that returns a row changes its operands, and later changes to a row never show in another row it was computed from or into. A row listed as a table has one row per column.",
 ["inputs"],"every pair/triple of rows with up to three arbitrary columns in any shards",
 "row_test.go uses fixed examples.",
 ["internal/rows/row.go"],[("segment-wise operations","internal/rows/row.go")],observe=["rows.Row methods"])
prop("C22","Bit-sliced integers add and read back exactly",
 "Adding bit-sliced integer maps gives, for every column, the exact sum of the two values (absent counting as 0), and reading values back (pivoting in descending value order, with limit and offset, restricted to a filter row) recovers exactly the column/value pairs that were put in. A builder can be reused after building, and adding leaves its operands alone.",
 ["inputs"],"every pair of maps with up to two columns and small arbitrary values",
 "bsi_test.go uses random sampling with a fixed size.",
 ["internal/rows/bsi.go"],[("ripple-carry over bit slices","internal/rows/bsi.go")],observe=["rows.AddBSI","RowBSI"])
prop("C24","Self-metrics are exported faithfully",
 "Converting the process's own collected metrics to the wire format keeps every scope, metric, data point, value, bucket, quantile, exemplar, attribute, start and end time with its exact value, order and temporality; the zero time becomes 0. Only metrics of unknown type or temporality are left out, and then an error naming them is returned while the rest is still handed to the collector; what the collector keeps does not change when the SDK reuses its memory.",
 ["inputs"],"every metric of every aggregation kind with up to two points and arbitrary values",
 "metricdata_test.go uses fixed fixtures.",
 ["internal/self/metrics/transform/metricdata.go","internal/self/metrics/transform/attribute.go","internal/self/metrics/transform/error.go"],[("structural conversion","internal/self/metrics/transform")],observe=["transform.ResourceMetrics"])
prop("C25","Self-traces are exported faithfully",
 "Converting the process's own spans to the wire format keeps ids, trace state, parent, name, times, status, kind, attributes, events, links and dropped counts, and groups spans so that each span appears exactly once under its own resource and scope; an invalid parent becomes absent.",
 ["inputs"],"every list of up to three spans with arbitrary field values",
 "span_test.go uses fixed fixtures.",
 ["internal/self/trace/tracetransform/span.go","internal/self/trace/tracetransform/attribute.go","internal/self/trace/tracetransform/instrumentation.go","internal/self/trace/tracetransform/resource.go"],[("grouping maps","internal/self/trace/tracetransform/span.go")],observe=["tracetransform.Spans"])
prop("C26","Rows of the columnar codec read back as the message appended",
 "Appending protobuf messages to the internal columnar builder and reading the rows back gives messages equal to the ones appended, in order, for every field presence pattern.",
 ["inputs"],"every message of the metric schema",
 "node_test.go round-trips a few fixtures.",
 ["internal/arrow3/node.go","internal/arrow3/arrow3.go","internal/arrow3/parquet.go"],[("reflective builders","internal/arrow3/node.go")],observe=["arrow3.Schema.Append","arrow3.Schema.Proto"])
prop("C27","Data point identity in the metric index covers all its attributes",
 "In the columnar metric index, each appended data point records its own value, timestamps, exemplars and id, carries the attributes of its resource, scope and itself, and is indexed under its metric name and every string attribute of its resource, scope and itself. Two points get the same identity hash exactly when those label sets are equal.",
 ["inputs","histories"],"every payload with up to two points per level with arbitrary short attributes",
 "metrics_test.go appends one fixture and dumps JSON.",
 ["internal/f2/attr.go","internal/f2/metrics.go"],[("label positions","internal/f2/attr.go")],observe=["f2.Attr.Attr","f2.Metrics.Append"])
prop("C28","Distinct label and sample keys have distinct encodings",
 "Encoding a label (kind, property, key, value) or a sample key (kind, id) to bytes is injective: two different ones never share an encoding, so that one can never be found under the other. Encoders reused from a pool behave like fresh ones.",
 ["inputs"],"every pair of labels with keys and values of bounded length, over all bytes",
 "labels_test.go checks three fixed strings.",
 ["internal/labels/labels.go","internal/keys/keys.go"],[("separator formatting","internal/labels/labels.go Encode")],observe=["labels.Label.Encode","keys.Sample.Encode"])
prop("C29","Scratch arenas never corrupt what was written to them",
 "Bytes written through an arena writer are exactly the bytes read back from it, and bytes handed out by marshalling or compressing a message are that message's and stay unchanged until the arena is released, for any sequence of uses including failed ones. An arena taken from the pool after release starts empty, whatever it held before.",
 ["inputs","histories"],"every sequence of up to four writes of arbitrary sizes including growth",
 "No test covers it.",
 ["internal/arena/arena.go"],[("offset slice","internal/arena/arena.go")],observe=["arena.Arena.Bytes"])
prop("C30","Compression round-trips every payload and streams cleanly",
 "Compressing then decompressing any byte string yields it unchanged, also through the RPC codec and across reuse of pooled coders, and reading past the end keeps reporting end of stream.",
 ["inputs","histories"],"every byte string",
 "No test covers it.",
 ["internal/compress/zstd.go","internal/compress/grpc.go"],[("pooled zstd coders","internal/compress")],observe=["compress.Compress","compress.Decompress"])
prop("C31","Cached compiled scripts are the scripts that were submitted",
 "Running a script uses the program compiled from exactly that script's text, whether or not compiled scripts are cached, and a crash while a cache entry is written never makes a later run use a truncated script.",
 ["inputs","crash_points","histories"],"every pair of scripts, every truncation point of the cache write",
 "No test covers the cache.",
 ["internal/snippets/snippets.go","internal/commands/query/query.go"],[("content hash cache","internal/snippets, internal/commands/query")],observe=["Snippets.GetProgramData","query.build"])
prop("C32","A scripted scan applies its own filters and window to the result",
 "A scan issued from a script returns the store's answer restricted to the items matching the scan's own filters and window, unless it has neither a range nor a filter, in which case the sample is returned whole; errors of the store are returned as errors. No filter, window, store or clock carries over from one scan or one pooled engine to the next.",
 ["inputs","histories"],"every scan with up to two filters over small payloads, twice in a row on a reused engine",
 "rq_test.go never executes a scan against data.",
 ["internal/js/rq.go","internal/visit/visit.go"],[("visitor compile and reset","internal/js/rq.go Scan")],observe=["js.JS.Scan"])
prop("C33","The script client library encodes and renders what it was given",
 "The TypeScript client used by scripts builds the same scans and renders the same tables as the embedded engine defines.",
 ["programs"],"every script",
 "Only snapshot tests.",
 ["packages/rq"],[("TypeScript client","packages/rq")])
prop("C34","Sample ids are never handed out twice",
 "Every sample id handed out is greater than all handed out before it in the life of the database, from any number of goroutines, across clean restarts and crashes at any time, so that no two samples ever share an id. Handing out ids, registering labels and saving samples in the one database do not disturb each other.",
 ["inputs","histories","crash_points","schedules"],"every sequence of up to five issues, saves, clean and unclean restarts",
 "Nothing tests seq; store tests number samples themselves.",
 ["internal/seq/seq.go","internal/store/store.go"],[("leased sequence","internal/seq/seq.go")],observe=["seq.Seq.SampleID","store.Storage.Scan"])
prop("C35","Scans are not disturbed by saves and scans running at the same time",
 "A scan or label lookup that runs while samples are being saved, or while other scans run, does not fail, returns every matching sample saved before it began once and unaltered, and of a sample being saved it returns all or nothing. An instant scan returns the newest sample saved before it began or a newer one. No memory is shared without synchronisation.",
 ["inputs","schedules"],"every interleaving with one preemption of a scan with a save or another scan",
 "Tests scan after saving, from one goroutine.",
 ["internal/store/scan.go","internal/store/store.go","internal/shards/shards.go","internal/dataframe/dataframe.go"],[("column store before index","internal/store/store.go SaveSamples"),("shard map","internal/shards/shards.go")],observe=["store.Storage.Scan","store.Storage.Labels"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties")
