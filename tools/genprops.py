#!/usr/bin/env python3
# Source of properties.jsonl (run: python3 tools/genprops.py)
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","A started client's file describes exactly what was registered",
 "When Start has returned, the file at the client's location is a complete MMV file that contains every registered metric, instance domain, instance and value exactly once, each with its name, identifier, type, semantics, unit, descriptions and current value, and nothing else. Header and table of contents give the right version (2 exactly when a registered metric or instance name is longer than 63 bytes, else 1), flag, process, cluster, counts and offsets; every reference from one record to another leads to the right record; no two records overlap, and the file is exactly as long as the client reports. The result does not depend on how the goroutines that write it interleave or on map iteration order.",
 ["inputs","schedules"],"every registered set from a bounded family (all metric kinds, types, semantics, 0..n instances, shared domains, descriptions, name lengths around 63/64 and 255), every interleaving of the writer goroutines within the preemption bound, every map iteration order in the small scenarios",
 "tests look at a few fixed registries under whatever schedule the runtime happens to take; offsets are handed out through channels by concurrent goroutines, so an overlap or a wrong cross reference may need one particular order",
 ["client.go","registry.go","instance_domain.go","metrics.go","bytewriter/bytewriter.go"],
 [("offset hand-out through one-element channels","client.go: start, writeInstanceDomain, writeMetricDesc, writeValue"),("size computed from registry counters","client.go: Length, tocCount"),("domains written before metrics","client.go: start")],
 [("registry counters","number of instances, values and strings that sections are sized by","registry.go")],["the file on disk after Start"])
p("C02","A half-written file is never taken for a complete one",
 "At every instant of every Start, whether it is the first or a restart, the file on disk either shows itself as incomplete (missing or empty, no MMV tag, or generation numbers that are zero or differ) or is already completely written and final. So a process that dies at any point of Start never leaves behind a file that a reader would accept with missing or partial content, and the dump package refuses every such intermediate content with an error.",
 ["crash_points","schedules"],"a crash (or a concurrent reader) after every single store into the file and every file system call of Start, for every interleaving of the writer goroutines within the bound",
 "the tests only look at the file after Start has returned; the guarantee is about every intermediate content under every interleaving",
 ["client.go","bytewriter/memorymappedwriter.go","mmvdump/mmvdump.go"],
 [("second generation number stored last, after all writers were joined","client.go: start"),("generation check of the reader","mmvdump/mmvdump.go: readHeader")],None,["file content after every store"])
p("C03","Start and Stop always complete",
 "For every set of metrics and instance domains the registry accepts (including nothing at all, instance domains without instances or without metrics, and names that force format version 2), Start and Stop return instead of blocking forever or panicking, in every interleaving of the goroutines involved. No goroutine started by them is left running or blocked afterwards, and repeated Start/Stop rounds behave the same.",
 ["schedules","inputs","histories"],"every registered set of the family, every interleaving within the preemption bound, several Start/Stop rounds",
 "a deadlock or a negative counter panic in the channel choreography shows only for particular registered sets or interleavings",
 ["client.go"],
 [("buffered offset channels, unbuffered generation channels","client.go: start, writeHeaderBlock"),("wait groups","client.go: writeTocBlock, writeInstanceDomains, writeMetrics")])
p("C04","A successful update shows in the metric and in exactly its file slot",
 "After any successful update of any kind of metric (single value, instance, counter, gauge, timer, histogram and vector metrics, through plain, Must, All, Up, Inc and Dec forms) the metric reports the new value and, while its client is started, the file's value record (or string) for that metric and instance holds the same value. No other byte of the file and no other metric or instance changes, and an update that reports an error (or panics in the Must form) changes nothing at all (only the All forms of vectors, which update the instances one by one, may have updated some instances before the one that fails).",
 ["histories","inputs"],"every sequence of operations up to the depth bound over every metric kind, with valid, boundary, type-mismatched and unknown-instance arguments",
 "tests check a handful of updates of single metrics; neighbours, failing updates and operation sequences are not covered",
 ["metrics.go","client.go","bytewriter/bytewriter.go"],
 [("closure bound to offset and writer","metrics.go: newupdateClosure"),("set / setInstance","metrics.go"),("closure creation","client.go: writeValue")])
p("C05","Values, registrations and file survive every Start/Stop history",
 "In every history of Start, Stop, updates, registrations and flag changes: updates made while stopped succeed, are remembered and are published by the next Start; updates never crash and never touch a file of a stopped client; registrations and flag changes are refused exactly while the client is started; Stop on a stopped client reports an error. Stop leaves the last published content on disk, or removes the file when erasing was requested, and every Start publishes all current registrations and values afresh.",
 ["histories"],"every sequence of lifecycle, update, registration and flag operations up to the depth bound",
 "tests run start, a few sets, stop once each; use after stop and restart are never exercised",
 ["client.go","metrics.go","registry.go","bytewriter/memorymappedwriter.go"],
 [("mapped flag","registry.go, client.go: Start, Stop"),("update closures set at Start","client.go: writeValue"),("unmap and remove","bytewriter/memorymappedwriter.go: Unmap")])
p("C06","Registering while the client starts is all or nothing",
 "When metrics or instance domains are registered concurrently with Start, each registration either succeeds and the metric or domain is completely part of the published file, or returns an error and leaves no trace in the registry or the file. In neither case is the file corrupted, the process crashed, or Start blocked.",
 ["schedules"],"every interleaving within the preemption bound of Start with one or two registrations of every form",
 "the window between measuring the registry and marking it as started is a few instructions wide; no test registers concurrently",
 ["client.go","registry.go"],
 [("mapped flag","registry.go: AddMetric, AddInstanceDomain; client.go: Start"),("registry locks","registry.go")])
p("C07","The registry holds each name once and counts exactly what it holds",
 "After any sequence of registrations in any form (metric, instance domain, by name, by string), the registry reports exactly the successfully registered metrics and instance domains and the numbers of metrics, instance domains, instances, values and strings that they amount to. A second registration under a taken name is refused, and any refused or failed registration leaves the registry and all its counts unchanged.",
 ["histories","inputs"],"every sequence of registration operations up to the depth bound over a small set of colliding names and shared domains",
 "tests register one or two things; the counters decide all file offsets and go wrong only for particular combinations",
 ["registry.go","instance_domain.go","client.go"],
 [("presence checks","registry.go: HasMetric, HasInstanceDomain"),("counter updates","registry.go: addMetric, AddInstanceDomain")])
p("C08","Concurrent registrations behave as if made one after another",
 "However registrations by several goroutines interleave, the results they return and the registry they leave behind are those of some order of the same registrations executed one at a time: one of several registrations of the same name succeeds, counts match the content, and there is no data race or crash. Starting the client afterwards publishes exactly that content.",
 ["schedules"],"every interleaving within the preemption bound of two or three goroutines registering colliding and non-colliding metrics and domains, with concurrent queries",
 "the existing tests never register concurrently; check-then-act races need a preemption between the check and the act",
 ["registry.go"],
 [("indomlock and metricslock","registry.go")])
p("C09","Concurrent updates and reads of metrics are linearizable",
 "However updates and reads of the same started metric by several goroutines interleave, every result is explained by some sequential order of the operations that respects real time: no increment is lost, no read sees a half-made update, and there is no data race. When all updates are done, the metric and the file agree on the final value of that order.",
 ["schedules"],"every interleaving within the preemption bound of two or three goroutines with one or two operations each, for every metric kind, started and not started",
 "tests update from one goroutine; a lost update needs two updates to overlap in a window of a few instructions",
 ["metrics.go"],[("per-metric mutexes","metrics.go")])
p("C10","Counters never go backwards",
 "The value of a counter, or of any instance of a counter vector, as reported and as published in the file, never decreases: a set to a smaller value, a negative increment, and an increment that would overflow are refused with an error and change nothing. This holds for every sequence of operations, every interleaving of several goroutines, and across Stop and Start.",
 ["histories","schedules","inputs"],"every sequence of counter operations with boundary values up to the depth bound; every interleaving of two or three goroutines within the preemption bound",
 "tests try one decrement; overflow and interleaved set/increment pairs are not covered",
 ["metrics.go"],[("comparison in Set, sign check in Inc","metrics.go: PCPCounter, PCPCounterVector")])
p("C11","Updates concurrent with Start or Stop are neither lost nor fatal",
 "An update of a registered metric that overlaps Start or Stop of its client always succeeds exactly as it would otherwise and never crashes the process or writes through an unmapped file. An update that completed successfully is contained in the file that Start leaves published, and after Stop the metric still reports it and the next Start publishes it.",
 ["schedules"],"every interleaving within the preemption bound of Start, Stop and one or two updating goroutines, for single and instance metrics",
 "no test updates while the client starts or stops; the window lies between copying the value and installing the updater, or between unmapping and dropping it",
 ["client.go","metrics.go"],[("update closures installed at Start, dropped at Stop","client.go: writeValue, Stop"),("per-metric mutexes","metrics.go")])
p("C12","A value is accepted exactly if its type can hold it, and stored exactly",
 "A metric accepts a value exactly when the metric's type can represent it (a plain int fits every integer type whose range contains it, a plain uint every unsigned one, a float64 fits the float type if within its finite range, sized integers, float32 and strings must match their type) and refuses everything else with an error, at construction as well as at update. An accepted value is reported and published as that very value in the metric's type, for every type and value.",
 ["inputs"],"every metric type against boundary values of every Go type, at construction, set, and through the file",
 "tests list some type/value pairs; the space of types and boundary values is larger and the published encoding is not compared",
 ["metrics.go","bytewriter/bytewriter.go"],[("IsCompatible / resolve","metrics.go"),("little-endian encoding","bytewriter/bytewriter.go: WriteVal")])
p("C13","Composed units encode exactly the dimensions and scales given",
 "For every combination of space, time and count units with any allowed dimension, in any order of composition, the PMAPI code holds exactly those dimensions and scales in their bit fields and zero elsewhere (a scale given with dimension 0 may be kept or dropped), the dimension and scale accessors and the textual form return what was composed, and the published metric carries that code. A dimension outside -8..7 is rejected by a panic.",
 ["inputs"],"every chain of up to three unit additions over all scales and dimensions",
 "tests check a few compositions with dimension 1 and -1; the other dimensions are not reached",
 ["metrics.go","spaceunit_string.go","timeunit_string.go","countunit_string.go"],[("metricUnit bit packing","metrics.go: Space, Time, Count")])
p("C14","A timer accumulates exactly the time between its starts and stops",
 "For every sequence of timer operations and clock readings the timer's value is the sum, in the timer's unit, of all completed start/stop intervals since the last reset, the value returned by Stop is that sum, and the file shows it while started. Starting a running timer, stopping a stopped one and resetting a running one fail and change nothing, also when several goroutines use the timer.",
 ["histories","schedules"],"every sequence of start, stop, reset and clock advances up to the depth bound for every unit, under a virtual clock; every interleaving of two goroutines",
 "tests sleep for real and compare loosely with one unit",
 ["metrics.go"],[("started flag, since, unit switch","metrics.go: PCPTimer")])
p("C15","A histogram reports the statistics of exactly what was recorded",
 "After any sequence of records the histogram's minimum, maximum, mean, variance, standard deviation, percentiles and buckets are those of exactly the accepted values (to its configured precision), the five published instances show the same numbers, and Low and High return the configured bounds after normalisation. A record that is refused changes nothing, and recording and reading from several goroutines neither loses records nor races.",
 ["histories","schedules","inputs"],"every sequence of records up to the depth bound over boundary values and several ranges and precisions; every interleaving of two or three goroutines",
 "tests record one ramp and check a few numbers",
 ["metrics.go"],[("update of the five instances","metrics.go: PCPHistogram.update"),("normalize","metrics.go"),("mutex","metrics.go: PCPHistogram")])
p("C16","Writer operations stay in bounds and write little-endian exactly there",
 "Every write of a value, byte slice or string at an offset either stores exactly its little-endian bytes at exactly that place and returns the offset just behind them, or, when it does not fit (offset negative, beyond the end or overflowing, or an unsupported value), returns an error and changes no byte; it never panics. The Must forms panic in exactly the cases where the plain forms fail, and a memory-mapped writer shows the same bytes in its file.",
 ["inputs"],"every writer method, boundary values of every type, every offset around both ends of small buffers and extreme offsets",
 "tests use offset 0 and one overflow",
 ["bytewriter/bytewriter.go","bytewriter/memorymappedwriter.go","bytewriter/writer.go"],[("bounds check","bytewriter/bytewriter.go: Write"),("binary.Write","bytewriter/bytewriter.go: WriteVal")])
p("C17","Dump survives every input",
 "For every byte string, the dump function returns, either with a description of the data or with an error; it never panics, never blocks, never reads outside the data and never spends effort out of proportion to the size of the data. A file that is truncated, or whose counts or offsets point outside the data, yields an error in every interleaving of its reader goroutines.",
 ["inputs","schedules"],"every truncation, and every replacement of each header, table-of-contents and record field by boundary values, of a set of valid files; pairs of replacements in header and contents table; every interleaving within the bound on selected inputs",
 "tests parse five good files",
 ["mmvdump/mmvdump.go"],[("length checks","mmvdump/mmvdump.go: readHeader, readToc, read*"),("reader goroutines and wait groups","mmvdump/mmvdump.go: readItems, readComponents")])
p("C18","Printing a dump never crashes",
 "Whatever the dump function accepted, the printing function either prints it completely and returns nil or returns an error; it never panics, also when records refer to metrics, instances, instance domains or strings that are not in the file, when sections are missing, or when the output writer fails.",
 ["inputs","fault_sequences"],"every replacement of each reference, type, count and version field by boundary values in a set of valid files; an output failure at every write",
 "tests print good files to a buffer that never fails",
 ["mmvdump/writer.go"],[("lookups by offset","mmvdump/writer.go")])
p("C19","Dump and print report exactly what is in the file",
 "For every valid file, of format version 1 or 2, the dump function returns exactly the header, contents table, instance domains, instances, metrics, values and strings that are stored there, keyed by offset, with each field's exact value, in every interleaving of its reader goroutines and without data races. The printed form lists every entry in file order with the metric name, instance name, type, unit and value as stored.",
 ["inputs","schedules"],"files written by clients over the registered-set family and hand-assembled files; every interleaving of the reader goroutines within the bound",
 "tests compare five files under one schedule each",
 ["mmvdump/mmvdump.go","mmvdump/writer.go","mmvdump/pcp.go"],[("reader goroutines filling shared maps","mmvdump/mmvdump.go: readItems, readComponents"),("FixedVal","mmvdump/mmvdump.go")])
p("C20","Metrics registered by string get exactly the name and instances written",
 "A string is accepted by registration-by-string exactly when it is a dotted identifier path in which at most one component is followed by a bracketed, comma separated, non-empty list of instances, and then the metric has exactly the path as name, the part before the bracket as instance domain and exactly the listed instances (one blank after a comma does not count, an instance listed twice counts once), with the values given. Every other string is refused with an error and no effect; so are values that do not fit the instances or type.",
 ["inputs","histories"],"every string up to a length bound over an alphabet with identifier, dot, bracket, comma, space and other characters; sequences of registrations that share a domain",
 "tests try a dozen strings",
 ["registry.go"],[("regular expression","registry.go: parseString"),("addInstanceMetricByString","registry.go")])
p("C21","The file location follows the PCP configuration",
 "A client's file lies in the mmv directory below the temporary directory that the PCP configuration file (found through PCP_CONF, or below PCP_DIR, or in /etc) sets, relative to PCP_DIR, and below the system temporary directory when there is no configuration or no such setting. Configuration lines KEY=VALUE are taken as written, comments and other lines are ignored, and the last setting of a key counts; a client name that is not a plain file name inside that directory is refused.",
 ["configurations","inputs"],"every combination of the environment variables, a set of configuration file contents, and client names",
 "tests cover the default location and one name with a separator",
 ["config.go","client.go"],[("initConfig","config.go"),("mmvFileLocation","client.go")])
p("C22","Clients do not disturb each other",
 "Two clients with different names and registries in one process can be started, updated and stopped in any order and concurrently: each file describes exactly its own client's metrics at every time at which that client alone would be complete, also when both contain histograms, no client touches any file but its own, and there is no data race or crash.",
 ["schedules","histories"],"every sequence of operations on two clients up to the depth bound; every interleaving within the preemption bound of two concurrent Starts, updates and Stops",
 "tests use one client at a time",
 ["client.go","speed.go","metrics.go"],[("histogram instance domain shared by all histograms","speed.go"),("instance offsets stored in the shared domain","client.go: writeInstance")])
p("C23","File system failures are reported and survivable",
 "If any file system or mapping step of Start or Stop fails, the call returns an error (no panic, no hang, no success), no file descriptor or mapping is leaked, and updates keep working in memory. A Stop that fails leaves the client stopped and removes or keeps the file as one that succeeds would, unless the removal itself failed. A later Start in a healthy environment succeeds and publishes the complete current state, and the registry again accepts registrations while the client is not started.",
 ["fault_sequences"],"a failure, or short write, at every file system or mapping call of every Start/Stop history within the bound, singly and in pairs",
 "tests never see a failing file system call",
 ["client.go","bytewriter/memorymappedwriter.go"],[("error returns","bytewriter/memorymappedwriter.go: NewMemoryMappedWriter, Unmap"),("error handling","client.go: Start, Stop")])
p("C24","Text stays within its slot or is refused",
 "Metric names, instance names, descriptions and string values of every length are either accepted, and then published complete, null-terminated and entirely within their own field of the file, or refused with an error before anything is changed; the limit is 255 bytes. An update to a shorter string leaves nothing of the longer one behind.",
 ["inputs"],"every kind of text at every length around 0, 63/64, 255/256/257 and beyond, alone and next to neighbours, in both format versions, at construction and update",
 "tests use short strings and one long name",
 ["client.go","metrics.go","instance_domain.go"],[("length checks","metrics.go: newpcpMetricDesc; instance_domain.go: NewPCPInstanceDomain"),("256-byte slots","client.go: writeValue, writeMetricDesc, writeInstance")])
p("C25","A reader of the live file never sees a torn number",
 "Anyone who reads the file of a started client while numeric values are being updated, at any instant, finds each numeric value equal to its value before or after an update in progress, never a mixture, and all other content unchanged and complete.",
 ["schedules","crash_points"],"a read after every store into the file of every update of every numeric type, over values whose bytes all differ, with one or two updating goroutines",
 "tests read after the update has returned",
 ["bytewriter/bytewriter.go","metrics.go"],[("value store","bytewriter/bytewriter.go: Write")])
p("C26","Identifiers depend only on names and fit their fields",
 "The identifier of a metric, instance, instance domain or client (cluster) is a function of its name alone: equal names give equal identifiers in every registry, registration order and process, and the published identifier equals the reported one. Metric identifiers fit 10 bits, instance domain identifiers 22 bits and cluster identifiers 12 bits, and are the low bits of the 32-bit FNV-1a hash of the name, which instances carry in full.",
 ["inputs","histories"],"every name up to a length bound over a small alphabet plus boundary names, for all four kinds, in different orders and processes",
 "tests hardly look at identifiers",
 ["speed.go","metrics.go","instance_domain.go","instance.go","client.go"],[("hash","speed.go")])
p("C27","The mmvdump command prints its file or fails",
 "The mmvdump command, given the name of a file in any form, prints for every valid file one line with that name and then exactly the printed form of its dump, and ends with status 0. For a file that cannot be read or that the dump or printing function refuses, and when its output cannot be written, it ends with a status other than 0; it never hangs and never changes the file.",
 ["inputs","fault_sequences"],"files of clients and generated valid files, every kind of name, missing files and directories, truncations and replacements of fields, outputs that fail at the start or in the middle",
 "no test runs the command",
 ["mmvdump/cmd/mmvdump/main.go","mmvdump/mmvdump.go","mmvdump/writer.go"],[("main","mmvdump/cmd/mmvdump/main.go")])
p("C28","Definitions are accepted exactly when well-formed, and kept",
 "A metric is constructed exactly when its name is neither empty nor longer than 255 bytes, at most two descriptions are given, none of them longer than 255 bytes, a unit is given, and, for a metric with instances, a domain and values of its type for exactly the instances of that domain are given; an instance domain exactly when its name is not empty, its descriptions are likewise and no instance name is longer than 255 bytes (an instance listed twice counts once). From then on the object reports exactly that name, type, unit, semantics, descriptions, instances and values, through registration, Start, updates of other things and Stop, and whatever the caller does afterwards to the slices and maps that were passed in or handed out.",
 ["inputs","histories"],"every combination of boundary names and descriptions for every kind of metric; every combination of subsets of instances and values; every change of every passed or returned collection at every moment of a client's life",
 "tests construct a dozen well-formed metrics and never change what they passed",
 ["metrics.go","instance_domain.go","instance.go"],[("checks of constructors","metrics.go: newpcpMetricDesc, newpcpInstanceMetric, generateInstanceMetric"),("instance domains","instance_domain.go: NewPCPInstanceDomain, Instances, MatchInstances")])
p("C29","Must forms do what the plain forms do and panic where those fail",
 "Every Must form (MustStart, MustStop, MustRegister, MustRegisterIndom and MustRegisterString of the client, the Must updates of metrics, vectors and histograms, the Must writes of the writers) does what its plain form does: where that succeeds it returns normally with the same effect and the same result, and where that reports an error it panics and leaves everything as the plain form does, so that the client, the metric and the registry stay usable afterwards. This holds in every history, when file system calls fail, and when Must forms are called from several goroutines at the same time.",
 ["histories","fault_sequences","schedules"],"every history of Must registrations, starts, stops and updates up to the depth; every failure of up to three file system calls of MustStart and MustStop; pairs of Must calls over all interleavings within the bound; every write at every offset",
 "tests call the Must forms where they succeed",
 ["client.go","metrics.go","bytewriter/bytewriter.go"],[("Must forms of the client","client.go: MustStart, MustStop, MustRegister*"),("Must updates","metrics.go"),("Must writes","bytewriter/bytewriter.go")])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
