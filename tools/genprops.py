#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below (single source for ids/titles/statements).
import json, os
T="go/tricorder/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
p("C01","A response never mixes two updates of a group",
 "In every response, through every access path (in-process read, Go RPC, JSON, HTML, plain text; one metric or a whole subtree), all values of variables and callbacks that belong to one group come from one single completed run of that group's update function and carry the timestamp that run returned. The update function never runs while some request is still reading that group, and no read of a group's variable is concurrent (a data race) with a run of its update function.",
 ["schedules"],"all interleavings of 2-3 concurrent requests (any mix of access paths) over 1-2 groups, within the preemption bound",
 "Tests start goroutines but the Go scheduler picks one or two interleavings; the window between visiting a group and reading its variable is never hit.",
 [T+"metric.go",T+"html.go",T+"json.go",T+"rpc.go"],
 [("session.Visit/Close, region event loop",T+"metric.go"),("one session per request",T+"html.go, json.go, rpc.go")],
 [("lockCount","number of sessions reading the group",T+"metric.go region"),("updateTime","timestamp of last update",T+"metric.go region")],
 ["ReadMyMetrics","/metrics","/metricsapi","MetricsServer.ListMetrics/GetMetric"])
p("C02","Group updates run exactly once per non-overlapping request, without deadlock",
 "A request that reads a group while no other request is reading that group runs the group's current update function exactly once before it reads; a request that overlaps another one still reading the group runs nothing and reuses that data; a request that reads nothing of a group never runs its update function. Once a replacement update function has been registered the old one never runs again and the next update runs the new one. Requests over any number of groups always terminate.",
 ["schedules","histories"],"all interleavings of 2-3 requests and update-function replacements within the preemption bound; all sequential histories to a depth",
 "The update-count depends on how requests overlap; the tests run a fixed overlap.",
 [T+"metric.go",T+"api.go"],
 [("region.handleLockUnlock first-holder rule",T+"metric.go"),("registerUpdateFunc handshake",T+"metric.go")],
 [("lockCount","readers in process",T+"metric.go region"),("updateFunc","current update function",T+"metric.go region")],
 ["Group.RegisterUpdateFunc","ReadMyMetrics","HTTP and RPC endpoints"])
p("C03","A failed request never leaves its groups held",
 "However a request ends - the client's connection failing at any write, a panic in any metric callback, a value that cannot be encoded - every group it was reading is released: the next request over each of those groups runs its update function again exactly once and returns fresh data. Sequences of several failing requests through different access paths leave later requests unaffected.",
 ["fault_sequences","histories"],"every write index / callback index as fault point, every access path, all sequences of failing requests to a depth",
 "No test injects a write error or a panic; leaks show only on the following request.",
 [T+"metric.go",T+"html.go",T+"json.go",T+"rpc.go",T+"http.go"],
 [("deferred session Close",T+"html.go, metric.go")],
 [("visitedRegions","groups a request holds",T+"metric.go session")],["HTTP handlers","RPC methods","ReadMyMetrics"])
p("C04","The registry behaves as a tree of uniquely named entries",
 "For every sequence of registering and unregistering metrics and directories, by absolute path or relative to a directory handle (also a handle whose directory has since been unregistered or replaced), each call returns the result a plain tree gives: success, path-in-use, not-found or wrong-type, never overwriting an existing entry and never removing anything but the named entry. After every step exactly the metrics attached to the root are reported, each once, under the absolute path, description, unit and value it was registered with. Empty or blank path components are ignored, and the root can be neither registered over nor removed.",
 ["histories","inputs"],"all operation sequences to a depth over a small path alphabet, including stale handles; states deduplicated",
 "Tests run one long hand-written registration sequence; stale handles and re-registration are not combined.",
 [T+"metric.go",T+"api.go"],
 [("directory.contents maps with enclosing entries",T+"metric.go"),("identity check on removing a child directory",T+"metric.go removeChildDirectory")],
 [("contents","name to entry",T+"metric.go directory")],["RegisterMetric","RegisterDirectory","GetDirectory","UnregisterPath","DirectorySpec methods","ReadMyMetrics"])
p("C05","Concurrent registry operations are linearizable and race free",
 "Concurrent calls that register, look up or unregister metrics and directories behave as if executed one at a time in some order consistent with their call/return order (a registration below missing directories counts as registering those directories one after another, then the metric): at most one of several concurrent registrations of a path succeeds, concurrent registrations of one directory all get the same directory, and nothing registered successfully is lost unless it or an ancestor was unregistered. No call races on memory, deadlocks or crashes.",
 ["schedules"],"all pairs/triples of small concurrent programs over a colliding path alphabet, all interleavings within the preemption bound",
 "No test registers concurrently; races need a preemption between check and insert.",
 [T+"metric.go"],[("per-directory RWMutex held over check and insert",T+"metric.go createDirIfNeeded, storeMetric")],
 [("contents","name to entry",T+"metric.go directory")],["RegisterMetric","RegisterDirectory","UnregisterPath","UnregisterDirectory","GetDirectory","ReadMyMetrics"])
p("C06","Listings are complete, duplicate free and ordered under concurrent change",
 "A listing reports every metric at or under the requested path that is registered during the whole request (and does not hold NaN or an infinity, see C19) exactly once, and reports no metric that was not registered at some moment of the request. Entries come in depth-first order with the names of each directory in lexicographic order, in every machine-readable access path, whatever is registered or unregistered concurrently.",
 ["schedules","histories"],"all interleavings of a listing with registrations/unregistrations within the preemption bound, both iteration orders of the underlying maps; all small trees",
 "Order bugs hide behind map iteration luck; completeness under concurrent change is never tested.",
 [T+"metric.go"],[("GetAllMetrics traversal over sorted List",T+"metric.go")],
 [("contents","name to entry",T+"metric.go directory")],["ReadMyMetrics","/metricsapi","/metrics?format=text","MetricsServer.ListMetrics"])
p("C07","Distribution statistics equal those of the multiset of values",
 "After every sequence of adding, updating and removing values (of values that are present), the reported count, sum, average and per-range counts are exactly those of the multiset of values held, and minimum and maximum are the extremes seen since the distribution was last empty; all statistics are zero while it is empty. UpdateMinMax moves minimum and maximum at most towards the extremes of the values held, never beyond them, and changes nothing else. The generation grows by exactly one with every change and is never reset, and the cumulative/non-cumulative marking is always reported correctly.",
 ["histories","inputs"],"all operation sequences to a depth over a value alphabet with range boundaries, negative and equal values, for several bucketers, canonical states deduplicated",
 "Tests check two fixed 400-500 value histories.",
 [T+"metric.go",T+"api.go"],[("distribution add/update/remove, Snapshot",T+"metric.go")],
 [("counts,total,min,max,count,generation","running statistics",T+"metric.go distribution")],["ReadMyMetrics value of a distribution metric","NonCumulativeDistribution.Sum/Count"])
p("C08","Distribution operations are atomic under concurrency",
 "Concurrent additions, updates, removals and reads of a distribution through any access path behave as if executed one at a time: every reported snapshot (count, sum, average, min, max, median, generation, per-range counts, timestamp) equals the state after some prefix of a single order of the operations that respects call/return order, no update is lost, and there is no data race or deadlock.",
 ["schedules"],"all 2-3 thread programs of 1-2 operations over a small alphabet, all interleavings within the preemption bound",
 "Tests use distributions from a single goroutine.",
 [T+"metric.go"],[("distribution RWMutex over every operation",T+"metric.go")],
 [("lock","guards all statistics",T+"metric.go distribution")],["ReadMyMetrics","Sum","Count"])
p("C09","The median estimate stays with the middle values",
 "For every non-empty distribution the reported median lies between the reported minimum and maximum, and lies in the range(s) that hold the middle value(s) of the sorted values: for an odd count within the range holding the middle value, for an even count between the bounds of the ranges holding the two middle values. With one or two values it is their exact mean.",
 ["inputs","histories"],"all multisets up to a size over boundary-heavy values, several bucketers, including after updates and removals",
 "Six fixed data sets are tested.",
 [T+"metric.go"],[("calculateMedian/indexToValue",T+"metric.go")],[("counts","per-range counts",T+"metric.go distribution")],["median field of a distribution metric"])
p("C10","Bucketers partition the number line as documented",
 "Every bucketer yields the documented ascending endpoints (exponential: start times powers of scale; linear: start plus multiples of increment; arbitrary: the given values; geometric: 1, 2, 5 times powers of ten from at or just below lower through upper) and one range more than endpoints. Every value is counted in exactly one range: the one whose inclusive lower and exclusive upper bound contain it, the first unbounded below and the last unbounded above. Invalid parameters panic instead of yielding a bucketer.",
 ["inputs"],"grid of all small constructor parameters (counts, starts, scales, decades) and for each all endpoint-adjacent probe values",
 "Four constructor calls are tested, and values on an endpoint only incidentally.",
 [T+"metric.go",T+"api.go"],[("newXxxBucketerStream, findDistributionIndex",T+"metric.go")],[("pieces","ranges",T+"metric.go Bucketer")],["ranges of a distribution metric"])
p("C11","A distribution's unit is assigned once and converts durations",
 "The first registration of a distribution assigns its unit; any later registration succeeds only with the same unit and otherwise returns the wrong-unit error, also when registrations run concurrently (all successes agree on one unit). Durations added, updated or removed are converted to that unit (seconds or milliseconds) exactly as the equivalent float would be; using a distribution that has no unit, a value of another type, or a duration with a non-time unit panics and leaves the statistics unchanged and the distribution usable.",
 ["histories","schedules","inputs"],"all register/use histories to a depth over all units and value types; all interleavings of 2-3 concurrent registrations",
 "Tests check one rejected unit and one missing unit, sequentially.",
 [T+"metric.go",T+"api.go"],[("SetUnit, valueToFloat",T+"metric.go")],[("unit,unitSet","assigned unit",T+"metric.go distribution")],["RegisterMetric","Add/Update/Remove","reported distribution"])
p("C12","Lists report exactly the slice last given, isolated from the caller",
 "For every supported element type and every sequence of creating, changing and mutating, a list metric reports exactly the elements of the most recently given slice, in order; when the slice was given as mutable, later changes by the caller to that slice are never visible. Slices of int or uint are always reported as fixed-size integers; a change to another element type, a non-slice, or an unsupported element type panics and leaves the list as it was.",
 ["histories","inputs"],"all create/change/caller-mutation histories to a depth, all element types, lengths 0..n and both mutability flags",
 "Tests check single element types with one change each.",
 [T+"metric.go",T+"api.go"],[("asSliceValue defensive copy",T+"metric.go")],[("aSlice","reported slice",T+"metric.go listType")],["ReadMyMetrics","JSON/text/HTML views"])
p("C13","List changes are atomic under concurrency",
 "Concurrent changes and reads of a list through any access path are linearizable: every read returns one complete slice that was given to the list together with the timestamp of that very change, never a mixture, and never one older than a change that completed before the read began. There is no data race or deadlock.",
 ["schedules"],"2-3 threads of changes and reads, all interleavings within the preemption bound",
 "Tests change lists from a single goroutine.",
 [T+"metric.go"],[("listType RWMutex around slice and timestamp",T+"metric.go")],[("aSlice,timeStamp","value and its time",T+"metric.go listType")],["ReadMyMetrics","/metricsapi","/metrics"])
p("C14","Every registered value is reported with its exact value and contracted type",
 "For every supported kind of metric (variable, callback, pointer to time pointer, list; every primitive type, also user-defined types based on one) the in-process and Go RPC value has exactly the Go type the documented kind table promises and exactly the variable's current value, with the right kind, sub-type, bits, unit, description and path, and survives RPC encoding. Unsupported types are rejected with the wrong-type error (functions taking arguments or without exactly one result are refused, possibly by a panic) and registering a value never makes another metric unavailable.",
 ["inputs"],"all kinds x boundary values of every primitive type x all units, through in-process reads and RPC encoding",
 "Tests use one or two values per type and never encode over RPC.",
 [T+"metric.go",T+"rpc.go",T+"messages/api.go"],[("getPrimitiveType, valueToInterface",T+"metric.go"),("gob registrations",T+"messages/api.go")],[],["ReadMyMetrics","MetricsServer.GetMetric/ListMetrics"])
p("C15","JSON and plain text agree with the Go RPC value",
 "For every supported metric and value, the JSON object and the plain text line denote the same value as the Go RPC response (integers and bools exactly, floats to their precision, strings verbatim, times and durations in the metric's unit with nine decimals, distributions and lists element for element), with the same path, description, unit, group and the JSON kind/sub-type of the documented table. The singleton form and the listing form report the same object.",
 ["inputs"],"all kinds x boundary values of every primitive type x all units, through all machine views",
 "Tests compare one value per type with literals.",
 [T+"metric.go",T+"json.go",T+"html.go",T+"messages/metric.go"],[("updateJsonOrRpcMetric, valueToTextString",T+"metric.go"),("asJson",T+"messages/metric.go")],[],["/metricsapi","/metrics?format=text","MetricsServer"])
p("C16","JSON and Go RPC forms of a metric convert losslessly into each other",
 "Converting any metric to its JSON form and back to its Go RPC form (directly or over the encoded wire) restores kind, sub-type, value and timestamp exactly for every supported type, list and time unit (the zero time value, reported as 0, comes back as the epoch), and converting twice changes nothing more. A metric whose time or duration value, list element or timestamp cannot be parsed yields an error and is left unchanged.",
 ["inputs"],"all kinds/sub-types x boundary times, durations and units; all malformed value shapes",
 "Tests convert about ten fixed metrics.",
 [T+"messages/metric.go",T+"duration/duration.go"],[("asJson/asGoRPC",T+"messages/metric.go"),("ParseWithUnit/StringUsingUnits",T+"duration/api.go")],[],["Metric.ConvertToJson","Metric.ConvertToGoRPC","AsJsonWithSubType"])
p("C17","Durations convert, print and parse exactly",
 "Every Go duration and every time survives conversion to the library's duration and back, sign included; its decimal text in seconds or milliseconds is the exact value with nine decimals and parses back to the same duration, parsing truncates extra digits and rejects malformed text. The human form of a non-negative duration shows days, hours, minutes and seconds (or ms, us, ns) that recompose to the duration truncated to the shown precision (at least two significant digits).",
 ["inputs"],"all combinations of boundary second and nanosecond parts with both signs and all units; all short strings over the decimal alphabet",
 "Tests check a few dozen fixed values.",
 [T+"duration/duration.go",T+"duration/api.go",T+"units/api.go"],[("mult/div/convert/parse/prettyFormat",T+"duration/duration.go")],[],["duration package API"])
p("C18","Type tables are consistent and float conversion round-trips",
 "For every type: its zero value and nil slice have exactly the Go type the kind table promises, the type derived from a Go value of that type is the same type (and sub-type for slices), and size and category predicates agree with it. Converting a representable value (including negative ones; times within float precision) to a float and back yields the same value, from-float of integers and durations rounds to nearest with halves away from zero, and types that do not support floats panic.",
 ["inputs"],"every type x boundary and negative values x rounding neighbourhoods",
 "Tests check positive durations and a few integers.",
 [T+"types/api.go",T+"types/types.go",T+"duration/api.go",T+"messages/api.go"],[("FromFloat/ToFloat/FromGoValue tables",T+"types/api.go")],[],["types package API","messages.ZeroValue"])
p("C19","One unrepresentable value never hides other metrics",
 "Whatever float values (NaN, infinities) scalar metrics, callbacks, lists and distributions hold, a listing through any access path still succeeds and reports every other metric under the path. A scalar that is NaN or infinite is left out of machine-readable listings and is reported again as soon as it is finite.",
 ["inputs","histories"],"all assignments of {finite, NaN, +Inf, -Inf} to a set of scalar, callback, list and distribution metrics, through every access path, and all short histories of such assignments",
 "Tests contain one NaN scalar.",
 [T+"metric.go",T+"json.go"],[("IsInfNaN filter in collect",T+"metric.go")],[],["/metricsapi","/metrics","MetricsServer.ListMetrics","ReadMyMetrics"])
p("C20","Every endpoint resolves paths alike and answers missing paths as documented",
 "For every tree and every request path (also with redundant slashes), all endpoints agree on what the path denotes: a metric, a directory or nothing. Singleton JSON answers 404 and RPC lookup answers not-found exactly when the path is not a metric; listings of a missing path are empty JSON arrays / empty lists / a does-not-exist text; a listing of a metric is that metric alone; response content types are as declared, and a gzip-encoded response decodes to the identical status and body served to a client that does not accept gzip, which is never sent gzip.",
 ["inputs","configurations"],"all small trees x all request paths to a depth x all endpoints x encodings",
 "No test drives the HTTP or RPC endpoints.",
 [T+"json.go",T+"html.go",T+"http.go",T+"rpc.go",T+"metric.go"],[("jsonHandlerFunc, htmlAndTextHandlerFunc, gzipHandler",T+"json.go, html.go, http.go")],[],["/metricsapi","/metrics","MetricsServer.GetMetric"])
p("C21","HTML pages are injection free and navigable",
 "Whatever characters appear in metric names, descriptions, units, string values or the request itself (its path, its parameters), the HTML page shows them, if at all, as text: they never introduce markup, attributes or script, and every page (that of a missing path included) carries the security headers. A directory page shows each metric directly in it and, for each subdirectory, a link that leads exactly to that subdirectory's page and nothing from inside it.",
 ["inputs"],"all short strings over an alphabet of markup- and URL-significant characters in every position; all small trees",
 "No test renders HTML.",
 [T+"html.go"],[("html/template escaping, Link, setSecurityHeaders",T+"html.go")],[],["/metrics"])
p("C22","Human-readable numbers stay faithful",
 "In HTML, every integer with unit None is shown with all its digits grouped in threes; integers with any other defined unit are shown exactly when below one radix step and otherwise as a mantissa and suffix (powers of 1024 for byte units, of 1000 otherwise) whose value is the integer to three significant digits, sign included. Times are shown exactly in UTC, durations by their human form or, if negative, exactly.",
 ["inputs"],"all integers around every power of the radix and of ten, all sign/width boundaries, all units",
 "Tests cover a few dozen values with an artificial radix.",
 [T+"metric.go",T+"duration/duration.go"],[("iCompactForm/uCompactForm/addSeparators/prettyFormat",T+"metric.go")],[],["/metrics"])
p("C23","Health endpoints always report the last status set",
 "For every sequence and every interleaving of setting health and readiness and of probing, each probe answers according to one status that was current at some moment of the probe: 200 with body OK when healthy/ready, otherwise 503 with the status string; health and readiness are independent and start as healthy and not ready. Setting the empty or OK string as a failure status panics and changes nothing.",
 ["schedules","histories"],"all operation sequences to a depth and all interleavings of 2-3 threads within the preemption bound",
 "The package has no tests.",
 ["go/healthserver/impl.go","go/healthserver/api.go"],[("mutex guarded status strings","go/healthserver/impl.go")],[("healthStatus,readyStatus","current status","go/healthserver/impl.go")],["/healthz","/readiness"])
p("C24","Registered flags are reported with live values",
 "After registering flags every application flag appears under the flags directory with its name, usage, current value (also after it is set again) and type - natively typed for booleans, numbers, strings, durations and times, otherwise by its string form - and with the unit set for it, or else seconds for durations and none for the rest (type and unit as of registration). A flag that does not offer a typed value or is of an unknown type never breaks registration or listing.",
 ["inputs","histories"],"all flag kinds x value sets x unit overrides, all set-again histories to a depth",
 "Tests register four flags and never change them.",
 [T+"metric.go",T+"api.go"],[("registerFlags, toFlagGetter, flagUnit",T+"metric.go")],[("flagUnits","unit overrides",T+"metric.go")],["RegisterFlags","SetFlagUnit","ReadMyMetrics"])
p("C25","Default process metrics report what the operating system says",
 "For every answer of the operating system and Go runtime (CPU times with any seconds and microseconds part, resident and shared sizes, faults, block I/O, messages, signals, context switches, allocated and released memory, goroutine count), the default metrics report exactly those quantities in their documented units, refreshed together at each request. All default paths are present with the documented type and unit.",
 ["inputs","histories"],"all combinations of distinguishing environment answers per field, and short histories of changing answers",
 "Tests never look at the default metrics.",
 [T+"setup.go",T+"wrapper/syscall_linux.go"],[("initDefaultMetrics update functions, Getrusage wrapper",T+"setup.go, wrapper/")],[],["/proc/... metrics"])
p("C26","Group ids identify what is updated together",
 "Every group, distribution and list has its own id, distinct from all others however they are created (also concurrently), constant over its life and independent of path or access path; metrics report the id of the group they were registered in, and within one response metrics with the same id carry the same timestamp.",
 ["histories","schedules"],"all creation/registration histories to a depth; all interleavings of 2-3 concurrent creations within the preemption bound",
 "Tests check ids of a fixed setup created sequentially.",
 [T+"metric.go"],[("idGenerator channel",T+"metric.go")],[("groupId / id","identity",T+"metric.go region, distribution, listType")],["groupId in JSON/RPC"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
