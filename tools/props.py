#!/usr/bin/env python3
"""Single source for properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

WALK="pkg/client/walk.go"; CL="pkg/client/client.go"; OA="pkg/client/oauth2_http_client.go"
MA="pkg/marshaler/marshaler.go"; BB="internal/blackbox/blackbox.go"; GW="internal/gateway/gateway.go"
WIN="pkg/client/window.go"; TLS="internal/tls/tls.go"; DR="internal/promql/data_reader/walking_data_reader.go"
ST="internal/cache/store/store.go"

p("C01","Walk hands over every settled envelope exactly once, in order",
  "Walking a source whose timestamps are distinct hands the visitor every envelope that lies in [start, end) and is older than the walk delay exactly once and in timestamp order, whatever page size the server applies, and each page is requested from one nanosecond after the last envelope handed over. Reads that fail and empty pages that the backoff retries neither lose nor repeat an envelope.",
  ["inputs","fault_sequences","histories"],
  "all stores of envelopes (arbitrary 64-bit timestamps), start, end, page limits, and sequences of failed and empty reads",
  "Tests walk a handful of fixed pages; whether a page boundary or a retry loses or repeats an envelope depends on the timestamps and on where failures fall.",
  [WALK],[("next start = last delivered timestamp + 1","Walk"),("pruning from the tail of each page","Walk")],
  ["sequence of batches handed to the Visitor","start times the Reader is called with"])
p("C02","Walk never hands over an envelope that is too new or past its end time",
  "No envelope handed to a Walk visitor, other than on the first page with envelopes after an empty page of a walk with an end time, has a timestamp later than the current time minus the walk delay (one second by default). When an end time is set, no envelope handed over has a timestamp at or after it, and the walk stops by itself once the last envelope handed over reaches the nanosecond before the end.",
  ["inputs","histories"],
  "all timestamps in a page returned by the server, all delays and end times, all page sequences",
  "Tests use one or two sample timestamps well away from the limits; off-by-one at the limits and interactions of both limits stay untested.",
  [WALK],[("pruning too-new envelopes","Walk"),("pruning envelopes past end","Walk")],
  ["batches handed to the Visitor"])
p("C03","Walk's stop, retry, backoff and cancellation protocol",
  "A walk keeps reading until the visitor returns false, its end is reached, the backoff declines to continue, or a read fails after the context has ended; it then makes no further read or visitor call. Each failed read consults the backoff exactly once with that error, each page left empty after pruning consults it exactly once as empty, each page handed over resets it exactly once before the visitor runs; the supplied retry backoffs sleep their interval before each retry, give up at their maximum of consecutive failures, and start counting again after a reset.",
  ["inputs","fault_sequences","histories"],
  "all sequences of read results (error, empty, page), visitor answers, cancellation points, retry limits and intervals",
  "Tests script a few fixed sequences; the protocol must hold for all interleavings of results.",
  [WALK],[("backoff calls","Walk"),("retry counters","RetryBackoff")],
  ["calls received by Reader, Visitor and Backoff, with the virtual clock"])
p("C04","Window slides by exactly one interval per tick and never skips or repeats",
  "Window calls its walker once per interval with consecutive windows: each starts exactly one interval after the previous one, is exactly the configured width wide, and the first starts at the configured start (or, by default, the current time less the width). It hands each result to the visitor exactly once and unchanged, stops when the visitor returns false, and gives the walker a context that expires after one interval; a walker built for a source returns exactly what a walk over the window's bounds yields.",
  ["inputs","histories"],
  "all starts, widths, intervals, numbers of ticks and walker results",
  "Tests observe two windows with one width and interval.",
  [WIN],[("start advance","Window"),("BuildWalker","BuildWalker")],
  ["arguments of Walker calls","Visitor calls"])
p("C05","A read asks for the same thing over HTTP and over gRPC",
  "For any source id, start time and set of read options, the HTTP request and the gRPC request issued by the client ask for the same source, start time, end time, limit, envelope types, name filter and order, with every value conveyed exactly (nanosecond times, 64-bit limits, arbitrary characters in ids and filters). An option that is not given is absent from both.",
  ["inputs","configurations"],
  "all source ids, 64-bit times and limits, name filters, envelope type lists, and combinations of options",
  "Tests check one sample value per option, each on one transport.",
  [CL],[("query options","WithEndTime/WithLimit/WithEnvelopeTypes/WithDescending/WithNameFilter"),("translation to ReadRequest","grpcRead")],
  ["http.Request received by the HTTPClient","ReadRequest received by the gRPC server"])
p("C06","The API prefix follows the server's reported version",
  "Read and meta requests over HTTP use the /api/v1 prefix exactly when the server reports a semantic version with precedence of at least 2.0.0, and /v1 for any earlier version and for a server without an info endpoint (404), which counts as version 1.4.7. Any other answer of the info endpoint (other status, malformed body or version) and any transport failure makes the call fail without issuing the read.",
  ["inputs","fault_sequences"],
  "all version numbers, pre-releases, info statuses and bodies",
  "Tests use two versions.",
  [CL],[("version comparison","getBaseApiPath"),("info request","LogCacheVersion")],
  ["URLs requested","errors returned"])
p("C07","Client calls report every failure and never leak a response",
  "For every client call, a transport error, a status other than the ones the call documents as success, or a body that cannot be decoded is returned as a non-nil error with no result; a well-formed success response is returned with exactly the content the server sent, including an absent or empty result. Every HTTP response body obtained is closed exactly once or more before the call returns, and every request carries the caller's context; no response and no server address makes the client panic.",
  ["inputs","fault_sequences"],
  "all statuses, bodies (valid, empty, malformed), transport failures and gRPC responses for each client method",
  "Tests cover one failing status and one good body per call.",
  [CL],[("status checks and deferred close","Read, Meta, LogCacheVersion, LogCacheVMUptime, PromQL*")],
  ["returned values and errors","Close calls on response bodies","request contexts"])
p("C08","PromQL requests carry the query and its parameters exactly",
  "A PromQL instant or range query reaches the server, over HTTP at /api/v1/query and /api/v1/query_range or over gRPC, with exactly the query text and step the caller gave and with each given time formatted as decimal seconds with three decimals; parameters that were not given are absent. The raw variants return Prometheus-style error bodies sent with status 400 or 500 as results rather than errors, and turn every other non-200 status into an error.",
  ["inputs","configurations"],
  "all query texts, steps, times and option combinations; all statuses",
  "Tests use one fixed query and time.",
  [CL],[("PromQL options","WithPromQLTime/Start/End/Step"),("status filter","PromQLRaw, PromQLRangeRaw")],
  ["http.Request received by the HTTPClient","PromQL requests received by the gRPC server"])
p("C09","OAuth2 client reuses a token until a rejection, then fetches a fresh one",
  "The OAuth2 client sends every request with the token obtained from the token server, fetches a token only when it has none, and discards it after any response outside 200-299 so that the following request fetches a new one; it never sends a request with an empty or stale token. Requests that already carry an Authorization header go through untouched without contacting the token server, failed token requests (transport, status other than 200, malformed body) are reported as errors without sending the request, and token requests carry exactly the configured client or user credentials.",
  ["inputs","histories","fault_sequences"],
  "all sequences of requests and response statuses, all token server outcomes, credentials and token contents",
  "Tests cover single statuses and short fixed sequences.",
  [OA],[("token cache","getToken"),("clearing on non-2xx","Do")],
  ["requests received by the inner HTTPClient","values returned by Do"])
p("C10","OAuth2 client is safe for concurrent use",
  "Any interleaving of concurrent requests through one OAuth2 client is free of data races, and each request is sent with a complete token that the token server issued. A request's rejection discards only the token that was rejected, never a newer one fetched meanwhile by another request.",
  ["schedules","fault_sequences"],
  "all interleavings of concurrent calls and all response statuses",
  "Tests run one schedule per run, and the race detector sees only the schedules that happen.",
  [OA],[("mutex around the token","Oauth2HTTPClient.mu")],
  ["requests received by the inner HTTPClient","happens-before order of memory accesses"])
p("C11","PromQL results are rendered in Prometheus' JSON format",
  "Every scalar, vector or matrix result is rendered as a Prometheus API response: status success, the matching result type, every series and point in order, labels as an object (never null), an empty result as [] (never null), timestamps as numbers with exactly three decimals (rounded to the nearest millisecond) and values as strings that parse back to the same float64. A point whose time is not a number is an error and yields no output.",
  ["inputs"],
  "all results: any number of series and points within the bound, any labels, any float64 values, any decimal times",
  "Tests render a few fixed results.",
  [MA],[("assemble* functions","assembleVectorResultData, assembleMatrixResultData, assemblePoint")],
  ["bytes returned by Marshal and written by the encoder"])
p("C12","Decoding a rendered PromQL result gives the result back",
  "Unmarshalling (or stream-decoding) what the marshaler rendered yields a result of the same kind with the same series, labels, order and float64 values, and times equal after rounding to milliseconds. This holds for instant and range results alike, and decoding leaves nothing of the target's previous content.",
  ["inputs"],
  "all results within the size bound",
  "Tests decode fixed JSON documents and never compose both directions on arbitrary values.",
  [MA],[("assemble/disassemble pair","assemble*, disassemble*, unmarshal*ResultData")],
  ["value decoded by Unmarshal and NewDecoder"])
p("C13","Malformed PromQL responses are rejected without touching the target",
  "A response with an unknown result type, a point without exactly two elements, a timestamp that is not a number, a value that is not a string or not a float, or broken JSON is rejected with an error, and the target message keeps its previous content. No such input causes a panic or a partially filled result.",
  ["inputs"],
  "all result documents: result type strings, point lengths and element types",
  "Tests try a few malformed documents on fresh targets.",
  [MA],[("disassemblePoint","disassemblePoint"),("assignment after success","Unmarshal, NewDecoder")],
  ["returned error and target message"])
p("C14","Marshaler entry points agree and leave other messages to the fallback",
  "For PromQL results, Marshal and the stream encoder produce the same bytes and Unmarshal and the stream decoder the same message. For every other type, all four entry points behave exactly as the fallback marshaler does (Marshal adding one final newline), passing its results and errors through.",
  ["inputs","configurations"],
  "all results and other messages, all fallback outcomes",
  "Tests compare fixed strings for one value per entry point.",
  [MA],[("type switches","Marshal, NewEncoder, Unmarshal, NewDecoder")],
  ["bytes and errors of each entry point"])
p("C15","Blackbox reliability is received over expected samples",
  "The measured reliability is the number of points in the returned series divided by the number of emissions expected in the window (window over emission interval, rounded down), for the window that ends at the current time less the lag, rounded down to the sample interval. A query error or an answer without a series yields an error and no figure, and every query asks for exactly the configured source and window.",
  ["inputs","fault_sequences"],
  "all intervals, windows, lags, numbers of points and query outcomes",
  "Tests check two fixed ratios.",
  [BB],[("Calculate","ReliabilityCalculator.Calculate, CountMetricPoints, ExpectedSamples")],
  ["returned figure and error","PromQL query and time sent"])
p("C16","Blackbox emits a test metric at every tick and retries failures",
  "At every emission tick the blackbox sends one batch with one gauge per test metric, with the configured source id and the tick's time rounded down to the emission interval as timestamp. A failing send is retried with the same content, at most five attempts with five milliseconds between them, and a successful send is never repeated.",
  ["inputs","fault_sequences"],
  "all source ids, intervals and sequences of send failures",
  "Tests observe a successful emission only.",
  [BB],[("retry loop","emitTestMetrics"),("timestamp rounding","StartEmittingTestMetrics")],
  ["Send requests received by the ingress client, with the virtual clock"])
p("C17","Blackbox suppresses measurements only for a freshly started VM",
  "Measured metrics are sent as exactly one envelope with one percentage gauge per metric, carrying the exact values, the configured source id and the current time, unless there are no metrics or the VM's uptime is known and below ten minutes. An uptime that cannot be determined does not suppress them, and a failing send does not stop the blackbox.",
  ["inputs","fault_sequences"],
  "all metric maps and values, all uptimes and errors",
  "Tests use one uptime on either side of the limit.",
  [BB],[("uptime gate","EmitMeasuredMetrics")],
  ["Send requests received by the ingress client"])
p("C18","The gateway's info endpoint is what the client understands",
  "For any configured version and VM uptime, the info endpoint's answer read by the client yields exactly that version and that uptime, whatever the request's method or query. The uptime is evaluated anew for each request.",
  ["inputs","configurations"],
  "all semantic versions and 64-bit uptimes",
  "Tests compare one fixed body on the server side and another on the client side.",
  [GW,CL],[("info handler","Gateway.handleInfoEndpoint"),("info parsing","LogCacheVersion, LogCacheVMUptime")],
  ["response body of /api/v1/info","client results"])
p("C19","Gateway errors keep the gRPC code and use the right format",
  "A failed PromQL query through the gateway is answered with the HTTP status that corresponds to the gRPC code and with a Prometheus-style error body whose error text is the gRPC description; a failure of a read or meta request, of the server or of its parameters, is answered with the default gRPC-gateway error. An error never produces a success status, and the error answers of these routes have a JSON content type.",
  ["inputs","fault_sequences"],
  "all gRPC codes, messages and request paths",
  "Tests provoke one error per route.",
  [GW],[("path test and status mapping","Gateway.httpErrorHandler")],
  ["status, headers and body written"])
p("C20","The gateway forwards REST reads and queries faithfully",
  "A REST request for reading a source, for meta information or for a PromQL query reaches the gRPC server with the source id, times, limit, envelope types, order, name filter, query, time, start, end and step exactly as given in the URL: no other parameter replaces the path's source id or the query. The server's answer is rendered back completely, with default values emitted and original field names.",
  ["inputs","configurations"],
  "all source ids, 64-bit times and limits, filters, queries and steps",
  "Tests forward one fixed request per route.",
  [GW,"pkg/rpc/logcache_v1/egress.pb.gw.go","pkg/rpc/logcache_v1/promql.pb.gw.go"],
  [("routes and parameter decoding","request_Egress_Read_0, RegisterEgressHandlerClient"),("marshaler options","Gateway.listenAndServe")],
  ["requests received by the gRPC client connection","HTTP response body"])
p("C21","Internal TLS is never weaker than the mutual TLS policy",
  "Every TLS configuration built for internal connections verifies the server it connects to, requires at least TLS 1.2, offers only the two approved ECDHE-RSA AES-GCM suites, and, when built from files, presents exactly the given key pair, trusts exactly the given CA and expects exactly the given server name. A missing or unusable certificate, key or CA file yields an error and no configuration, and changing one configuration never changes another.",
  ["inputs","configurations","fault_sequences"],
  "all combinations of readable, unreadable and unusable certificate, key and CA files and all common names",
  "Tests load one valid set of files and check two fields.",
  [TLS],[("configuration builder","NewMutualTLSConfig, NewBaseTLSConfig")],
  ["fields of the returned configuration","errors"])
p("C22","The PromQL data reader returns the whole window or an error",
  "Reading a window of a source whose timestamps are distinct returns every envelope at least one second old that the paged reader holds in [start, end) for the requested source, limit and envelope types, in order and exactly once, however many pages and retried failures it takes. Failures are retried at one second intervals at most four times in a row; a read that gives up after them returns an error and no data, and one whose context ends returns the context's error and no data.",
  ["inputs","fault_sequences","histories"],
  "all envelopes, page sizes, windows and failure sequences",
  "The only test cancels the context before reading.",
  [DR,WALK],[("walk to completion","WalkingDataReader.Read")],
  ["ReadResponse and error","reads issued"])
p("S01","A store read returns exactly the matching envelopes, ordered and limited",
  "A read of a source returns exactly the stored envelopes whose timestamp lies in [start, end) and whose type and metric name match the filters, in ascending or descending timestamp order as asked; when more match than the limit allows, the first ones in that order are returned, and with them all others that share the last one's timestamp. Envelopes of other sources never appear, and envelopes that share a timestamp are all kept.",
  ["inputs","histories"],
  "all sequences of puts (any timestamps, including equal ones, any order) and all query windows, limits, types, filters and directions",
  "Tests store a few envelopes with distinct small timestamps.",
  [ST],[("timestamp tree with tie-breaking keys","storage.insertOrSwap"),("ordered traversal","Store.Get, treeAscTraverse, treeDescTraverse")],
  ["envelopes returned by Get"])
p("S02","The store keeps at most its per-source maximum and evicts the oldest",
  "A source never holds more envelopes than the configured maximum per source; adding one to a full source drops exactly its oldest envelope, and the newest envelopes remain. An envelope that is not the oldest is never dropped by a put.",
  ["inputs","histories"],
  "all put sequences and maxima within the bound",
  "Tests use one fixed sequence.",
  [ST],[("eviction on insert","storage.insertOrSwap, removeOldest")],
  ["envelopes returned by Get after each put"])
p("S03","Store meta information matches what is stored and what expired",
  "For every source the meta information reports the number of envelopes held, the number expired since its creation and the timestamps of the oldest held and newest received envelopes; held plus expired equals the number put. Sources without envelopes are not reported.",
  ["inputs","histories"],
  "all put sequences, evictions and prunes within the bound",
  "Tests check the figures after a fixed sequence.",
  [ST],[("meta counters","storage.meta, Store.Meta")],
  ["Meta result"])
p("S04","Pruning under memory pressure drops the globally oldest envelopes",
  "When the pruner asks for n envelopes to be dropped, the store drops the n oldest across all sources (all of them if fewer exist), updates its totals by exactly the number dropped, forgets sources left empty, and reports the age of the oldest envelope left as its cache period. The consultant asks for envelopes to be dropped only while the heap exceeds its share of the memory, and never for more than are stored.",
  ["inputs","histories"],
  "all contents of several sources and all prune counts within the bound",
  "Tests prune a fixed content.",
  [ST,"internal/cache/store/prune_consultant.go"],[("expiration heap","Store.truncate, BuildExpirationHeap")],
  ["Get and Meta after pruning","store metrics"])
p("S05","Concurrent puts, reads and prunes never corrupt the store",
  "Under any interleaving of puts, gets, meta reads and prunes the store does not panic, deadlock or race; every envelope put is afterwards returned by a read or counted as expired.",
  ["schedules"],
  "all interleavings of a put, a get and a prune within the bound",
  "Tests run one or two goroutines without controlling their schedule.",
  [ST],[("locks","storage.Lock, sync.Map of sources")],
  ["results of Get and Meta after quiescence"])
p("R01","Every source id is routed to the nodes that own its hash",
  "Looking up a source id yields exactly the nodes whose latest assignment contains the id's hash, for assignments of known nodes in which the ranges of one node do not overlap; ids outside every range yield none, and a lookup during an update sees the old or the new assignments, never a mixture. The static lookup used without a scheduler divides the whole hash space evenly over the nodes in index order.",
  ["inputs","histories","schedules"],
  "all hash values, range sets and assignments within the bound, and all interleavings of a lookup and an update",
  "Tests use two fixed ranges.",
  ["internal/routing/routing_table.go","internal/routing/static_lookup.go"],
  [("range search","RoutingTable.Lookup, SetRanges"),("even split","StaticLookup")],["node indexes returned"])
p("R02","Proxies deliver each envelope and read to an owning node",
  "An ingress batch is split so that each envelope reaches every node that owns its source and no other, marked as local, and a failing node does not cost the others their envelopes; a batch marked local stays on the node. A read is answered by a node that owns the source, the local one where it does, and is unavailable when there is none; meta information is the union over all nodes that answer, no older than the configured cache period, and fails only when every node does.",
  ["inputs","fault_sequences"],
  "all batches, ownerships and node failures within the bound",
  "Tests route a few fixed ids.",
  ["internal/routing/ingress_reverse_proxy.go","internal/routing/egress_reverse_proxy.go"],
  [("routing","IngressReverseProxy.Send, EgressReverseProxy.Read/Meta")],["requests received by each node","answers"])
p("R03","A node validates reads and applies documented defaults",
  "A node's read defaults to 100 envelopes and to a window that ends now, rejects a negative limit or one above 1000, a window whose given end is before its start and a name filter that is no regular expression, and otherwise reads exactly the given window, types, filter and order from its store. Its meta answer reports the store's, source by source.",
  ["inputs"],"all 64-bit limits, start and end times, types and orders",
  "Tests use a few values.",["internal/routing/local_store_reader.go"],[("validation","LocalStoreReader.Read")],
  ["store calls and errors"])
p("R04","The scheduler's ranges cover the whole hash space without gaps",
  "For every number of ranges, nodes and replicas, the ranges handed to the nodes partition the 64-bit hash space (they start at zero, end at the maximum and leave neither gap nor overlap), each held by as many nodes as configured where enough are up. Every node is told the assignment in effect each term, the ranges of a node that is down move to others, and a scheduler that is not the leader changes nothing.",
  ["configurations","fault_sequences"],"all range, node and replica counts within the bound, and any node going down or coming back",
  "Tests use one configuration.",["internal/scheduler/scheduler.go"],[("range construction","Scheduler.Start")],["range assignments sent"])
p("R05","Forwarded envelopes are batched without loss, duplication or reordering",
  "Every envelope a node forwards to another is sent to it exactly once, in the order given, in requests marked as local, of at most the configured batch size, no later than the configured interval after it was given. Concurrent senders lose no envelope unless the buffer overflows, which is counted.",
  ["histories","schedules"],"all sequences of batches and pauses, and interleavings of senders, within the bound",
  "Tests send from one goroutine and wait for one batch.",["internal/routing/batched_ingress_client.go"],
  [("buffering and flushing","BatchedIngressClient.Send, start, write")],["requests the other node receives and when"])
p("R06","A node's range list follows its orchestrator exactly",
  "A node lists exactly the ranges that its orchestrator added and has not removed since, and passes the whole assignment on to its routing table unchanged. A listing is not altered by additions and removals made after or during it.",
  ["histories","schedules"],"all sequences of additions, removals, listings and assignments within the bound, concurrent or not",
  "Tests add and remove one or two ranges.",["internal/routing/orchestrator.go"],
  [("range bookkeeping","OrchestratorAgent.AddRange, RemoveRange, ListRanges, SetRanges")],["answers of ListRanges","assignments set"])
p("A01","Only authorised reads pass the auth proxy",
  "A read or query passes the proxy only if the token is valid and it belongs to an admin or every source id it touches is authorised for the user; meta answers contain only authorised sources. A request without a token, with an invalid token or naming an unauthorised source is refused without reaching the log cache.",
  ["inputs","fault_sequences"],"all tokens, admin flags, authorisation answers, paths and queries",
  "Tests try a few of each.",["internal/auth/cf_auth_middleware.go"],[("checks","CFAuthMiddlewareProvider.Middleware")],
  ["requests passed to the inner handler","statuses"])
p("A02","Authorisation answers are never stale beyond their cache lifetime",
  "The authorisation cache answers for a token and source only from answers the cloud controller gave for that token, for no longer than the configured lifetime, and failures of the cloud controller, on any page, are never taken as permission. Within that lifetime a source that was listed is not asked for again, one that was not is asked for a bounded number of times; the token is only ever sent to the configured cloud controller.",
  ["histories","inputs","fault_sequences"],"all sequences of requests, times and controller answers",
  "Tests use fixed times.",["internal/auth/capi_client.go"],[("token cache","CAPIClient.IsAuthorized")],
  ["answers and requests to the cloud controller"])
p("A03","Only tokens signed by a known key and unexpired are accepted",
  "A token is accepted exactly if its signature verifies with the key that the issuer lists under its key identifier, it uses the RS256 algorithm and it has not expired, and gives admin rights only if its scopes do; any other token, however malformed, is refused with an error and never causes a panic. Keys the issuer no longer lists stop being accepted once a refresh sees that, a key changed under the same identifier is picked up, and tokens of unknown keys make it ask the issuer no more often than configured.",
  ["inputs"],"all tokens",
  "Tests try a few malformed tokens.",["internal/auth/uaa_client.go"],[("token check","UAAClient.Read")],["answers"])
p("Q01","PromQL queries touch exactly the sources they name",
  "The set of source ids extracted from a query for authorisation is exactly the set the query engine reads, and a query with a selector that names no source, or that does not parse, is refused. Replacing source ids by the ones they stand for changes nothing else about a query: it then reads exactly the union of the replacements.",
  ["inputs","programs"],
  "all source ids over the significant characters in every kind of expression","Tests use a few queries.",["internal/promql/promql.go"],
  [("extraction","ExtractSourceIds"),("replacement","ReplaceSourceIdSets"),("selection","LogCacheQuerier.Select")],["source ids read","rewritten query"])
p("Q02","PromQL results are the matching metrics of the sources read, per series",
  "A selector yields one series per distinct set of tags, source id and instance id, from the counters (their total), gauges (their value) and timers (their duration) whose name, with every invalid character made an underscore, is the metric's and whose labels satisfy every matcher. At each evaluation time a series has the value of its latest envelope, in whole seconds, of the five minutes before, unchanged; a failed read fails the query and is counted.",
  ["inputs","fault_sequences"],
  "all values, times within a second, tags and instance ids, names, matchers and failing reads within the bound","Tests use fixed envelopes of one or two sources, equality matchers and whole results.",["internal/promql/promql.go"],
  [("selection","LogCacheQuerier.Select, hasLabels"),("series","seriesSetBuilder"),("names","SanitizeMetricName")],["samples and points of the result","requests to the data reader"])
p("Q03","PromQL times and steps mean what they say, and every range query ends",
  "A time is read as Unix seconds or RFC3339 and a step as seconds or a number with a unit; texts that are neither, and values no 64-bit nanosecond timestamp can hold, are refused. A range query gives one point per step from start to end for a series with data; a step that would never reach the end, an end before the start, or more points than memory can hold never takes the node down.",
  ["inputs"],
  "all short texts over the significant characters, odd numbers, and all combinations of odd steps, starts and ends","Tests use a few well-formed values.",["internal/promql/parsing.go","internal/promql/promql.go"],
  [("parsing","ParseStep, ParseTime, ParseDuration"),("limits","PromQL.RangeQuery")],["parsed values and errors","points of the result"])
p("N01","The nozzle forwards every envelope it receives once, within 500 ms",
  "The nozzle opens one stream, for its shard, with the preferred tags and exactly the selectors configured. Every envelope the stream brings is sent to log cache exactly once, in the order received, in requests of at most 512 envelopes, within the flush interval of 500 milliseconds of its receipt, as long as the buffers (100000 envelopes, 512 batches) are not full; no request is empty and every request has a time limit of 3 seconds. A request that fails or hangs is not sent again and keeps no other from being sent. Envelopes received, envelopes taken and failed requests are counted exactly.",
  ["histories","fault_sequences","schedules"],
  "all times within a millisecond of when envelopes come, every mix of requests that are taken, refused and hang, all selectors","Tests send three envelopes at once to a cache that takes them.",["internal/nozzle/nozzle.go"],
  [("batching","Nozzle.envelopeReader, envelopeBatcher, envelopeWriter"),("stream","Nozzle.buildBatchReq")],["requests sent","nozzle_ingress, nozzle_egress and nozzle_err counters"])
p("Y01","Syslog messages become the envelopes they encode, and nothing else does",
  "Every syslog message with an app name and a timestamp, whatever else it leaves out, is forwarded once, in order, as the envelope it encodes: a counter, gauge, timer or event if its structured data says so, a log otherwise, with the app name as source, the last part of the process id as instance, the message's time, and its text without the space around it; an error log if its priority is 11. Metrics without the numbers they need, other structured data and messages that cannot be parsed are counted as invalid and not forwarded. No message takes the server down or disconnects other clients, and a client is disconnected only when it ends, sends something that is no syslog, or is silent for the idle timeout.",
  ["inputs","histories","fault_sequences"],
  "all values of the parts of a message within the bound, present or not, every order of good, bad and undeliverable messages over connections, all silences and timeouts","Tests send one well-formed message per kind.",["internal/syslog/server.go"],
  [("conversion","Server.convertToEnvelope"),("connections","Server.Start, Server.handleConnection")],["envelopes sent","ingress and invalid_ingress counters","read deadlines"])
p("L01","A cluster of Log Cache nodes works as one store within its limits",
  "Once the scheduler has assigned ranges, every envelope sent to any node of a cluster can be read from every node within 300 milliseconds, exactly once and in timestamp order; as many nodes hold a source as the replication factor says, and every node lists every source with its count, at most a second old, and answers PromQL queries about every source, for any number of nodes, ranges and replicas. When a node goes away, sources of other nodes stay readable everywhere, its own are refused as unavailable rather than shown as empty, and from the next term on other nodes take them over; it can come back. A node keeps the newest envelopes of a source up to its maximum, prunes to its memory limit, ends a PromQL query within its query timeout, and stops serving, without hanging or failing, when it is closed. Concurrent requests to a node do not race.",
  ["inputs","histories","fault_sequences","schedules"],
  "all timestamps, sources, nodes sent to and asked, numbers of nodes, ranges and replicas, node losses and returns, limits","Tests run one node with a stand-in peer and a fixed assignment.",["internal/cache/log_cache.go","internal/cache/memory_analyzer.go"],
  [("wiring","LogCache.setupRouting"),("limits","New, Start, NewMemoryAnalyzer")],["answers of every node to Read, Meta and PromQL queries","memory gauges"])
p("P01","The auth proxy passes requests on unchanged and logs each one once",
  "Whatever passes the auth proxy reaches the gateway with the same method, path, query, headers and body, and the gateway's status, headers and body come back unchanged; what is refused never reaches the gateway. The proxy talks only to a gateway whose certificate the given authorities signed and accepts no TLS version before 1.2. With an access log, every request, refused or not, is written to it as exactly one CEF line before it is handled, and handled even if it cannot be written; the line tells the time, method, path and query, request id, source address (the first of X-Forwarded-For, IPv4 or IPv6, if there is one) and destination of the request, and no path or query can add lines to it or pass for its fields.",
  ["inputs","fault_sequences"],
  "all paths, queries, methods, headers, bodies, source addresses, answers of the gateway, trusted authorities and TLS versions","Tests send one plain request each.",["internal/cfauthproxy/cf_auth_proxy.go","internal/auth/access_log.go","internal/auth/access_middleware.go"],
  [("proxying","CFAuthProxy.Start, CFAuthProxy.reverseProxy, NewTransportWithRootCA"),("logging","AccessLog.String, AccessHandler.ServeHTTP")],["requests at the gateway","answers to clients","lines written to the access log"])

if __name__ == "__main__":
    root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root,"properties.jsonl"),"w") as f:
        for x in P: f.write(json.dumps(x)+"\n")
    print(len(P),"properties")
