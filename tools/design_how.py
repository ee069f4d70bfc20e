HOW = {
"C01": "`client.Walk` is driven by a stand-in reader that serves any set of envelopes in pages of any size, with failures and empty pages injected anywhere. The timestamps, the start, end and delay are symbolic. Oracle: what the visitor saw must be the envelopes of the window, each once, in order. Tests walk a handful of fixed pages. `Large` serves pages of 100 and 1000 envelopes; the pages are parts of what the reader holds.",
"C02": "Reads with symbolic timestamps and clock: no envelope outside [start, end) or newer than now − delay reaches the visitor; a walk ends when and only when it must; the requests are monotone.",
"C03": "Every sequence of page results, errors, backoff answers and one cancellation, the backoffs themselves over arbitrary call orders with symbolic intervals.",
"C04": "`Window` and `BuildWalker` on the virtual clock with symbolic widths, intervals and starts: consecutive windows tile the time axis. A result is compared again after the next window was walked.",
"C05": "`client.Read` over HTTP and gRPC; the stand-in transport decodes the request by its own rules and compares every field for every 64-bit number and every byte of the id.",
"C06": "Version negotiation: the server's version text is symbolic (digits, suffixes, any short text), the path that is then used is compared with an independent reading of semver. `Slash` has an address that ends in a slash.",
"C07": "Every call against every status, failing transports, bodies that fail midway or are truncated at any byte. Bodies count their Close; panics are violations.",
"C08": "PromQL calls; query bytes, steps and times symbolic, compared after decoding by hand.",
"C09": "The OAuth2 client against symbolic statuses and token answers for consecutive requests: which token accompanies which request.",
"C10": "Concurrent requests through one OAuth2 client under all schedules with a bounded number of preemptions; races by vector clocks; a newer token is never discarded for an older one. `Discard` rejects the first token only, under all schedules.",
"C11": "The marshaler's output is parsed by an independent reader (written in the harness) and compared with the result, for every value and time. `NoPoint` renders results with missing points.",
"C12": "Marshal then unmarshal gives the value back; times and floats symbolic.",
"C13": "Misshapen documents: every bad point, truncation and one-byte replacement is refused with an error, without a panic, and leaves nothing partial. `Trailing` decodes any byte or document after a whole response.",
"C14": "Other messages go to the JSONPb marshaler with identical results; streams agree with single calls.",
"C15": "Blackbox reliability: expected count and measured ratio against the harness's own integer arithmetic for windows and emission intervals. `Reliability` reports per window, `Window` when each is measured.",
"C16": "Emission on the virtual clock: per tick one batch of ten distinct timestamps, the retries send the same batch. `Codes` goes over every status a receiver can give.",
"C17": "Which metrics are measured and sent for any uptime, with the real client in front of a stand-in server. An uptime may take longer to find out than a send may.",
"C18": "The info endpoint of the running gateway: the body is parsed and compared with version and uptime; in symbolic runs the listener and transport are modelled, in native runs they are real.",
"C19": "Errors of any gRPC code through the real grpc-gateway handlers; the statuses come from a table in the harness.",
"C20": "Requests through the real gateway and generated handlers to a stand-in gRPC connection; ids and parameters percent-encoded bytes of any kind; odd parameter names that must change nothing.",
"C21": "TLS configurations from files; the file system is modelled, certificates concrete; every field compared, aliasing between configurations by changing one. `Replaced` changes the files between two configurations. The given certificate may come with a chain.",
"C22": "The walking data reader against the client's walk with failures and ending contexts: the whole window or an error. `Long` reads windows of up to 150 pages, `Two` reads two sources at a time with one reader.",
"S01": "The real store; symbolic timestamps make every order of arrival one of the paths. Oracle: filter and sort in the harness (with the documented exception that a group of equal timestamps is completed beyond the limit). `Types` has envelopes of types a request does not name, `Long` histories beyond the limit.",
"S02": "Eviction by the per-source maximum: the newest remain, the counters agree.",
"S03": "Meta against counts the harness keeps.",
"S04": "Pruning oldest first over sources; the consultant's arithmetic.",
"S05": "Put, get, meta and prune concurrently: races, panics, lost or duplicated envelopes under all schedules of the bound.",
"R01": "Routing table and static lookup: ranges and hashes symbolic; updates concurrent with lookups.",
"R02": "Ingress and egress reverse proxies over stand-in clients: which node receives what, and what comes of failures.",
"R03": "Local store reader: each request field symbolic against a recording store.",
"R04": "Scheduler with a stand-in orchestrator: ranges partition the hash space for any count; changes of nodes. `Follower` has a node that loses and regains leadership.",
"R05": "Batched client on the virtual clock: everything sent once, by size or time; concurrent senders.",
"R06": "Orchestrator agent's histories.",
"Q01": "Every kind of expression over symbolic source ids is executed by the real engine with a recording reader; the ids read must be the ids extracted. `Tree` builds expressions of several levels.",
"Q02": "Selectors, ranges and values against an evaluator written in the harness, through the real Prometheus engine.",
"Q03": "Texts of times and steps over their significant characters; ranges whose size is extreme.",
"A01": "The middleware with symbolic paths, queries and answers of the issuer and the cloud controller, alone and in front of the real gateway through the real reverse proxy: what reaches log cache must be what was authorised, as *log cache* understands it (which found two bypasses, see below).",
"A02": "The CAPI client against a stand-in cloud controller on the virtual clock: histories of requests with symbolic lifetimes, pages and failures; oracle: the answers given and when. `Retries` and `Prune` follow what is remembered over time.",
"A03": "The UAA client with ideal signatures: tokens built of symbolic parts, histories of key lists with a symbolic refresh interval. `Throttled` bounds how often the issuer is asked for keys.",
"N01": "The nozzle between a stand-in stream and stand-in ingress clients on the virtual clock: what arrives in which batch and when, with requests refused, hanging and failing; the batcher, the reader and the writers race-checked; the selectors compared with what is configured.",
"Y01": "The syslog server over a stand-in listener. Messages are built of symbolic parts and converted; an oracle of the harness says what each must become or that it must be refused. Whole connections with any silences against the idle timeout; bytes on the wire with parts left out.",
"L01": "Whole nodes (`New`, `Start`, `Close`), each with its own store, proxies, orchestrator agent and PromQL service, joined by a stand-in wire that hands each request to the handlers the addressed node registered; the real scheduler assigns ranges. Envelopes with symbolic timestamps go to any node and are read, counted and queried at every other; nodes go away and come back; limits, memory figures and timeouts; concurrent requests race-checked.",
"P01": "The access log line of a request of symbolic parts is taken apart by a reader in the harness that knows what may be spelled how; the whole proxy runs between a stand-in client and a stand-in gateway with symbolic path, query, header, body and answer, refusals and unwritable logs; authorities and TLS versions through a modelled handshake, natively the real one.",
}
