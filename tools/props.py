# The property table: properties.jsonl and MANIFEST.json are generated from it.
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, note=note, na=na))

p("C01", "Walking a source delivers each envelope once, in order, within its bounds",
  "Walking a source from a start time hands every envelope the reader returns to the visitor exactly once, oldest first, in non-empty batches, each read starting one nanosecond after the last envelope delivered. Nothing at or after the end time is ever delivered, nothing younger than the walk delay is delivered (except to finish a bounded walk), and envelopes that may be delivered are never withheld. The walk ends only because the visitor said stop, the context ended, the backoff gave up, or the end time was passed.",
  ["histories", "inputs", "configurations"],
  "every sequence of reader results (batches of any length and content sorted by time, errors), every visitor, backoff and context answer, every start, end, delay and passage of time",
  "The tests replay a handful of scripted readers; the guarantee is about every history of batches, failures and clock readings, for any number of iterations.",
  ["pkg/client/walk.go"], [("Walk loop and option handling", "pkg/client/walk.go: Walk"), ("cutting a batch at the delay and the end", "pkg/client/walk.go: Walk")],
  ["calls of the reader, the visitor and the backoff"])
p("C02", "Backoff policies retry exactly as often and as long as configured",
  "The always-done policy never retries, the always-retry policy always retries after its fixed pause, and the retry policy allows exactly the configured number of consecutive failed or empty reads before giving up. A successful read starts the count afresh.",
  ["histories", "configurations"],
  "every history of errors, empty reads and resets, every count and interval",
  "Tests call each policy a few times with fixed counts; the claim is about every history and every count.",
  ["pkg/client/walk.go"], [("AlwaysDoneBackoff, AlwaysRetryBackoff, RetryBackoff", "pkg/client/walk.go")],
  ["return values of the policies and the pauses they make"])
p("C03", "Windowed walking visits evenly spaced windows, none skipped and none repeated",
  "Window walks and visits one window at a time, each of exactly the configured width and each starting exactly one interval after the one before, beginning at the configured start time or, without one, at the present less the width. Every walk has the caller's context, limited to one interval, and every walk's result is visited before the next window is walked; only the visitor ends it. A walker built for a source reads that source over exactly the window's span and returns all envelopes of the walk in order.",
  ["histories", "inputs", "configurations"],
  "every start, interval, delay, sequence of visitor answers, clock readings and reader results",
  "Tests look at the first few windows of one configuration; gaps and overlaps must be excluded for every window of every configuration.",
  ["pkg/client/window.go"], [("Window loop", "pkg/client/window.go: Window"), ("BuildWalker", "pkg/client/window.go: BuildWalker")],
  ["calls of the visitor and walker"])
p("C04", "Each client call sends one request that says exactly what the caller asked for",
  "Every read, meta and PromQL call of the client, over HTTP or gRPC, makes exactly one API request with the caller's context to the configured server and the endpoint for that call. The request carries the source, start time, query text and every option given (end time, limit, order, name filter, envelope types, query times in decimal seconds, step) unchanged, and no option that was not given. Over gRPC the reply is returned as the server sent it.",
  ["inputs", "configurations"],
  "every server address, source id, time, query text and combination of options",
  "Tests send a few fixed option sets; encoding must be faithful for every value and combination.",
  ["pkg/client/client.go"], [("Read, Meta, PromQL, PromQLRange and the Raw variants", "pkg/client/client.go"), ("grpcRead, grpcMeta, grpcPromQL, grpcPromQLRange", "pkg/client/client.go")],
  ["requests handed to the HTTP client or gRPC stub"])
p("C05", "The client talks to the API location that matches the server's version",
  "The client learns the server's version from its info endpoint; a server without that endpoint (404) counts as version 1.4.7. Reads and meta requests go under /api/v1 for servers from 2.0.0 on and under /v1 for earlier ones, on every call. If the version cannot be established, because the request fails, has another status, or its document is broken or no version, the call returns an error and sends no further request.",
  ["inputs", "histories", "fault_sequences"],
  "every version string, status, body, transport failure and sequence of calls",
  "Tests use three versions and one failure; the split has to be right for every version and every failure.",
  ["pkg/client/client.go"], [("LogCacheVersion, getBaseApiPath", "pkg/client/client.go")],
  ["requests handed to the HTTP client, returned errors"])
p("C06", "Client results are what the server sent, and every failure is reported",
  "A client call returns the server's data unchanged and in order when the server answered properly, and an error and no data when the request failed, the status was unexpected, or the body was broken. Raw PromQL calls return the reply document for statuses 200, 400 and 500 and an error for every other one; the VM uptime call returns the reported number or an error. Every HTTP response body is closed, and no well-formed reply makes the client panic.",
  ["inputs", "fault_sequences"],
  "every reply message, status, body and transport failure, over HTTP and gRPC",
  "Tests try one good reply and one or two failures per call.",
  ["pkg/client/client.go"], [("reply handling of Read, Meta, PromQL, PromQLRange, the Raw variants and LogCacheVMUptime", "pkg/client/client.go")],
  ["return values, response bodies"])
p("C07", "OAuth2 requests carry the token last issued and never a refused one",
  "Every request sent through the OAuth2 client without its own authorization carries the token last issued for the configured client or user, and a request with its own authorization is sent unchanged and causes no token request. A token is asked for only when none is held, with the configured credentials in the form the token endpoint expects, and is dropped as soon as a request is answered with anything but success. A token request that fails, by transport, status or content, fails the call and the original request is not sent; responses are passed on untouched and token response bodies closed.",
  ["histories", "fault_sequences", "configurations"],
  "every history of requests, token replies, statuses and failures, every set of credentials",
  "Tests walk through a few two-request histories; caching and refresh must be right for every history.",
  ["pkg/client/oauth2_http_client.go"], [("Do", "pkg/client/oauth2_http_client.go: Do"), ("getClientToken, getUserToken, doTokenRequest", "pkg/client/oauth2_http_client.go")],
  ["requests handed to the underlying HTTP client, returned responses"])
p("M01", "PromQL results are shown in JSON completely, exactly and in order",
  "The gateway's marshaler encodes a PromQL result as a success document that names the kind of result and holds every sample or series, in order, with exactly its labels, and every point as its time in seconds with three decimals and its value as the full decimal text of the number. A result without samples or series is an empty list, never null, and every document ends in a newline. A result with a time that is no finite number is refused and none of it is written; the streaming encoder writes the same document. Every other message goes unchanged to the ordinary marshaler, once, and its text and errors are passed on.",
  ["inputs"],
  "every scalar, vector and matrix: any number of samples, series and points, any labels, times and finite values, and nil messages inside them",
  "Tests encode one or two samples of fixed numbers; completeness, order and exactness concern lists of every length and every number.",
  ["pkg/marshaler/marshaler.go"], [("Marshal, NewEncoder", "pkg/marshaler/marshaler.go"), ("assembleScalarResultData, assembleVectorResultData, assembleMatrixResultData, assemblePoint", "pkg/marshaler/marshaler.go")],
  ["bytes returned or written, errors"],
  note="encoding/json and strconv are assumed contracts; a value that is NaN or infinite is outside the claim about exactness.")
p("M02", "PromQL JSON documents are decoded to what they say or refused",
  "Decoding a scalar, vector or matrix document, whole or as a stream, gives a result of that kind with every sample, series and point in order, each with the document's labels, its time with three decimals and the value its text denotes. A document of any other kind, one that is no JSON, or one with a point that is not exactly a time and the text of a number is refused, and then the message to be filled is left as it was; a document of valid points is always accepted.",
  ["inputs"],
  "every document: any number of samples, series and points, points of any length and content, any kind of result, text that is no JSON",
  "Tests decode one document of each kind and a handful of broken ones; the guarantee concerns any document.",
  ["pkg/marshaler/marshaler.go"], [("Unmarshal, NewDecoder", "pkg/marshaler/marshaler.go"), ("unmarshalScalarResultData, unmarshalVectorResultData, unmarshalMatrixResultData, disassemblePoint", "pkg/marshaler/marshaler.go")],
  ["decoded messages, errors"],
  note="encoding/json and strconv are assumed contracts; values decoded into interface{} are taken to be the ones encoded.")
p("B01", "Reported reliability is the share of expected test metrics a query found",
  "The blackbox asks, once and with a deadline, for the test metric of its own source over exactly the configured window, ending the configured lag before the present at a whole sample interval. Its reliability is the number of points the answer's first series holds divided by the number of emissions the window has room for. A failed query, an answer that is no matrix, or one without series yields an error and no number.",
  ["inputs", "configurations", "fault_sequences"],
  "every source id, window, emission interval, sample interval, lag and clock reading, every answer of the query",
  "Tests try one window with three canned answers; the query text, its time and the ratio must be right for every configuration and answer.",
  ["internal/blackbox/blackbox.go"], [("Calculate, CountMetricPoints, ExpectedSamples, printMissingSamples", "internal/blackbox/blackbox.go")],
  ["query text and options handed to the client", "returned ratio or error"],
  note="Window and emission interval are whole seconds; the query is put together at one clock instant; floating point as real numbers.")
p("B02", "The blackbox emits what it measured, and one test metric per emission interval",
  "Measured metrics are sent as one gauge of the configured source, stamped with the present, holding exactly the metrics measured, in percent; nothing is sent without metrics or while the Log Cache is known to be up for less than ten minutes, and an unknown uptime or a blackbox without an HTTP client does not stop the emission. On every tick one test metric of the known name is sent for the source, stamped with the present time cut to the emission interval, and a failed send is repeated, unchanged, up to five attempts and never after a success. Every send has a deadline.",
  ["inputs", "histories", "fault_sequences"],
  "every set of metrics, uptime answer, source and interval, every number of ticks and history of failed sends",
  "Tests observe a few ticks and single failures; the retry and suppression rules concern every history.",
  ["internal/blackbox/blackbox.go"], [("EmitMeasuredMetrics", "internal/blackbox/blackbox.go"), ("StartEmittingTestMetrics, emitTestMetrics", "internal/blackbox/blackbox.go")],
  ["requests handed to the ingress client"])
p("D01", "A read for a query returns everything stored in its span, or its failure",
  "A read made on behalf of a PromQL query walks the request's source in the caller's context from exactly the request's start to its end, with its limit and envelope types and no other filter, and returns every envelope the walk delivers, once and in order. If the context has ended by then the read fails with the context's error and returns no data. Failing reads are repeated, until five in a row have failed.",
  ["inputs", "histories", "fault_sequences"],
  "every request, every sequence of batches a walk delivers, every moment at which the context ends",
  "The one test makes a read with a context that has already ended; order, completeness and span concern every history of batches.",
  ["internal/promql/data_reader/walking_data_reader.go"], [("Read", "internal/promql/data_reader/walking_data_reader.go: Read"), ("Walk", "pkg/client/walk.go: Walk")],
  ["reads made, the envelopes and error returned"],
  note="Walk is replaced by its contract (C01) where batches are delivered, and run as it is to see what its options ask for.")
p("G01", "The gateway's error replies and info document say what is the case",
  "When a PromQL query fails, the gateway answers once, with the HTTP status of the error's gRPC code and a JSON document that is marked an error and carries the whole error text; an error that cannot be encoded becomes an internal server error. Errors of all other calls are handled by grpc-gateway's usual rules, with everything there is to know. The info document tells the configured version and, at each request, the present uptime.",
  ["inputs", "histories"],
  "every error code and text, path, content type, failure to encode or to write, version and uptime",
  "Tests provoke one error of one call and one info document; status and text must be right for every error.",
  ["internal/gateway/gateway.go"], [("httpErrorHandler", "internal/gateway/gateway.go: httpErrorHandler"), ("handleInfoEndpoint", "internal/gateway/gateway.go: handleInfoEndpoint")],
  ["status, headers and body written"], note="Versions are plain text, without characters JSON escapes.")
p("G02", "An API request asks Log Cache for exactly what it names, once",
  "A REST request for a read, the meta data, an instant or a range query calls the gRPC method of that name exactly once, in the request's context, with the source of the path (slashes included) and every query parameter, and its reply goes back to the requester unchanged. A failure of the call, or a request that makes no sense, is reported as what it is, once, and gives no data. No path leads to another call.",
  ["inputs", "fault_sequences"],
  "every source id, set of parameters, reply and failure of the service, malformed forms and contexts that cannot be built",
  "Tests try single requests of two calls; the translation concerns every request and failure.",
  ["pkg/rpc/logcache_v1/egress.pb.gw.go", "pkg/rpc/logcache_v1/promql.pb.gw.go"], [("request_Egress_Read_0, RegisterEgressHandlerClient", "pkg/rpc/logcache_v1/egress.pb.gw.go"), ("request_PromQLQuerier_*, RegisterPromQLQuerierHandlerClient", "pkg/rpc/logcache_v1/promql.pb.gw.go")],
  ["requests handed to the gRPC client, replies and errors forwarded"], note="PopulateQueryParameters (reflection) is replaced by its contract: it fills the message or fails; path patterns are matched by grpc-gateway's own code.")
p("G03", "The gateway serves the whole API in front of the configured Log Cache over TLS",
  "A started gateway listens on its configured address, connects to the configured Log Cache with exactly the configured options, and serves over TLS with the configured certificate and key: the info document on its path and the Log Cache's reads and PromQL queries everywhere else, encoded with original field names, with fields of zero value included and with PromQL results in Prometheus' form. Failures of the API go to the gateway's own error rules.",
  ["configurations", "fault_sequences"],
  "every pair of addresses, certificate paths, version and uptime, failures to listen, dial, register and serve",
  "Tests start the gateway one way only and mostly need certificates that have expired.",
  ["internal/gateway/gateway.go"], [("Start, listenAndServe, NewGateway", "internal/gateway/gateway.go")],
  ["what is listened on, dialled, registered and served"])
p("T01", "Connections between components are mutually authenticated TLS or none",
  "A TLS configuration made from the configured files verifies its peer, by the configured name, against the configured authority and no other, shows the configured certificate, accepts no version before TLS 1.2 and only the two approved cipher suites. The credentials of gRPC connections are made of exactly that configuration. When any of the files is missing or unusable there is no configuration and no credentials but an error, and a process that is configured with them ends.",
  ["configurations", "fault_sequences"],
  "every set of paths, contents and server name, every combination of missing and unusable files",
  "Tests use one set of valid certificates; a weakened configuration still connects.",
  ["internal/tls/tls.go"], [("NewMutualTLSConfig, NewBaseTLSConfig, NewTLSCredentials, Credentials", "internal/tls/tls.go")],
  ["the tls.Config made and handed to gRPC, errors"], note="Loading and parsing of certificates, and what crypto/tls makes of the configuration, are trusted.")
p("E01", "Gateway and blackbox run as their environment configures them, or not at all",
  "With a complete environment the gateway process starts one gateway with the configured addresses and certificate, secures its connection to the Log Cache with the configured files, tells its version and serves its health locally; the blackbox connects securely to the configured Log Cache, emits test metrics and, at every sample interval, measures each enabled interface once as configured and sends exactly the measurements that succeeded. Certificates are checked and requests limited in time unless configured otherwise. Without a required variable, or with one that means nothing, there is no configuration and the process ends.",
  ["configurations", "histories", "fault_sequences"],
  "every environment, every number of samples and history of failed measurements, unusable TLS files, failures to dial",
  "No test starts either process; mixed-up or optional settings go unnoticed where defaults happen to fit.",
  ["cmd/gateway/main.go", "cmd/gateway/config.go", "cmd/blackbox/main.go", "cmd/blackbox/config.go", "internal/blackbox/blackbox.go"],
  [("main, LoadConfig", "cmd/gateway/main.go"), ("main, LoadConfig", "cmd/blackbox/main.go"), ("NewIngressClient, NewGrpcEgressClient, NewHttpEgressClient, buildHttpClient", "internal/blackbox/blackbox.go")],
  ["configurations loaded, arguments handed to what main starts"], note="envstruct's reflection is replaced by its contract, driven by the struct tags of the real source; the goroutine main starts runs where it is started.")
p("A01", "The auth proxy passes on only what its user may read",
  "A read reaches Log Cache, as it is, only for administrators and for users the Cloud Controller lets read that source; everybody else is answered 404 and nothing more. A query reaches Log Cache once and only if its user is known, it parses, every name of a source in it was replaced by what it stands for, and, unless the user is an administrator, every source in it is one the user may read; an administrator's query keeps every name and everything the names stand for. Every other parameter stays as it was. The info document is for everybody.",
  ["inputs", "fault_sequences"],
  "every token, user, source, query, set of sources a query names and names stand for, failure of token service, parser and controller",
  "Tests try single sources and queries; that nothing leaks must hold for every combination of sources, names and failures.",
  ["internal/auth/cf_auth_middleware.go"], [("Middleware", "internal/auth/cf_auth_middleware.go: Middleware"), ("handleOnlyAuthorizedQuery", "internal/auth/cf_auth_middleware.go")],
  ["requests passed to the next handler, statuses written"],
  note="Finding and replacing the names in a query is replaced by its contract (the promql package's). That nothing a user may read is lost from a query is checked for one name that stands for two more sources only (bounded, not proved).")
p("A02", "The auth proxy shows a user the meta information of exactly their sources",
  "Meta information is asked of Log Cache once, in the request's context, and answered with every source it has for administrators, with exactly those a user may read for other users, each as Log Cache told it. Without a valid token the answer is 404, when Log Cache fails it is an error, and neither shows a source.",
  ["inputs", "fault_sequences"],
  "every token, user, set of sources, list of readable sources, failure of token service and Log Cache",
  "Tests try one list of sources; that none leaks or is lost must hold for every pair of lists.",
  ["internal/auth/cf_auth_middleware.go"], [("handleMeta, onlyAuthorized", "internal/auth/cf_auth_middleware.go")],
  ["call of the meta fetcher, status and document written"])
p("A03", "Only tokens signed with a key the token service publishes are accepted",
  "A token is accepted only if it is signed, with RS256, by the key of its name, and that key is one the token service publishes, and only until it expires; a user is an administrator exactly by one of the two administrator's scopes. Keys are asked for when an unknown one is named, once for a token, and once in the configured interval. What the service publishes replaces what was known; if it does not answer properly, or a key cannot be used, that is an error and no known key is lost. Whatever is refused is refused with an error and no user, and no token makes the proxy fail.",
  ["inputs", "histories", "fault_sequences"],
  "every token header and payload, set of known and published keys, answer of the token service, time",
  "Tests use single keys and a few forged tokens; the guarantee is about every token and every history of keys.",
  ["internal/auth/uaa_client.go"], [("Read", "internal/auth/uaa_client.go: Read"), ("RefreshTokenKeys, loadOrFetchPublicKey", "internal/auth/uaa_client.go")],
  ["the user or error returned, keys held, requests to the token service"],
  note="Signature checking (jose2go, crypto) and key parsing are assumed contracts; the token cache is not shared with concurrent calls.")
p("R01", "Reads are answered from the store exactly as asked",
  "A node answers a read with everything its store returns for the source, times, types, name filter, number and order asked for, in the store's order; without an end it reads to the present, without a number a hundred envelopes. Requests that make no sense (an end before the start, a number that is negative or beyond a thousand, a filter that is no regular expression) are refused and read nothing. Meta information is the store's, one entry for each source it holds. Envelope types are passed on.",
  ["inputs"], "every request, every set of envelopes and of sources held",
  "Tests try a handful of requests; parameters mixed up or lost for some combination go unnoticed.",
  ["internal/routing/local_store_reader.go"], [("Read, Meta", "internal/routing/local_store_reader.go")],
  ["arguments of the store's Get, the response"], note="The store is replaced by its contract (K01, K02); compiling a regular expression is trusted.")
p("K01", "Reading a source returns exactly the oldest (or newest) that match",
  "A read of a source returns envelopes the source holds, of the times, types and names asked for, and nothing else; each matching envelope is there unless as many as the limit precede it, and no two are the same. They are in the order asked for. Envelopes of one timestamp are never separated by the limit, so that reading on after the last one misses none. A gauge is cut down to its matching metrics; the stored one stays as it was. A source that is not held has nothing.",
  ["inputs", "histories"],
  "every tree of envelopes, time range, set of types, filter, limit and order, including equal and colliding timestamps",
  "Tests read a few envelopes with distinct timestamps; what is lost depends on the shape of the tree and on collisions.",
  ["internal/cache/store/store.go"],
  [("Get, collect, treeAscTraverse, treeDescTraverse", "internal/cache/store/store.go"), ("filterByName, validEnvelopeType, checkEnvelopeType", "internal/cache/store/store.go")],
  ["the envelopes Get returns"],
  note="Trees are replaced by their contract: a search tree of int64 keys (induction over its nodes); sort.SliceStable returns a sorted permutation. Locks are taken as if nothing ran concurrently. Bounds: fewer than 2^31 envelopes in a source.")
p("K02", "The store evicts the oldest, and nothing else, and tells what it holds",
  "Putting an envelope stores it under its own time or shortly after and changes nothing else, except that a source that is full loses its oldest one. Pruning removes exactly as many as asked for (at most all), each time the oldest of all sources, and forgets the sources that are emptied. What is stored, expired and received is counted exactly; the meta information of each source, and of no other, is told with the number, the oldest and the newest time; the store's oldest time is that of its oldest envelope.",
  ["inputs", "histories"],
  "every set of sources and envelopes held, envelope put, maximum, number to prune, order of times",
  "Tests fill a store with a few sources; which envelope is oldest, and what is counted, depends on every history of puts and prunes.",
  ["internal/cache/store/store.go"],
  [("Put, insertOrSwap, getOrInitializeStorage", "internal/cache/store/store.go"), ("truncate, BuildExpirationHeap, removeOldestEnvelope, ExpirationHeap", "internal/cache/store/store.go"), ("Meta", "internal/cache/store/store.go: Meta")],
  ["trees, counters and meta information after each operation"],
  note="The AVL tree (a sorted map), sync.Map and container/heap are replaced by their contracts; one operation at a time. A free place within the 4000 after an envelope's time is assumed (beyond that the store overwrites), as are times that are not negative.")
