# The properties: source of properties.jsonl and of the checks in MANIFEST.json.
TECH = "path-sensitive abstract interpretation over go/ssa"
TRUST = " Trusts go/types, go/ssa, the abstract interpreter in analyzer/eng and the documented behaviour of the standard library and the vendored drivers; no code is executed."

P = [
 dict(id="C01", title="Response header: one commit, right status, hooks first, true size",
  statement="For every sequence of operations on a response, the header reaches the client once at most, before the first body byte and with the recorded status (200 when none was recorded, never 0), every before-hook having run once, last registered first. The reported status does not change after the header was sent, Written tells whether a status is recorded, and the reported size is the number of bytes the client connection accepted. The request entry point commits a recorded status even when no body was written; flushing commits it too; a hijacked connection gets no header.",
  over=["histories","inputs"], forall="every interleaving of Write, WriteHeader, Flush, Hijack, Before and the getters on one response, from any state the methods can reach",
  why="Tests issue one Write per response; the order of hooks, header and body and the one-shot behaviour depend on the whole history of calls.",
  files=["response.go","router.go","app.go"],
  mech=[("one-shot guard around the header","response.go"),("recorded status and commit flag","response.go"),("commit at the end of the request","app.go")],
  tech=TECH+": typestate of the header one-shot, must-precede ordering of hooks/header/body, dataflow of status and size",
  note="Every method of every response-writer implementation is analysed from an arbitrary state; wrapped writers supplied by applications are not."+TRUST),
 dict(id="C02", title="Filter chain: declared order, once each, stops on response",
  statement="For a request, the handlers of a chain are run in list order, each one at most once, ending with the action, whichever of them call Next themselves. No further handler is started once a status is recorded on the response, a missing handler is skipped, and the failure to call a handler is not swallowed. Every request passes the application's filters before the router's.",
  over=["histories","configurations"], forall="every chain length and position, every subset of handlers that call Next, respond, do neither or are missing",
  why="Tests build a handful of short chains; position arithmetic and the stop condition have to hold for every chain and every reentrant use of Next.",
  files=["context.go","app.go","router.go"],
  mech=[("position stepped once per started handler","context.go"),("stop test on the recorded status","context.go")],
  tech=TECH+": typestate of the chain position, checked inductively from an arbitrary position",
  note="One step of the chain is analysed from an arbitrary position, so the result holds for chains of every length; handlers are opaque."+TRUST),
 dict(id="C03", title="A panic in a handler becomes a 500 and leaks nothing outside dev mode",
  statement="With the recovery filter in front, a panic anywhere later in the chain never leaves the filter: when no status was recorded, exactly status 500 is. A response that may already be written is neither given another status nor more bytes. Panic value and stack are shown in the body in development mode only, and only HTML-escaped.",
  over=["fault_sequences","configurations"], forall="every panic value and every point of the chain at which it is raised, every run mode, with or without a logger",
  why="No test panics inside a handler; the guarantee is about every panic at every point, before and after the response was started.",
  files=["recovery.go"],
  mech=[("deferred recover","recovery.go"),("mode test around the page","recovery.go")],
  tech=TECH+" with exceptional edges: containment of panics, guard conditions, taint of panic details to the body through HTML escapers",
  note="The rest of the chain is an arbitrary call that returns or panics."+TRUST), dict(id="C04", title="Route search: literal before parameter before wildcard, no route is missed",
  statement="A request is handled by a registered route matching its path whenever there is one: at every segment a literal child is preferred to parameter children (those in their order), and these to the wildcard, and a child is given up only when no route lies below it; otherwise the not-found handlers run. The path values handed on are exactly those of the parameters along the route found, in path order, a custom verb removed, and a wildcard carries the whole rest. Exactly one chain of handlers is run per request.",
  over=["inputs","configurations"], forall="every set of registered routes and every request path",
  why="Tests try a few routes; backtracking between literal, parameter and wildcard children shows only for particular combinations of overlapping routes and paths.",
  files=["router.go","router_util.go"],
  mech=[("recursive search below a node","router.go"),("match of one parameter segment","router.go"),("dispatch of the request","router.go")],
  tech=TECH+": one level of the recursive search proved from an arbitrary node and path, by induction over the depth",
  note="Covers the search, not the registration that builds the tree (see the registration property)."+TRUST),
 dict(id="C06", title="Method dispatch: own method, then All, then Any, else not found",
  statement="On the route found, the registration for the request's method is used whenever there is one, else the All registration if its controller can serve the method, else the Any registration, else the not-found handlers run. The filters that run are those of the registration whose controller is called, and the controller method called is the one registered or the one named after the request method, never any other.",
  over=["inputs","configurations"], forall="every combination of registrations on a route and every request method, including crafted method names",
  why="Tests use well-known methods on routes with one registration; the fallback order depends on the combination of registrations, the controller kind and the method name.",
  files=["router.go","router_util.go"],
  mech=[("choice of the registration","router.go"),("binding of filters and action","router.go")],
  tech=TECH+": path-sensitive dataflow of the chosen registration into filters, controller and method name",
  note="The registrations of the route are arbitrary."+TRUST),
 dict(id="C05", title="Registered routes end up reachable under the path, method and action given",
  statement="Registering routes builds a tree in which every registered path is found again: a segment shares the node of an equal segment and otherwise gets one of its own kind (literal, parameter with or without verb, wildcard), verbs come before plain parameters, nodes of other routes are never replaced, and exactly the last segment becomes a route. Each method is bound to its own controller and to the action named explicitly, else to the one named after the method; a controller lacking the action, two names for one parameter and segments behind a wildcard are refused at registration. HEAD uses the GET registration exactly when it has none of its own.",
  over=["inputs","configurations"], forall="every tree of registrations, in every order, with every mix of literal, parameter, verb and wildcard segments",
  why="Tests register a few routes; lost or shadowed nodes show only for particular overlaps and orders of registration.",
  files=["router.go","router_util.go","router_method.go","router_action.go"],
  mech=[("registration of the routes below a node","router.go"),("parsing of a segment","router.go"),("check that a controller has a method","router_action.go")],
  tech=TECH+": one arbitrary iteration of each registration loop, with the tree built so far arbitrary",
  note="Registering the same method twice on one path is left open (the last one wins)."+TRUST),
 dict(id="C07", title="Filters: inherited, then own, duplicates once, exemptions removed",
  statement="The filters of a route are those of the enclosing groups, outermost first, then its own, each handler at most once; what a group exempts is removed for everything in it, what a registration exempts only for that registration. No registration changes the filters of another one. Every handler given to a filter list becomes exactly one entry that runs it, in the order given.",
  over=["configurations","inputs"], forall="every nesting of groups and every combination of included and exempted handlers",
  why="Tests nest one or two groups; order, duplicates and aliasing of the lists depend on the combination of groups and exemptions.",
  files=["router.go","router_filter.go","router_util.go"],
  mech=[("adding to and removing from filter lists","router_filter.go"),("composition of the lists at registration","router.go")],
  tech=TECH+": induction over one arbitrary iteration of the list operations, dataflow of the composed lists into registrations",
  note="Handlers are equal when their reflect values are."+TRUST),
 dict(id="C10", title="Injection: nearest provider wins, failures are reported",
  statement="A value asked for by type or name comes from the injector's own provider for it, else from the nearest ancestor that has one; a provider's dependencies are resolved the same way, in parameter order. A missing provider, a dependency cycle, a provider that fails and a result not assignable to the target are reported as errors and never as a zero value or endless recursion. A successful Find stores the value in its target, and a successful Apply has set every marked field.",
  over=["configurations","histories"], forall="every set of providers over every chain of injectors, including cyclic and failing ones",
  why="Tests provide a few types in one or two injectors; shadowing, cycles and failures depend on the graph of providers.",
  files=["inject/inject.go","inject/inject_provider.go"],
  mech=[("lookup through the chain of injectors","inject/inject.go"),("resolution of dependencies","inject/inject_provider.go"),("in-progress mark against cycles","inject/inject.go")],
  tech=TECH+": one step of the lookup and of the dependency resolution from an arbitrary injector, error propagation on every path",
  note="Provider functions are opaque."+TRUST),
 dict(id="C11", title="A provider runs once per injector; invoked functions always run",
  statement="Within one injector a provider function is called at most once until something is provided again under its name, later requests get the same value, and a failed call leaves nothing cached. A value is cached only under the name it was asked for, and providing again drops the cached value. Invoking a function always calls it and hands back the results of that call.",
  over=["histories","configurations"], forall="every sequence of Provide, Find, Apply and Invoke on a chain of injectors",
  why="Tests ask once or twice; stale or mixed-up values show only after particular sequences of providing and asking.",
  files=["inject/inject.go","inject/inject_provider.go"],
  mech=[("cache of provided values","inject/inject.go"),("call of the provider function","inject/inject_provider.go")],
  tech=TECH+": typestate of the cache entry around the provider call",
  note="One goroutine per injector, as in a request."+TRUST),
 dict(id="C08", title="Controllers: fresh per request, injected first, path values in order",
  statement="Every request calls its struct controller on a copy of the registered controller made for that request, after the marked fields of the copy were injected; the registered controller is never written. The i-th parameter of the method called gets the i-th path value converted to its type, and the zero value when there is no such path value or it cannot be converted. Function controllers are invoked through the request's injector, and what the controller returned is made available as its output; a failed injection or invocation panics and is not ignored.",
  over=["inputs","configurations"], forall="every controller, method signature and list of path values",
  why="Tests call a few controllers; sharing between requests and mixed-up parameters show only for particular signatures, pointers and numbers of path values.",
  files=["router_action.go"],
  mech=[("copy and injection of the controller","router_action.go"),("arguments from path values","router_action.go")],
  tech=TECH+": freshness and must-precede over reflection calls, positional dataflow of path values into arguments",
  note="Conversions are the subject of another property; reflection is modelled call by call."+TRUST),
 dict(id="C12", title="Signed values: only what was signed under the key is accepted",
  statement="A signed value is accepted only when the complete signature under the given key, over exactly the value and the creation time handed back, equals the one presented; a changed value, time, signature or key is refused and nothing is handed back. A value issued under a key is taken apart the way it was put together, so that it verifies under that key and gives back the same value and time. An empty value and an empty key are never signed.",
  over=["inputs"], forall="every value, creation time, key and presented text",
  why="Tests try a few valid and invalid values; forgery by moving bytes between value, time and signature has to be impossible for every text.",
  files=["sessions/utils.go"],
  mech=[("verification of a signed value","sessions/utils.go"),("issuing of a signed value","sessions/utils.go")],
  tech=TECH+": dataflow of the signed message and of the layout on both sides, must-pass of the comparison",
  note="The strength of the MAC and constant-time comparison are not covered."+TRUST),
 dict(id="C13", title="Session ids and remembered identities: verified, unexpired, last cookie",
  statement="A session id is taken from a request only out of the last cookie of the configured name, when its signature under the configured key is right and its creation time lies within the session lifetime; otherwise none is given. A remembered identity is given back under the same conditions with its own cookie and lifetime, and counts as proved only when the salted signature is right, recent and made for that very identity. What is written for it is read back as the same identity and signature.",
  over=["inputs","configurations"], forall="every request with any cookies, every configuration and point in time",
  why="Most of it is not run by tests that need a database; expiry and mixed-up cookies depend on particular times and requests.",
  files=["sessions/manager.go","sessions/remember.go","sessions/utils.go"],
  mech=[("reading of the session cookie","sessions/manager.go"),("reading and proof of the identity cookie","sessions/remember.go")],
  tech=TECH+": must-pass analysis of verification and expiry before a value is handed back",
  note="The clock is trusted."+TRUST),
 dict(id="C14", title="Cookies carry the configured attributes and only signed values",
  statement="Every cookie written by the session manager is HttpOnly, has the path of the whole site, and takes name, domain, security and lifetime from the configuration; its value is the signed one for the id and time given, and nothing is written when it cannot be signed. The session cookie is added to the request as well. Deleting a cookie uses the name, path and domain it was set with.",
  over=["configurations"], forall="every cookie configuration and every path of the manager that writes a cookie",
  why="No reliable test looks at the attributes; they have to be right on every path that writes a cookie.",
  files=["sessions/manager.go","sessions/remember.go"],
  mech=[("writing of the session cookie","sessions/manager.go"),("writing of the identity cookie","sessions/remember.go")],
  tech=TECH+": abstract value of the cookie object at every write",
  note="What clients do with the attributes is not covered."+TRUST),
 dict(id="C15", title="Session changes are saved at flush, or still pending after a failure",
  statement="Setting, deleting or clearing values changes the session's own values and marks it as changed; reads give exactly what is in it, and the map handed out is a copy. A flush stores the encoded values under the session's id with the session lifetime exactly when the session was changed and not destroyed; only a flush that succeeded clears the mark, and every failure is reported. Destroying a session deletes it from the store, and it is never written again.",
  over=["histories","inputs","fault_sequences"], forall="every sequence of operations on a session and every failure of the store or the encoding",
  why="The tests of sessions need servers and never make the store fail; lost updates need a particular history with a failure in it.",
  files=["sessions/provider.go","sessions/store_dummy.go","sessions/provider_mgo.go"],
  mech=[("change and destruction marks of a session","sessions/provider.go"),("saving of values","sessions/provider.go"),("session without a store","sessions/store_dummy.go")],
  tech=TECH+": typestate of the change and destruction marks, dataflow of id, values and lifetime into the store",
  note="One goroutine per session object; the encoding itself is trusted."+TRUST),
 dict(id="C16", title="Sessions are found, created and renamed under exactly their ids",
  statement="A request with a valid id gets the session stored under that id, or a new one under the same id when none is stored; one without gets a session under a fresh id, and a cookie for exactly that id and time. Renaming stores the data under a fresh id before the old one is deleted, and hands out the session of the new id with a cookie for it. A failing store is reported when finding, creating or renaming, no cookie is written then, and it is never mistaken for a missing session.",
  over=["histories","fault_sequences"], forall="every request and every outcome of each operation of the store",
  why="The tests of sessions need servers and are not run; failures between the steps of renaming cannot be provoked by them.",
  files=["sessions/manager.go","sessions/provider.go"],
  mech=[("start and renaming in the manager","sessions/manager.go"),("reading and renaming in the store","sessions/provider.go")],
  tech=TECH+": ordering and error propagation over all outcomes of the store operations, dataflow of ids",
  note="Atomicity across servers and unpredictability of ids are not covered."+TRUST),
 dict(id="C17", title="Cache operations touch exactly the entry of their key",
  statement="On every cache store an operation asks the server for exactly one thing of its kind, on the entry of the configured prefix followed by the key given (or of the configured key field with that key). What is stored is the value given, numbers change by the amount given or by one, and what is read back is the value stored for that key. A connection taken from a pool is given back exactly once on every path, after its last use, and only if it was obtained.",
  over=["inputs","histories","fault_sequences"], forall="every store, operation, key, prefix, value, amount and outcome of each call of the client",
  why="The tests of the caches need running servers and are not run; leaks show only on failing calls and keys collide only between applications sharing a server.",
  files=["caches/caches.go","caches/provider_memcache.go","caches/provider_redis.go","caches/provider_mgo.go"],
  mech=[("operations on memcache","caches/provider_memcache.go"),("operations on redis","caches/provider_redis.go"),("operations on mongodb","caches/provider_mgo.go")],
  tech=TECH+": commands, keys, values and amounts as terms over the parameters; typestate of pooled connections over all exits",
  note="What the servers do is taken from their clients' documentation; a negative amount on memcache is not covered."+TRUST),
 dict(id="C18", title="Absent cache keys are told from failures",
  statement="Reading, touching, deleting, raising or lowering a key that is absent or past its time fails with the error for missed keys where the server reports it, and asking for its presence answers no without an error. Every other failure of a server or of obtaining a connection is handed back, never turned into the missed-key error and never accompanied by a value or a positive answer. A success is reported only when the server reported one.",
  over=["histories","fault_sequences"], forall="every store, operation and outcome of each call of the client",
  why="The tests of the caches need running servers and are not run; failures of a server at a particular call cannot be provoked by them.",
  files=["caches/provider_memcache.go","caches/provider_redis.go","caches/provider_mgo.go"],
  mech=[("errors of the clients translated","caches/provider_memcache.go"),("counts and errors of redis","caches/provider_redis.go"),("expired documents in mongodb","caches/provider_mgo.go")],
  tech=TECH+": case analysis over the error and count results of each client call",
  note="Redis creates a missing key when counting, so counting on an absent key does not fail there; mongodb may revive an expired document when touched."+TRUST),
 dict(id="C19", title="Cache entries live as long as asked for",
  statement="Storing or touching an entry with a positive number gives it that many seconds, with zero or no number the default lifetime, and with a negative number no end, alike on every store. A lifetime is encoded so that the server does not misread it, as an absolute time where the server takes long ones for that. Entries are handed out and spared from collection only within their time, and collection is left to the server only where that is configured.",
  over=["inputs","histories"], forall="every store, every number given or none, and every configuration",
  why="The tests of the caches need servers and waiting; they cannot cover the sign and size classes of the lifetime on every store.",
  files=["caches/caches.go","caches/provider_memcache.go","caches/provider_redis.go","caches/provider_mgo.go"],
  mech=[("lifetime from the parameters","caches/caches.go"),("expiration for memcache","caches/provider_memcache.go"),("expiry, index and collection in mongodb","caches/provider_mgo.go")],
  tech=TECH+": symbolic linear evaluation of the lifetime for every sign class of the parameter",
  note="Products of lifetimes are taken not to overflow (290 years); clocks of servers are not covered."+TRUST),
 dict(id="C22", title="The worker runs every task once, within its limit, and waits",
  statement="Never more tasks of a worker run at a time than its limit, and every task given before the worker is closed runs exactly once unless a task failed before it was started. Waiting returns only after every started task has ended, and hands back the first error that a task returned. After a failure or a close no further task is started.",
  over=["schedules","inputs"], forall="every number of tasks, limit, outcome of the tasks and interleaving",
  why="A test runs one interleaving; lost tasks, leaked slots and early returns need a particular one together with a failing task.",
  files=["utils/worker.go"],
  mech=[("slots, queue and count of running tasks","utils/worker.go"),("waiting and first error","utils/worker.go")],
  tech=TECH+": lock discipline, typestate of slots and counters around the task call",
  note="Panicking tasks, a worker for no tasks at all and tasks that never end are not covered."+TRUST),
 dict(id="C26", title="Log lines: exactly the admitted messages, each once and whole",
  statement="A message is written exactly when its level is admitted by both the logger's own and the global level, once, with the tag, prefix and text of the call and the caller's position where that is asked for. A logger set to flat output never writes a message over several lines. A recovered panic is logged once with its stack and handed back, and the logger of a request keeps the request's id in every line even when a prefix is set.",
  over=["inputs","configurations"], forall="every logger, prefix, level, message and option",
  why="Tests look at a few levels and messages; the rule is a product of two levels, eight methods and several options.",
  files=["log.go","request-logger/reqid.go"],
  mech=[("level test and line","log.go"),("prefix and id of a request's logger","request-logger/reqid.go")],
  tech=TECH+": must-pass of both level tests, dataflow of prefix, tag and message into the line, call depth arithmetic for the position",
  note="The log package of the standard library is trusted; recovering at the silent level is not covered."+TRUST),
 dict(id="C32", title="Values kept by type never collide and are found again",
  statement="Values of different types, by package and name or by description where they have no name, or with different extra names, never share a key in a request's context or an injector. A value is found under the same type whatever number of pointer levels is used for storing and asking. A name given for a provider is looked up under that very name.",
  over=["inputs","programs"], forall="every pair of types and extra names",
  why="Tests use a few types in one package; equal names in other packages, pointers and unnamed types collide only in particular programs.",
  files=["utils/context.go","inject/inject_provider.go"],
  mech=[("keys of context values","utils/context.go"),("names of providers","inject/inject_provider.go")],
  tech=TECH+": injectivity of the key as a term over package, name and extra names, on every path",
  note="Unnamed types built from equally named packages are not told apart."+TRUST),
 dict(id="C20", title="Static files: only the right file, only where it may be served",
  statement="Files are opened only inside the configured directory, under the request's path without the prefix, the index of that directory or the configured fallback, and only for admitted methods under the prefix and outside the skipped ones. Such a request gets exactly one answer: the file with its own type, for a directory without a slash a redirect to the same path with one on the same host, keeping the query, or not found; any other request is left alone. Every opened file is closed once, after its last use, on every way out.",
  over=["inputs","configurations","fault_sequences"], forall="every request, prefix, directory, options and outcome of each file operation",
  why="Tests fetch a few files; near misses of a prefix, crafted paths and failing opens or stats are not among them.",
  files=["static-serve/static.go"],
  mech=[("prefix, skipped prefixes and the order of files tried","static-serve/static.go"),("opening with http.Dir and closing","static-serve/static.go")],
  tech=TECH+": typestate of opened files, admission facts dominating every open and answer, provenance of file names and redirect targets",
  note="What http.Dir and http.ServeContent do is trusted; links inside the directory are not covered."+TRUST),
 dict(id="C21", title="Compressed responses are whole, in order and marked as such",
  statement="Compression is announced only to clients that name gzip, and the announcement stays only where something was compressed. Everything written passes one compressor whole and in order, the plain length is dropped before the first bytes and a chosen content type is kept. The compressed data is completed on every way out, panics included, a flush sends what is held back, and what is written after the filter has ended is neither cut off nor marked as compressed.",
  over=["inputs","histories","fault_sequences"], forall="every request, order of writes and flushes, and way of leaving the chain",
  why="A test looks at one response; flushes, panics, empty responses and writes after the filter need particular orders.",
  files=["gzip/gzip.go"],
  mech=[("headers before and after the chain","gzip/gzip.go"),("compressor behind the response writer","gzip/gzip.go")],
  tech=TECH+": typestate of the compressor and the headers over all exits including unwinding, promoted methods resolved by types",
  note="Weights in Accept-Encoding (gzip;q=0) are not covered; the compressor is trusted."+TRUST),
 dict(id="C28", title="What a controller returns is sent once and only if nothing was written",
  statement="After the rest of the chain has run, what the controller returned is sent exactly when nothing was written yet. A number in the last place becomes the status before any body; the last other value is the body and is sent once in the way of its kind: a result, handler, reader (closed if it can be), text or bytes. Nil and values of other kinds are not sent, and no kind of value makes it panic.",
  over=["inputs","programs"], forall="every list of returned values and every state of the response",
  why="Tests return a few kinds of values; nil values inside interfaces, unusual kinds and earlier writes are not among them.",
  files=["router_action_out.go"],
  mech=[("filter for returned values","router_action_out.go")],
  tech=TECH+": case analysis over dynamic types with nil-ness, guards of reflective calls, ordering of status and body",
  note="What the value itself sends is up to it."+TRUST),
 dict(id="C30", title="Request logger: one id for log, request and response",
  statement="Every request passing the request logger has one id: the one sent by the client when that has 10 to 32 characters, else a new one, put through the configured filter if there is one. The logger handed to the handlers, by both of its types and in the request's context, bears this id and every configured option; the request's header bears it, and so does the response's header when it is sent, even if handlers changed it. The rest of the chain runs once, between a line telling method and address and a line telling status and size after it, each left out only when empty after its filter.",
  over=["inputs","configurations"], forall="every request, combination of options and filters, and behaviour of the handlers",
  why="There is no test of the filter; ids at the limits of the length, configured filters and handlers that change the header are combinations a test does not sample.",
  files=["request-logger/logger.go","request-logger/reqid.go"],
  mech=[("choice of the id and hook for the response","request-logger/logger.go"),("new ids","request-logger/reqid.go")],
  tech=TECH+": proof of the length bounds on every path, provenance of the id in logger and headers, ordering around the chain",
  note="That new ids are unique is not covered."+TRUST),
 dict(id="C27", title="API answers: status first, body whole, failures never sent as success",
  statement="An answer sends its status (200 when none is set) exactly once and before its body; 204 has no body. Text, bytes and readers are sent as they are, a reader being closed afterwards; anything else is sent as JSON and marked as such, and a value that cannot be encoded gives a 5xx status. An error derived from another keeps status, code and what was not replaced, is its own body, and leaves the first one unchanged; two errors are equal only with the same status and code.",
  over=["inputs","fault_sequences"], forall="every status, body and response writer, and every error derived from any other",
  why="The package has no tests; bodies that cannot be encoded, closers among readers and shared errors derived from by many requests are not sampled.",
  files=["utils/apires/res.go","utils/apires/raw.go","utils/apires/error.go"],
  mech=[("sending of JSON and raw answers","utils/apires/res.go"),("derived errors","utils/apires/error.go")],
  tech=TECH+": case analysis over status, kind of the body and success of the encoding, ordering of header, status and body, provenance of derived fields",
  note="How values are encoded is trusted."+TRUST),
 dict(id="C31", title="Uploaded files live exactly as long as their request",
  statement="The files of an uploaded form can be opened by every handler of the request and are removed once the chain of handlers has ended, whether it returns or panics and whichever filters replaced the request. No more memory than configured (or the default) is used for them.",
  over=["inputs","configurations","fault_sequences"], forall="every form, chain of filters and handlers, and way a chain ends",
  why="There is no test of uploads; files appear on disk only for large forms, and are left behind only when a chain panics or a request was copied.",
  files=["app.go","params/params.go"],
  mech=[("request entry point","app.go"),("parsing of forms","params/params.go")],
  tech=TECH+": ordering of the removal and the handler chain on all exits including unwinding, provenance of the request and the limit, search of all other removals",
  note="Files a handler creates itself are its own."+TRUST),
dict(id="C23", title="Text converts to typed values exactly or visibly fails, and back",
  statement="A text read as a number or flag (parameters of a request, configuration values, the conversion helpers) gives exactly the value it spells in base ten when that fits the size and sign of the wanted type, and otherwise an error, or zero where no error can be given; it is never wrapped, saturated without notice or read with another size. A value that already has the wanted type is handed out as it is, and a number written as text is written completely with the precision of its type.",
  over=["inputs"], forall="every text and value, and every kind of number",
  why="Tests convert a few small numbers; a wrong size, sign or base in one of several dozen similar conversions shows only on values outside the range both share.",
  files=["utils/converter.go","utils/converter_value_to.go","app_util.go","params/binder.go"],
  mech=[("text conversions","utils/converter.go"),("typed values","utils/converter_value_to.go"),("path and configuration values","app_util.go"),("request parameters","params/binder.go")],
  tech=TECH+": value of every return of every conversion compared with the size, sign and base its type demands, kinds left possible on each path of the kind switches",
  note="What strconv accepts; lists and structs; int of 64 bits."+TRUST),
dict(id="C25", title="Configuration: the environment, then the latest file that says something",
  statement="A configuration name section::key finds the first non-empty of the environment variable named after both, the value in the file loaded last, and the values of the files loaded before it, whichever sections each file has; a default given with the lookup is used only where nothing was found. A setting or a field of a configuration structure is changed only by a value found under exactly its name that fits its type (through any number of pointers), and such a value always arrives. Files are loaded so that an override wins over the file of the application and this over the defaults, each with its variant for the run mode after it, and a file that cannot be read is reported.",
  over=["inputs","configurations"], forall="every name, set of files with any sections, environment and target type",
  why="Tests look up a few names in one file; precedence between files, sections and the environment shows only in combinations, and the loading of a chain of files has no test.",
  files=["config/config.go","config/config_parse.go","config.go","app.go","utils/helpers/config.go"],
  mech=[("lookup","config/config.go"),("lookup with default, binding","config.go"),("structures","config/config_parse.go"),("files","utils/helpers/config.go"),("settings of the application","app.go")],
  tech=TECH+": case analysis of the sources of every lookup, agreement of bound names with environment names and tags, loop invariant of the chain of files, order of the list of files",
  note="A file named twice is loaded once, at its first place."+TRUST),
dict(id="C33", title="Random tokens and session ids are complete and fail visibly",
  statement="A random token has exactly the asked length, and each of its characters is the one of the given alphabet (letters and digits if none is given) that a random byte of its own, read from the system's cryptographic source, chooses. If that source fails there is an error and no token, or a panic in the forms that cannot give an error; the derived forms give the same token for the same length and alphabet. A new session id always has its fixed length, its last part being such random characters.",
  over=["inputs","fault_sequences"], forall="every length and alphabet, and every failure of the source",
  why="Randomness hides from tests: a token that repeats a byte, leaves positions out, or is made although the source failed looks like any other, and the source never fails in a test.",
  files=["utils/rand.go","sessions/utils.go"],
  mech=[("random tokens","utils/rand.go"),("session ids","sessions/utils.go")],
  tech=TECH+": provenance of every stored character, loop completeness by induction over the index, linear arithmetic over the lengths of the parts",
  note="Even distribution over the alphabet is not covered; crypto/rand is trusted."+TRUST),
dict(id="C34", title="Address, host, scheme and URL of a request follow the proxy's headers",
  statement="A request reports as its client address X-Real-Ip, else the first entry of X-Forwarded-For, else the remote address; as its host X-Forwarded-Host, else its own host; as its scheme X-Forwarded-Proto, else the one of its URL, else http; as its URI X-Original-URI, else its own: a source is used exactly where those before it are empty, and host and address (unless taken from X-Real-Ip) are cut before the port. Its full URL consists of this host and scheme and of path and query of this URI; a URI that cannot be parsed is an error. Asking changes nothing in the request.",
  over=["inputs","configurations"], forall="every request and combination of present, empty and missing headers",
  why="There are no tests of these functions; the order of sources matters only for combinations of headers that differ.",
  files=["params/real.go","params/params.go"],
  mech=[("sources","params/real.go"),("of the parameters","params/params.go")],
  tech=TECH+": case analysis of the source of every returned value under the facts of its path, provenance of the fields of the URL, absence of writes through the request",
  note="IPv6 addresses and whether the proxy is to be trusted are not covered."+TRUST),
dict(id="C24", title="No position outside a list or text, whatever the input",
  statement="Whatever a request, a cookie, a configuration file or an argument contains, the code never reads, writes or cuts a list, array or text at a position outside of it, asks for a list of negative length, or divides by zero. This holds for every such operation of every function of the module, given that users keep to what the functions ask: declared log levels, lengths that are not negative, routers with a path, handlers with a controller.",
  over=["inputs","configurations","histories"], forall="every path through every function, every length of every list and text and every value of every integer involved",
  why="A panic needs one odd length: an unclosed bracket in a parameter name, a configuration line of one quote, a cookie with a part missing, a chain index one too high; tests use well-formed input.",
  files=["config/config.go","params/binder.go","router.go","context.go","sessions/utils.go","request-logger/reqid.go"],
  mech=[("INI lines","config/config.go"),("keys of form parameters","params/binder.go"),("segments of a path","router.go"),("parts of a cookie","sessions/utils.go")],
  tech=TECH+": linear range analysis of every index, slice, make and division (Fourier-Motzkin over the conditions of the path), contracts of functions and fields inferred as the largest inductive set",
  note="Assumed and not decided: a found provider has a result, the program has a name, package variables keep their lists; overflow of int, lists changed by another goroutine between test and use, and positions inside reflection are not covered."+TRUST),
 dict(id="C09", title="Requests served at the same time share nothing they change unlocked",
  statement="Code that runs while requests are served never changes, without holding a lock, anything that another request can use at the same time: the application with its routes, filters and providers, the filters and services set up with it and everything the package keeps. Whatever is made for a request (context, providers, response, parameters, logger, session) belongs to that request alone. So any number of requests can be served at once with the results they would have one after another.",
  over=["schedules","histories"], forall="every interleaving of any number of requests, and every call of a handler, filter or service that a request can make",
  why="A race needs two requests at particular points at the same time; tests serve one request after another, and a shared buffer or cache looks right then.",
  files=["app.go","context.go","router.go","inject/inject.go","utils/worker.go"],
  mech=[("what is made per request","app.go"),("read-only routes","router.go"),("providers of a request","inject/inject.go"),("locks of the worker","utils/worker.go")],
  tech="whole-module points-to and escape analysis over go/ssa (inclusion based, field sensitive, cloned by phase and receiver), with a must-hold lock analysis and an effect table of external functions",
  note="Setters meant for set-up, called by a user while requests are served, and objects only user code shares are not covered."+TRUST),
dict(id="C29", title="Every line of a configuration is stored, refused or a comment",
  statement="Every line of a configuration is, by its trimmed text, empty or a comment (beginning with # or ;), a section header in brackets whose name must not be blank and under which all keys up to the next header are stored (before the first: under \"default\"), or a key separated by the first = or : from its value; anything else is an error, and no line, not even a last one without a newline, is passed over. A key is trimmed, or taken verbatim from between its quotes, where \"-\" becomes # and a number counted from 1 in every section; a value is trimmed, or taken verbatim from between its first and last back quote or triple quote, and a later value of a key replaces an earlier one. Loading succeeds only at the end of the input, closes the file it opened and hands out every failure to open or to read; where a file and a reader are given, both are read, the reader over the file.",
  over=["inputs","fault_sequences","configurations"], forall="every input, line by line, and every failure of the file or reader",
  why="Tests read one well-formed file; a line that is dropped, a quote that is closed too early or a read that fails half way shows only in files nobody tried.",
  files=["config/config.go"],
  mech=[("lines","config/config.go"),("sources","config/config.go")],
  tech=TECH+": case analysis of one arbitrary iteration of the reading loop, texts compared as linear ranges of the line, induction over the values carried from line to line, typestate of the opened file",
  note="What stands behind a closing quote, empty quoted keys (ignored) and the numbers of a section opened again are not covered."+TRUST),
dict(id="C35", title="Parameters of a request reach the fields and arguments they name",
  statement="The parameters of a request are all values of its query, of its route and of its body, in this order and each once, also when the body is malformed. A value bound to a name is made from exactly the parameters that carry this name: \"name\" for one value, \"name[i]\", \"name[]\" and repeated \"name\" for the elements of a list (at their index, up to a limit, or behind all others), \"name.field\" for the fields of a struct, \"name[key]\" or a JSON object for the entries of a map, each made for the type of its own element, field, key or value by the most specific binder. Binding to a struct does this for every exported field under the name its tag gives before the options (else its own name), also in embedded structs, and sets an embedded pointer exactly where there is a value for it; a JSON body is read whole, with numbers as written if asked, and no failure to read it is hidden.",
  over=["inputs","configurations"], forall="every set of parameters, whatever their names, numbers and order, every type a value is bound to and every content type",
  why="Names are cut at brackets and dots at computed positions, and sources are merged only when more than one has values; tests bind a few flat names.",
  files=["params/params.go","params/binder.go"],
  mech=[("merging of query, route and body","params/params.go"),("binding by kind","params/binder.go"),("binding to a struct","params/params.go")],
  tech=TECH+": case analysis of one arbitrary round of every loop over the parameters, names compared as linear ranges of text, induction over the values carried between the rounds",
  note="The values of one element under two spellings of its index, fields without a parameter and lists of uploaded files are not covered."+TRUST),
dict(id="C36", title="All work ends: no loop and no recursion goes on for ever",
  statement="Every loop of the library ends and every function that calls itself comes to an end, whatever request, route, parameter, cookie, configuration text, number, chain of handlers or set of providers it is given: each round of a loop and each nested call gets strictly closer to a bound that is checked. In particular a chain of handlers with empty places, a configuration file that breaks off anywhere or cannot be read, providers that need each other, structs whose fields lead back to their own type, an alphabet of a single character and a route at any depth neither hang the program nor exhaust its stack.",
  over=["inputs","configurations","fault_sequences"], forall="every input, every position at which reading fails or ends, every graph of providers, types and routes",
  why="A test can only show that the inputs it tries come back; an endless loop or recursion needs an input nobody tried, and then takes the process with it.",
  files=["context.go","router.go","config.go","app_util.go","config/config.go","config/config_parse.go","inject/inject.go","inject/inject_provider.go","params/params.go","utils/rand.go","sessions/manager.go","response.go"],
  mech=[("chain of handlers","context.go"),("reading of configuration files","config/config.go"),("cycles of providers","inject/inject_provider.go"),("nested structs","params/params.go"),("numbers to text","utils/rand.go")],
  tech="static analysis of the compiled functions: natural loops and call cycles, each with a measure that every way round decreases (termination analysis)",
  note="Waiting on the network, on locks or on handlers of the program, pointers and parents tied to themselves by the program, and calls made later by timers are not covered."+TRUST),
]

NA = [
]
