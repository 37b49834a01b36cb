#!/usr/bin/env python3
# Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=False):
    a={"files":files,"mechanism":mech,"observe_at":observe}
    if state: a["state"]=state
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

M=["messageimpl.go","types.go"]
p("M01","Messages survive an encode/decode round trip",
 "Encoding any request, notify, result or error message and parsing the bytes back yields a message of the same kind with the same id, method, params, result, error code/message/data and trace id. Params that were a list come back as the same list and params that were a single non-list value come back as that value, and encoding the parsed message again gives the same document.",
 ["inputs"],"every message kind, every JSON-representable id (integer or string), params, result, error and trace id, including null, empty and nested values",
 "message_test.go encodes a handful of literal messages; the guarantee is over all shapes and values of every field.",
 M+["parse.go"],["Interface() templates","DecodeMessage","decodeParams","decodeId"],["MessageBytes","ParseBytes","Message accessors"])
p("M02","Any incoming document is classified exactly or rejected",
 "For every JSON document handed to the parser the outcome is exactly one of: an error, or one message whose kind is determined by the fields present (an error field makes an error message, else a result field makes a result, else a method with params makes a request when an id is present and a notify when not, else an id alone makes a null result). A document with both a result and an error, a method without params, an id that is neither integer nor string, or no recognisable field is rejected, and parsing never panics.",
 ["inputs"],"every object over the message fields with every kind of value (null, bool, number, string, list, object) or absence for each, non-object documents, and malformed text",
 "The tests parse about ten well-formed literals; the decision table has thousands of field/kind combinations.",
 ["parse.go"],["DecodeMessage branch order","msgUnion field presence","decodeId","decodeParams"],["ParseBytes result kind, fields, error"])
p("M03","Message kind predicates and accessors agree",
 "Every message answers exactly one of the four kind predicates positively and the two combined predicates are their exact disjunctions. The must-accessors return the stored field on the kinds that carry it and panic with a message-type error value on every other kind.",
 ["inputs"],"every message kind, made by constructor or by parsing, with arbitrary field values",
 "Tests call a few accessors on one message each; misuse on the other kinds and parsed-message kinds is not sampled.",
 M,["kind field set by constructors and parser","Must* methods"],["Message interface methods"])
p("M04","Derived messages keep everything except what was asked to change",
 "Re-identifying or cloning a request, result or error gives a message of the same kind with the new id and with method, params, result, error and trace id exactly as encoded before, and leaves the original message unchanged. A result or error built from a request (directly, from an error value, or from an id and trace id) carries that request's id and trace id and the given body.",
 ["inputs"],"every request/result/error, every new id, list params and single-value params, empty and non-empty trace id",
 "Tests check one clone with list params; params form, trace id and non-mutation over all values are not covered.",
 M,["Clone","ReplaceId","NewResultMessage","NewErrorMessage","RPCError.ToMessage","WithData"],["message accessors","encoded document"])
p("M05","Method name validators accept exactly the documented alphabet",
 "A name is a valid method name exactly when it is non-empty and made only of ASCII letters, digits and - _ : + . characters. A name is a valid public method name exactly when it does not begin with \"rpc.\", begins with an ASCII letter or digit, and continues only with letters, digits and - _ : + . / \\ & # characters.",
 ["inputs"],"every byte string up to the length bound, including control characters, newlines and non-ASCII bytes",
 "Tests try a few names; the property is a language equality over all strings.",
 ["validators.go"],["the two regular expressions and the rpc. prefix test"],["IsMethod","IsPublicMethod"])
p("M06","Command line values are guessed consistently",
 "A command line argument becomes a boolean for true/false, null for null, an exact 64-bit integer for decimal integer text, otherwise a finite number for number text, and the decoded value for list, object or quoted text (with an error when that text is malformed); any other text is passed through unchanged as a string (text beginning with @ names a JSON file to load and is outside this property). The guessed value can always be encoded as JSON, guessing never panics, and a list of arguments is the element-wise guess in order, failing if any element fails.",
 ["inputs"],"every argument string up to the length bound and every list, object and quoted JSON document in shape bounds",
 "utils_test.go tries a dozen literals; special spellings (signs, inf, nan, overflow, underscores) are unbounded.",
 ["utils.go"],["GuessJson's ordered attempts","GuessJsonArray"],["returned value and error"])
p("M07","Positional params decode into exported struct fields in order",
 "Decoding a positional parameter list into a struct assigns the i-th parameter to the i-th exported field, leaves fields without a parameter at their previous value, ignores surplus parameters, and either stores exactly the given value or returns an error (null stands for the zero value, and a number given for a string field may be stored as its text); it never panics, whatever the parameters are. A destination that is not a pointer to a struct is rejected with an error.",
 ["inputs"],"every parameter list up to the length bound with values of every JSON kind, and every field kind of the destination",
 "The test decodes two fixed lists; type/kind mismatches, nulls and count mismatches are a product space.",
 ["utils.go"],["DecodeParams field walk","DecodeInterface"],["DecodeParams result struct and error"])
p("M08","Big integers survive JSON exactly and bad text is rejected",
 "A big integer encodes as a JSON string of its decimal digits and decodes from either a JSON string or a JSON number to exactly the same value, with no rounding at any size. Any other JSON string or number is reported as an error rather than silently giving some value.",
 ["inputs"],"every integer up to the digit bound with either sign, both wire forms, and every short non-numeric text",
 "utils_test.go round-trips one value; rounding and rejection are over all values.",
 ["utils.go"],["Bigint.MarshalJSON","Bigint.UnmarshalJSON"],["json.Marshal/json.Unmarshal of the type"])

p("M09","Cache keys identify the call",
 "Two requests have the same cache key under a prefix exactly when they have the same method and the same params, whatever their ids and trace ids and whether they were built, cloned or parsed; another prefix gives another key. Making a key leaves the message unchanged.",
 ["inputs"],"every pair of requests within bounds: methods and params with quotes, brackets and backslashes, nulls, numbers, nested lists and objects, every short prefix",
 "No test covers cache keys; collisions only show for particular pairs of calls.",
 M,["RequestMessage.CacheKey"],["returned key"])

S=["schema/schema.go","schema/validator.go"]
p("S01","Primitive schemas accept exactly the values they describe",
 "A number, integer, string, bool, null or any schema accepts a value exactly when the value has that kind and satisfies every configured bound: minimum and maximum are inclusive unless the matching exclusive flag is set, and string length limits are inclusive and count bytes. Number bounds compare the value's nearest float64, integer bounds the exact 64-bit value. This holds whether numbers arrive as decoded JSON or as native int and float64, over the whole range of 64-bit integers and finite floats.",
 ["inputs","configurations"],"every primitive schema with every combination of absent/present bounds and flags and arbitrary bound values, against every value",
 "schema_test.go tries fixed bounds with a few values; boundary values and all bound combinations are unreachable by sampling.",
 S,["NumberSchema.checkRange","IntegerSchema.checkRange","StringSchema.Scan","Bool/Null/Any Scan"],["SchemaValidator.Validate verdict"])
p("S02","Composite schemas mean the boolean composition of their parts",
 "Any-of accepts exactly when some choice accepts, all-of exactly when every choice accepts, not exactly when its child rejects; lists accept exactly lists whose length is within the limits and whose every item is accepted; tuples require each positional child to accept and extra items only as the additional schema allows; objects require all required properties present, every declared property present to be accepted, and undeclared ones to be accepted by the additional schema if there is one. Method schemas judge params positionally (exact count, or at least that count with an additional schema) and results by the return schema.",
 ["inputs","configurations"],"every nesting of composite schemas and every value within the size bounds",
 "The tests validate fixed documents; the composition law ranges over all schema trees times all values.",
 S,["Scan methods of AnyOf, AllOf, Not, List, Tuple, Object, Method"],["SchemaValidator.Validate verdict"])
p("S03","Validation errors point at a failing place and leave no residue",
 "When validation rejects a value the reported path is the location of a value (or a missing required property) inside the input that its schema really rejects. Using one validator for any sequence of validations gives the same verdicts and the same error paths as using a fresh validator for each.",
 ["inputs","histories"],"every schema/value pair within bounds and every sequence of validations on one validator",
 "Tests check a few literal paths on fresh validators; residue only shows in sequences mixing failing and passing nested values.",
 S,["pushPath/popPath stack","NewErrorPos copy"],["ErrorPos.Path","verdict of a reused SchemaValidator"],
 [{"name":"path stack","meaning":"location of the value being validated"}])
p("S04","Schema documents build the schema they describe or an error",
 "Building a schema from a document yields either an error or a schema that enforces every constraint the document states: type (including the inferred method, object, any-of, all-of and not forms and the string shorthand), bounds, exclusive flags, length limits, item limits of lists that are not tuples, properties with any names, required list, additional schemas, params, returns, name and description. Building never panics and never silently drops a stated property or constraint.",
 ["inputs"],"every schema document within the shape bounds, including wrong-kind attribute values at every position",
 "Tests build a dozen literal documents; attribute/kind combinations and unusual property names are not sampled.",
 ["schema/builder.go","schema/convert.go"],["buildNodeMap dispatch","convertAttr* helpers","convertTypeMap inference"],["SchemaBuilder.Build/BuildBytes result"])
p("S05","Serialised schemas rebuild to an equal schema",
 "Serialising any schema (a method schema having a returns schema, as the builder always gives it) and building a schema from the serialised text gives a schema equal to the original, which accepts exactly the same values.",
 ["inputs","configurations"],"every schema tree within bounds with arbitrary bounds, names, descriptions, required sets and additional schemas",
 "Tests serialise a couple of schemas; a dropped attribute only shows for the schema kind and attribute concerned.",
 ["schema/schema.go","schema/builder.go"],["Map methods","SchemaToString","BuildBytes"],["SchemaToString then BuildBytes then Equal/Validate"])
p("S06","Schema equality is an equivalence that sees every constraint",
 "Schema equality is reflexive, symmetric and transitive, and two schemas are equal exactly when they have the same type, name, description, constraints and children. Schemas that differ in any constraint, required set, child or additional schema are never reported equal, and comparison never panics. Whether an exclusive flag that is absent equals one that is false is left open.",
 ["inputs","configurations"],"every pair and triple of schema trees within bounds",
 "Tests compare three or four pairs; symmetry and discrimination range over all pairs of kinds and attributes.",
 ["schema/schema.go"],["Equal methods","PointerEqual","SchemaListEqual","SchemaMapEqual","SchemaMapValueEqual","SubSchemaEqual"],["Schema.Equal"])
p("S07","YAML-shaped schemas mean the same as their JSON form",
 "Normalising a YAML-shaped value gives the same value with string-keyed maps at every level, and a map with a non-string key anywhere in it is rejected with an error. Building a schema from the YAML-shaped value gives a schema equal to the one built from the same document in JSON form, and so does building it from YAML text.",
 ["inputs"],"every nesting of string-keyed maps, any-keyed maps, lists and scalars within bounds, with string and non-string keys at any level; YAML texts of the schema documents within bounds",
 "Tests load one YAML file; nesting of map kinds and key kinds is not explored.",
 ["schema/builder.go"],["FixYamlMaps","BuildYamlInterface","BuildYamlBytes"],["FixYamlMaps/BuildYamlInterface results"])

D=["http/request.go"]
p("D01","Every request gets exactly one response with its own id",
 "Feeding any request to an actor produces exactly one of a response message or an error, and any response the library itself composes has the request's id and trace id. Feeding a notify produces no response message whatever its handler returns. The handler is given the request's own message, params, context, HTTP request and session, and a response message it composes itself reaches the caller as it is.",
 ["inputs","configurations"],"every request and notify, every handler outcome (value, nil, each kind of error, each kind of error panic), actor trees within bounds, with and without missing handlers and schemas",
 "Tests feed a few requests over one actor with fixed handlers.",
 D+["messageimpl.go"],["Feed","wrapResult","recoverCallHandler","recoverCallMissingHandler"],["Actor.Feed results"])
p("D02","Method lookup, listing, schema lookup and dispatch agree",
 "For any actor tree, a method is reported present exactly when feeding a request for it runs one of the registered handlers, and the method list contains exactly the present methods. The handler that runs is the actor's own if it has one, otherwise that of the first child subtree that has the method; the schema reported for a method is the one of the handler that runs; unregistered methods reach the root's missing handler or give a method-not-found error.",
 ["configurations","inputs","histories"],"every actor tree within bounds, every sequence of registrations and removals, every method name",
 "Tests use one parent and one child; shadowing, removal and schema-less shadowing across trees are not sampled.",
 D,["getHandler","Has","GetSchema","MethodList","Off","Feed's child walk"],["Has","GetSchema","MethodList","which handler Feed runs"])
p("D03","A schema-guarded handler only ever sees conforming params",
 "When schema validation is on and a method has a schema, its handler runs exactly when the message's params conform to the schema; otherwise the handler does not run and a request is answered with an invalid-schema error carrying the request's id and trace id (a notify yields an error). When validation is off the handler always runs.",
 ["inputs","configurations"],"every params list or object within bounds against every method schema within bounds, request and notify, validation on and off, handlers on root and child actors",
 "Tests call one schema-guarded method with three parameter lists.",
 D+S,["Feed's validation step","MessageMap","MethodSchema.Scan"],["whether the handler ran and what Feed returned"])
p("D04","Handler failures become the right JSON-RPC error",
 "If a handler returns or panics with an error that is or wraps a JSON-RPC error object, the response carries exactly that code, message and data; a wrapped transport response is handed back to the caller as such; any other error gives the internal error (-32603) and leaks no detail. A panic with an error value never escapes when recovery is on, and always propagates when it is off; a panic with any other value always propagates unchanged.",
 ["inputs"],"every error code, message and data value, every wrapping depth within bounds, returned or panicked, registered or missing handler, request or notify",
 "Tests exercise one error return and one panic.",
 D,["wrapResult","recoverCallHandler","recoverCallMissingHandler"],["Actor.Feed results"])
p("D05","Typed handlers receive exactly the given arguments",
 "A typed handler is invoked exactly when every positional argument it declares is present and convertible, and then it receives exactly the values sent; too few parameters or an unconvertible value gives an invalid-params error (-32602) without running the handler, and surplus parameters are ignored. The value the handler returns is what the caller gets, whatever its type, also when one handler runs for several calls at once, and no parameter value can crash the server.",
 ["inputs","configurations"],"every parameter list within bounds with values of every JSON kind including null, against handlers with string, integer, float, bool, list, map, struct, pointer and any-typed arguments",
 "Tests call three typed handlers with fixed arguments; null and mismatched kinds are not sampled.",
 ["http/typewrap.go","http/request.go"],["wrapTyped","interfaceToValue","valueToInterface"],["handler arguments seen, Feed result"])
p("D06","Closing a connection notifies every actor exactly once",
 "When a connection closes, the close callback of every actor in the tree runs exactly once with that connection's request and session, whichever order the tree was assembled in. An actor or client accepts at most one callback per event: registering a second handler for a method, or a second missing, close, message or connected callback, is refused with an error and leaves the first in force.",
 ["configurations","histories"],"every actor tree within bounds and every order of registrations",
 "Tests register one close handler; duplicates and trees are not covered.",
 D+["http/streaming_client.go"],["HandleClose","OnRequest","OnMissing","OnClose","OnMessage","OnConnected"],["callbacks run, errors returned"])

p("A01","Only matching credentials reach the protected handler",
 "With authentication configured, a request reaches the protected handler exactly when it carries a Basic user/password pair equal to a configured pair, a Bearer token equal to a configured token, or a currently valid signed token; every other request, however malformed its authorization header, is answered 401 and does not reach it, and never crashes the server. The identity and settings attached to the request are those of the entry that matched; without any configuration every request passes with no identity.",
 ["inputs","configurations"],"every authorization header and every configuration within bounds (empty lists, several entries, same user with different passwords, absent header)",
 "Tests use one user and one token; near-miss headers and multi-entry configurations are unbounded.",
 ["http/auth_handler.go"],["TryAuth","jwtAuth","ServeHTTP"],["status, whether the next handler ran, AuthInfoFromContext"])
p("A02","Signed tokens are honoured only while valid, cached or not",
 "A signed token is accepted exactly when its signature verifies under the configured secret and its expiry is not in the past at the moment of the request (a token without an expiry is never accepted), no matter how many times or when it was presented before. The identity attached is always the one inside the token presented, never that of another token.",
 ["inputs","histories","schedules"],"every sequence of requests within bounds over tokens with arbitrary secrets, users and expiry times, at arbitrary non-decreasing clock readings",
 "The test presents one fresh token; expiry between presentations and cache interference need chosen clocks and sequences.",
 ["http/auth_handler.go"],["jwtAuth cache lookup, expiry check, cache removal"],["status and identity per request"],
 [{"name":"token cache","meaning":"claims remembered per authorization header"}])
p("A03","Configuration validation rejects exactly the unusable entries",
 "Validating an authentication configuration fails exactly when some Bearer entry has an empty token, some Basic entry has an empty user or password, or a signed-token section has an empty secret; validating a TLS configuration fails exactly when the certificate or key file is empty. A missing configuration is valid.",
 ["configurations"],"every configuration with up to the bounded number of entries and arbitrary strings",
 "No test covers configuration validation.",
 ["http/auth_handler.go","http/server_utils.go"],["AuthConfig.ValidateValues","TLSConfig.ValidateValues"],["returned error"])

p("T01","The HTTP/1.1 endpoint answers each request with the right status",
 "A non-POST request is answered 405, an unreadable or unparsable body 400, a simple or wrapped response error with that response's status, headers and body, any other failure 500, and everything else 200 with exactly one JSON-RPC document for a request and an empty body for a notify. A response that cannot be encoded is answered with an internal-error document carrying the request's id, and JSON answers are labelled application/json and carry the request's trace id in the trace header.",
 ["inputs","fault_sequences"],"every HTTP method, body document, handler outcome and body-read failure within bounds",
 "Tests post a few good requests and one abnormal response.",
 ["http/h1_server.go"],["H1Handler.ServeHTTP"],["status code, headers and body written"])
p("T02","The HTTP/1.1 client reports exactly what the server said",
 "A call returns the server's result or error message for a 200 answer holding one, returns a wrapped response with the server's status and body for any other status, a timeout error on timeout and an error on any other failure, and never returns neither or a message after a failure. The request sent is a POST of the message with its trace id in the trace header and all configured extra headers, and the caller's message is left as it was. An answer carries the trace id of its call, whatever the server's body says, and calls of one client made one after another or at the same time do not influence one another.",
 ["inputs","fault_sequences"],"every request message, every response status/body and every transport failure within bounds",
 "Tests talk to a well-behaved local server only.",
 ["http/h1_client.go"],["request","Send","UnwrapCall"],["returned message/error, HTTP request seen by the transport"])
p("T03","The gateway routes each request to the protocol it asked for",
 "A gateway hands every HTTP/2 request to the HTTP/2 endpoint, an HTTP/1.x request asking to upgrade to websocket to the websocket endpoint, one asking for h2c to the HTTP/2 endpoint and everything else to the HTTP/1.1 endpoint, and all of them share the same actor.",
 ["inputs","configurations"],"every protocol version and upgrade header value within bounds, secure and insecure gateways",
 "Tests connect with three well-behaved clients; header spelling variants are not sampled.",
 ["http/gateway_handler.go","http/h2_server.go"],["GatewayHandler.ServeHTTP","H2Handler fallback"],["which endpoint's behaviour is observed"])
p("T04","The client factory picks the transport by URL scheme",
 "Creating a client for http or https URLs gives a non-streaming client, for ws or wss a websocket client, for h2 an HTTP/2 client over TLS and for h2c one over clear text, each aimed at the same host and path with the same credentials; any other scheme or an unparsable URL gives an error and never a panic. Extra header flags of the form name=value parse to that header with surrounding spaces removed, repeated names accumulate in order, and a flag without = is rejected.",
 ["inputs"],"every scheme string and every header flag list within bounds",
 "Tests create clients for fixed URLs; scheme variants and flag texts are unbounded.",
 ["http/client_factory.go","http/client_util.go","http/h2_client.go","http/ws_client.go","http/h1_client.go"],["NewClient","NewH1Client","NewWSClient","NewH2Client","HeaderFlags.Parse"],["client kind, ServerURL, returned error, parsed header"])
p("T05","A streaming session answers every request it receives exactly once",
 "On a websocket or HTTP/2 session, each request message received before the connection ends is answered by exactly one message with its id and trace id, in every interleaving of concurrent handlers, and server pushes are delivered exactly once in sending order per sender. A response that cannot be encoded does not silence the session: later requests are still answered. A websocket frame that is not text is ignored. Answers and pushes go only to the session they belong to: simultaneous connections are distinct sessions with distinct ids, and the end of one leaves the others undisturbed.",
 ["schedules","inputs"],"every interleaving within the preemption bound of up to the bounded number of requests, pushes and handler outcomes",
 "Tests run well-behaved sequential calls under whatever schedule occurs.",
 ["http/ws_server.go","http/h2_server.go"],["recvLoop","msgReceived","sendLoop","sendChannel"],["frames written to the peer"],None,True)
p("T06","Concurrent streaming calls each receive their own answer",
 "On a streaming client, every concurrent call returns the answer the server gave to that very call, with the caller's own id restored even when ids collide, regardless of the order in which answers arrive; requests reach the server with ids unique among those outstanding. Messages that are not answers to an outstanding call go to the message callback exactly once, unanswered calls end with the timeout error, and a call that cannot be encoded fails alone. Unwrapping a call stores the result in the caller's variable or returns the error.",
 ["schedules","inputs"],"every interleaving within the preemption bound of up to the bounded number of calls, equal or distinct ids, every order of answers, pushes and unknown answers",
 "Tests issue calls mostly one after another; id collisions and racing registrations need chosen schedules.",
 ["http/streaming_client.go"],["pendingRequests","request","handleResult","expire"],["what each Call returns, what the transport is asked to write"],
 [{"name":"pending table","meaning":"outstanding requests by wire id"}],True)
p("T07","Losing or closing a streaming connection never hangs the client",
 "When the connection fails or is closed at any point, every outstanding and later call or send returns within the request timeout with an answer or an error, the close callback runs exactly once per lost connection, waiting for closure returns, and a later call reconnects and works. No sequence of connect, call, send, close and failure panics.",
 ["schedules","fault_sequences","histories"],"every placement of one failure or close among up to the bounded number of operations, in every interleaving within the preemption bound",
 "The tests close once after all calls are done.",
 ["http/streaming_client.go"],["Reset","handleError","Close","Wait","sendLoop","recvLoop","Connect"],["returned errors, callbacks, termination"],None,True)
p("T08","Each streaming session ends cleanly exactly once",
 "When the peer disconnects, sends garbage, or the server or request context ends, the session ends, the actors' close callbacks run exactly once with that session, and the server does not crash, whatever handlers are still running; once those have returned nothing of the session keeps running.",
 ["schedules","fault_sequences"],"every placement of the terminating event among up to the bounded number of requests, in every interleaving within the preemption bound",
 "Tests end sessions only by closing the client after the work is done.",
 ["http/ws_server.go","http/h2_server.go","http/request.go"],["wait","done channel","HandleClose"],["return of the session, close callback count"],None,True)
p("T09","ListenAndServe serves until its context ends",
 "Serving reports an address that cannot be bound, or a certificate that cannot be read, as an error. Otherwise the handler answers at the address, over TLS with the first configuration given that is not nil and over plain HTTP when there is none, until the context ends (at any time, before or while serving); then the call returns and the address is free again.",
 ["configurations","schedules"],"every list of TLS configurations up to the length bound (absent, either of two certificates, missing files), free and taken addresses, every moment of the context's end within the preemption bound",
 "Tests start a server once and never look at how it ends or which configuration counts.",
 ["http/server_utils.go"],["choice of the TLS configuration","listener closed by the context"],["returned error, answers at the address"])
p("T10","A client's settings govern its own connections and no others",
 "The extra headers set on a client accompany each HTTP/1.1 request and each streaming connection it makes, reconnections included, and the caller's header is left as it was. A client connects to a secure server exactly when the TLS settings given to that very client before its first use trust the server, whatever other clients in the process were given and whatever they do at the same time, and settings shared by the whole program are left alone.",
 ["configurations","schedules","histories"],"every kind of client, secure and clear servers, every header within bounds, absent, trusting and distrusting TLS settings on one or two clients, in every order of settings and calls and every interleaving within the preemption bound",
 "Tests use one client per server with good settings; leaks between clients need two of them, and lost headers a reconnection.",
 ["http/h1_client.go","http/ws_client.go","http/h2_client.go","http/streaming_client.go"],["SetExtraHeader","SetClientTLSConfig","h1 transport","websocket dialer","http2 transport"],["requests and connections seen by the server, errors of calls"])
p("C01","The command line clients send what they are told and report the outcome",
 "Calling or notifying from the command line makes exactly one request or notify with the given method, the params guessed from the remaining arguments in order and the given headers, to the server named by the flag, else by the environment. The call program prints the server's result or error as one JSON-RPC message and succeeds; the notify program prints nothing and succeeds, and its message has reached the server when it ends. A missing method, a malformed param, header or URL, or a server that cannot be reached sends nothing, prints no result, says why and fails.",
 ["inputs"],"every command line within bounds (URL by flag or environment, up to two header flags, methods and params of short texts and JSON words) against servers of every kind with any result or error",
 "The programs have no tests.",
 ["cli/call/main.go","cli/notify/main.go"],["flags","GuessJsonArray","HeaderFlags.Parse","NewClient"],["message and headers seen by the server, output, exit code"])
p("C02","The watching program prints every push across lost connections",
 "Watching from the command line connects with the given URL, makes the given call once on each connection and prints its answer and every pushed message exactly once, pushes in order. After a loss or a refused attempt it tries again, and it ends in peace exactly when losses and refusals in a row reach the retry limit; a successful connection starts the count again.",
 ["histories","schedules","fault_sequences"],"every sequence of accepted and refused attempts and losses up to the bound, retry limits 1 to 3, with and without a call, in every interleaving within the preemption bound",
 "The program has no tests; retries need servers that come and go.",
 ["cli/watch/main.go"],["jsonrpcWatcher.run","jsonrpcWatcher.connect"],["output, connections made, exit code"],
 [{"name":"retry count","meaning":"failures in a row"}])
p("E01","The FIFO example behaves as one shared queue",
 "In every interleaving of concurrent clients, the example service's answers are those of some sequential order of its operations: push appends, pop removes one element or reports an empty queue, get returns the element at an index or an out-of-range error, and list returns the whole content as it was at one moment. Every subscriber receives each pushed element exactly once, and subscribing or disconnecting concurrently never corrupts or crashes the service.",
 ["schedules","histories"],"every interleaving within the preemption bound of up to the bounded number of operations",
 "The example has no tests.",
 ["examples/fifo/main.go"],["handlers sharing the queue and the subscription table"],["responses of the service"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(json.dumps(x))
