# property -> (how it is decided and against what oracle, what lies outside)
NOTES = {
"M01": ("Messages of every kind are built with symbolic fields, encoded by the real Interface templates, parsed by the real DecodeMessage and compared field by field; encoding again must give the same document. Oracle: the fields given.", "values deeper than the bound"),
"M02": ("The document is a lazily forked object over the message fields (each absent or of any kind). Oracle: an independent decision table of kinds over the document tree.", "documents with duplicate keys"),
"M03": ("Every constructor and parsed message against a table kind x accessor: value or panic with the message-type error.", ""),
"M04": ("Clone/ReplaceId/NewResultMessage/NewErrorMessage/RPCError constructors on symbolic messages; the original is encoded before and after.", ""),
"M05": ("All byte strings up to the bound; the solver compares the verdict of the real regular expressions (executed as automata over symbolic bytes) with the alphabet in the statement.", "longer names"),
"M06": ("All strings over the significant alphabet up to the bound plus words and documents; oracle: regular expressions of the documented reading and exact numeric conversion.", "files named by @"),
"M07": ("Params of every JSON kind against destination structs with fields of every kind; oracle: exact conversion or error, no other field touched.", ""),
"M08": ("Symbolic decimal texts with sign up to the digit bound through json.Marshal/Unmarshal; big.Int is modelled by its canonical decimal text.", "big.Int arithmetic"),
"M09": ("Two symbolic requests; keys are compared as strings against equality of method and params documents.", ""),
"S01": ("Schemas with symbolic bounds and flags (built as Go values and from documents), symbolic numbers as json.Number, int and float64; oracle: arithmetic comparison over IEEE doubles and 64-bit integers.", ""),
"S02": ("Symbolic nestings of composites with leaf schemas whose verdict is known; oracle: an independent recursive validator in harness/sx.", ""),
"S03": ("The reported path is walked in the input by the oracle and the value there must be rejected by the schema there; sequences of validations on one validator are compared with fresh validators.", ""),
"S04": ("Documents with every attribute of every kind at every position; oracle: an independent builder/validator of the document's meaning (harness/sx), by behaviour on probe values and by attributes.", ""),
"S05": ("Symbolic schema trees serialised by the real Map methods and rebuilt by the real builder, compared by Equal and by validation of probe values.", ""),
"S06": ("Pairs and triples of symbolic schema trees; oracle: structural comparison in harness/sx.", "absent vs. false exclusive flags (left open)"),
"S07": ("Trees of map[interface{}]interface{}, map[string]interface{}, lists and scalars with symbolic key kinds; oracle: recursive normalisation.", "yaml text parsing"),
"D01": ("Actor.Feed with every handler outcome (value, nil, error kinds, panics) in actor trees; oracle: exactly one of response and error, id and trace id.", ""),
"D02": ("Sequences of registrations/removals over trees; oracle: a reference resolver; compared with Has, GetSchema, MethodList and the handler that ran.", ""),
"D03": ("Schema-guarded handlers with symbolic params; oracle: the harness's own reading of the schema.", ""),
"D04": ("Errors of every kind returned or panicked, wrapped to the depth bound; oracle: table in the statement.", ""),
"D05": ("Typed handlers of every argument and result kind against params of every kind; oracle: exact conversion.", "types outside the listed kinds"),
"D06": ("Trees assembled in every order, closed once; counters per callback. Duplicate registrations of every event.", ""),
"A01": ("AuthHandler.ServeHTTP with symbolic headers and configurations; oracle: a reference reading of Basic, Bearer and signed tokens. HMAC and base64 are injective uninterpreted functions.", "other signature algorithms than HMAC and none"),
"A02": ("Sequences of requests at symbolic clock readings over tokens with symbolic expiry; oracle: validity at each moment.", ""),
"A03": ("ValidateValues with symbolic strings; oracle: the statement.", ""),
"T01": ("H1Handler.ServeHTTP with symbolic methods, bodies, body-read faults and handler outcomes on a ResponseWriter with net/http's rules.", "HTTP framing"),
"T02": ("H1Client against a scripted peer (model of Client.Do; a real server natively) with every status, body, refusal, break and silence.", ""),
"T03": ("GatewayHandler with symbolic protocol versions and Upgrade header spellings; endpoints are told apart by what they do.", ""),
"T04": ("NewClient on symbolic URL texts (net/url runs from source) and HeaderFlags on symbolic texts.", ""),
"T05": ("Real WSHandler/H2Handler sessions with peers of the model connection, concurrent handlers and pushes, all schedules within the deviation bound; oracle: multiset and order of frames.", ""),
"T06": ("Real StreamingClient over a harness transport (and over the websocket/HTTP2 transports), concurrent calls with equal or distinct ids, answers in every order; oracle: each caller gets the answer computed from its own parameter.", ""),
"T07": ("Real StreamingClient and real WS/H2 transports; a loss (break, close, reset, cancelled context) at every point; oracle: everybody returns, callbacks counted, a later call works.", "connects that never return"),
"T08": ("Real server sessions ended by every cause at every point with handlers still running; deadlocks, panics and close callbacks observed.", ""),
"T09": ("Real ListenAndServe over a model of listeners and http.Server (real sockets natively).", ""),
"T10": ("All client kinds through the factory against a site that notes headers and admits by the client's own TLS settings (real TLS servers natively).", "certificate chains, client certificates"),
"C01": ("The programs themselves (importable copies generated from the current source, with os.Args, environment, output and exit redirected) against sites of every kind.", "the default URL"),
"C02": ("The program against a server that comes and goes by plan; oracle: reference count of failures in a row.", ""),
"E01": ("The program (generated copy) under concurrent clients; oracle: linearizability by search over sequential orders, subscribers' deliveries counted, map races.", ""),
}
