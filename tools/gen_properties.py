"""Writes /verif/properties.jsonl (run by hand after editing; the .jsonl is what is committed and read)."""
import json, os
S, M, CO, PS, SH, W, CL, EN, NE, HO, EX, PM, UT = ["src/pypsrp/%s.py" % n for n in
    "serializer messages complex_objects powershell shell wsman client encryption negotiate host exceptions _pool_manager _utils".split()]
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "hook_needed": None}})

p("C01", "Every string survives CLIXML serialization exactly",
  "Any Python string of Unicode scalar values handed to the CLIXML serializer becomes well-formed XML whose text is the MS-PSRP `_xHHHH_` escape form, and a conforming reader recovers exactly that string from it. Conversely every string a server sends in that form decodes to exactly the string it stands for, with hexadecimal digits in either case and with text that only resembles an escape left alone. Control characters, non-BMP characters, characters XML forbids and text that looks like an escape are all preserved in every string-like position (strings, script blocks, URIs, XML documents, ToString values).",
  ["inputs"], "all Unicode strings, biased to escapes, control characters, surrogate-range, BMP/non-BMP mixtures, CJK byte patterns; all string-like CLIXML tags",
  "Tests sample about twenty hand-picked strings; the escape and unescape relations must be inverse for every string, including ones whose UTF-16 bytes imitate an escape.",
  [S], [("string escaping", S + ": Serializer serialize string path"), ("string unescaping", S + ": Serializer deserialize string path")])
p("C02", "Values round-trip through CLIXML with their types and order intact",
  "Serializing a supported value and reading the result back gives an equal value of the same kind, for every primitive CLIXML type (inferred or explicitly tagged), None, and arbitrarily nested lists, dictionaries, queues and stacks with heterogeneous elements. Each element is written with the CLIXML tag of its own type, numbers, GUIDs, byte arrays, floats and times use the lexical form the protocol defines, and element order is preserved. Serializing never changes the caller's value or metadata, so serializing the same thing again yields the same document.",
  ["inputs"], "value trees over all primitive tags and containers, with and without explicit tags or metadata, repeated serialization",
  "Tests serialise one fixed example per type; heterogeneous nesting, reuse of metadata and repeat serialization are never exercised.",
  [S, CO], [("serialize / pack table", S + ": Serializer.serialize"), ("deserialize / unpack table", S + ": Serializer.deserialize"), ("container writers", S + ": list/queue/stack/dict serializers")])
p("C03", "CLIXML object graphs keep identity, type names and unique reference ids",
  "In every serialized document each object has a reference id of its own, each type-name list is defined once before it is referenced, and every object resolves to exactly the type names it declares, in order. An object that appears again among the properties of its own graph (shared or cyclic) is written as a reference that a conforming reader resolves to the same object, under the property name of that position. Property names, adapted and extended property groups, property sets and the ToString value all survive.",
  ["inputs"], "object graphs with shared and cyclic property references, arbitrary type-name lists sharing prefixes, mixed containers",
  "Tests use single fixed objects; reference consistency is a relation over whole graphs of arbitrary shape.",
  [S, CO, HO], [("reference/object ids", S + ": object id and type-name tables"), ("Ref emission", S + ": property writer")],
  [("obj / tn tables", "per-document reference tables", S)])
p("C04", "Server CLIXML decodes to the values it denotes",
  "For any CLIXML document a conforming PowerShell endpoint can send - primitives, null, empty elements, typed and untyped lists, generic collections, dictionaries, queues, stacks, enums, references, Deserialized.* types, well-known record types and arbitrary objects - decoding yields the value it denotes, with references resolving to the same object. Every property of an arbitrary object is available by name with its decoded value, its type names in order and its ToString value. Decoding does not depend on documents decoded before, and nested unknown objects never lose sibling data.",
  ["inputs"], "CLIXML documents produced by an independent reference writer over all shapes a PowerShell serializer emits",
  "Tests decode recorded responses only; the space of nested documents with shared type names and references is unbounded.",
  [S, CO, M], [("type-directed decoding", S + ": Serializer.deserialize"), ("well-known objects", CO)])
p("C05", "Secure strings are only ever sent encrypted, under the exchanged session key",
  "After a key exchange, in whichever side initiates it, every secure string and credential password sent is AES-256-CBC encrypted under the session key the server returned, decrypts on the server to exactly the original text, and its plain text appears nowhere in what is sent; secure strings the server sends decrypt to exactly their text. Asking for a secure value before the exchange raises an error instead of sending it. The exchange sends a usable RSA public key exactly once per pool and a repeated request is harmless.",
  ["inputs", "histories"], "secret texts (any Unicode, any length around block boundaries), session keys, histories of exchange requests from either side and uses before/after",
  "One recorded exchange with one fixed key is replayed; nothing checks other secrets, keys, ordering or server-requested exchange.",
  [S, PS, M, CO], [("secure string cipher", S + ": secure string pack/unpack"), ("key exchange", PS + ": RunspacePool.exchange_keys and message handlers")])
p("C06", "Outgoing PSRP messages are fragmented losslessly within the size limit",
  "For every sequence of outgoing messages and every permitted fragment size, each fragment's blob fits the limit, and concatenating the fragments of one object id from the start-flagged one to the end-flagged one gives exactly the packed message. Fragment ids count up from 0 by one with the start flag only on the first and the end flag only on the last, and each message gets an object id greater than the one before. No bytes of any message are lost, duplicated or reordered, however large the message, in everything the library puts on the wire.",
  ["inputs", "histories"], "message sequences of any size against any fragment size, including sizes at exact multiples of the payload limit; pool-open, pipeline and input messages over several negotiated envelope sizes",
  "Tests fragment a couple of messages with one size; off-by-one errors sit at exact size boundaries.",
  [M, PS], [("Fragmenter.fragment", M + "/" + PS), ("Fragment.pack", PS)])
p("C07", "Incoming fragments reassemble to exactly the messages the server sent",
  "However the server splits messages into fragments, interleaves the fragments of different objects and packs fragments into response streams, reassembly yields every message exactly once with exactly its bytes, in the order in which their last fragments arrive. A fragment that is missing, repeated or out of order within an object that is still incomplete is reported as a fragment error rather than producing a corrupted message. Incomplete messages are kept until the rest arrives and never delivered early.",
  ["inputs", "schedules", "fault_sequences"], "message batches, arbitrary split points, interleavings across object ids, arbitrary grouping into streams, single drop/duplicate/swap faults",
  "Tests feed single pre-recorded fragment sequences; interleaving and splits are unsampled.",
  [M, PS], [("Fragmenter.defragment", PS), ("Fragment.unpack", PS)], [("incoming buffer", "partial objects by object id", PS)])
p("C08", "PSRP message headers and bodies encode and decode losslessly",
  "Packing any PSRP message gives the protocol's byte layout (destination, type, little-endian runspace pool and pipeline ids, then the UTF-8 CLIXML body) and unpacking a server's bytes yields the same destination, type, ids and field values. This holds for every message type the client sends or receives, with or without a byte order mark, and with a missing pipeline id as the empty id. An unknown message type is rejected with an error instead of being misread.",
  ["inputs"], "all message types with generated field values and ids, with and without BOM, both directions",
  "Tests cover a fixed example for some types only.",
  [M], [("Message.pack/unpack", M), ("per-type message classes", M)])
p("C09", "WSMan requests are well formed, correctly addressed and answers are matched",
  "Every WSMan operation sends one well-formed SOAP request whose action, resource URI, endpoint address, message id, timeouts, locale, maximum envelope size, session id, selectors and options are exactly those the caller configured or passed, with the body unchanged; message ids are unique per client and one session id is used throughout. The caller receives the body of the response that relates to that request, and a response that relates to a different message is rejected. When the server advertises its maximum envelope size, the client's payload size follows it.",
  ["inputs", "configurations"], "connection configurations (names, ports, paths, IPv6, locales, timeouts, sizes), operations, option/selector sets, bodies",
  "Recorded exchanges pin a few configurations and are compared textually.",
  [W], [("header creation", W + ": WSMan request/header building"), ("invoke", W + ": WSMan.invoke"), ("max payload", W + ": max payload calculation")])
p("C10", "Every failed exchange surfaces as an error carrying the server's details",
  "A SOAP fault sent with a non-success HTTP status - with any subset of code, reason, provider fault or WMI detail - is raised as a WSMan fault error exposing the code, machine, provider, reason and detail the server sent; any other non-success status raises a transport error with the HTTP status and body; a 401 raises an authentication error. No failed exchange is ever treated as success and no well-formed success response is treated as failure. Error text generation itself never fails whatever is missing from the fault.",
  ["inputs", "fault_sequences"], "HTTP statuses, fault documents with arbitrary subsets and contents, non-XML bodies",
  "Tests parse a few recorded faults.",
  [W, EX], [("fault parsing", W + ": WSMan fault parsing"), ("transport send", W), ("exceptions", EX)])
p("C11", "No request ever exceeds the configured maximum envelope size",
  "For every message, pipeline, input and file chunk the library sends, the SOAP envelope it produces is no larger than the maximum envelope size in force, for any configured size a server may advertise and any resource URI, configuration name, option or locale. Large data is split across as many requests as needed instead of producing an oversized request or failing. Payload lengths are always such that the base64 data of a fragment round-trips without loss.",
  ["inputs", "configurations"], "envelope sizes from the protocol minimum upward, payload sizes around the computed boundary, configuration names and locales of various lengths, all sending paths",
  "Tests use the default sizes with small messages.",
  [W, PS, SH], [("max payload size", W), ("send splitting", SH + "/" + PS)])
p("C12", "Encrypted sessions never expose message content and decrypt exactly",
  "When message encryption is in force every request that carries content is sealed: no plain text of the envelope is on the wire, the declared protocol, original length and boundary framing follow MS-WSMV, and a peer with the session key recovers exactly the envelope. Every sealed response, single or split into many parts, of any content, decrypts to exactly what the server sealed, and a body whose declared length does not match is rejected. Requests too large for one sealed block are split so that the peer recovers the whole envelope, with the multi-part content type the protocol requires.",
  ["inputs", "configurations"], "payload bytes/lengths around block limits, all three sealing protocols, boundary strings and hostnames, part splits of responses, corrupted lengths",
  "Recorded tests cover a few messages with fixed lengths; contents that imitate the boundary or lie at the block size are never sampled.",
  [EN, W], [("WinRMEncryption.wrap/unwrap", EN), ("transport encryption branch", W)])
p("C13", "Requests are retried only when safe, and each reply is delivered once",
  "A request whose connection fails or whose response times out is resent only when it is safe for the protocol's receive loop, within the documented number of attempts, with the identical message; other requests are never silently sent twice. A server operation timeout while waiting for the output of a command or pipeline only makes the client ask again, without losing or duplicating output. When retries run out the caller gets the underlying connection error, and the session can still be used for later requests.",
  ["fault_sequences", "histories"], "sequences of connect/read failures, server timeouts and successes injected at every request of an operation",
  "Tests inject one or two fixed failures.",
  [W, SH, PS], [("retry loop", W + ": WSMan.invoke / transport send"), ("receive timeouts", SH + ": Process.poll_invoke, " + PS)])
p("C14", "Connection options decide endpoint, encryption, credentials and TLS exactly",
  "For every combination of connection options the client connects to exactly the endpoint described, applies exactly the chosen authentication with the given credentials, verification, certificate, proxy, header and timeout settings, and rejects impossible combinations or unknown authentication and encryption values with an error before any traffic. Over plain HTTP content is encrypted by default whenever the chosen authentication can encrypt, asking to always encrypt without the ability is an error, and over HTTPS encryption happens only when asked for. Environment proxies are honoured unless disabled, and the environment and other HTTP connections of the process are unaffected. A client uses one connection for what it sends one after the other, and none is left when it is closed or its context is left.",
  ["configurations"], "cross product of ssl, auth, encryption, credentials, cert options, proxy, port, path, unknown options, environment variables",
  "Tests check a handful of the option combinations, mostly one option at a time.",
  [W, NE], [("transport construction", W + ": transport host"), ("session building", W)])
p("C15", "Negotiate authentication relays every token faithfully until it completes",
  "For any number of token legs the client sends exactly the token the security context produced in each request and feeds it exactly the token from each response, in whichever supported scheme the server offered, until the context completes or the server gives its final answer. A response that needs no authentication is passed through untouched, a failed or refused authentication returns the refusal instead of looping, and the request body reaches the server intact on the authenticated request. The final server token is always processed so that later sealing keys are right.",
  ["inputs", "fault_sequences"], "token sequences of any content and length, header spellings and orderings, schemes, early completion and refusals",
  "Tests replay recorded handshakes.",
  [NE], [("HTTPNegotiateAuth response handling", NE)])
p("C16", "Channel binding tokens match the server certificate",
  "For any server certificate the channel binding data is `tls-server-end-point:` followed by the hash of the certificate with the certificate signature's hash algorithm, or SHA-256 where that is MD5 or SHA-1, per RFC 5929. Unknown or hash-less signature algorithms fall back without failing the connection, and channel binding is only sent over HTTPS and only when enabled.",
  ["inputs", "configurations"], "generated certificates over key types, signature algorithms and contents; option settings",
  "Tests contain a fixed set of certificates.",
  [NE], [("certificate hash", NE + ": HTTPNegotiateAuth certificate hash")])
p("C17", "A remote process's output, exit code and input arrive complete and in order",
  "For any command the process's stdout and stderr as seen by the caller are exactly the concatenation of what the server sent for each stream in order, however it is split over responses and with operation timeouts anywhere in between, and the exit code and the state are what the server last said. The client keeps asking until the server says the command is done and not after that. Command line, arguments, ids and every input chunk reach the server exactly once, in order and unaltered, with the end-of-input mark only where asked.",
  ["inputs", "schedules", "fault_sequences"], "output chunkings over streams and responses, timeouts between them, exit codes, argument text, input chunks",
  "Recorded command sessions show one chunking each.",
  [SH, CL], [("Process", SH), ("WinRS receive parsing", SH)])
p("C18", "Remote shells follow their lifecycle: no use outside open, always closed",
  "A shell sends exactly one create request carrying the caller's environment, working directory, streams, options, timeouts and name, uses the id the server assigns for every later request, and is deleted exactly once when closed or when its context ends, also when an error is raised in between. Closing a shell that was never opened or is closed already sends nothing and changes nothing. Signals reach exactly the command or shell they name.",
  ["histories", "configurations"], "sequences of open/close/signal/command with generated options, errors inside context managers",
  "Tests run the happy path once.",
  [SH], [("WinRS open/close/signal", SH)])
p("C19", "Runspace pool state follows the protocol and the server at every step",
  "Through any history of opening, server state changes, disconnecting, connecting and closing, the pool's reported state is the last one the server or a successful operation established; opening an opened pool or closing a closed one sends nothing and an operation the current state does not allow raises an error without sending anything. Opening delivers the whole session and initialization data, including application arguments of any size, and yields the server's application private data and capabilities. A pool the server breaks raises an error carrying the server's error record, and a pool context always closes the pool on the server, also when it is left by an error or opening fails part way.",
  ["histories", "fault_sequences"], "operation histories interleaved with server messages and failures; application arguments of any size; context exits through exceptions",
  "Tests replay fixed recordings of single histories.",
  [PS], [("RunspacePool operations", PS), ("runspace pool message handlers", PS)], [("state", "runspace pool state", PS)])
p("C20", "Runspace limits change only when the server agrees",
  "Minimum and maximum runspaces reported by the pool always equal the last values the server accepted; a refused change leaves them as they were and raises an error, and answers are matched to the request they belong to however they are ordered or mixed with other messages. Asking for available runspaces returns the server's count and changes no limit. Nothing is sent when the value would not change or the pool is not open, and resetting the runspace state reports failure if the server refuses.",
  ["histories", "inputs"], "sequences of set-min, set-max, get-available, reset with accepted/refused answers interleaved with unrelated server messages",
  "Tests apply two fixed changes to one recording.",
  [PS, M], [("min/max setters", PS), ("availability correlation", PS)], [("ci table", "outstanding availability calls", PS)])
p("C21", "Pipeline output and stream records are delivered once, in order, complete",
  "For any sequence of records a server sends for a pipeline, split over fragments and responses in any way, with timeouts anywhere, the caller's output and each of the error, warning, verbose, debug, progress and information streams hold exactly the records sent to that stream once each in order with their decoded contents. Final state and the had-errors flag reflect what the server reported; the error a failed pipeline ends with is added to its error stream. Records for one pipeline never show up in another, and the client stops asking once the server reports the end.",
  ["inputs", "schedules", "fault_sequences"], "record sequences over all streams and two pipelines, fragment splits, response grouping, timeouts, final states",
  "Recordings show one grouping of a few records.",
  [PS, M], [("pipeline message handlers", PS), ("PowerShell.poll_invoke/end_invoke", PS)], [("streams", "collected records", PS)])
p("C22", "Pipeline operations are accepted exactly in the states that allow them",
  "Through any history of begin, end, stop, connect, add and re-invoke calls the reported invocation state is the one the protocol prescribes, and any call not allowed in the current state raises an error without sending a request or changing the pipeline. Stopping sends one stop signal for that pipeline and ends in a stopped state, ending collects all output, and closing releases the remote command once. A pipeline that was closed and cleared can be invoked again with independent results.",
  ["histories"], "generated histories of API calls interleaved with server completions",
  "Tests check a few illegal calls one by one.",
  [PS], [("PowerShell.begin_invoke/end_invoke/stop/connect", PS)], [("state", "invocation state", PS)])
p("C23", "The pipeline sent is exactly the one the caller built",
  "For any sequence of commands, scripts, arguments, parameters, statements and merge settings, the pipeline definition received by the server contains exactly those commands in order with exactly those names, flags, parameter names and values, grouped into the same statements, along with the requested history, input, host and stream options. Merge instructions are encoded as the negotiated protocol version allows, and what that version cannot express is refused with an error instead of being dropped. Building or sending one pipeline leaves others unaffected.",
  ["programs", "configurations"], "builder call sequences, nested parameter values, all protocol versions, host/remote-stream options",
  "Tests compare four or five fixed pipelines.",
  [PS, CO, M], [("builder methods", PS), ("CreatePipeline message", M), ("Command/Pipeline encoding", CO)])
p("C24", "Pipeline input reaches the server once, in order, then ends once",
  "Every input object supplied to a pipeline (list, generator or single value, of any size) reaches the server exactly once, in order, equal to what was supplied, after the pipeline was created, and exactly one end-of-input follows the last of them. Without input the pipeline is declared as having none and neither input nor end-of-input is sent. Input bigger than one request is split over as many as needed without loss.",
  ["inputs"], "input sequences of generated values and sizes including empty ones, as lists, generators, scalars, raw or serialized",
  "Tests send a few small strings.",
  [PS, M], [("begin_invoke input loop", PS)])
p("C25", "Host calls run the right host method once and answer exactly once",
  "Each host call from the server invokes the host operation its method id names, exactly once, with the decoded parameters in order, and if that method returns a value exactly one response carrying the call id, method id, pipeline or pool destination and the correctly encoded value is sent; methods without a return value send none. The built-in host keeps its user-interface state like a console: what was set is what a later query returns, independently for each host.",
  ["inputs", "histories"], "all host method ids with generated parameters, call ids, order, for pools and pipelines; get/set histories of the raw user interface",
  "Tests call several methods directly and replay two recorded calls.",
  [HO, PS, M], [("host dispatch", HO + ": PSHost run_method"), ("response sending", PS)])
p("C26", "A copied file arrives byte for byte and is verified",
  "Copying a local file of any size and content makes the remote script receive exactly its bytes in order, in pieces that decode on their own, along with the resolved destination and the right hash of the content, so that the remote file equals the local one. The remote path is returned, expansion of environment variables happens only when asked for, and any remote failure raises an error instead of reporting success.",
  ["inputs"], "file contents and sizes around chunk boundaries, paths with special characters, remote failures",
  "Tests copy one or two fixed files through recordings.",
  [CL, "src/pypsrp/pwsh_scripts/copy.ps1"], [("Client.copy", CL), ("copy script", "src/pypsrp/pwsh_scripts/copy.ps1")])
p("C27", "A fetched file is byte-identical or the fetch fails leaving the target alone",
  "Fetching a remote file of any size writes exactly the remote bytes to the local destination, however the server splits them into output objects. When the hash the server reports differs from the received content, or the remote side reports an error, an error is raised and an existing destination file is left as it was. No temporary file is left behind in either case.",
  ["inputs", "fault_sequences"], "file contents and chunkings, wrong hashes, truncated data, remote errors, existing destination files",
  "Tests fetch a small file from a recording.",
  [CL, "src/pypsrp/pwsh_scripts/fetch.ps1"], [("Client.fetch", CL)])
p("C28", "Convenience execution returns exactly what the remote side produced",
  "Running a command through the client returns the remote stdout, stderr and exit code decoded with the requested encodings; running a script returns its output text, its streams and whether it had errors, with the script sent unmodified and the options the caller chose. CLIXML error output is turned into the plain message text for any message, and text that is not CLIXML is returned unchanged. Remote resources opened for the call are released afterwards, on success and on failure.",
  ["inputs", "configurations"], "scripts, outputs, encodings, environment, console CLIXML documents in all streams, failures at each step",
  "Tests run several fixed scripts on recordings.",
  [CL], [("Client.execute_cmd/execute_ps/sanitise_clixml", CL)])
p("C29", "Asking whether a pool is alive answers truthfully and disturbs nothing",
  "Asking an opened pool whether it is alive sends one Get for the pool's own shell, with the client's own timeouts or the one given for the question. The answer is true when the server reports the shell as anything but disconnected; it is false when the shell is reported disconnected or gone, when the question times out, when the connection fails, or when the existing connection cannot be used, because the question never opens a new connection, directly or through a proxy. Any other error is raised and changes nothing. After a false answer the pool is closed and closing it sends nothing; after a true answer the pool, other pools and other clients of the process work as before.",
  ["inputs", "histories", "failures"], "shell states, faults, HTTP statuses, transport failures, connections that were dropped or that end, several pools and clients of a process",
  "A few fixed answers of a mocked server.",
  [PS, PM], [("RunspacePool.is_alive", PS), ("DisableNewConnectionsContext/create_request_adapter", PM)])
p("C30", "Disconnected pools and pipelines are found and resume without losing output",
  "Listing pools on a server returns one entry for each runspace pool shell the server reports, with its id, configuration, state and its pipelines, ignoring other shells. Connecting one makes it usable again with the negotiated data the server sends, and connecting its pipelines delivers the output the server kept, once and in order. Disconnecting keeps the pool and its pipelines on the server until they are connected again or closed.",
  ["histories", "inputs"], "server inventories of shells and commands, disconnect/reconnect histories, kept output",
  "Two recorded scenarios.",
  [PS], [("get_runspace_pools", PS), ("connect/disconnect", PS)])
p("C31", "Protocol objects keep every documented field in both directions",
  "Every object class of the protocol (coordinates, sizes, colors, key events, buffer cells, cultures, command and parameter metadata, command parameters, enumerations and flags, multi-dimensional arrays) is written with exactly the members, types, names, numbers and texts [MS-PSRP] gives it, null for a field that is not set, and is read back field by field, whatever the order of the members, whatever other members and type names come along, alone or in a list. Writing an object again, after it was read or written before, gives the same.",
  ["inputs"], "field values of every class including null, flag combinations, documents with reordered and unknown members, arrays of one to four dimensions including empty ones",
  "Tests write one fixed example of some classes.",
  [CO, S], [("object classes", CO), ("serialize / deserialize objects", S + ": Serializer._serialize_obj/_deserialize_obj"), ("Array", CO)])
p("C32", "Command metadata, events and warnings of a pool reach the caller complete",
  "A query for command metadata sends one message with exactly the patterns, command types, namespaces and arguments given, and returns one entry for each command the server sent, in order, with every field; when the server's query fails or is stopped an error is raised that carries the server's error, and the pool stays usable. Every event the server raises on a pool is kept once, in order, with its id, source, sender, arguments, data, computer and runspace, and every warning on a pool is issued once as a RunspacePoolWarning with its text, wherever they come between other answers.",
  ["inputs", "histories"], "queries, commands, failures at every point, events and warnings between other answers, fragmentation and delivery",
  "One recorded query; events are never delivered in a test.",
  [PS, CO, M], [("get_command_metadata", PS), ("_process_user_event/_process_runspacepool_warning", PS)])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, sort_keys=True) + "\n")
print(len(P))
