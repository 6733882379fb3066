PF = ["cli/src/protocol/parser.rs", "cli/src/protocol/store.rs"]
FRONT = PF + ["cli/src/protocol/" + x for x in ("structs.rs", "fields.rs", "enums.rs", "groups.rs", "types.rs", "entities.rs")] + ["cli/src/helpers/chars.rs"]
NOTE = ("Verus discharges, for every text of a protocol file, that a schema returned by the parser of the current tree is the one the lexical and grammatical specification assigns to the text, with the store invariant; "
        "termination and absence of panics and overflow included. Trusted: shims of std, file reading and hashing. Acceptance of well-formed files (completeness) is bounded: a differential run against an independent reader.")


def add(prop):
    prop("P01", "Every definition and field gets its own identifier, in order of declaration",
         "Whatever protocol file is read, every group, struct and enumeration of the resulting schema and every field of a struct has an identifier greater than zero that no other definition or field of the schema has, and identifiers grow in the order of declaration, "
         "the fields of a struct following it one by one. The same text always gets the same identifiers.",
         ["inputs"], "all protocol files the parser accepts: any number and nesting of groups, structs, enumerations and fields",
         "Tests read a couple of sample files; a collision needs a particular nesting or order of definitions.", FRONT[1:6],
         "the sequence counter of the store and the open/close operations that number definitions and fields", "proof", NOTE)
    prop("P02", "References resolve to the definition that is in scope, or the file is rejected",
         "A type named in a field or an enumeration variant is a primitive type, or it resolves through its full dotted path first inside the group that encloses the user and then from the top level, always to a complete definition of that name read before. "
         "A file that names anything else is rejected, so no message can contain itself. The field carries the identifier and the path of groups of exactly that definition.",
         ["inputs", "programs"], "all protocol files: all paths, groups and orders of definitions",
         "Tests use a few references; shadowing between groups, wrong scopes and self references need particular files.", [FRONT[1], FRONT[3], FRONT[4], FRONT[6], FRONT[0]],
         "path lookup in the store and acceptance of types by fields and variants", "proof", NOTE)
    prop("P03", "The schema is exactly what the protocol file declares",
         "For every protocol file the schema holds exactly the groups, structs, fields, enumerations and variants that the text declares, with their names, types, repeated and optional marks and enclosing groups, nothing lost, nothing added, nothing moved. "
         "White space and line breaks between tokens make no difference. A struct that declares one field name twice is rejected.",
         ["inputs", "programs"], "all protocol files, in all layouts",
         "Tests compare a few sample files in one layout each; lost or misplaced declarations show up for particular token sequences.", FRONT,
         "the tokenizer, the parser's state of expectation, and the store operations it drives", "proof", NOTE)
    prop("P04", "Any protocol file is either read completely or rejected",
         "For any text at all, reading it as a protocol file comes to an end with a schema or an error and never panics, overflows or loops. "
         "Text that does not follow the grammar (unknown characters, unbalanced braces or brackets, missing names, types or semicolons, nested structs, an unfinished definition at the end of the file) is never accepted as a schema, and text that does is never refused.",
         ["inputs", "fault_sequences"], "all texts, including truncated and damaged protocol files",
         "Tests only read well-formed samples; broken files are an infinite set and used to be accepted or to hang the generator.", FRONT,
         "the tokenizer and the parser loop, including the end-of-file handling", "proof", NOTE)
    WF = "cli/src/workflow/"
    FLOW = [WF + x for x in ("parser.rs", "request.rs", "event.rs", "beacon.rs", "config.rs", "store.rs")]
    WN = ("Verus discharges, for every text of a workflow file and every protocol schema, that a workflow returned by the parser of the current tree is the one the specification assigns to the text; termination and absence of panics and overflow included. "
          "Trusted: shims of std, file reading and hashing, the schema of the protocol behind its contract. Acceptance of well-formed files (completeness) is bounded: a differential run against an independent reader.")
    prop("W01", "Any workflow file is either read completely or rejected",
         "For any text at all, reading it as a workflow file comes to an end with a workflow or an error and never panics, overflows or loops. "
         "Text that does not follow the grammar (unknown characters or keywords, missing braces, brackets, references or semicolons, an unfinished block at the end of the file) is never accepted as a workflow, and text that does is never refused.",
         ["inputs", "fault_sequences"], "all UTF-8 texts, including truncated and damaged workflow files",
         "Tests only read one or two well-formed samples; broken files are an infinite set.", FLOW, "the tokenizer, the parser loop and the entity parsers it drives", "proof", WN)
    prop("W02", "The workflow is exactly what the workflow file declares",
         "For every workflow file the result holds exactly the configuration, events, requests with their errors, actions, conclusions, responses and broadcasts, and beacons that the text declares, with the same references, optional marks and order, nothing lost, added or moved. "
         "White space, line breaks and comments between tokens make no difference. Where the configuration declares no own or assigned key, the defaults of the service are used and the service messages are added to the protocol.",
         ["inputs", "programs"], "all workflow files, in all layouts", "Tests generate code from two sample files in one layout; lost or misplaced declarations show up for particular token sequences.",
         FLOW, "the tokenizer, the entity parsers and the store of the workflow", "proof", WN)
    prop("W03", "A workflow is consistent: every reference resolves and nothing is declared twice",
         "A workflow is accepted only if every reference of its requests, errors, responses, broadcasts, events, beacons and keys names a message of the protocol, no event, request, beacon, configuration, target or broadcast of one action is declared twice, "
         "no beacon is also a request, an event has at least one broadcast, a request with actions names an error, and where a request has several actions each has its conclusion.",
         ["inputs", "programs"], "all pairs of workflow file and protocol", "Tests use one consistent workflow; each rule is violated only by particular combinations of declarations.",
         FLOW[1:] + FLOW[:1], "the closing checks of the entities and the operations that add to the store", "proof", WN)
    R = "cli/src/workflow/render/producer/rust/"
    def RFILES(*names):
        m = {"mod": ["render_mod.rs"], "consumer/identification": ["render_identification.rs"], "consumer/consumer": ["render_consumer.rs"],
             "handlers": ["render_request_handler.rs", "render_request_handlers_mod.rs"],
             "emitters": ["render_event_emitter.rs", "static/implementation/emitters/mod.rs", "static/implementation/emitters/connected.rs", "static/implementation/emitters/disconnected.rs", "static/implementation/emitters/error.rs"],
             "beacons": ["render_beacon_emitter.rs", "render_beacon_emitters_mod.rs"], "scope": ["static/implementation/scope/mod.rs"]}
        return [R + f for n in names for f in m[n]]
    RN = ("Verus discharges the contracts of the runtime the CLI of the current tree generates from a reference workflow, function by function, for all states, inputs, results of the user's functions and refusals of the server; the event loop of the producer and its run (the blocks of the join are described one after another) among them. A bounded differential run of the real producer against an independent model goes along. "
          "Trusted: shims of std, tokio and uuid, the user's functions, the packing and reading of messages behind the contracts of C01..C06.")
    prop("R01", "A producer identifies a consumer by the keys it was given, merged as asked",
         "After any history of keys sent by a consumer and of set_key and set_assign calls of the user's functions, the own and the assigned key of a generated Rust producer's consumer are the last ones given, whole where overwriting was asked for or nothing was there before, "
         "and otherwise merged: required fields are the new ones, optional fields the new ones if present and the old ones if not. No other consumer is affected, and every function of the user sees exactly these keys.",
         ["inputs", "histories"], "all histories of keys, overwriting or merging, of all consumers", "Tests of the repository set each key once; loss or mixture of fields needs several merges with different fields present.",
         RFILES("consumer/identification", "consumer/consumer"), "the identification and the consumer of the generated producer, and the templates they come from", "proof", RN)
    prop("R02", "A request is answered once to its sender; broadcasts reach exactly their targets",
         "For every request or beacon a generated Rust producer hands to the user, the consumer that sent it, and nobody else, gets exactly one answer, the one the user's function chose, with the sequence of the request; then each broadcast of the chosen conclusion, and each broadcast of an event, goes once, with sequence 0, to each consumer of its list, in order, "
         "whatever the connections of other consumers answer; work deferred by the user runs after that and only then. The filters name exactly the connected consumers they describe.",
         ["inputs", "histories", "fault_sequences"], "all requests, conclusions, lists of consumers and failing connections", "Tests check a few conversations with all consumers connected; lost or doubled messages depend on lists, order and failures.",
         RFILES("handlers", "emitters", "beacons", "scope", "consumer/identification", "mod"), "handlers, emitters, beacons, scope, filters and control of the generated producer, and the templates they come from", "proof", RN)
    CF = ["cli/src/workflow/render/consumer/rust/" + n for n in ("render_consumer.rs", "render_controller.rs", "static/implementation/consumer/api.rs", "static/implementation/consumer/error.rs", "render_options.rs")]
    CN = ("Verus discharges the contracts of the runtime the CLI of the current tree generates from a reference workflow, function by function, for all states, messages, answers of the other tasks and failures of channels; the same for how its tasks are joined, ended and started again (connect, listen, ConsumerGetter; the blocks of a join are described one after another). That the ends of its channels meet is by their types; a bounded differential run of the real consumer against an independent model goes along. "
          "Trusted: shims of std, tokio and uuid, the user's functions, the packing and reading of messages behind the contracts of C01..C06.")
    prop("R03", "A consumer's call gets the response to its own request, and only that",
         "Every request or beacon of a generated Rust consumer goes out once, with a sequence that is neither that of a broadcast (0) nor one of the handshake and that no request still waiting uses; the call ends with the first incoming message that carries this sequence, mapped to the conclusion or error of its type, and with nothing else, whatever other calls run and in whatever order responses come. "
         "A call that gives up, or is given up by its caller, has no effect on other calls, and what comes for it later is dropped. Every message that answers no call goes, once and in order, to the user's function for its type, or is reported as unknown.",
         ["schedules", "inputs", "histories"], "all interleavings of calls, responses, broadcasts and timeouts", "Tests make one call at a time against a cooperative producer; mismatched answers need overlapping calls, late responses or reordering.",
         CF, "the task owning pending requests, the reader task, the interface and the calls of the generated consumer, and the templates they come from", "proof", CN)
    prop("R05", "A consumer connects by key and hashes and tells the user what happens",
         "When the producer confirms the connection, a generated Rust consumer sends exactly the key of its options with sequence 1 and, when that is accepted, the hashes of its protocol and workflow with sequence 2; the user's connected function is called exactly if both are accepted, with the identifier the producer gave in use from then on. Any other reply ends the consumer with an error it reports. "
         "Errors, disconnection and shutdown reach the user's functions once each, in order, and a reconnection is tried exactly where the options and the user ask for it.",
         ["histories", "inputs", "fault_sequences"], "all histories of replies, connection events and failures", "Tests connect to a cooperative producer; refused keys, wrong hashes, strange replies and lost connections are not tried.",
         CF, "the handshake, the reader task the task calling the user, and the joining, ending and restarting of the tasks of the generated consumer, and the templates they come from", "proof", CN)
    prop("R04", "A consumer is served only after key and hash, however its bytes are cut",
         "A generated Rust producer calls a function of the user for a message only if its consumer is confirmed, not discredited, has sent a key and the right hashes and is assigned where the options ask for it; every other message leads to exactly the disconnects and error events the options describe, and after a disconnect of the producer nothing of the consumer is served. "
         "Messages are served one by one, in order, each judged by the state the ones before it left, so cutting the bytes of a consumer into chunks in another way changes nothing. Errors of one consumer leave the others alone.",
         ["inputs", "histories", "fault_sequences"], "all histories of chunks, options, failures of the server and of the user's functions", "Tests send whole messages of well-behaved consumers; the gate leaks only for particular orders of messages in one chunk.",
         RFILES("mod", "consumer/consumer", "consumer/identification"), "processing of received data, connection bookkeeping and error strategies of the generated producer, and the templates they come from", "proof", RN)
    prop("R06", "A producer tells its user what happens to it, once and in order, and ends whole",
         "A generated Rust producer hands over what its server reports, in the order it comes: that it is ready, each new connection once, each end of a known connection once with the identification it had, each error once with the consumer it is about; each connection is confirmed to its consumer once. It goes on until it is asked to shut down, its server or its events end, or an event cannot be handed over. "
         "Then the server is told to stop, who asked for it is answered if he waits, the user's shutdown function is called once, last of all, and run fails if an error of the server or of handing over ended it.",
         ["histories", "schedules", "fault_sequences"], "all histories of server events, shutdown requests, results of the user's functions and failures of the server", "Tests start a producer, let a few consumers talk and stop it in one way; lost or doubled events and hanging ends need other ends, failures and orders.",
         RFILES("mod", "emitters"), "the event loop, the run, the shutdown and the connection bookkeeping of the generated producer, and the templates they come from", "proof", RN)
    prop("H01", "Generated code carries the digest of exactly the files it came from",
         "Every generated producer, consumer and protocol module carries, as the hash of its protocol and the hash of its workflow, the SHA-256 digest of all the bytes of these two files, in upper-case hexadecimal digits, whatever their size, layout, names and neighbours. "
         "So a producer and a consumer generated from the same files, in any language and at any time, agree on both hashes, and peers generated from files which differ in any byte do not.",
         ["inputs", "programs"], "all protocol and workflow files, all targets",
         "Tests connect peers generated in one go, which agree on any wrong hash; what is wrong with a hash shows only for files of particular sizes and bytes, or with a peer generated elsewhere.",
         ["cli/src/helpers/hash.rs", "cli/src/protocol/parser.rs", "cli/src/protocol/store.rs", "cli/src/workflow/parser.rs", "cli/src/workflow/store.rs", "cli/src/workflow/render/producer/rust/render_mod.rs", "cli/src/workflow/render/producer/typescript/render_mod.rs",
          "cli/src/workflow/render/consumer/rust/render_consumer.rs", "cli/src/workflow/render/consumer/typescript/render_consumer.rs", "cli/src/protocol/render/rust/mod.rs", "cli/src/protocol/render/typescript/mod.rs"],
         "hashing of a source file, the stores that keep the hash while a file is read, the renderers that write it into constants", "proof",
         "Verus discharges the contracts of the hash of a file (loop over blocks, for any sequence of reads) and of both readers, with lemmas that reading keeps the hash. Trusted: contracts of File, BufReader, ring::digest and data_encoding, digest and digits as functions of the bytes. "
         "That the constants in the generated code are these hashes is checked by a bounded run of the real CLI against hashlib.")
    prop("G01", "Generating again keeps every file the user has completed",
         "Running the generator over a project any number of times, with the same or changed protocol and workflow, never changes or removes a file which belongs to the user: the functions made once for him to complete (responses, events, beacons, broadcasts, context) keep exactly the bytes he gave them, "
         "also when they are empty, when their message has left the workflow, or when the generation fails half way; so do all other files of the project. "
         "The files of the generator are afterwards exactly what a generation into an empty project writes, whatever they held before; a manifest (Cargo.toml, package.json) changes only in the dependencies of the generated code. "
         "A file named by -rs, -ts or -d that exists is replaced, and then entirely, only if overwriting was asked for.",
         ["histories", "inputs", "fault_sequences"], "all histories of generations and edits, all protocols and workflows, generations failing at any place",
         "Tests generate once into a fresh folder; a lost file needs a second generation after the user's work, often with a changed workflow or a failure.",
         ["cli/src/helpers/fs.rs", "cli/src/arguments/args_option_files.rs", "cli/src/workflow/render/render.rs"] + ["cli/src/workflow/render/%s/%s/render_static.rs" % (a, b) for a, b in (("producer", "rust"), ("producer", "typescript"), ("consumer", "rust"))]
         + ["cli/src/workflow/render/producer/rust/render_request_response.rs", "cli/src/workflow/render/consumer/rust/render_broadcast.rs"],
         "every function of the CLI that reaches the file system: the writer, the renderers of files, the arguments that name files", "proof",
         "Verus discharges frame conditions (which files may change) and the exact content written, for 117 functions sliced from the current source to their effects on the file system; conditions and loops over other data are a free choice, so every protocol, workflow and failure is covered. "
         "Trusted: the slicer tools/fsslice, contracts of std::fs, paths as sequences of components, generated file names without separators. Manifests and the equality with a fresh generation are checked by bounded random histories run with the real CLI.",
         technique="deductive verification (Verus) of contracts on the file-system effects of the code of /repo, sliced mechanically on every run")
