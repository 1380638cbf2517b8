"""Per property: what is encoded, against what oracle, why beyond tests (for DESIGN.md)."""
HOW = {
"C01": ("hlog.RootDistinct adds n entries of symbolic content through Client.Add, then asks for the head at every size; hlog.RootDup lets every addition repeat any earlier input.",
        "ref.MTH, a 10 line transcription of RFC 6962 2.1 over the model's own list of leaves.",
        "Digest terms are built by the code under test, so two tree shapes agree only if the code hashed the same nodes; every size up to 40 is a separate obligation, and fixed prefixes move the window to 300 (1030) where carries run through 8 (10) levels."),
"C02": ("hlog.InclusionComplete fills a log and asks for proofs with symbolic int64 index and size (by index, by leaf hash, or by an arbitrary hash) and then verifies the answer with the client code; hlog.InclusionDup repeats entries.",
        "ref.Path (RFC 6962 2.1.1); refusal exactly outside 0 <= i < n <= size.",
        "The solver splits the int64 pairs into the classes the code distinguishes, including negative and overflowing ones."),
"C03": ("hlog.InclusionReal gives VerifyLogInclusionProof/Log.VerifyInclusion an arbitrary index, size and audit path of symbolic hashes against the head of a real log of symbolic entries; hlog.InclusionBind against an arbitrary root with two arbitrary proofs.",
        "Acceptance implies membership at that index (model list); two accepted leaves at one index and size are equal.",
        "Universally quantified forger: hashes are uninterpreted up to injectivity of SHA-256, so the solver searches all forgeries that do not break SHA-256."),
"C04": ("hlog.ConsistencyComplete: symbolic int64 pairs against a filled log, proof verified by the client code in both orders.", "ref.Proof (RFC 6962 2.1.2).", "As C02."),
"C05": ("hlog.ConsistencyReal/Bind: arbitrary paths and sizes between real logs, or between arbitrary roots; hlog.Consistent: the client's comparison of heads with symbolic sizes.", "Acceptance implies that the earlier entry list is a prefix of the later one.", "As C03."),
"C06": ("hlog.Add: additions whose inputs are symbolic, so equal or different as the solver likes, with every read operation afterwards.", "A list of the distinct inputs in order.", "All equality patterns of the inputs."),
"C07": ("hlog.Fetch: symbolic int64 ranges; hlog.Stream: a made-up server with answer caps and a failing request below the real paging code.", "The list of added entries; range arithmetic.", "All ranges, page boundaries at 500 and answers shorter than asked for."),
"C08": ("hlog.EntriesReal: VerifyEntries between real heads against a server whose entries, counts, proofs and errors are symbolic; hlog.EntriesComplete on honest logs.", "Acceptance implies that the callback saw exactly the committed entries in order.", "All answers of the server within the bounds."),
"C09": ("hlog.Heads: all three verified-head operations with arbitrary previous head, answered head, consistency and inclusion proofs, and errors.", "The returned head is the previous one or a consistent extension, of the size asked for.", "All answers of the server within the bounds."),
"C10": ("hmap.Root: a history of symbolic mutations of keys whose SHA-256 is free in a window below a fixed common prefix, so that the solver picks how keys share paths.", "ref.MapRoot: the sparse Merkle root by recursion over the 256 levels.", "All shapes of the tree in the window, at prefix depths around byte boundaries, times all histories."),
"C11": ("hmap.Get/hmap.Sizes: the same histories, every key read at every size, proofs verified with the client code; symbolic sizes for the error cases.", "The model's value at that size and ref's audit path.", "As C10."),
"C12": ("hmap.GetReal/GetBind: VerifyMapInclusionProof with arbitrary value, size and 256 hashes (any of which may be left out, in several placements).", "Acceptance implies the model's value; two accepted values are equal.", "As C03."),
"C13": ("hmap.Latest: mutations of five kinds with symbolic values and previous hashes.", "A map of keys to values with compare-and-set.", "Every relation of the expected hash to the history."),
"C14": ("hmap.AuditReal: VerifyMap against logs of symbolic mutations and tree head entries of which one is wrong in a chosen way; hmap.AuditCalls: the callbacks on honest maps.", "A model of the map; the audit succeeds exactly if every head is right.", "All wrong roots at once."),
"C15": ("hmap.StateReal: VerifiedMapState/VerifiedLatestMapState with arbitrary heads now and before and a server that answers anything or fails with any known error; hmap.StateComplete on honest maps of every size.", "The head is in the tree head log, both logs extend the earlier ones.", "All answers of the server within the bounds."),
"C16": ("hauth.Policy: Static.VerifyAllowed with symbolic texts and permissions.", "An independent matcher over the policy lines.", "All texts at once; filepath.Match is executed symbolically too."),
"C17": ("hauth.Operations: all operations through a service whose oracle, store and mutator only record.", "A table of the permission that goes with operation and log type.", "All log types including unknown numbers."),
"C18": ("hauth.RedactLog/RedactMap/RedactRaw: readers with restricted fields read symbolic JSON objects through the service.", "Field by field comparison with what was written; the entry validates.", "All contents of the fields, all kinds of mutations."),
"C19": ("hns.Separate: two objects with symbolic account ids and names in one store; hns.Interleaved: all interleavings of operations.", "Each object as if alone.", "All splits of the texts (the store sees SHA-256 terms, so two objects share a bucket only if the code hashed the same bytes)."),
"C21": ("hfault.*: a transactional store whose access number `fail` (symbolic) fails.", "The same operation without failure.", "Every failure point of every operation."),
"C23": ("hwild.Client: every client operation against a server that answers with symbolic numbers and hashes and chosen shapes; hwild.Audit: VerifyMap over logs of self-consistent JSON of any shape; hwild.Data: the JSON helpers.", "Absence of panics, deadlocks and endless loops; audits of junk fail; what was created validates.", "The engine treats a panic on any feasible path as a violation, with all shapes crossed."),
"C24": ("hwild.Server: each of the eight operations of the service with a request of any shape, over an empty or small store, with and without a mutator.", "Response or status of a bad request; which requests must be accepted or refused; heads before and after; further writes.", "All shapes of a request crossed, sizes and types symbolic."),
"C26": ("hpath.*: util_path.go on paths with symbolic bits around the cut.", "Bit lists.", "All offsets within the listed lengths."),
"C27": ("hmerkle.*: the arithmetic helpers with an int64 variable.", "Bit-vector specification.", "All int64 values."),
"C20": ("hbatch.Batch, Crash: the real batching mutator (its goroutine, channel and timeouts) over the in-memory store, and over a transactional one that stops the process at a symbolic step.", "Reference: per-object lists and RFC 6962 roots; heads read after every update of the store.", "All assignments of operations to objects, batch sizes and pauses; virtual time: a timeout fires when nothing else can run, or at any time under explored schedules; every crash point."),
"C34": ("hserve.Rest, Grpc, Command: the real StartServer functions, clients and the server command (its main function compiled as a package) over a model of files, certificates, TLS and listeners.", "What the configuration says, and which certificate the client was given.", "Who may come through is decided for every combination of server state and client; a counterexample is replayed with real files, sockets and TLS."),
"C25": ("hrest.Client, Answers, Ended: the real client, router and handlers around a service that keeps the request it gets; gRPC by a model of its connections.", "The request as made and the answer as set beforehand; for odd answers, an error or an answer without holes.", "Symbolic names, keys, contents; regular expressions are decided over symbolic strings by narrowing each byte to the classes the matcher tells apart."),
"C31": ("hrest.Endpoints: raw requests to the real router and handlers around a service that keeps the request it gets.", "A table of the endpoints made from doc/REST-API.md.", "Symbolic parts of paths, headers and bodies."),
"C30": ("hwait.*: Add/Set promises and BlockUntil* against a server that applies the update at a symbolic query, grows and fails meanwhile.", "Queries asked until the wait ends; RFC 6962 roots; the real server's map answers.", "Virtual time; all arrival times, growth and failures within the bounds."),
"C22": ("hstore.Transactions, Failures: the four storage packages over models of bbolt, badger and pgx.", "A map of values per namespace.", "All keys (also equal ones) and values, sequences of operations and outcomes."),
"C29": ("hstore.Isolated: a second transaction is started at a chosen point of the first and runs until it blocks; hstore.AtOnce: explored schedules.", "Two values that only ever change together, and their number of changes.", "All kinds of transactions and points crossed; schedules with preemption at every visible operation."),
"C32": ("hmap.Kept: mutations through the service on the in-memory store, all reads at all sizes.", "A list of the values put in effect and of the entries read right after they were added.", "All inputs and extra data, ties between inputs included."),
    "C33": ("hconc.Pair: two goroutines on one service over the in-memory store, the scheduler of the engine choosing at every visible operation; accesses of the repository's code ordered by vector clocks.", "The same two operations one after the other, in both orders, on fresh services; for races the happens-before relation of the Go memory model, replayed under the race detector.", "Schedules and values, for every pair of operations."),
    "C28": ("hjson.*: util_json.go on documents with symbolic texts, hashes and mutations.", "Equality of what the documents hold, known by construction.", "All texts; SHA-256 is injective, so inputs are equal only if the same was hashed."),
}
