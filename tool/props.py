"""The properties, their texts and the symbolic runs that decide them.

gen.py writes properties.jsonl and MANIFEST.json from this file; check.py runs it.
"""

ASSUMPTIONS = [
    "SHA-256 is treated as an injective function (collision freedom); digests of different inputs differ, digests differ from unrelated constants",
    "github.com/continusec/objecthash (not available offline) is the stand-in of /verif/stubs/objecthash, written from its published definition",
    "protobuf and JSON encoding of the repository's message types are modelled by the engine as injective encodings that round-trip (natively validated on sampled paths)",
]

V = "verifiable/"
L = "service_log_"


def m(*ps):
    return [{"name": n, "where": w} for n, w in ps]


PROPS = {}


def prop(pid, title, statement, over, quant, tests, files, mech, bounds, runs, **kw):
    PROPS[pid] = dict(title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech, bounds=bounds, runs=runs, **kw)


def r(harness, reach=None, quick=None, thorough=None, tiers=None, **kw):
    d = dict(name=harness)
    for k in ("max_paths", "max_steps", "seconds", "timeout_ms", "workers", "no_samples", "stop_after", "validate", "replay_timeout"):
        if k in kw:
            d[k] = kw.pop(k)
    d["params"] = kw
    if reach:
        d["reach"] = reach
    if tiers:
        d["tiers"] = tiers
    if quick is not None:
        d["quick"] = {"params": dict(kw, **quick)}
    if thorough is not None:
        d["thorough"] = {"params": dict(kw, **thorough)}
    return d


T = ("thorough",)

prop("C01", "A log's root hash is the RFC 6962 hash of its entries at every size",
     "For a log with any entries, the tree head returned for size n (1 up to the current size, or the latest) has size n and as root hash the RFC 6962 Merkle tree hash of the first n entries. Adding further entries never changes the head at an earlier size.",
     ["inputs", "histories"], "every sequence of entries with arbitrary content, every tree size",
     "The test suite compares with a stored sample of one fixed sequence; contents and repeated entries vary freely in use.",
     [V + "insertion_log.go", V + L + "tree_hash.go", "merkle/util_merkle.go"],
     m(("writing of subtree nodes and of the head on insertion", V + "insertion_log.go writeOutLogTreeNodes"), ("needed stack of subtrees", V + "util_fetch_proofs.go createNeededStack"), ("tree head lookup", V + "service_log_tree_hash.go")),
     {"quick": "all contents of 2 bytes for up to 40 different entries and every size; 2 arbitrary entries after 298 fixed ones and every size; repeated entries up to 6 additions; a log of 65539 fixed entries and an arbitrary one at 22 sizes around powers of 2", "thorough": "up to 70 different entries and every size; 4 arbitrary entries after 1026 fixed ones; up to 8 additions with repeats"},
     [r("hlog.RootDistinct", n=40, thorough=dict(n=70)), r("hlog.RootDistinct", n=300, fixed=298, thorough=dict(n=1030, fixed=1026)), r("hlog.RootDup", n=6, thorough=dict(n=8)),
      r("hlog.Huge", n=65540, reach=["checked"], max_steps=900000000)],
     outside="longer logs; entries of other lengths (hashing is length independent in the encoding)")

prop("C02", "Every entry of a log gets an inclusion proof that verifies",
     "For every tree size up to the current one and every entry below it, asked for by index or by leaf hash, the service returns the RFC 6962 audit path with that index and size, and verifying it against the tree head of that size succeeds. A size or index out of range, or an unknown hash, gives an error and no proof.",
     ["inputs", "histories"], "all int64 sizes and indexes, all entry contents and hashes",
     "Tests request a few sampled proofs; boundary shapes of the tree (right edge, non powers of two) and out of range numbers are many.",
     [V + L + "inclusion_proof.go", V + "util_fetch_proofs.go", "merkle/util_merkle.go"],
     m(("audit path ranges", "merkle/util_merkle.go Path"), ("service operation and verification", V + "service_log_inclusion_proof.go")),
     {"quick": "logs of 1, 7 and 24 entries, all int64 indexes and sizes; a log of 66 fixed entries, all indexes, sizes up to 0 and from 62; repeated entries up to 5 additions; a log of 65540 entries, at pairs of 22 sizes around powers of 2", "thorough": "logs of 1, 7, 24 and 33 entries; logs of 66 and 258 fixed entries and of one arbitrary after 130 fixed, sizes up to 0 and from 62, 127, 255; up to 7 additions with repeats"},
     [r("hlog.InclusionComplete", n=1, reach=["checked", "rejected"]), r("hlog.InclusionComplete", n=7, reach=["checked", "rejected"]), r("hlog.InclusionComplete", n=24, reach=["checked", "rejected"]),
      r("hlog.InclusionComplete", n=66, fixed=66, **{"from": 62}, reach=["checked", "rejected"]), r("hlog.InclusionComplete", n=131, fixed=130, **{"from": 127}, tiers=T), r("hlog.InclusionComplete", n=258, fixed=258, **{"from": 255}, tiers=T),
      r("hlog.InclusionComplete", n=33, tiers=T), r("hlog.InclusionDup", n=5, reach=["checked", "found", "notfound"], thorough=dict(n=7)), r("hlog.Huge", n=65540, reach=["checked"], max_steps=900000000)],
     outside="larger logs")

prop("C03", "An accepted inclusion proof proves membership",
     "Whatever index, size and audit path a server supplies, a client that accepts an inclusion proof for an entry against a tree head holds a proof for the size of that head and an index inside it, and that entry is the one at that index. Two different entries are never both accepted at one index under one head.",
     ["inputs"], "all indexes, sizes, hashes and audit paths (adversarial server)",
     "Tests check a handful of tampered proofs; the claim is about all forgeries.",
     [V + L + "inclusion_proof.go", V + "api_highlevel_log.go"],
     m(("proof verification", V + "service_log_inclusion_proof.go VerifyLogInclusionProof"), ("client side checks", V + "api_highlevel_log.go VerifyInclusion")),
     {"quick": "logs of 1..17 entries with paths up to 7 hashes; any root with sizes up to 2^9 and two paths up to 8 hashes, sizes up to 2^20 with paths up to 3; with one element of 0, 31, 33 or 64 bytes or a root of another length, logs of 1..7 entries, paths up to 5; 11 sizes from 2^16+1 to 2^63-1 with 12 indexes and 6 lengths of paths, by the definition of RFC 6962", "thorough": "logs of 1..40 entries with paths up to 8; any root with sizes up to 2^11 and paths up to 11, sizes up to 2^20 with paths up to 4"},
     [r("hlog.InclusionReal", n=17, path=7, reach=["checked", "rejected"], thorough=dict(n=40, path=8)),
      r("hlog.InclusionBind", path=3, bits=20, reach=["checked", "rejected"], thorough=dict(path=4)),
      r("hlog.InclusionBind", path=8, bits=9, reach=["checked", "rejected"], thorough=dict(path=11, bits=11)),
      r("hlog.VerifyInclusionReal", n=9, path=5, reach=["checked", "rejected"], thorough=dict(n=17, path=6)),
      r("hlog.InclusionReal", n=7, path=5, odd=1, reach=["checked", "rejected"]), r("hlog.InclusionBind", path=4, bits=5, odd=1, reach=["rejected"]), r("hlog.InclusionWide", reach=["checked", "rejected"])],
     outside="larger trees and longer audit paths")

prop("C04", "Every pair of log sizes gets a consistency proof that verifies",
     "For all sizes 0 < m < n up to the current size, the service returns the RFC 6962 consistency proof from m to n, and clients verify it against the two tree heads in either order. Other sizes give an error and no proof.",
     ["inputs", "histories"], "all int64 pairs of sizes, all entry contents",
     "Tests request a few sampled pairs.",
     [V + L + "consistency_proof.go", V + "util_fetch_proofs.go", "merkle/util_merkle.go"],
     m(("subproof ranges", "merkle/util_merkle.go / service_log_consistency_proof.go"), ("client check", V + "api_highlevel_log.go VerifyConsistency")),
     {"quick": "logs of 2, 7 and 24 entries, all int64 pairs; one arbitrary entry after 130 fixed ones, all pairs with a size up to 0 or from 127; a log of 4100 entries, pairs of 19 sizes around powers of 2", "thorough": "also logs of 33, 258 and 65540 entries"},
     [r("hlog.ConsistencyComplete", n=2, reach=["checked", "rejected"]), r("hlog.ConsistencyComplete", n=7, reach=["checked", "rejected"]), r("hlog.ConsistencyComplete", n=24, reach=["checked", "rejected"]),
      r("hlog.ConsistencyComplete", n=131, fixed=130, **{"from": 127}, reach=["checked", "rejected"]), r("hlog.ConsistencyComplete", n=33, tiers=T), r("hlog.ConsistencyComplete", n=258, fixed=258, **{"from": 255}, tiers=T), r("hlog.Huge", n=4100, reach=["checked"], max_steps=900000000, thorough=dict(n=65540))],
     outside="larger logs")

prop("C05", "An accepted consistency proof means one log is a prefix of the other",
     "Whatever audit path and sizes a server supplies, a client that accepts a consistency proof between two tree heads knows that the entries of the earlier are the first entries of the later. Two different earlier heads of one size are never both accepted against one later head, and heads of equal size are accepted only when equal and not empty.",
     ["inputs"], "all sizes, hashes and audit paths (adversarial server)",
     "Tests tamper with a few proofs; the claim is about all forgeries.",
     [V + L + "consistency_proof.go", V + "api_highlevel_log.go"],
     m(("proof verification", V + "service_log_consistency_proof.go VerifyLogConsistencyProof"), ("client side checks", V + "api_highlevel_log.go VerifyConsistency")),
     {"quick": "pairs of logs up to 12 entries with paths up to 7; any roots with sizes up to 2^9 and two paths up to 7; with one element of 0, 31, 33 or 64 bytes or roots of other lengths, logs up to 6 entries, sizes up to 2^6 and paths up to 5; 11 sizes from 2^16+1 to 2^63-1 with 11 earlier ones and 6 lengths of proofs, by the definition of RFC 6962", "thorough": "pairs up to 33 entries with paths up to 9; any roots with sizes up to 2^11 and paths up to 10"},
     [r("hlog.ConsistencyReal", n=12, path=7, reach=["checked", "rejected"], thorough=dict(n=33, path=9)), r("hlog.ConsistencyWide", reach=["checked", "rejected"]),
      r("hlog.ConsistencyBind", path=7, bits=9, reach=["checked", "rejected"], thorough=dict(path=10, bits=11)),
      r("hlog.ConsistencyBind", path=3, bits=10, reach=["checked", "rejected"]),
      r("hlog.ConsistencyReal", n=6, path=5, odd=1, reach=["rejected"]), r("hlog.ConsistencyBind", path=5, bits=6, odd=1, reach=["rejected"]),
      r("hlog.Consistent", reach=["checked", "equal"])],
     outside="larger trees and longer audit paths")

prop("C07", "Fetched and streamed log entries are the entries added, in order",
     "Fetching entries first..last of a log returns exactly the entries that were added, with their input, extra data and format, in order of addition, for every range inside the log; other ranges are errors. Streaming a range delivers every entry of it once, in order, even when the server answers with fewer entries than asked, and stops early only when the server fails.",
     ["inputs", "histories", "fault_sequences"], "all int64 ranges, all contents, all short answers and failing requests",
     "Tests read back one fixed log in one go.",
     [V + L + "fetch_entries.go", V + "api_highlevel_wrapper.go"],
     m(("range checks and lookup by index", V + "service_log_fetch_entries.go"), ("paging", V + "api_highlevel_wrapper.go Entries")),
     {"quick": "logs of 3 entries, all int64 ranges; a log of 1030 fixed entries of 13 sizes up to 70000 bytes with one arbitrary, streamed from 23 places; streams of up to 1003 entries with answers capped at 300, 499, 500 or not, failing at any of the first 3 requests", "thorough": "logs of 4 entries; the same streams"},
     [r("hlog.Fetch", n=3, reach=["checked", "rejected"], thorough=dict(n=4)), r("hlog.Stream"), r("hlog.Long", n=1030, reach=["checked"], thorough=dict(n=2060))],
     outside="larger logs; servers that return more entries than asked for")

prop("C08", "An audit of a log's entries accepts exactly the entries behind its head",
     "Auditing the entries between two tree heads succeeds only if the audit function has seen, in order and once each, exactly the entries committed to by the later head that the earlier does not cover, and the earlier head is a prefix of the later, whatever the server answers. On an honest log it succeeds for every pair of sizes and an error of the audit function ends it with that error.",
     ["inputs", "histories", "fault_sequences"], "all server answers (entries and proofs), all pairs of sizes",
     "Tests audit one honest log.",
     [V + "api_highlevel_log.go"],
     m(("recalculation of the hash stack", V + "api_highlevel_log.go VerifyEntries")),
     {"quick": "heads of logs up to 9 entries against any answers with up to 1 more entry and paths up to 4 hashes; honest logs of 17 entries; an honest log of 1030 fixed entries of 13 sizes with one arbitrary, between all pairs of 22 sizes; the last 1 to 3 entries of logs of 10 sizes from 2^16 to 2^62", "thorough": "heads of logs up to 17 entries, paths up to 6; honest logs of 40 and 2060 entries"},
     [r("hlog.EntriesWide", reach=["checked", "rejected"]), r("hlog.EntriesReal", n=9, path=4, reach=["checked", "rejected"], thorough=dict(n=17, path=6)), r("hlog.EntriesComplete", n=17, thorough=dict(n=40)), r("hlog.Long", n=1030, reach=["checked"], thorough=dict(n=2060))],
     outside="larger logs")

prop("C09", "A verified log head never goes back and never forks",
     "A head obtained through the verified operations is consistent with the head the client already had, or is that head: a server that shows a shorter or diverging log is refused or ignored whatever it answers. A head asked for at a given size has that size, and an inclusion proof accepted along with it is for an entry of that log.",
     ["inputs", "fault_sequences"], "all server answers",
     "Tests run against an honest server only.",
     [V + "api_highlevel_log.go"],
     m(("verified heads", V + "api_highlevel_log.go VerifiedTreeHead, VerifiedLatestTreeHead, VerifySuppliedInclusionProof")),
     {"quick": "previous and answered heads of logs up to 7 entries, any proofs up to 5 hashes", "thorough": "logs up to 12 entries, proofs up to 6 hashes"},
     [r("hlog.Heads", n=7, path=5, reach=["checked", "rejected", "kept"], thorough=dict(n=12, path=6))],
     outside="larger logs")

prop("C10", "A map's root hash depends only on the values present, by one fixed rule",
     "After any mutations, the map head of each size has as root hash that of the 256-level sparse Merkle tree over the keys that then have a value (leaf hashes placed by the SHA-256 of their key, empty subtrees given the fixed default hashes), whatever order and history led there: a deleted key leaves no trace, and adding mutations changes no earlier head.",
     ["inputs", "histories"], "all sequences of mutations, keys sharing any part of their path, all values",
     "Tests compare one fixed history; the shape of the tree depends on how key hashes share prefixes, which samples rarely exercise beyond a few bits.",
     [V + "insertion_map.go", V + "util_path.go", V + "service_map_tree_hash.go", V + "util_service_data.go"],
     m(("tree update and rehash", V + "insertion_map.go"), ("head lookup", V + "service_map_tree_hash.go")),
     {"quick": "up to 3 mutations (set, delete, set empty, conditional updates) of 2 keys, 3 of 3 keys with set and delete; key hashes arbitrary in a window of 1-2 bits below common prefixes of 0, 7, 8, 9, 15 and 16 bits, values of 1 byte; after a fixed history of 60 mutations of 40 keys, one more of any of 5 keys, set, deleted or updated to an arbitrary byte; the same after 33 mutations of 25 keys whose hashes share 20 to 49 bits; after 520 of 150 keys, one of a key", "thorough": "4 mutations; 1 more after 200 fixed ones of 80 keys, 2 more after 30; common prefixes of 0 to 20 bits, windows up to 3 bits"},
     [r("hmap.Root", keys=2, ops=2, wbits=2), r("hmap.Root", keys=2, ops=3, wbits=1), r("hmap.Root", keys=3, ops=3, wbits=2, actions=2),
      r("hmap.Grown", n=60, keys=40, validate=1, thorough=dict(n=200, keys=80)), r("hmap.Grown", n=33, deep=1, validate=1, thorough=dict(n=60)), r("hmap.Grown", n=520, keys=150, actions=2, interesting=1, max_steps=900000000, validate=1), r("hmap.Grown", n=30, keys=12, ops=2, tiers=T),
      r("hmap.Root", keys=2, ops=3, depths=5, wbits=1, actions=2, thorough=dict(depths=20)),
      r("hmap.Root", keys=2, ops=4, wbits=1, actions=2, tiers=T), r("hmap.Root", keys=2, ops=2, pbits=15, wbits=3, actions=2, tiers=T), r("hmap.Root", keys=3, ops=4, wbits=2, actions=2, tiers=T)],
     outside="longer histories; key hashes that share other or longer prefixes")

prop("C11", "Every key of a map reads back, present or absent, with a proof that verifies",
     "For every size of a map's history and every key, a get returns the value that the key had at that size, or none, with the sparse Merkle audit path that verifies against the map head of that size; a size outside the history is an error for gets and for heads, and an empty map has the head of the empty tree.",
     ["inputs", "histories"], "all sequences of mutations, all keys, all int64 sizes",
     "Tests read a few keys back; absence proofs and old sizes depend on the shape of the tree at that point of the history.",
     [V + "service_map_get_value.go", V + "service_map_tree_hash.go", V + "util_path.go", V + "api_highlevel_map.go"],
     m(("descent and sibling collection", V + "service_map_get_value.go"), ("verification", V + "service_map_get_value.go VerifyMapInclusionProof")),
     {"quick": "2 mutations of 2 keys with arbitrary 2-bit windows of key hashes, 3 of 2 keys with set and delete; 2 sets among 3 keys and 3 sets and deletes among 2 below common prefixes of 7, 8, 9, 15 and 16 bits; all int64 sizes on maps of up to 2 mutations; after a fixed history of 30 mutations of 14 keys and one more of any of 5 keys, every key at 4 sizes; the same, at 2 sizes, after 33 mutations of 25 keys whose hashes share 20 to 49 bits, and after 270 of 60 keys", "thorough": "fixed histories of 90 mutations of 50 keys; 3 mutations of all kinds, 3 keys, common prefixes of 0 to 20 bits"},
     [r("hmap.Get", keys=2, ops=2), r("hmap.Get", keys=2, ops=3, wbits=1, actions=2), r("hmap.Get", keys=3, ops=2, depths=5, wbits=2, actions=1, last=1, thorough=dict(depths=20)), r("hmap.Get", keys=2, ops=3, depths=5, wbits=1, actions=2, last=1, thorough=dict(depths=20)), r("hmap.Sizes", ops=2, reach=["checked", "empty", "rejected"], thorough=dict(ops=3)), r("hmap.GrownGet", n=30, keys=14, validate=1, thorough=dict(n=90, keys=50)), r("hmap.GrownGet", n=270, keys=60, actions=1, interesting=1, olds=2, max_steps=900000000, validate=1), r("hmap.GrownGet", n=33, deep=1, olds=2, actions=2, validate=1, thorough=dict(olds=4)),
      r("hmap.Get", keys=2, ops=3, wbits=1, tiers=T), r("hmap.Get", keys=3, ops=3, wbits=2, actions=2, tiers=T), r("hmap.Get", keys=3, ops=3, pbits=8, wbits=2, actions=1, last=1, tiers=T)],
     outside="longer histories; key hashes that share other or longer prefixes")

prop("C12", "An accepted map value proof gives the value the key has",
     "Whatever value, size and audit path a server supplies, a client that accepts them for a key against a map head has the value, or absence of one, that the key has under that head, for the size of that head. Two different values are never both accepted for one key under one head.",
     ["inputs"], "all values, sizes and audit paths (adversarial server)",
     "Tests only verify honest proofs.",
     [V + "service_map_get_value.go", V + "api_highlevel_map.go"],
     m(("proof verification", V + "service_map_get_value.go VerifyMapInclusionProof"), ("client side check", V + "api_highlevel_map.go VerifiedGet")),
     {"quick": "maps of up to 2 keys with arbitrary 2-bit windows of key hashes, against any size, any 256-hash path with many placements of left out hashes, values of 0, 1, 2, 64 bytes; a path element of 1, 31, 33 or 64 bytes, a root of 0, 31 or 33; any root with any two proofs; through a client also paths of 0, 1, 255 and 257 hashes", "thorough": "maps of 3 keys"},
     [r("hmap.GetReal", keys=2, reach=["checked", "rejected"], thorough=dict(keys=3)), r("hmap.GetReal", keys=2, odd=1, reach=["rejected"]), r("hmap.GetReal", keys=2, client=1, reach=["checked", "rejected"]), r("hmap.GetBind", reach=["checked"])],
     outside="larger maps; other placements of left out hashes (each stands for the default hash of its level)")

prop("C13", "Map mutations act as set, delete and compare-and-set, in order",
     "A set gives a key its value, a delete removes it, and an update takes effect exactly if the leaf hash of the key's current value (of the empty value if it has none) is the one given; otherwise the mutation is recorded and changes nothing. Mutations apply in the order of the mutation log and only to their own key.",
     ["inputs", "histories"], "all sequences of mutations, values and previous hashes",
     "Tests run a fixed sequence; conditional updates have a case for each relation of the given hash to the history.",
     [V + "insertion_map.go", V + "api_highlevel_wrapper.go", V + "service_map_set_value.go"],
     m(("mutation semantics", V + "insertion_map.go addMutationToTree"), ("client calls", V + "api_highlevel_wrapper.go Set, Delete, Update")),
     {"quick": "3 mutations of 2 keys, of 5 kinds, values of 1 byte, previous hashes right, wrong and malformed; one more of any of 5 keys after 21 fixed ones of 9 keys", "thorough": "4 mutations; 2 more after 21 fixed ones"},
     [r("hmap.Latest", keys=2, ops=3, wbits=1), r("hmap.GrownGet", n=21, keys=9, last=1, thorough=dict(ops=2)), r("hmap.Latest", keys=2, ops=4, wbits=1, actions=3, tiers=T)],
     outside="longer histories")

prop("C14", "A map audit succeeds exactly when every published head is right",
     "Auditing a map up to a state succeeds only if each map head in its tree head log is the one that the mutations of its mutation log up to there produce. On an honest map it succeeds from no state and from every earlier state; the audit functions are called, in order, once for each mutation that changed the map with its key and new value, and an error from them is the verdict.",
     ["inputs", "histories"], "all mutations, all wrong heads, all starting states",
     "Tests audit one honest map.",
     [V + "util_map_audit.go", V + "api_highlevel_map.go", V + "util_json.go"],
     m(("replay of mutations", V + "util_map_audit.go")),
     {"quick": "2 mutations of 2 keys, up to 3 published heads (the first perhaps twice) with any wrong root or mutation log head in one of them; honest maps of 2 mutations of 5 kinds, and of one more of any of 5 keys after 33 fixed ones of 14 keys, from 5 earlier states; the same of 25 keys whose hashes share 20 to 49 bits; 520 of 150 keys, from 3 earlier states", "thorough": "3 mutations; 100 fixed ones of 40 keys"},
     [r("hmap.AuditReal", keys=2, ops=2, wbits=1, reach=["checked", "rejected"], thorough=dict(ops=3)), r("hmap.AuditCalls", keys=2, ops=2, wbits=1, reach=["checked", "stopped"]),
      r("hmap.GrownAudit", n=33, keys=14, thorough=dict(n=100, keys=40)), r("hmap.GrownAudit", n=33, deep=1, validate=1, thorough=dict(n=60)), r("hmap.GrownAudit", n=520, keys=150, actions=2, froms=3, interesting=1, max_steps=900000000, validate=1),
      r("hmap.AuditCalls", keys=2, ops=3, wbits=1, actions=3, reach=["checked", "stopped"], tiers=T)],
     outside="longer histories")

prop("C15", "Map heads are committed to their logs and verified states never fork",
     "The mutation log holds every mutation in order and the tree head log holds, as its i-th entry, the map head of size i. A map state that the client accepts has a head that is in the tree head log shown with it, has the size asked for, and both logs extend those of the state the client had; the latest state never goes back. On an honest map every size verifies from every earlier state.",
     ["inputs", "histories", "fault_sequences"], "all server answers, all sizes and earlier states",
     "Tests follow one honest map.",
     [V + "api_highlevel_map.go", V + "insertion_map.go", V + "util_map_tree_state.go"],
     m(("map states", V + "api_highlevel_map.go VerifiedMapState, VerifiedLatestMapState"), ("tree head log", V + "insertion_map.go")),
     {"quick": "mutation and tree head logs up to 2 entries, now and before, any proofs up to 2 hashes; honest maps of 3 mutations, and of 271 of 40 keys from 5 earlier states", "thorough": "logs up to 3 entries; honest maps of 4 mutations"},
     [r("hmap.StateReal", n=2, path=2, reach=["checked", "rejected", "kept"], thorough=dict(n=3)), r("hmap.StateComplete", keys=1, ops=3, wbits=1, actions=2), r("hmap.StateComplete", keys=2, ops=2, wbits=1, actions=3), r("hmap.GrownAudit", n=270, keys=40, actions=1, froms=5, interesting=1, max_steps=900000000, validate=1),
      r("hmap.StateComplete", keys=2, ops=4, wbits=1, actions=2, tiers=T)],
     outside="larger logs and maps")

prop("C06", "An entry added to a log is in it from then on, once",
     "Adding an entry answers with the Merkle tree leaf hash of its input. Once applied, the entry is at the end of the log if its input is new to it; an entry whose input is in the log already changes nothing, neither the log nor the extra data kept with that input. Waiting on an addition gives a head under which the entry is included.",
     ["inputs", "histories"], "all sequences of entries, of any content, extra data and format, repeated or not",
     "Tests add the same few distinct entries each time; repeats at all places of the history are many.",
     [V + "insertion_log.go", V + L + "add_entry.go", V + "api_highlevel_wrapper.go"],
     m(("repeated entries", V + "insertion_log.go addEntryToLog"), ("answer", V + "service_log_add_entry.go")),
     {"quick": "3 additions of inputs of 0, 1 or 3 bytes, extra data of 1 byte, both formats; 4100 additions and 19 of them again", "thorough": "5 additions; 65540 additions"},
     [r("hlog.Add", n=3, reach=["checked", "new", "again"], thorough=dict(n=5)), r("hlog.Huge", n=4100, reach=["checked"], max_steps=900000000, thorough=dict(n=65540))],
     outside="longer histories; longer inputs")

prop("C16", "A static policy grants exactly what one of its lines grants",
     "A request is allowed if and only if the account named in it has a policy line for its API key (or any key), whose name pattern matches the object's name and which lists the permission (or all permissions); the fields it may see are those of the first such line. Every other request is refused, whatever the account, key and name look like. The open policy allows everything.",
     ["inputs"], "all policies, accounts, keys, names, patterns and permissions",
     "Tests never exercise a restrictive policy.",
     ["oracle/policy/authorization_static.go", "oracle/policy/authorization_all.go"],
     m(("policy lines", "oracle/policy/authorization_static.go VerifyAllowed")),
     {"quick": "policies of 1 or 2 accounts of 1 line and 1 account of 2 lines; arbitrary ASCII text of up to 1 or 2 characters for accounts, keys, names and patterns (patterns of 2 characters without classes and escapes), any permission numbers, up to 3 per line", "thorough": "the same, patterns and names of up to 3 characters"},
     [r("hauth.Policy", reach=["allowed", "denied"], accounts=1, lines=1, pattern=2, name=2, perms=1, acc=0, thorough=dict(pattern=3, name=3)),
      r("hauth.Policy", reach=["allowed", "denied"], accounts=2, lines=1, listed=1, pattern=0, name=1, perms=1),
      r("hauth.Policy", reach=["allowed", "denied"], accounts=1, lines=2, listed=1, pattern=0, name=1, perms=1, acc=0),
      r("hauth.Policy", reach=["allowed", "denied"], accounts=1, lines=1, listed=1, pattern=0, name=1, perms=3, acc=2, key=2, rkey=2),
      r("hauth.Open")],
     outside="longer texts and policies; character classes and escapes in patterns")

prop("C17", "Every operation is checked for its own permission before it touches data",
     "Each operation asks the authorization oracle for the permission that goes with it and with the kind of log, for the account, API key and object name of the request, before it reads or writes anything. If that is refused, or the operation does not exist for the kind of log, it answers permission denied and touches nothing; in particular nobody can add directly to the logs that belong to a map.",
     ["inputs"], "all 8 operations, all kinds of log (also unknown numbers), all accounts, keys, names and numbers",
     "Tests run with everything allowed.",
     [V + "util_permissions.go", V + L + "add_entry.go", V + L + "fetch_entries.go", V + L + "inclusion_proof.go", V + L + "consistency_proof.go", V + L + "tree_hash.go", V + "service_map_get_value.go", V + "service_map_set_value.go", V + "service_map_tree_hash.go"],
     m(("permission per operation and log type", V + "util_permissions.go"), ("check at the start of each operation", V + "service_*.go")),
     "all int32 kinds of log and int64 numbers; texts of up to 1 character",
     [r("hauth.Operations", reach=["allowed", "denied"])],
     outside="longer texts")

prop("C18", "A reader with restricted fields sees those fields and hashes of the others",
     "Who may read only some fields of an object gets each JSON entry or value with those fields as they were and every other field replaced by its redacted hash, and the result still validates against the leaf input that the log or map commits to; this holds for logs, map values and values inside mutations. Data that cannot be redacted is refused. Who may read all fields gets the data unchanged. Absent values and deletions can be read by all readers.",
     ["inputs"], "all field contents, subsets of fields, redactable or not",
     "Tests redact one sample through the client helpers, never through the service with a restrictive policy.",
     [V + "util_json.go", V + L + "fetch_entries.go", V + "service_map_get_value.go"],
     m(("filtering", V + "util_json.go filterLeafData, filterLeafDataWithProto"), ("mutations", V + "util_json.go mutationFilter")),
     "objects of 2 fields with texts of up to 1 arbitrary character, 6 subsets of readable fields, plain and redactable; raw data of both formats; 3 fixed entries out of 5 shapes (nested objects, lists, numbers, null, empty), any range of a log and every size of a map with 2 keys",
     [r("hauth.RedactLog"), r("hauth.RedactMap"), r("hauth.RedactMany", validate=2), r("hauth.RedactRaw", reach=["checked", "open"])],
     outside="other shapes; longer texts; names of fields that are empty or have commas (the list of fields given to the objecthash library has none)",
     assumptions=["redacted fields are produced by the stand-in of the objecthash library"])

prop("C19", "Logs and maps are separate from each other",
     "What is added to a log or set in a map is seen through no other log or map: not those of another account, of another name, or of the other kind with the same name, however the texts of accounts and names are split. Objects of one store filled in turn are as if each were filled alone.",
     ["inputs", "histories"], "all account ids and names, all interleavings of operations on two objects",
     "Tests use one object per store.",
     [V + "util_service_data.go", V + "service.go"],
     m(("bucket of an object", V + "util_service_data.go logBucket, mapBucket")),
     {"quick": "account ids and names of up to 2 arbitrary bytes; 4 operations on two logs, a log and a map, or two maps", "thorough": "up to 3 bytes; 5 operations"},
     [r("hns.Separate", len=2, reach=["other", "same"], thorough=dict(len=3)), r("hns.Interleaved", ops=4, thorough=dict(ops=5))],
     outside="longer names and histories")

prop("C21", "A failure of the storage is reported and leaves no trace",
     "Over a transactional store, an addition or mutation during which any single access or the commit fails is reported as an error and leaves the log or map as it was; done again it has the effect of being done once. A read that meets a failure reports it, or answers as if there had been none; a failure is never taken for an absent key.",
     ["fault_sequences", "crash_points", "histories"], "every point of failure in every operation, all contents",
     "Tests never make the storage fail.",
     [V + "insertion_log.go", V + "insertion_map.go", V + "util_service_data.go", V + "util_fetch_proofs.go", "mutator/instant/mutator_instant.go"],
     m(("one transaction per mutation", "mutator/instant/mutator_instant.go QueueMutation"), ("error paths", V + "insertion_*.go")),
     {"quick": "a failure at each storage access of one operation: additions to logs of up to 4 entries (new and repeated), reads of a log of 5, mutations of a map after up to 2 others, reads of a map of size 3", "thorough": "logs of up to 8 entries, maps after up to 3 mutations"},
     [r("hfault.LogAdd", n=4, reach=["checked", "failed"], thorough=dict(n=8, steps=60)), r("hfault.LogRead", n=5, reach=["checked", "failed"], thorough=dict(n=9)),
      r("hfault.MapSet", n=2, reach=["checked", "failed"], thorough=dict(n=3, steps=90)), r("hfault.MapRead", n=3, reach=["checked", "failed"])],
     outside="several failures in one operation; stores without transactions (the in-memory store says that it has none)")

prop("C26", "Places of keys in a map tree are handled bit for bit",
     "A path of up to 256 bits has one stored form; slicing and joining give exactly the bits asked for, at every offset and length, and change nothing else. The place of a key is given by the bits of its SHA-256, and server and verifying client agree on it.",
     ["inputs"], "all paths, offsets and lengths",
     "Tests slice a handful of short paths.",
     [V + "util_path.go", "merkle/util_merkle.go"],
     m(("slicing and joining", V + "util_path.go"), ("client's path", "merkle/util_merkle.go ConstructMapKeyPath")),
     "16 lengths from 0 to 256 around byte boundaries, 36 starts per length; the 2 bits around each end of a slice or joint are arbitrary, the others a fixed pattern; keys of 0 to 130 bytes and of 255, 256, 1000, 4096 and 70000",
     [r("hpath.Slice"), r("hpath.Join"), r("hpath.Key"), r("hpath.Lengths", validate=4)],
     outside="other lengths and starts")

prop("C23", "No answer of a server makes a client crash or hang",
     "Whatever messages a server sends, with parts missing, of wrong lengths, with negative or huge numbers, or with log entries that hold any JSON, every operation of a client ends with a result or an error. An audit of a map whose logs hold something other than mutations and map heads fails with an error, and creating, validating and redacting JSON data gives data or an error for every text.",
     ["inputs", "fault_sequences"], "all messages, numbers, hashes and entries",
     "Tests run against an honest server only; the shapes of a malformed answer are many.",
     [V + "api_highlevel_log.go", V + "api_highlevel_map.go", V + "util_map_audit.go", V + "util_json.go", V + "service_map_get_value.go", V + L + "inclusion_proof.go", V + L + "consistency_proof.go"],
     m(("proof verification", V + "service_map_get_value.go VerifyMapInclusionProof, service_log_*_proof.go"), ("audits", V + "util_map_audit.go CheckTreeHeadEntry, ProcessUntilAtLeast"), ("JSON data", V + "util_json.go")),
     {"quick": "up to 2 answers of a server per operation, then errors or empty answers without end; numbers from -2 to 5 and 5 large or negative ones; log proofs of up to 2 hashes of any of 3 lengths, map proofs of 0, 1, 255, 256, 257; logs of 1 entry out of 14 mutations, 13 tree heads and arbitrary bytes; over REST 9 status codes, 16 bodies and 7 forms of proof headers with up to 2 arbitrary characters", "thorough": "up to 3 answers; mutation logs of 2 entries"},
     [r("hwild.Client", op=o, reach=["error"]) for o in (1, 2, 4, 5, 6, 7, 13)] +
     [r("hwild.Client", op=o, reach=["error"], validate=1) for o in (0, 8, 9, 12)] + # these sleep natively
     [r("hwild.Client", op=o, few=1, reach=["error"]) for o in (3, 10, 11, 14)] +
     [r("hwild.Client", op=o, left=3, reach=["error"], tiers=T, seconds=120, validate=1) for o in (0, 1, 2, 3, 5, 6, 8, 9, 12, 14)] +
     [r("hwild.Audit", muts=1, thorough=dict(muts=2)), r("hwild.Data"), r("hrest.Answers", at=1, reach=["answered", "refused", "status"], validate=1, thorough=dict(at=2))],
     outside="numbers and lengths between those listed; entries of other shapes; answers that cannot be sent over the wire")

prop("C24", "No request makes a server crash, and bad ones are refused as such",
     "Whatever request reaches the server, with parts missing, unknown kinds of logs or actions, negative, huge or impossible sizes, or hashes of any length, it ends with either a response or an error status that says that the request is bad, not that the server failed. Requests that cannot be answered are refused; a refused request and a read change nothing, proper writes are accepted, and the server goes on working. A server without a mutator refuses writes and answers reads.",
     ["inputs", "histories"], "all requests",
     "Tests send well-formed requests only.",
     [V + "service.go", V + L + "add_entry.go", V + L + "fetch_entries.go", V + L + "tree_hash.go", V + L + "inclusion_proof.go", V + L + "consistency_proof.go", V + "service_map_set_value.go", V + "service_map_get_value.go", V + "service_map_tree_hash.go", V + "insertion_log.go", V + "insertion_map.go", V + "util_service_data.go"],
     m(("request handling", V + "service_*.go"), ("application", V + "insertion_log.go, insertion_map.go")),
     "logs and maps of 0 or 2 entries in the in-memory store; log types -1 to 3, sizes -2 to 4 and the extreme ones; values, mutations and references absent, empty or full, with 5 actions; hashes of 0, 1 and 32 bytes",
     [r("hwild.Server", op=o, reach=["answered", "refused"] + (["written"] if o in (0, 5) else [])) for o in range(8)] +
     [r("hwild.Server", op=o, batch=1, reach=["answered", "refused", "written"], validate=1) for o in (0, 5)],
     outside="other sizes and lengths; storage failures, which are in C21; the REST and gRPC front ends")

prop("C20", "The batching mutator applies everything queued once and in order",
     "However additions and mutations for several logs and maps are queued through the batching mutator, with whatever batch size, buffer and pauses between them, each object ends up holding exactly what was queued for it, once and in the order of the calls, with the contents at the time of the call; meanwhile readers see only what one of its prefixes gives. If the process stops at any access to the store, every log and map holds a prefix of what was queued for it, and a new process carries on from there.",
     ["histories", "schedules", "crash_points"], "every assignment of operations to objects, batch size, pause and crash point, all contents",
     "Tests add to one object at a time and wait; batches that mix objects, end early or are cut off by a crash are not tried.",
     ["mutator/batch/mutator_batch.go", V + "insertion_log.go", V + "insertion_map.go", V + "util_service_data.go"],
     m(("batches", "mutator/batch/mutator_batch.go handleBatch, consume"), ("pending writes", "mutator/batch/mutator_batch.go mapNoLockDB"), ("size of an object", V + "util_service_data.go ReadObjectSize, WriteObjectSize")),
     {"quick": "3 operations on two logs and a map with 2 keys, contents of 1 arbitrary byte, batch sizes 1 to 3, buffers of 0 and 4, pauses none or longer than the timeout; 2 operations under schedules with a preemption; 2 callers at once with 2 entries each for two logs; a crash at each of the steps of 2 operations", "thorough": "3 operations with unlimited batches and a buffer of 1 too; 2 operations with 2 preemptions; 3 callers with an entry each, 2 callers with 2 preemptions; a crash during 3 operations"},
     [r("hbatch.Batch", ops=3, batches=3, reach=["checked", "map"], validate=1, thorough=dict(batches=4, buffers=3)), r("hbatch.Batch", ops=2, batches=4, audit=1, reach=["checked", "map"], validate=1),
      r("hbatch.Batch", ops=2, batches=2, explore=1, race=1, reach=["checked", "map"], validate=1, thorough=dict(explore=2), seconds=120),
      r("hbatch.Callers", callers=2, each=2, explore=0, batches=2, race=1, validate=1, thorough=dict(batches=3, seconds=200)), r("hbatch.Callers", callers=2, each=1, explore=2, race=1, validate=1, tiers=T, seconds=300),
      r("hbatch.Callers", callers=3, each=1, explore=0, race=1, validate=1, tiers=T, seconds=200),
      r("hbatch.Crash", ops=2, reach=["checked", "crashed", "whole"], validate=1, thorough=dict(ops=3, steps=90), seconds=120)],
     outside="failures of the store, at which the batching mutator ends the process (as a crash at that point); time other than in steps of the timeout")

prop("C30", "Waiting for an update ends when it is in, and not before",
     "Waiting for an addition or a mutation to be applied, however long the server takes and however the log grows meanwhile, ends with a verified tree head that includes it, at the first answer that has it; answers that fail for other reasons than that the entry is not there yet only delay it by one query each. Waiting for a size ends with a head of at least that size. Every wait ends with an error once its context ends or the server gives no tree heads.",
     ["histories", "fault_sequences", "schedules"], "every delay, growth and failure meanwhile, all contents",
     "Tests wait over a server that applies everything at once.",
     [V + "api_highlevel_log.go", V + "api_highlevel_map.go", V + L + "inclusion_proof.go"],
     m(("waiting", V + "api_highlevel_log.go BlockUntilPresent, logAddPromise"), ("waiting for a map", V + "api_highlevel_map.go BlockUntilSize, mapSetPromise")),
     {"quick": "the update arrives, and the context ends, before any of 3 queries; up to 3 other entries meanwhile; up to 2 queries that may fail in 3 ways or be answered with a wrong proof", "thorough": "4 queries, up to 3 of which may fail"},
     [r("hwait.Log", polls=3, reach=["checked"], validate=1, thorough=dict(polls=4, fails=3)), r("hwait.Map", polls=3, reach=["checked"], validate=1, thorough=dict(polls=4, fails=3)),
      r("hwait.Cancel", polls=3, reach=["checked"], validate=1, thorough=dict(polls=4))],
     outside="how long the pauses between queries are; contexts that end during a query")

prop("C25", "Remote clients say what they are told, and hear what is said",
     "A request made through the REST or the gRPC client reaches the service behind the server as it was made, for the same object and the same operation, and the service's answer or kind of error comes back as it was given; a request that the transport cannot express is refused by an error and reaches nothing, in particular no other object. Whatever a server answers, the client gives an error or a complete answer, and never crashes. A request ends when its context does.",
     ["inputs", "fault_sequences"], "all names, keys, contents, hashes; all answers of the forms listed",
     "Tests use the client with one name and well behaved servers.",
     ["server/httprest/client_http_rest.go", "server/httprest/server_http_handler.go", "server/grpc/client_grpc.go", "server/grpc/server_grpc.go", "pb/api_grpc.pb.go"],
     m(("REST client", "server/httprest/client_http_rest.go"), ("REST server", "server/httprest/server_http_handler.go"), ("gRPC client and server", "server/grpc/client_grpc.go, server_grpc.go")),
     {"quick": "names of an 'a' and 1 byte (gRPC: 2 characters) or of a list of 11; API keys of 2 visible characters; map keys of 2 bytes; hashes and contents of 1 byte symbolic; numbers from a list of 7; up to 2 entries or proof hashes in an answer, 7 kinds of errors; entries and values of 5000, 70000 and 300000 bytes and up to 600 entries in one answer; answers of arbitrary servers: 9 status codes, 16 bodies, 7 forms of proof headers with up to 2 arbitrary ASCII characters", "thorough": "names of an 'a' and 2 bytes, map keys of 3 bytes; 3 arbitrary characters in the headers"},
     [r("hrest.Client", any=1, reach=["answered", "failed", "refused"], validate=2, thorough=dict(any=2, key=3)), r("hrest.Client", part=0, any=0, reach=["answered", "refused"], validate=1),
      r("hrest.Client", grpc=1, any=2, reach=["answered", "failed"], validate=1), r("hrest.Client", grpc=1, part=0, any=0, reach=["answered"], validate=1),
      r("hrest.Answers", at=1, reach=["answered", "refused", "status"], validate=1, thorough=dict(at=3)), r("hrest.Ended", reach=["answered", "ended"], validate=1), r("hrest.Ended", grpc=1, reach=["answered", "ended"], validate=2),
      r("hrest.Large", reach=["whole"], validate=2), r("hrest.Large", grpc=1, reach=["whole"], validate=2)],
     outside="the HTTP and gRPC libraries below the client and above the handler: HTTP is a direct call of the handler with the request the client built, and gRPC a model that moves messages by their encoding (counterexamples are replayed over the real gRPC library); TLS; the JSON codec is the engine's; names with bytes over 0x7f over gRPC; API keys with spaces")

prop("C31", "The REST endpoints mean what their documentation says",
     "Each endpoint that doc/REST-API.md lists asks the service for exactly what is documented - object, kind of log, operation, numbers, keys as text or hex, head as the latest, entries as raw data, JSON, or complete, the API key of the Authorization header, conditional updates by header - and shows what the service answers in the form asked for, with proof and tree size in headers; errors come as the status they stand for. Requests with malformed numbers, hex or JSON, and paths and methods outside the API, are refused as such and never reach the service.",
     ["inputs"], "all names, keys, contents",
     "The demonstrations in the documentation show one request each.",
     ["server/httprest/server_http_handler.go", "doc/REST-API.md"],
     m(("routes and handlers", "server/httprest/server_http_handler.go")),
     {"quick": "names of an 'a' and 1 character, keys of 2 bytes or characters, API keys of 2 characters, bodies of 2 bytes symbolic; numbers of 1 symbolic digit or of a list of 6; bodies of 5000, 70000 and 300000 bytes, keys of 30000 and names of 6000; 9 paths outside the API", "thorough": "keys of 3, numbers of 2 digits"},
     [r("hrest.Endpoints", reach=["answered", "error", "refused", "none", "no path", "no method"], validate=2, thorough=dict(key=3, digits=2)), r("hrest.LargeBodies", reach=["whole"], validate=2)],
     outside="the contents of redactable JSON data (random); the static pages; CORS headers; content types")

prop("C28", "JSON entries hash, validate, redact and turn back by what they say",
     "Entries made of JSON, of an object, a message or a mutation have the same input exactly if what they hold is the same, however it is laid out, keep the data they were made of, and validate; with other data or another input they do not. A mutation's entry does not depend on the extra data of its value, and holds all of it. Entries made to be redacted validate in full and with any field replaced by its hash, and by no other hash; shedding gives back the object without the redacted fields. What cannot be made into an entry that validates is refused.",
     ["inputs"], "all texts, keys and hashes in objects of the listed shapes",
     "Tests have few literal objects.",
     [V + "util_json.go"],
     m(("making entries", V + "util_json.go Create*"), ("validation", V + "util_json.go Validate*"), ("shedding", V + "util_json.go ShedRedactedJSONFields")),
     "objects of 7 shapes (nested, arrays, numbers, empty ones) with 2 arbitrary printable characters; mutations of 3 actions with an arbitrary character of timestamp, byte of key, value and extra data, and previous hash; each field redacted in turn",
     [r("hjson.Hash"), r("hjson.Redactable", reach=["checked", "refused"]), r("hjson.Mutation", reach=["other", "same"]), r("hjson.Proto")],
     outside="the objecthash library, which is not available here and replaced by a stand-in; other shapes and characters that need escaping; symbolic names of fields")

prop("C22", "Every storage back end keeps what was committed, and only that",
     "Over each back end (memory, bolt, badger, PostgreSQL), transactions on namespaces behave as on a map of values per namespace: a read gives the value last set under that very key in that namespace, ErrNoSuchKey when there is none and only then, a value that takes no bytes is still a value, and nil removes. A function is called once and its error comes back as it is; except in memory, an update whose function fails leaves nothing. What was committed is there when the store is closed and opened again. A store that is closed, or a transaction that is over, does not take values for absent.",
     ["inputs", "histories", "crash_points"], "all keys and values, all sequences of transactions",
     "The tests run over the in-memory store only.",
     ["storage/bolt/storage_bolt.go", "storage/badger/storage_badger.go", "storage/postgres/storage-postgres.go", "storage/memory/storage_memory.go"],
     m(("transactions", "storage/*/ ExecuteReadOnly, ExecuteUpdate"), ("keys and values", "storage/*/ Get, Set"), ("where namespaces are kept", "storage/*/ getOrCreateDB, getOrCreateNS")),
     {"quick": "2 transactions of 1 step and 1 of 3 steps on 2 namespaces, keys with 1 arbitrary byte, values of 0 or 1 arbitrary bytes, then closed and opened again or not", "thorough": "2 transactions of 2 steps, 3 of 1 step"},
     [r("hstore.Transactions", kind=k, txs=2, steps=1, validate=2, thorough=dict(txs=3, seconds=150)) for k in range(4)] +
     [r("hstore.Transactions", kind=k, txs=1, steps=3, reads=0, validate=1, thorough=dict(txs=2, steps=2, seconds=150)) for k in range(4)] +
     [r("hstore.Failures", kind=k, reach=["checked"] + (["closed"] if k == 1 else []) + (["over"] if k > 1 else []), validate=1) for k in range(4)],
     outside="bbolt, badger, pgx and PostgreSQL themselves, which are models (counterexamples and samples run natively over the real bbolt and badger, and over the real pgx against a stand-in for PostgreSQL); power failures; failing disks; contexts that end during a transaction; keys of other lengths")

prop("C29", "Transactions that run at once see nothing of each other",
     "When two transactions run at once on one namespace of a store, over any back end and also from two connections to one PostgreSQL database, neither sees half of what the other writes, both succeed, no update is lost and none that failed shows; transactions that begin at once on a store that is just opened all succeed.",
     ["schedules"], "every point of one transaction at which the other may start, all schedules within a bound, all contents",
     "Tests use one goroutine.",
     ["storage/bolt/storage_bolt.go", "storage/badger/storage_badger.go", "storage/postgres/storage-postgres.go", "storage/memory/storage_memory.go"],
     m(("locks", "storage/*/ ExecuteReadOnly, ExecuteUpdate"), ("opening", "storage/*/ getOrCreateDB, getOrCreateNS")),
     {"quick": "2 transactions, a read or an update that succeeds or fails each, the second started at any of 4 points of the first; 2 first updates of one or two namespaces with up to 2 preemptions", "thorough": "3 first updates, up to 3 preemptions"},
     [r("hstore.Isolated", kind=k, race=1, validate=1) for k in range(4)] + [r("hstore.AtOnce", kind=k, n=2, preempt=2, race=1, validate=1, thorough=dict(n=3, preempt=3, seconds=150)) for k in range(4)],
     outside="more transactions at once; several processes over one bolt or badger directory, which those refuse")

prop("C32", "What a map keeps with its values and mutations stays as it was given",
     "A value comes, at every size of the map, with the extra data and format of the mutation that first gave the map a value of that input. The entries of the mutation log stay as they were added, whatever the inputs of the values are, those of the entries themselves included.",
     ["inputs", "histories"], "all sequences of mutations, all inputs and extra data",
     "Tests never give two values the same input, nor a value that of an entry.",
     [V + "insertion_map.go", V + "util_service_data.go", V + "service_map_get_value.go"],
     m(("where values are kept", V + "insertion_map.go setMapValue"), ("where entries are kept", V + "insertion_log.go addEntryToLog")),
     {"quick": "2 mutations of 2 keys, of any kind and format, 3 of sets and deletes; inputs of one arbitrary byte, or that of an earlier entry of the mutation log, extra data of one arbitrary byte", "thorough": "3 mutations of any kind"},
     [r("hmap.Kept", ops=2, wbits=1), r("hmap.Kept", ops=3, wbits=1, formats=1, updates=1), r("hmap.Kept", ops=3, wbits=1, tiers=T, seconds=500)],
     outside="entries whose extra data differs from the first for the same input (the first stays, as in a log)")

prop("C33", "Requests served at once are as one after the other",
     "Any two operations at once on one service, through the same client handles, in process or over REST, both succeed, and what they say and leave is what they would in one order or the other. No two accesses of the code to the same memory are without order when one of them writes.",
     ["schedules", "inputs"], "all pairs of 20 operations, all schedules within a bound, all values",
     "Tests use one goroutine.",
     [V + "api_highlevel_wrapper.go", V + "service.go", "server/httprest/server_http_handler.go", "server/httprest/client_http_rest.go", "mutator/instant/mutator_instant.go", "storage/memory/storage_memory.go"],
     m(("the service and its parts, shared by all requests", V + "service*.go"), ("handler and client", "server/httprest/")),
     {"quick": "2 operations, of which one changes something, with 1 preemption; any 2 for data races, with given values and 1 preemption; over REST any 2 with given values for data races", "thorough": "2 preemptions; REST with 1 preemption"},
     [r("hconc.Pair", preempt=1, writes=1, validate=1, thorough=dict(preempt=2, seconds=300)), r("hconc.Pair", preempt=0, race=1, validate=1, thorough=dict(preempt=1, seconds=400)), r("hconc.Pair", preempt=1, race=1, concrete=1, validate=1, thorough=dict(preempt=2, writes=1, seconds=400)),
      r("hconc.Pair", preempt=0, race=1, remote=1, concrete=1, validate=1, seconds=120, thorough=dict(preempt=1, writes=1, seconds=400))],
     outside="more operations at once; the other back ends (C29) and the batching mutator (C20); races inside libraries")

prop("C34", "Servers serve what their configuration says, over TLS unless told otherwise",
     "A server started with a configuration serves at the configured address: without TLS only if the configuration asks for an insecure server, and otherwise only with TLS and its certificate; when the certificate or key is missing, unreadable or does not fit, it serves nothing, and the HTTP server reports it. A gRPC client comes through only to a server of the kind it was told of, and over TLS only if the server's certificate is vouched for by the ones it was given, which may be DER or PEM; it refuses what is no certificate. The server command serves HTTP, gRPC, both or neither as its file says, permits what the accounts in the file permit and no more, and keeps the data where the file says. Without a file it serves over HTTP to whoever asks.",
     ["inputs", "fault_sequences"], "all configurations and clients of the forms listed",
     "Tests start no server from a configuration with TLS; the command has none.",
     ["server/httprest/server_http_rest.go", "server/grpc/server_grpc.go", "server/grpc/client_grpc.go", "cmd/vdbserver/vdbserver-main.go"],
     m(("HTTP server", "server/httprest/server_http_rest.go StartServer"), ("gRPC server and client", "server/grpc/server_grpc.go StartServer, client_grpc.go Dial"), ("server command", "cmd/vdbserver/vdbserver-main.go realMode, demoMode")),
     {"quick": "insecure or not; 8 states of certificate and key; clients without TLS and with 6 kinds of certificates, or 4 arbitrary bytes for one; gRPC over TCP and Unix sockets; the command with HTTP, gRPC, insecure or not, one account or none, and 5 kinds of requests by account, key and name; without a file for 3 accounts and 2 keys", "thorough": "12 arbitrary bytes for a certificate"},
     [r("hserve.Rest", reach=["serving", "refusing"], validate=3), r("hserve.Grpc", reach=["serving", "garbage"], validate=4, thorough=dict(bytes=12)), r("hserve.Command", reach=["served", "no accounts"], validate=3), r("hserve.Demo", reach=["served"])],
     outside="the TLS and X.509 libraries and the network below the servers, which are modelled (two fixed self-signed certificates; counterexamples are replayed over the real ones); expiry and chains of certificates; the text form of configurations; the browser that the demonstration starts")

prop("C27", "The tree arithmetic is right for every 64-bit size",
     "For every tree size up to the largest 64-bit number, the split point of a range is the largest power of two below its length, powers of two are recognised exactly, and all calculations end.",
     ["inputs"], "all int64 sizes",
     "Tests use sizes below a thousand.",
     ["merkle/util_merkle.go"],
     m(("split point", "merkle/util_merkle.go CalcK"), ("power of two test", "merkle/util_merkle.go IsPow2")),
     "all int64 arguments",
     [r("hmerkle.CalcK"), r("hmerkle.Pow2"), r("hmerkle.Node")])

NOT_APPLICABLE = {}
