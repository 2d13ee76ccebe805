SMC = "stateless model checking of the real code (controlled scheduler, virtual time, simulated network)"
ENUM = "bounded exhaustive enumeration of inputs on the real code (explicit-state, no scheduling)"
GATE = "explicit-state exploration of the real discovery clients: every operation sequence, and every interleaving, failure and crash at storage-command granularity, against a reference model (linearizability)"
DT = "Storage commands are atomic; the Redis server is a model of its own; both within the stated depths and numbers of concurrent operations."
T = "Every execution within the stated deviation bounds and environment alphabets is run on the real code and checked; trusts the runtime/network shims (sequential consistency, TCP as byte streams)."
CLAIMS = {
    "W01": (ENUM, "All messages over bounded field alphabets and lengths; larger values only at the listed sizes."),
    "W02": (ENUM + "; the hostile bytes are also delivered to live brokers, marshals and clients at every stage of a connection, with bounded schedules (" + SMC + ")", "All truncations, single-byte and listed multi-byte mutations of valid encodings, all short byte strings, and the same at every stage of a connection to a live node."),
    **{k: (GATE, DT) for k in ("D01", "D02", "D03", "D04")},
    **{k: (SMC, T) for k in ("T01", "T02", "T03", "T04", "T05", "T06", "T07", "R01", "R02", "R03", "R04", "R05", "R06", "A01", "A02", "A03", "A04", "M01", "M02", "M03", "M04", "M05", "M06", "M07", "M08", "M09", "K01", "K02", "K03", "K04", "K05")},
}
NA = {}
