"""Which stages decide which property."""

STAGES = {
    "pp": {"package": "partial", "bin": "pp", "what": "public items of the modules that need no cryptography, compiled from /repo/src"},
    "pv": {"package": "partial", "bin": "pv", "what": "private envelope parser and plaintext reader, compiled from /repo/src"},
    "vu": {"package": "uharness", "bin": "vu", "what": "the callback bindings from /repo/uniffi/src over the whole library, on stand-ins for askar-crypto and uniffi"},
    "vw": {"package": "wharness", "bin": "vw", "what": "the JavaScript bindings from /repo/wasm/src over the whole library, on a native model of JavaScript values, promises and the event loop"},
    "vht": {"package": "harness", "bin": "vh", "target": "tsan", "toolchain": "nightly-x86_64-unknown-linux-gnu", "rustflags": "-Zsanitizer=thread",
            "cargo": ["-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"], "outdir": "x86_64-unknown-linux-gnu/debug", "args": ["--div", "8"],
            "env": {"TSAN_OPTIONS": "halt_on_error=1 exitcode=66"}, "what": "the whole library and the standard library under ThreadSanitizer"},
    "vut": {"package": "uharness", "bin": "vu", "target": "tsan", "toolchain": "nightly-x86_64-unknown-linux-gnu", "rustflags": "-Zsanitizer=thread",
            "cargo": ["-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"], "outdir": "x86_64-unknown-linux-gnu/debug", "args": ["--div", "8"],
            "env": {"TSAN_OPTIONS": "halt_on_error=1 exitcode=66"}, "what": "the callback bindings, the library and the standard library under ThreadSanitizer"},
    "vh": {"package": "harness", "bin": "vh", "what": "the whole library from /repo/src on a stand-in for the askar-crypto crate"},
}

_NOTE = "Every monitored execution of the seeded workload satisfied the oracle; inputs outside the sampled space are not covered. Trusts the harness's oracle"

CHECKS = {
    "C01": {"stages": ["vh"], "technique": "runtime monitoring: round-trip monitor with an independent decryptor", "note": _NOTE + " and the reference cryptography."},
    "C02": {"stages": ["vh"], "technique": "runtime monitoring: tamper monitor on altered envelopes", "note": _NOTE + " and the reference cryptography."},
    "C03": {"stages": ["vh"], "technique": "runtime monitoring: online oracle over reported metadata against independently built envelopes", "note": _NOTE + " and the reference cryptography."},
    "C04": {"stages": ["pv", "vh"], "technique": "runtime monitoring: online oracle on generated envelopes", "note": _NOTE + "."},
    "C05": {"stages": ["vh"], "technique": "runtime monitoring: model-based monitor of key selection", "note": _NOTE + "."},
    "C06": {"stages": ["vh"], "technique": "runtime monitoring: leak monitor over outputs and derived-key event log", "note": _NOTE + "."},
    "C07": {"stages": ["vh"], "technique": "runtime monitoring: uniqueness checker over a log of random material", "note": _NOTE + "; the random source itself is the stand-in's."},
    "C08": {"stages": ["pv", "vh"], "technique": "runtime monitoring: differential monitor against an independent implementation", "note": _NOTE + " and the reference cryptography."},
    "C09": {"stages": ["pv", "vh"], "technique": "runtime monitoring: panic, overflow, crash and hang monitors under hostile input", "note": _NOTE + "."},
    "C10": {"stages": ["pp", "pv", "vh"], "technique": "runtime monitoring: fault injection with an error-kind monitor", "note": _NOTE + "."},
    "C11": {"stages": ["vh"], "technique": "runtime monitoring: model-based monitor of the route, peeled by an independent implementation", "note": _NOTE + " and the reference cryptography."},
    "C12": {"stages": ["vh"], "technique": "runtime monitoring: online oracle on independently built tokens", "note": _NOTE + " and the reference cryptography."},
    "C13": {"stages": ["vh"], "technique": "runtime monitoring: model-based monitor of the addressing rules", "note": _NOTE + "."},
    "C14": {"stages": ["pp", "pv"], "technique": "runtime monitoring: differential monitor of the JSON form", "note": _NOTE + "."},
    "C15": {"stages": ["pp", "vh"], "technique": "runtime monitoring: differential monitor of the JSON form", "note": _NOTE + "."},
    "C16": {"stages": ["pp"], "technique": "runtime monitoring: model-based monitor of resolver answers", "note": _NOTE + "."},
    "C17": {"stages": ["vh"], "technique": "runtime monitoring: differential monitor across key representations", "note": _NOTE + " and the reference cryptography; checks on JWK contents are the stand-in's."},
    "C18": {"stages": ["vh"], "technique": "runtime monitoring: model-based monitor over damaged recipient entries", "note": _NOTE + " and the reference cryptography."},
    "C19": {"stages": ["vu", "vut"], "technique": "runtime monitoring: exactly-once callback monitor, differential against the core; ThreadSanitizer", "note": _NOTE + "; the generated C ABI scaffolding is not run."},
    "C20": {"stages": ["vh", "vht"], "technique": "runtime monitoring: schedule-controlled differential monitor; ThreadSanitizer", "note": _NOTE + "; schedules are sampled."},
    "C21": {"stages": ["pv", "vh"], "technique": "runtime monitoring: online oracle on generated names and headers", "note": _NOTE + "."},
    "C22": {"stages": ["vh"], "technique": "runtime monitoring: model-based monitor of nested forwards", "note": _NOTE + " and the reference cryptography."},
    "C23": {"stages": ["vh"], "technique": "runtime monitoring: secret-leak monitor over outputs fed by a log of the cryptography boundary", "note": _NOTE + "; leaks inside the real askar-crypto are out of sight."},
    "C24": {"stages": ["vw"], "technique": "runtime monitoring: differential monitor against the core, over a native model of JavaScript values, promises and the event loop", "note": _NOTE + "; JavaScript is a model of ours, wasm-bindgen's generated glue and the wasm32 target are not run."},
}

NOT_APPLICABLE = {}
