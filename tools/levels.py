TECH = {"default": "TLA+ specification checked with TLC; conformance: spec behaviours replayed on the code and recorded traces checked against the spec"}
NOTE["default"] = ("The specification is model checked within stated bounds; conformance of the code is established for the replayed "
                   "and recorded executions (exhaustive in small scopes, sampled beyond). Trusts TLC, rustc and the crypto crates.")
NA = {}
