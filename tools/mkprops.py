"""writes properties.jsonl (run by hand)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe or [], "hook_needed": None}})
S = "sia/src/"
p("C01", "The v2 binary encoding has the protocol's layout and decodes to the same value",
  "Every value of every type that has the current (v2) binary encoding is written as exactly the bytes the Sia protocol prescribes for it: integers little-endian in 8 bytes (1 byte for bytes and flags), lists and strings length-prefixed, optional values tagged, structures as their fields in protocol order, versioned transactions with only their present fields. Decoding those bytes, whatever follows them, yields an equal value and consumes exactly them.",
  ["inputs"], "every value of every v2-encodable type within the domain stated in DESIGN.md, and every continuation of the byte stream",
  "The tests compare a few fixed transactions, blocks and scalars; field order, tags and lengths are wrong only for particular shapes of value, of which there are unboundedly many.",
  [S+"encoding/v2.rs", S+"types/common.rs", S+"types/v2.rs", S+"types/v1.rs", S+"types/currency.rs", S+"types/work.rs", S+"types/spendpolicy.rs", S+"signing.rs", "sia_derive/src/lib.rs"],
  [("primitive codecs", S+"encoding/v2.rs"), ("derived field-by-field codecs", "sia_derive/src/lib.rs"), ("transaction field bitmask", S+"types/v2.rs: Transaction"), ("contract resolution tag", S+"types/v2.rs: FileContractResolution")])
p("C02", "The v1 binary encoding has the protocol's layout and decodes to the same value",
  "Every value of every type that has the legacy (v1) binary encoding is written as exactly the bytes the Sia protocol prescribes: currency as a length-prefixed big-endian number without leading zeros, siafund outputs with their empty claim field, lists length-prefixed, structures as their fields in protocol order. Decoding those bytes, whatever follows them, yields an equal value and consumes exactly them.",
  ["inputs"], "every value of every v1-encodable type, and every continuation of the byte stream",
  "The tests hold a handful of golden transactions; a wrong width, order or leading-zero rule shows only for other values.",
  [S+"encoding/v1.rs", S+"types/v1.rs", S+"types/common.rs", S+"types/currency.rs", "sia_derive/src/lib.rs"],
  [("primitive codecs", S+"encoding/v1.rs"), ("currency codec", S+"types/currency.rs"), ("derived codecs", "sia_derive/src/lib.rs"), ("siafund outputs and blocks", S+"types/common.rs")])
p("C03", "Decoding untrusted bytes never panics, over-allocates or accepts truncation",
  "Decoding any byte string as any decodable type, in either encoding, returns: it neither panics nor reserves memory out of proportion to the bytes actually supplied, and malformed tags, flags, text, numbers, times and spend policies are refused with an error. What is accepted is decided by the format alone, and a proper prefix of a value's encoding is never accepted as that value.",
  ["inputs"], "every finite byte string, including hostile lengths and tags, for every decodable type",
  "Tests decode well-formed samples; the guarantee is about every hostile input a peer can send.",
  [S+"encoding/v1.rs", S+"encoding/v2.rs", S+"types", S+"consensus.rs"],
  [("length-prefixed decoding with capped preallocation", S+"encoding/v1.rs, v2.rs: Vec"), ("flag, option and text checks", S+"encoding"), ("policy count limit", S+"types/spendpolicy.rs"), ("time range check", S+"encoding/v2.rs: OffsetDateTime")])
p("C04", "Reader and writer failures surface as errors, with nothing skipped",
  "If the underlying reader or writer fails at any byte while a value is being decoded or encoded, the operation returns an error; it never reports success for a value that was not completely read or written, and never panics. Readers and writers that transfer only part of a request at a time give the same result as ones that do not.",
  ["inputs", "fault_sequences"], "every value, every byte position at which the stream fails, and every way of splitting the transfers",
  "No test injects an I/O failure or a short transfer; a dropped error result is invisible on in-memory buffers.",
  [S+"encoding/v1.rs", S+"encoding/v2.rs", S+"types", S+"consensus.rs"],
  [("every codec propagates the result of each part", S+"encoding, "+S+"types"), ("errors carried through the derived codecs", "sia_derive/src/lib.rs")])
p("C05", "A v1 transaction's id and output ids commit to all but its signatures",
  "The id of a legacy transaction is the BLAKE2b-256 hash of its legacy encoding without the signatures, and the ids of its siacoin outputs, siafund outputs and file contracts are the hash of the kind's 16-byte specifier, that same encoding and the output's index. Changing only signatures changes none of them.",
  ["inputs"], "every legacy transaction, every index, every set of signatures",
  "Tests check the ids of a few transactions; the guarantee is that every field enters, in order, for every transaction.",
  [S+"types/v1.rs"], [("encoding without signatures", S+"types/v1.rs: encode_no_sigs"), ("id derivation", S+"types/v1.rs: id, derive_child_id")])
p("C06", "v1 signature hashes cover exactly the prescribed fields",
  "The hash signed by a whole-transaction legacy signature is that of all fields but signatures, each siacoin and siafund input preceded by the replay-protection prefix in force, followed by the parent id, the key index and the timelock. The hash for a partial signature covers exactly the listed elements of each field in the listed order with the same input prefixes, and an index out of range gives an error instead of a hash or a panic.",
  ["inputs", "configurations"], "every transaction, covered-field selection, chain height and network configuration",
  "Tests check one or two selections on fixed transactions; selections, repetitions, out-of-range indexes and heights are unbounded.",
  [S+"types/v1.rs", S+"consensus.rs"], [("whole transaction hash", S+"types/v1.rs: whole_sig_hash"), ("partial hash", S+"types/v1.rs: partial_sig_hash"), ("replay prefix", S+"consensus.rs: replay_prefix")])
p("C07", "v2 ids and signature hashes commit to the transaction's semantics",
  "The id of a v2 transaction, and the hashes signed for inputs, attestations, contracts and renewals, are BLAKE2b-256 of the protocol's distinguishing text, the replay-protection prefix where one is signed, and the semantic encoding: every field in protocol order, parents by id, signatures and proofs of membership blanked. Nothing blanked or omitted there, such as signatures, satisfied policies or membership proofs, affects them, and everything else does.",
  ["inputs", "configurations"], "every v2 transaction, attestation, contract, renewal and chain configuration",
  "Tests hold a few golden hashes; which fields are committed to must be right for every combination of present fields.",
  [S+"types/v2.rs", S+"consensus.rs"], [("semantic encoding", S+"types/v2.rs: encode_semantics"), ("id and signature hashes", S+"types/v2.rs: id, input_sig_hash, sig_hash")])
p("C08", "Derived ids are hashes of the protocol's preimages",
  "Every id derived from another id - a transaction's v2 outputs, contracts and attestations, a contract's payout outputs and renewal, a siafund claim, a block's miner payouts and foundation subsidy - is BLAKE2b-256 of exactly the protocol's prefix or specifier, the parent id, and, where there is one, the little-endian 8-byte index or validity byte.",
  ["inputs"], "every parent id and every index",
  "Tests check a few derivations at small indexes; an index truncated or a prefix shared between kinds shows only elsewhere.",
  [S+"types/common.rs"], [("id derivation", S+"types/common.rs: BlockID, TransactionID, FileContractID, SiafundOutputID")])
p("C09", "An unlock-conditions address is the Merkle root of its parts",
  "The address of unlock conditions is the root of the protocol's binary Merkle tree over its leaves - timelock, each public key in order, required signatures - with leaves and inner nodes hashed under different prefixes, for any number of keys. A public key's standard unlock conditions have no timelock, that one ed25519 key and one required signature.",
  ["inputs"], "every timelock, signature count and list of public keys of any length",
  "Tests cover one to a few keys; the shape of the tree changes with every count.",
  [S+"merkle.rs", S+"types/v1.rs"], [("accumulator", S+"merkle.rs"), ("address", S+"types/v1.rs: UnlockConditions::address")])
p("C10", "A sector's root is the Merkle root of all its segments",
  "The root of a sector is the root of the protocol's binary Merkle tree over all of its 64-byte segments in order, leaves and inner nodes hashed under different prefixes: every byte of the sector matters, and the root does not depend on how the work is divided between threads.",
  ["inputs", "schedules"], "every full-size sector, every scheduling of the worker threads",
  "The test checks one sector whose segments are mostly alike; a segment left out or misplaced is invisible there.",
  [S+"rhp.rs", S+"merkle.rs"], [("parallel leaf and node hashing", S+"rhp.rs: sector_root"), ("node hashing", S+"merkle.rs")])
p("C11", "Spend policies encode canonically and decode within the policy limits",
  "Every spend policy is written as the protocol's version byte, kind byte and contents, nested policies without their own version, and decoding those bytes, whatever follows, yields an equal policy if it is within the protocol's limits. An unknown version or kind, and a policy with more subpolicies than the limit of 1024, are refused with an error without exhausting memory or stack.",
  ["inputs"], "every spend policy of any nesting and every byte string",
  "Tests hold one sample per kind; nesting and hostile encodings are unbounded.",
  [S+"types/spendpolicy.rs"], [("recursive encode/decode", S+"types/spendpolicy.rs")])
p("C12", "A policy's address does not depend on which parts are opaque",
  "The address of a spend policy is BLAKE2b-256 of the address prefix and the policy's encoding, with the subpolicies of a threshold replaced by their addresses; legacy unlock conditions and opaque policies keep their own address. Replacing any subpolicy by its opaque address, at any depth, leaves the address unchanged.",
  ["inputs"], "every policy and every choice of subpolicies to hide",
  "Tests compare a few addresses; nesting and the choice of hidden parts are unbounded.",
  [S+"types/spendpolicy.rs"], [("address", S+"types/spendpolicy.rs: address"), ("unlock conditions address", S+"types/v1.rs")])
p("C13", "Currency arithmetic is exact, and checked operations report overflow",
  "Sums, differences, products, quotients and remainders of amounts are exact 128-bit integer results, comparisons order amounts by value, and conversions to narrower integers succeed exactly when the amount fits. A checked operation gives the result when it fits and nothing when it overflows, underflows or divides by zero.",
  ["inputs"], "every pair of amounts",
  "Tests use a few pairs; overflow borders are a measure-zero subset of the pairs.",
  [S+"types/currency.rs"], [("operators and checked operators", S+"types/currency.rs")])
p("C14", "Amounts are parsed exactly or refused",
  "Parsing text as an amount yields exactly the number it denotes - a decimal count of hastings, or a decimal number with one of the siacoin units - and refuses everything else: other characters or units, more than one point, more decimals than the unit has, or more than 128 bits. It never panics, rounds or wraps.",
  ["inputs"], "every text",
  "Tests list some dozen strings; rounding, wrapping and odd digits occur elsewhere.",
  [S+"types/currency.rs"], [("parser", S+"types/currency.rs: parse_string")])
p("C15", "Contract taxes follow the consensus formula exactly",
  "The tax on a legacy contract is 3.9% of its payout rounded down to a multiple of the number of siafunds, computed before the tax hardfork with the double-precision approximation of 0.039 and after it exactly. The tax on a v2 contract is 4% of the sum of both outputs, rounded down likewise.",
  ["inputs", "configurations"], "every payout, every pair of v2 outputs with a 128-bit sum, every height relative to the hardfork",
  "Tests cover a few payouts on one side of the fork; consensus splits on any single wrong amount.",
  [S+"types/v1.rs", S+"types/v2.rs"], [("v1 tax", S+"types/v1.rs: FileContract::tax"), ("v2 tax", S+"types/v2.rs: FileContract::tax")])
p("C16", "Rewards, maturity and the foundation subsidy follow the schedule",
  "For the block after the current one: its reward falls by one siacoin per height from the initial to the minimum amount, its payouts mature after the network's delay, and the foundation is paid exactly at the hardfork height and every month's worth of blocks after it: twelve months' worth the first time, one month's each time after, to the current foundation address.",
  ["inputs", "configurations"], "every height, and every network configuration with a positive block interval of at most a month",
  "Tests check a few heights on one network.",
  [S+"consensus.rs"], [("schedule", S+"consensus.rs: block_reward, maturity_height, foundation_subsidy, blocks_per_month")])
p("C17", "Replay protection, nonce factor and child height switch at the right heights",
  "The replay-protection prefix is empty before the ASIC hardfork and then 0, 1 and 2 from the ASIC, foundation and v2 hardforks on, the nonce factor changes at the ASIC hardfork, and the next block's height is one more than the current one, including from the state before genesis.",
  ["inputs", "configurations"], "every height and every placement of the hardforks",
  "Tests check single heights of one network; the boundaries are off by one or swapped elsewhere.",
  [S+"consensus.rs", S+"types/common.rs"], [("prefix selection", S+"consensus.rs: replay_prefix"), ("heights", S+"types/common.rs: ChainIndex")])
p("C18", "Consensus states encode and decode to the same state",
  "A chain state is encoded as the protocol prescribes: its tip, the timestamps that exist at its height (at most eleven), its depth, difficulty, siafund, foundation and proof-of-work data, and the accumulator's leaf count with exactly the trees that count implies. Decoding those bytes, whatever follows, yields an equal state and consumes exactly them.",
  ["inputs"], "every height, every leaf count, every set of trees and all other values, within the domain in DESIGN.md",
  "Tests check one or two states; which trees and timestamps are present depends on every bit of the counts.",
  [S+"consensus.rs"], [("state codec", S+"consensus.rs: State"), ("accumulator codec", S+"consensus.rs: ElementAccumulator")])
p("C19", "Identifiers, addresses and keys print and parse back exactly",
  "The text of every hash, id, address, public key and signature is its protocol prefix, if any, and lowercase hex, with a six-byte BLAKE2b checksum on addresses; parsing that text gives the value back. Parsing any other text either gives the value it denotes or an error - wrong length, wrong prefix, bad hex, bad checksum - and never panics.",
  ["inputs"], "every value and every text",
  "Tests hold a few strings per type.",
  [S+"types/common.rs", S+"signing.rs", S+"macros.rs"], [("address text and checksum", S+"types/common.rs: Address"), ("id text", S+"types/common.rs"), ("key and signature text", S+"signing.rs")])
p("C20", "Seeds derive the same keys as every other Sia wallet",
  "The key of a seed at an index is the ed25519 key whose secret is BLAKE2b-256 of the seed's BLAKE2b-256 hash followed by the little-endian index; the recovery phrase of a seed is its 12-word BIP-39 phrase, and recovering from it gives the seed back. Any other phrase is refused with an error.",
  ["inputs"], "every seed, every 64-bit index, every phrase",
  "Tests use one phrase and a few small indexes.",
  [S+"seed.rs", S+"signing.rs"], [("derivation", S+"seed.rs: private_key"), ("phrases", S+"seed.rs: from_mnemonic, to_mnemonic")])
p("C21", "Signing and verifying are ed25519 over the hash, total on every input",
  "Signing a hash gives the ed25519 signature of exactly its 32 bytes under the key's secret, and verification says yes exactly when ed25519 does for those bytes, that public key and that signature. For public keys and signatures that are not valid encodings verification says no; it never panics.",
  ["inputs"], "every key, hash and signature, including malformed ones",
  "Tests sign and verify one message; malformed keys and altered bytes are unbounded.",
  [S+"signing.rs"], [("sign_hash, verify", S+"signing.rs")])
p("C22", "Secrets are wiped from memory when they are dropped",
  "When a wallet seed or a private key is dropped, every byte it held in that place is overwritten with zero before the memory is released.",
  ["inputs"], "every seed and every private key",
  "No test looks at memory after a drop.",
  [S+"seed.rs", S+"signing.rs"], [("Drop", S+"seed.rs, "+S+"signing.rs")])
p("C23", "JSON is written as other Sia software writes it",
  "Serializing any value with a JSON form gives the object other Sia software writes for it: each field under its agreed key, empty optional fields left out exactly where agreed, amounts, ids, addresses, keys and signatures as their text, byte strings as base64, times as RFC 3339 text, durations as nanoseconds, the accumulator's trees only where a tree stands, and a policy or contract resolution with the name of its kind. Serializing never panics and fails only if the serializer does.",
  ["inputs"], "every value with a JSON form, within the domain in DESIGN.md",
  "Tests compare some dozen documents; which fields are left out and which trees are listed depends on the value.",
  [S+"types", S+"consensus.rs", S+"encoding.rs"], [("serde implementations", S+"types"), ("accumulator and state", S+"consensus.rs")])
p("C24", "JSON is read as the value it denotes",
  "Reading a JSON document as a type gives exactly the value it denotes - each field taken from its own key, whatever the order of the keys, with absent optional fields empty, so that reading what was written gives an equal value back - or an error where it denotes none: a missing required field, malformed text, an amount or a count out of range. Reading never panics.",
  ["inputs"], "every JSON document and every type with a JSON form, within the domain in DESIGN.md",
  "Tests read some dozen documents; key order, absence, malformed text and ranges are unbounded.",
  [S+"types", S+"consensus.rs", S+"encoding.rs"], [("serde implementations", S+"types"), ("accumulator and state", S+"consensus.rs")])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
# every claimed check
sys_c = __import__("sys"); sys_c.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "driver"))
from cones import CONES, NOTES
checks = []
for x in P:
    if x["id"] not in CONES: continue
    i = x["id"]
    checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} --tier thorough", "evidence_file": f"evidence/{i}.json",
        "technique": "contracts on the real functions, discharged by Verus (Z3); concrete replay of the real crate for failing inputs" if CONES[i]["level"] == "proof" else "bounded concrete check standing in for contracts out of the verifier's reach",
        "level": CONES[i]["level"], "level_note": NOTES.get(i, "") or "Proved for all inputs over the functions under contract (listed in the evidence). Trusted: Verus/Z3, the extractor, the contracts assumed on std and dependencies."})
NA = []
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": NA,
    "notes": "Each check rebuilds everything it needs from /repo's working tree: see DESIGN.md. No hooks: nothing private is needed."}, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
