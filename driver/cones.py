"""Which obligations decide which property.

`entries`: regular expressions over `module|function` as Verus names what it checked. A cone is
inclusive: everything the property's functions call, and the lemmas that carry it."""

ENC2 = [r"^encoding::v2\|", r"^spec\|", r"^shim", r"^lemmas\|.*::rt$", r"^lemmas\|lemmas::lemma_dec_n", r"^lemmas_time\|", r"^lemmas_types\|(?!.*::rt1$)"]
ENC1 = [r"^encoding::v1\|", r"^encoding::v2\|.*(u8|u64|impl|Offset)", r"^spec\|", r"^shim", r"^lemmas\|.*::rt1$", r"^lemmas\|lemmas::lemma_dec1_n", r"^lemmas_types\|(?!.*::rt$)", r"^lemmas_time\|"]
TYPES2 = [r"^(types|signing)[\w:]*\|.*::(encode|decode|rt|type_prefix)$", r"^types::spendpolicy\|(?!.*(address|encode_semantics))", r"^layout_lemmas\|.*::rt$", r"^types::(work|currency)\|.*::(deref|new|zero|to_big_endian|from_big_endian|clone)$", r"^types::v2\|.*(lemma_|stage|step|part|upto|::rt\d|mask|start)"]
TYPES1 = [r"^types[\w:]*\|.*::(encode_v1|decode_v1|rt1)$", r"^layout_lemmas\|.*::rt1$", r"^types::common\|.*(Hash256|BlockID)::(encode|decode)$", r"^types::(work|currency)\|.*::(deref|new|zero|to_big_endian|from_big_endian|clone|try_into_sh)$"]
HASHID = [r"^types::common\|.*::(from|new|as_ref_sh|clone|default)$", r"^types::specifier\|", r"^types::common\|.*PREFIX$"]
V1TXN = [r"^types::v1\|.*::(encode_no_sigs|id|derive_child_id|siacoin_output_id|siafund_output_id|file_contract_id|prefixed|[A-Z_]+_PREFIX)$"]
CHAIN = [r"^consensus\|.*::(replay_prefix|nonce_factor|child_height|block_reward|maturity_height|foundation_subsidy|blocks_per_month|siafund_count|ancestor_depth|lemma_month|max_block_weight)$", r"^types::common\|.*ChainIndex::child_height$"]

CONES = {
    "C01": dict(entries=ENC2 + TYPES2, level="proof"),
    "C02": dict(entries=ENC1 + TYPES1, level="proof"),
    "C03": dict(entries=[r"::(decode|decode_v1|decode_policy|rt|rt1)$", r"^spec\|", r"^shim", r"^lemmas", r"^types::spendpolicy\|.*(pol_dec|pols_dec|MAX)", r"^encoding::v2\|.*MAX"], level="proof"),
    "C04": dict(entries=[r"::(encode|encode_v1|encode_policy|decode|decode_v1|decode_policy|encode_no_sigs|encode_semantics)$", r"^shim"], level="proof"),
    "C05": dict(entries=V1TXN + ENC1 + TYPES1 + HASHID + [r"^lemmas_hash\|"], level="proof"),
    "C06": dict(entries=[r"^types::v1\|.*::(whole_sig_hash|partial_sig_hash|covered|whole_transaction)$", r"^types::v1\|.*default$", r"^consensus\|.*::replay_prefix$", r"^lemmas_hash\|"] + ENC1 + TYPES1 + HASHID, level="proof"),
    "C07": dict(entries=[r"^types::v2\|.*::(encode_semantics|id|sig_hash|input_sig_hash|\w+_sem|TXN_VERSION)$", r"^consensus\|.*::replay_prefix$", r"^lemmas_hash\|"] + ENC2 + TYPES2 + HASHID, level="proof"),
    "C08": dict(entries=HASHID + [r"^types::common\|.*_id$", r"^lemmas_hash\|", r"^spec\|", r"^shim"], level="proof"),
    "C09": dict(entries=[r"^merkle\|", r"^lemmas_merkle\|", r"^types::v1\|.*UnlockConditions::", r"^types::v1\|.*UnlockKey::", r"^types::v1\|.*(ALGORITHM|uc_leaves)", r"^spec\|", r"^shim", r"^lemmas_hash\|", r"^types::common\|.*(Address|Hash256)::"], level="proof"),
    "C10": dict(entries=[r"^merkle\|", r"^lemmas_merkle\|", r"^rhp\|", r"^spec\|", r"^shim", r"^lemmas_hash\|", r"^types::common\|.*Hash256::"], level="proof"),
    "C11": dict(entries=[r"^types::spendpolicy\|(?!.*address)", r"^layout_lemmas\|.*(SatisfiedPolicy|UnlockConditions|UnlockKey|PublicKey|Signature|Address)::rt$", r"^types::v1\|.*Unlock(Key|Conditions)::(encode|decode)$", r"^signing\|.*::(encode|decode)$", r"^types::common\|.*(Address|Hash256)::(encode|decode)$"] + ENC2, level="proof"),
    "C12": dict(entries=[r"^types::spendpolicy\|", r"^merkle\|", r"^lemmas_merkle\|", r"^types::v1\|.*Unlock(Key|Conditions)::", r"^signing\|.*::(encode|decode)$", r"^types::common\|.*(Address|Hash256)::", r"^lemmas_hash\|"] + ENC2, level="proof"),
    "C13": dict(entries=[r"^types::currency\|(?!.*(encode|decode|parse_string))", r"^spec\|", r"^shim"], level="proof"),
    "C14": dict(entries=[r"^types::currency\|.*(parse_string|new|SIACOIN)", r"^lemmas_currency\|", r"^spec\|", r"^shim"], level="proof"),
    "C15": dict(entries=[r"^shim_big", r"^types::v[12]\|.*::tax$", r"^types::currency\|(?!.*(encode|decode|parse_string))", r"^consensus\|.*::(child_height|siafund_count)$", r"^types::common\|.*child_height$", r"^types::v2\|.*TAX"], level="proof"),
    "C16": dict(entries=CHAIN + [r"^types::currency\|(?!.*(encode|decode|parse_string))", r"^shim"], level="proof"),
    "C17": dict(entries=CHAIN + [r"^shim"], level="proof"),
    "C18": dict(entries=[r"^consensus\|.*::(encode|decode|rt|rt1|default)$", r"^consensus\|.*(has_tree|lemma_t|trees_|ts_)", r"^lemmas_state\|", r"^types::work\|", r"^types::common\|.*(Hash256|BlockID|ChainIndex|Address)::(encode|decode)$"] + ENC2, level="proof"),
    "C19": dict(entries=[r"^types::common\|.*::(fmt|parse_string|lemma_text|from_slice_sh|new)$", r"^types::common\|.*lemma_id", r"^signing\|.*::(fmt|parse_string|lemma_text|new|serialize|deserialize)$", r"^types::common\|.*::(serialize|deserialize)$", r"^types::v1\|.*UnlockKey::(fmt|parse_string|lemma_text|serialize|deserialize)$", r"^types::specifier\|", r"^macros\|", r"^spec\|", r"^shim"], level="proof"),
    "C20": dict(entries=[r"^seed\|", r"^signing\|.*PrivateKey::", r"^types::common\|.*Hash256::", r"^spec\|", r"^shim"], level="proof"),
    "C21": dict(entries=[r"^signing\|(?!.*::(encode|decode)$)", r"^types::common\|.*Hash256::", r"^shim"], level="proof"),
    "C22": dict(entries=[r"^(seed|signing)\|.*::(drop|drop_body)$", r"^shim"], level="proof"),
    "C23": dict(entries=[r"::(serialize|serialize_body|type_str|has_tree_at_height|lemma_pols_json)$", r"^types::utils", r"^(types|signing)[\w:]*\|.*::(fmt|lemma_text)$", r"^types::specifier\|", r"^spec\|", r"^shim"], level="proof"),
    "C24": dict(entries=[r"::(deserialize|deserialize_body|lemma_pols_de|lemma_thresh|lemma_thresh_of)$", r"::(parse_string|parse|from_str|from_str_sh|from_slice_sh|parse_hex\w*)$", r"^types::currency\|.*lemma_", r"^types::currency\|.*(ParseError|Currency::new)", r"^types::specifier\|.*(from_str_sh|lemma_pad|new)$", r"^(spec|stdspec|lemmas_types)\|", r"^shim"], level="proof"),
}

TRUSTED = [
    "Verus 0.2026.09.13 and its Z3, rustc's macro expansion",
    "the extractor /verif/extract: what it rewrites is listed in DESIGN.md",
    "the contracts of /verif/contracts/00_shim.rs, 01_shim_time.rs, 02_shim_deps.rs, 03_shim_text.rs, 04_shim_big.rs, 05_std.rs, 06_shim_serde.rs on std and on dependencies (external_body and axioms)",
    "BLAKE2b and ed25519 are functions: nothing else is assumed of them",
]
ASSUMPTIONS = [
    "a 64-bit target: usize is u64",
    "the allocator does not fail for what the decoded input's own length allows",
]
NOTES = {}

# per property: what it assumes beyond ASSUMPTIONS, and what only the replay looks at (bounded)
_A = {
    "fmt": "a Formatter accumulates text; a write to it fails only if its sink does",
    "json": "serde_json: a serializer builds the value it is given, object keys unordered; base64 and RFC 3339 text uninterpreted",
    "dejson": "documents are well formed, without repeated keys, within serde_json's depth limit; the reader does not fail",
    "dec": "Display of Currency (deref to u128) and Work (construct_uint!) is the decimal number",
    "big": "num-bigint and num-rational are integers and exact fractions",
    "rayon": "rayon's chunks are disjoint and run in some order: verified as a sequential loop",
    "bip39": "the bip39 phrase of 16 bytes of entropy reads back as that entropy",
    "drop": "the compiler keeps the writes the source makes (proved on Rust's abstract machine only)",
    "time": "time's conversions between instants, durations and integers are exact, and refuse what they cannot represent",
    "keys": "a Vec holds at most isize::MAX bytes",
    "month": "block intervals are positive and at most a month, at least about 3 ms; heights within the domain in DESIGN.md",
}
for _p, _k in {"C01": "time", "C02": "time", "C03": "time", "C04": "time", "C09": "keys", "C10": "rayon", "C12": "keys", "C15": "big", "C16": "time month", "C17": "time", "C18": "time",
               "C19": "fmt", "C20": "bip39", "C22": "drop", "C23": "json fmt dec", "C24": "json dejson"}.items():
    CONES[_p]["assumptions"] = [_A[_x] for _x in _k.split()]
CONES["C24"]["bounded"] = ["the round trip de(json(v)) = v", "ContractResolution's derived enum reader"]
CONES["C10"]["bounded"] = ["the parallel schedule of sector_root's chunks"]
CONES["C22"]["bounded"] = ["that the built program's memory is zero after a drop"]
