@@ fn types::v2::<FileContractRenewal as SiaDecodable>::decode
@attr #[verifier::spinoff_prover]
@@ fn types::v2::<Transaction as Serialize>::serialize
@attr #[verifier::spinoff_prover]
@@ fn types::v1::<Transaction as Serialize>::serialize
@attr #[verifier::spinoff_prover]
@@ fn types::v1::<CoveredFields as Serialize>::serialize
@attr #[verifier::spinoff_prover]
@@ fn consensus::<Network as Deserialize>::deserialize
@attr #[verifier::spinoff_prover]
@@ fn types::v2::<FileContract as Deserialize>::deserialize
@attr #[verifier::spinoff_prover]
