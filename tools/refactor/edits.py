"""Behaviour-preserving edits of /repo, in batches: (name, file, old, new).  run.py applies one batch to a
scratch copy and runs the proof part of the checks on it; none may make a property alarm."""
M='sia/src/merkle.rs'; S='sia/src/signing.rs'; SD='sia/src/seed.rs'; CU='sia/src/types/currency.rs'
V1='sia/src/types/v1.rs'; V2='sia/src/types/v2.rs'; CO='sia/src/types/common.rs'; SP='sia/src/types/spendpolicy.rs'
SC='sia/src/types/specifier.rs'; E2='sia/src/encoding/v2.rs'; E1='sia/src/encoding/v1.rs'; CS='sia/src/consensus.rs'
MA='sia/src/macros.rs'; RH='sia/src/rhp.rs'
B1=[
("acc add_leaf loop", M, """        while self.has_tree_at_height(i) {
            node = sum_node(&self.params, &self.trees[i], &node);
            i += 1;
        }
        self.trees[i] = node;""", """        loop {
            if !self.has_tree_at_height(i) {
                break;
            }
            node = sum_node(&self.params, &self.trees[i], &node);
            i += 1;
        }
        self.trees[i] = node;"""),
("acc root for", M, """        i += 1;
        while i < 64 {
            if self.has_tree_at_height(i) {
                root = sum_node(&self.params, &self.trees[i], &root);
            }
            i += 1;
        }
        root""", """        for j in i + 1..64 {
            if self.has_tree_at_height(j) {
                root = sum_node(&self.params, &self.trees[j], &root);
            }
        }
        root"""),
("acc root mut", M, "let mut i = self.num_leaves.trailing_zeros() as usize;", "let i = self.num_leaves.trailing_zeros() as usize;"),
("uc address helper", V1, """        let h = p
            .to_state()
            .update(LEAF_HASH_PREFIX)
            .update(&self.timelock.to_le_bytes())
            .finalize();

        acc.add_leaf(&h.into());

        for key""", """        let leaf_hash = |v: u64| -> Hash256 {
            p.to_state()
                .update(LEAF_HASH_PREFIX)
                .update(&v.to_le_bytes())
                .finalize()
                .into()
        };
        acc.add_leaf(&leaf_hash(self.timelock));

        for key"""),
("v1 tax helper", V1, """        Currency::new((&tax - &tax % cs.siafund_count()).to_u128().unwrap())
    }
}""", """        Self::round_down(tax, cs.siafund_count())
    }

    fn round_down(tax: BigInt, n: u64) -> Currency {
        let rem = &tax % n;
        Currency::new((tax - rem).to_u128().unwrap())
    }
}"""),
("currency v1 encode lz", CU, """        let currency_buf = self.to_be_bytes();
        let i = currency_buf
            .iter()
            .enumerate()
            .find(|&(_index, &value)| value != 0)
            .map_or(16, |(index, _value)| index); // 16 if all bytes are 0
        currency_buf[i..].encode_v1(w)""", """        let currency_buf = self.to_be_bytes();
        let i = (self.0.leading_zeros() / 8) as usize;
        currency_buf[i..].encode_v1(w)"""),
("currency v2 decode", CU, """        r.read_exact(&mut buf)?;
        Ok(Currency(u128::from_le_bytes(buf)))""", """        r.read_exact(&mut buf)?;
        let value = u128::from_le_bytes(buf);
        Ok(Currency::new(value))"""),
("currency v1 decode", CU, """        r.read_exact(&mut buf[16 - len..])?;
        Ok(Currency(u128::from_be_bytes(buf)))""", """        let start = buf.len() - len;
        r.read_exact(&mut buf[start..])?;
        Ok(Self(u128::from_be_bytes(buf)))"""),
("checked_add map", CU, """        let v = self.0.checked_add(other.0)?;
        Some(Currency(v))""", """        self.0.checked_add(other.0).map(Currency)"""),
("checked_sub match", CU, """        let v = self.0.checked_sub(other.0)?;
        Some(Currency(v))""", """        match self.0.checked_sub(other.0) {
            Some(v) => Some(Currency(v)),
            None => None,
        }"""),
("id parse map_or", MA, """                let s = match s.split_once(':') {
                    Some((_prefix, suffix)) => suffix,
                    None => s,
                };
""", """                let s = s.split_once(':').map_or(s, |(_, suffix)| suffix);
"""),
("address parse swap", CO, """        if checksum[..6] != data[32..] {
            return Err(HexParseError::InvalidChecksum);
        }

        Ok(data[..32].into())""", """        if data[32..] == checksum[..6] {
            Ok(data[..32].into())
        } else {
            Err(HexParseError::InvalidChecksum)
        }"""),
("address fmt pieces", CO, """        let mut buf = [0u8; 32 + 6];
        buf[..32].copy_from_slice(&self.0);

        let h = Params::new()
            .hash_length(32)
            .to_state()
            .update(&self.0)
            .finalize();

        buf[32..].copy_from_slice(&h.as_bytes()[..6]);
        write!(f, "{}", hex::encode(buf))""", """        let h = Params::new()
            .hash_length(32)
            .to_state()
            .update(&self.0)
            .finalize();
        write!(
            f,
            "{}{}",
            hex::encode(self.0),
            hex::encode(&h.as_bytes()[..6])
        )"""),
("specifier fmt rposition", SC, """            .iter()
            .rev()
            .position(|&x| x != 0)
            .map_or(0, |pos| SPECIFIER_SIZE - pos);""", """            .iter()
            .rposition(|&x| x != 0)
            .map_or(0, |pos| pos + 1);"""),
("vec encode try_for_each", E2, """impl<T> SiaEncodable for Vec<T>
where
    T: SiaEncodable,
{
    fn encode<W: Write>(&self, w: &mut W) -> Result<()> {
        self.len().encode(w)?;
        for item in self {
            item.encode(w)?;
        }
        Ok(())
    }
}""", """impl<T> SiaEncodable for Vec<T>
where
    T: SiaEncodable,
{
    fn encode<W: Write>(&self, w: &mut W) -> Result<()> {
        self.len().encode(w)?;
        self.iter().try_for_each(|item| item.encode(w))
    }
}"""),
("vec encode v1 delegates", E1, """impl<T> V1SiaEncodable for Vec<T>
where
    T: V1SiaEncodable,
{
    fn encode_v1<W: Write>(&self, w: &mut W) -> Result<()> {
        self.len().encode_v1(w)?;
        for item in self {
            item.encode_v1(w)?;
        }
        Ok(())
    }
}""", """impl<T> V1SiaEncodable for Vec<T>
where
    T: V1SiaEncodable,
{
    fn encode_v1<W: Write>(&self, w: &mut W) -> Result<()> {
        self.as_slice().encode_v1(w)
    }
}"""),
("vec decode while", E2, """        for _ in 0..len {
            vec.push(T::decode(r)?);
        }
        Ok(vec)""", """        while vec.len() < len {
            let item = T::decode(r)?;
            vec.push(item);
        }
        Ok(vec)"""),
("child_height inline", CS, """    pub fn child_height(&self) -> u64 {
        self.state.index.child_height()
    }""", """    pub fn child_height(&self) -> u64 {
        self.state.index.height.wrapping_add(1)
    }"""),
("block_reward early return", CS, """        match reward {
            Some(reward) if reward >= self.network.minimum_coinbase => reward,
            _ => self.network.minimum_coinbase,
        }""", """        if let Some(reward) = reward {
            if reward >= self.network.minimum_coinbase {
                return reward;
            }
        }
        self.network.minimum_coinbase"""),
("policy arms reordered", SP, """                SpendPolicy::Above(height) => height.encode(w),
                SpendPolicy::After(time) => (time.unix_timestamp() as u64).encode(w),
                SpendPolicy::PublicKey(pk) => pk.encode(w),
                SpendPolicy::Hash(hash) => hash.encode(w),""", """                SpendPolicy::Hash(hash) => hash.encode(w),
                SpendPolicy::PublicKey(pk) => pk.encode(w),
                SpendPolicy::Above(height) => height.encode(w),
                SpendPolicy::After(time) => {
                    let secs = time.unix_timestamp() as u64;
                    secs.encode(w)
                }"""),
("seed intermediate", SD, """        let entropy: Hash256 = params.to_state().update(self.0.as_ref()).finalize().into();

        let seed: Hash256 = params
            .to_state()
            .update(entropy.as_ref())
            .update(&index.to_le_bytes())
            .finalize()
            .into();

        seed.into()""", """        let mut state = params.to_state();
        state.update(&self.0);
        let entropy = state.finalize();

        let index_bytes = index.to_le_bytes();
        let mut state = params.to_state();
        state.update(entropy.as_bytes());
        state.update(&index_bytes);
        let seed: Hash256 = state.finalize().into();
        PrivateKey::from_seed(seed.as_ref())"""),
("seed drop fill", SD, """        for byte in self.0.iter_mut() {
            *byte = 0;
        }""", """        self.0.fill(0);"""),
("key drop assign", S, """        for byte in self.0.iter_mut() {
            *byte = 0;
        }""", """        self.0 = [0; 64];"""),
("verify map_or", S, """        let pk = match VerifyingKey::from_bytes(&self.0) {
            Ok(pk) => pk,
            Err(_) => return false, // not a valid curve point
        };
        pk.verify(
            sig_hash.as_ref(),
            &ED25519Signature::from_bytes(signature.as_ref()),
        )
        .is_ok()""", """        let signature = ED25519Signature::from_bytes(signature.as_ref());
        match VerifyingKey::from_bytes(&self.0) {
            Ok(pk) => pk.verify(sig_hash.as_ref(), &signature).is_ok(),
            Err(_) => false,
        }"""),
("sector_root counts hoisted", RH, """    let mut tree_hashes = vec![Hash256::default(); SECTOR_SIZE / SEGMENT_SIZE];""", """    let leaves = SECTOR_SIZE / SEGMENT_SIZE;
    let mut tree_hashes = vec![Hash256::default(); leaves];"""),
("v2 sighash helper", V2, """    pub fn sig_hash(&self, cs: &ChainState) -> Hash256 {
        let mut state = Params::new().hash_length(32).to_state();
        state.update("sia/sig/filecontract|".as_bytes());
        state.update(cs.replay_prefix());
        self.encode_semantics(&mut state).unwrap();
        state.finalize().into()
    }""", """    pub fn sig_hash(&self, cs: &ChainState) -> Hash256 {
        let mut state = sig_hash_state("filecontract", cs);
        self.encode_semantics(&mut state).unwrap();
        state.finalize().into()
    }"""),
("v2 sighash helper fn", V2, """/// A FileContract is a storage agreement""", """fn sig_hash_state(name: &str, cs: &ChainState) -> blake2b_simd::State {
    let mut state = Params::new().hash_length(32).to_state();
    state.update("sia/sig/".as_bytes());
    state.update(name.as_bytes());
    state.update("|".as_bytes());
    state.update(cs.replay_prefix());
    state
}

/// A FileContract is a storage agreement"""),
("v2 tax", V2, """        let tax = (self.renter_output.value + self.host_output.value) / Currency::new(25); // 4%
        tax - (tax % Currency::new(cs.siafund_count() as u128))""", """        let total = self.renter_output.value + self.host_output.value;
        let tax = total / Currency::new(25); // 4%
        let n = Currency::new(cs.siafund_count() as u128);
        tax - tax % n"""),
]
B2=[
("sum_node helper", M, """    let h = params
        .to_state()
        .update(NODE_HASH_PREFIX)
        .update(left.as_ref())
        .update(right.as_ref())
        .finalize();

    h.into()
}""", """    hash_parts(params, &[NODE_HASH_PREFIX, left.as_ref(), right.as_ref()])
}

fn hash_parts(params: &Params, parts: &[&[u8]]) -> Hash256 {
    let mut state = params.to_state();
    for part in parts {
        state.update(part);
    }
    state.finalize().into()
}"""),
("acc root index var", M, """        let mut root = self.trees[i];
        i += 1;
        while i < 64 {
            if self.has_tree_at_height(i) {
                root = sum_node(&self.params, &self.trees[i], &root);
            }
            i += 1;
        }
        root""", """        let mut root = self.trees[i];
        loop {
            i += 1;
            if i >= 64 {
                return root;
            }
            if self.has_tree_at_height(i) {
                root = sum_node(&self.params, &self.trees[i], &root);
            }
        }"""),
("uc address vec", V1, """        for key in self.public_keys.iter() {
            let mut state = p.to_state();
            state.update(LEAF_HASH_PREFIX);
            key.encode(&mut state).unwrap();

            let h = state.finalize();
            acc.add_leaf(&h.into());
        }""", """        for i in 0..self.public_keys.len() {
            let mut state = p.to_state();
            state.update(LEAF_HASH_PREFIX);
            self.public_keys[i].encode(&mut state).unwrap();
            acc.add_leaf(&state.finalize().into());
        }"""),
("whole_sig_hash helper", V1, """        self.siacoin_outputs.encode_v1(&mut state)?;
        self.file_contracts.encode_v1(&mut state)?;
        self.file_contract_revisions.encode_v1(&mut state)?;
        self.storage_proofs.encode_v1(&mut state)?;

        state.update(&(self.siafund_inputs""", """        self.encode_middle(&mut state)?;

        state.update(&(self.siafund_inputs"""),
("whole_sig_hash helper fn", V1, """    pub fn whole_sig_hash<T""", """    fn encode_middle<W: std::io::Write>(&self, w: &mut W) -> Result<(), encoding::Error> {
        self.siacoin_outputs.encode_v1(w)?;
        self.file_contracts.encode_v1(w)?;
        self.file_contract_revisions.encode_v1(w)?;
        self.storage_proofs.encode_v1(w)
    }

    pub fn whole_sig_hash<T"""),
("partial get", V1, """        for &i in covered_fields.miner_fees.iter() {
            if i >= self.miner_fees.len() {
                return Err(encoding::Error::Custom(
                    "miner_fees index out of bounds".to_string(),
                ));
            }
            self.miner_fees[i].encode_v1(&mut state)?;
        }""", """        for &i in covered_fields.miner_fees.iter() {
            match self.miner_fees.get(i) {
                Some(fee) => fee.encode_v1(&mut state)?,
                None => {
                    return Err(encoding::Error::Custom(
                        "miner_fees index out of bounds".to_string(),
                    ))
                }
            }
        }"""),
("child id inlined", V1, """        self.derive_child_id(&SIACOIN_OUTPUT_ID_PREFIX, i)""", """        let mut state = Params::new().hash_length(32).to_state();
        state.update(SIACOIN_OUTPUT_ID_PREFIX.as_bytes());
        self.encode_no_sigs(&mut state).unwrap();
        state.update(&(i as u64).to_le_bytes());
        state.finalize().into()"""),
("id helper", CO, """        let mut state = Params::new().hash_length(32).to_state();
        state.update(self.as_ref());
        state.finalize().into()
    }

    pub fn v2_claim_output_id(&self) -> SiacoinOutputID {
        let mut state = Params::new().hash_length(32).to_state();
        state.update(b"sia/id/v2siacoinclaimoutput|");
        state.update(self.as_ref());
        state.finalize().into()
    }""", """        hash_id(&[], self.as_ref())
    }

    pub fn v2_claim_output_id(&self) -> SiacoinOutputID {
        hash_id(b"sia/id/v2siacoinclaimoutput|", self.as_ref())
    }"""),
("id helper fn", CO, """impl_hash_id!(BlockID);
""", """fn hash_id(prefix: &[u8], id: &[u8]) -> SiacoinOutputID {
    let mut state = Params::new().hash_length(32).to_state();
    state.update(prefix);
    state.update(id);
    state.finalize().into()
}

impl_hash_id!(BlockID);
"""),
("proof output valid", CO, """        state.update(&(valid as u8).to_le_bytes());""", """        state.update(&[if valid { 1 } else { 0 }]);"""),
("miner id chained", CO, """    pub fn miner_output_id(&self, i: usize) -> SiacoinOutputID {
        let mut state = Params::new().hash_length(32).to_state();
        state.update(self.as_ref());
        state.update(&(i as u64).to_le_bytes());
        state.finalize().into()""", """    pub fn miner_output_id(&self, i: usize) -> SiacoinOutputID {
        let index = i as u64;
        Params::new()
            .hash_length(32)
            .to_state()
            .update(&self.0)
            .update(&index.to_le_bytes())
            .finalize()
            .into()"""),
("parse_string parts", CU, """        if parts.len() > 2 {
            return Err""", """        if parts.len() != 1 && parts.len() != 2 {
            return Err"""),
("parse_string unit helper", CU, """        let scaling_factor: i32 = match unit {
            "pS" => -12,
            "nS" => -9,
            "uS" => -6,
            "mS" => -3,
            "SC" => 0,
            "KS" => 3,
            "MS" => 6,
            "GS" => 9,
            "TS" => 12,
            &_ => return Err(CurrencyParseError::InvalidUnit(unit.to_string())),
        };
""", """        let scaling_factor = match unit_exponent(unit) {
            Some(exp) => exp,
            None => return Err(CurrencyParseError::InvalidUnit(unit.to_string())),
        };
"""),
("parse_string unit helper fn", CU, """impl Add for Currency {""", """fn unit_exponent(unit: &str) -> Option<i32> {
    match unit {
        "pS" => Some(-12),
        "nS" => Some(-9),
        "uS" => Some(-6),
        "mS" => Some(-3),
        "SC" => Some(0),
        "KS" => Some(3),
        "MS" => Some(6),
        "GS" => Some(9),
        "TS" => Some(12),
        _ => None,
    }
}

impl Add for Currency {"""),
("state encode min", CS, """        let timestamps_count = if self.index.child_height() < 11 {
            self.index.child_height() as usize
        } else {
            11
        };
        self.prev_timestamps
            .iter()
            .take(timestamps_count)
            .try_for_each(|ts| ts.encode(w))?;""", """        let timestamps_count = self.index.child_height().min(11) as usize;
        for ts in &self.prev_timestamps[..timestamps_count] {
            ts.encode(w)?;
        }"""),
("ea encode while", CS, """        self.num_leaves.encode(w)?;
        for (i, root) in self.trees.iter().enumerate() {
            if has_tree_at_height(&self.num_leaves, i) {
                root.encode(w)?;
            }
        }
        Ok(())""", """        self.num_leaves.encode(w)?;
        for i in 0..64 {
            if has_tree_at_height(&self.num_leaves, i) {
                self.trees[i].encode(w)?;
            }
        }
        Ok(())"""),
("ea decode index", CS, """        for (i, root) in trees.iter_mut().enumerate() {
            if has_tree_at_height(&num_leaves, i) {
                let h = Hash256::decode(r)?;
                *root = h;
            }
        }""", """        for i in 0..64 {
            if has_tree_at_height(&num_leaves, i) {
                trees[i] = Hash256::decode(r)?;
            }
        }"""),
("has_tree shift", CS, """    num_leaves & (1 << height) != 0
}""", """    (num_leaves >> height) & 1 == 1
}"""),
("option encode if let", E2, """        match self {
            Some(v) => {
                true.encode(w)?;
                v.encode(w)
            }
            None => false.encode(w),
        }""", """        self.is_some().encode(w)?;
        if let Some(v) = self {
            v.encode(w)?;
        }
        Ok(())"""),
("bool decode if", E2, """        let v = u8::decode(r)?;
        match v {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(Error::InvalidValue),
        }""", """        let v = u8::decode(r)?;
        if v > 1 {
            return Err(Error::InvalidValue);
        }
        Ok(v == 1)"""),
("duration decode try_from", E2, """        if ns > i64::MAX as u64 {
            return Err(Error::InvalidValue);
        }
        Ok(Duration::nanoseconds(ns as i64))""", """        let ns = i64::try_from(ns).map_err(|_| Error::InvalidValue)?;
        Ok(Duration::nanoseconds(ns))"""),
("u8 decode via array", E2, """        let mut buf = [0; 1];
        r.read_exact(&mut buf)?;
        Ok(buf[0])
    }
}

impl SiaEncodable for bool""", """        let [b] = <[u8; 1]>::decode(r)?;
        Ok(b)
    }
}

impl SiaEncodable for bool"""),
("policy threshold for", SP, """                    let mut policies = Vec::with_capacity(n as usize);
                    while policies.len() < n as usize {
                        policies.push(decode_policy(r, total)?);
                    }
                    Ok(SpendPolicy::Threshold(of, policies))""", """                    let mut policies = Vec::with_capacity(n as usize);
                    for _ in 0..n {
                        policies.push(decode_policy(r, total)?);
                    }
                    Ok(SpendPolicy::Threshold(of, policies))"""),
("policy address collect", SP, """            let mut opaque = Vec::with_capacity(of.len());
            for policy in of {
                opaque.push(SpendPolicy::Opaque(policy.address()))
            }
            SpendPolicy::Threshold(*n, opaque)""", """            let opaque = of
                .iter()
                .map(|policy| SpendPolicy::Opaque(policy.address()))
                .collect();
            SpendPolicy::Threshold(*n, opaque)"""),
("v2 txn fields bits", V2, """        let fields = [
            !self.siacoin_inputs.is_empty(),
            !self.siacoin_outputs.is_empty(),
            !self.siafund_inputs.is_empty(),
            !self.siafund_outputs.is_empty(),
            !self.file_contracts.is_empty(),
            !self.file_contract_revisions.is_empty(),
            !self.file_contract_resolutions.is_empty(),
            !self.attestations.is_empty(),
            !self.arbitrary_data.is_empty(),
            self.new_foundation_address.is_some(),
            self.miner_fee != Currency::zero(),
        ]
        .iter()
        .enumerate()
        .filter(|(_, &condition)| condition)
        .map(|(i, _)| 1 << i)
        .sum::<u64>();
        fields.encode(w)?;""", """        let present = [
            !self.siacoin_inputs.is_empty(),
            !self.siacoin_outputs.is_empty(),
            !self.siafund_inputs.is_empty(),
            !self.siafund_outputs.is_empty(),
            !self.file_contracts.is_empty(),
            !self.file_contract_revisions.is_empty(),
            !self.file_contract_resolutions.is_empty(),
            !self.attestations.is_empty(),
            !self.arbitrary_data.is_empty(),
            self.new_foundation_address.is_some(),
            self.miner_fee != Currency::zero(),
        ];
        let mut fields = 0u64;
        for (i, p) in present.iter().enumerate() {
            if *p {
                fields |= 1 << i;
            }
        }
        fields.encode(w)?;"""),
("v2 semantics iter", V2, """        for fc in &self.file_contracts {
            fc.encode_semantics(w)?;
        }""", """        for fc in self.file_contracts.iter() {
            fc.encode_semantics(w)?;
        }"""),
("resolution tag var", V2, """        let resolution = match u8::decode(r)? {
            0 =>""", """        let tag = u8::decode(r)?;
        let resolution = match tag {
            0 =>"""),
("hash id from", MA, """                let mut h = [0; 32];
                h.copy_from_slice(&hash.as_bytes()[..32]);
                Self(h)""", """                let bytes = hash.as_bytes();
                let mut h = [0u8; 32];
                h.copy_from_slice(&bytes[..32]);
                $name::new(h)"""),
("hex char ranges", MA, """    match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    }""", """    if c >= b'0' && c <= b'9' {
        Some(c - b'0')
    } else if c >= b'a' && c <= b'f' {
        Some(c - b'a' + 10)
    } else if c >= b'A' && c <= b'F' {
        Some(c - b'A' + 10)
    } else {
        None
    }"""),
("sign hash array", S, """        let sk = SigningKey::from_bytes(&self.0[..32].try_into().unwrap());
        Signature::new(sk.sign(h.as_ref()).to_bytes())""", """        let mut secret = [0u8; 32];
        secret.copy_from_slice(&self.0[..32]);
        let sk = SigningKey::from_bytes(&secret);
        let sig = sk.sign(h.as_ref());
        Signature(sig.to_bytes())"""),
("public key try_into", S, """        let mut buf = [0u8; 32];
        buf.copy_from_slice(&self.0[32..]);
        PublicKey::new(buf)""", """        PublicKey::new(self.0[32..].try_into().unwrap())"""),
("from mnemonic try_into", SD, """        let buf = m.to_entropy();
        if buf.len() != 16 {
            return Err(SeedError::InvalidLength);
        }

        let mut entropy = [0; 16];
        entropy.copy_from_slice(&buf[..16]);
        Ok(Self::new(entropy))""", """        let buf = m.to_entropy();
        match <[u8; 16]>::try_from(buf.as_slice()) {
            Ok(entropy) => Ok(Self::new(entropy)),
            Err(_) => Err(SeedError::InvalidLength),
        }"""),
("sector chunk loop", RH, """            // collect results
            for j in 0..4 {
                chunk[j] = jobs[j].to_hash().into();
            }""", """            // collect results
            for (node, job) in chunk.iter_mut().zip(jobs.iter()) {
                *node = job.to_hash().into();
            }"""),
]
CO="sia/src/consensus.rs"; SP="sia/src/types/spendpolicy.rs"; CU="sia/src/types/currency.rs"; UT="sia/src/types/utils.rs"
BJ=[
("trees let-else", CO, """                if let Some(root) = trees_iter.next() {
                    ea.trees[i] = root
                } else {
                    return Err(serde::de::Error::custom("missing tree"));
                }""", """                let root = match trees_iter.next() {
                    Some(root) => root,
                    None => return Err(serde::de::Error::custom("missing tree")),
                };
                ea.trees[i] = root;"""),
("trees count var", CO, """        if inter.trees.len() != inter.num_leaves.count_ones() as usize {""", """        let standing = inter.num_leaves.count_ones() as usize;
        if inter.trees.len() != standing {"""),
("thresh destructure", SP, """                        let thresh: ThreshPolicy =
                            serde_json::from_value(policy_value).map_err(de::Error::custom)?;
                        Ok(SpendPolicy::Threshold(thresh.n, thresh.of))""", """                        let ThreshPolicy { n, of } =
                            serde_json::from_value(policy_value).map_err(de::Error::custom)?;
                        Ok(SpendPolicy::Threshold(n, of))"""),
("after match", SP, """                        let timestamp = OffsetDateTime::from_unix_timestamp(unix_seconds as i64)
                            .map_err(|_| de::Error::custom("invalid timestamp"))?;
                        Ok(SpendPolicy::After(timestamp))""", """                        match OffsetDateTime::from_unix_timestamp(unix_seconds as i64) {
                            Ok(timestamp) => Ok(SpendPolicy::After(timestamp)),
                            Err(_) => Err(de::Error::custom("invalid timestamp")),
                        }"""),
("above map", SP, """                        let height =
                            serde_json::from_value(policy_value).map_err(de::Error::custom)?;
                        Ok(SpendPolicy::Above(height))""", """                        serde_json::from_value::<u64>(policy_value)
                            .map(SpendPolicy::Above)
                            .map_err(de::Error::custom)"""),
("type missing match", SP, """                let policy_type = policy_type.ok_or_else(|| de::Error::missing_field("type"))?;
""", """                let policy_type = match policy_type {
                    Some(t) => t,
                    None => return Err(de::Error::missing_field("type")),
                };
"""),
("currency i64 try_from", CU, """            fn visit_i64<E: serde::de::Error>(self, value: i64) -> Result<Self::Value, E> {
                if value < 0 {
                    return Err(serde::de::Error::custom("currency value must be positive"));
                }
                Ok(Currency::new(value as u128))""", """            fn visit_i64<E: serde::de::Error>(self, value: i64) -> Result<Self::Value, E> {
                if value >= 0 {
                    Ok(Currency::new(value as u128))
                } else {
                    Err(serde::de::Error::custom("currency value must be positive"))
                }"""),
("currency u64 via u128", CU, """            fn visit_u64<E: serde::de::Error>(self, value: u64) -> Result<Self::Value, E> {
                Ok(Currency::new(value as u128))""", """            fn visit_u64<E: serde::de::Error>(self, value: u64) -> Result<Self::Value, E> {
                self.visit_u128(u128::from(value))"""),
("base64 let", UT, """        let base64 = String::deserialize(d)?;
        STANDARD
            .decode(base64.as_bytes())
            .map_err(|e| serde::de::Error::custom(e.to_string()))""", """        let text = String::deserialize(d)?;
        match STANDARD.decode(text.as_bytes()) {
            Ok(bytes) => Ok(bytes),
            Err(e) => Err(serde::de::Error::custom(e.to_string())),
        }"""),
("base64 ser inline", UT, """        let base64 = STANDARD.encode(v);
        s.serialize_str(&base64)""", """        s.serialize_str(&STANDARD.encode(v))"""),
("timestamps len const", UT, """                    timestamps[idx] = OffsetDateTime::parse(
                        &value,
                        &time::format_description::well_known::Rfc3339,
                    )
                    .map_err(serde::de::Error::custom)?;
                    idx += 1;""", """                    let t = OffsetDateTime::parse(
                        &value,
                        &time::format_description::well_known::Rfc3339,
                    )
                    .map_err(serde::de::Error::custom)?;
                    timestamps[idx] = t;
                    idx += 1;"""),
("timestamps ser iter", UT, """            for timestamp in timestamps {""".replace('    for','for',1), """        for timestamp in timestamps.iter() {"""),
("vec base64 loop", UT, """        encoded
            .into_iter()
            .map(|s| STANDARD.decode(s).map_err(serde::de::Error::custom))
            .collect()""", """        let mut out = Vec::with_capacity(encoded.len());
        for s in encoded {
            out.push(STANDARD.decode(s).map_err(serde::de::Error::custom)?);
        }
        Ok(out)"""),
("duration map", UT, """        let nanos = u64::deserialize(d)?;
        Ok(Duration::nanoseconds(nanos as i64))""", """        u64::deserialize(d).map(|nanos| Duration::nanoseconds(nanos as i64))"""),
("trees ser loop", CO, """        let trees: Vec<Hash256> = self
            .trees
            .iter()
            .enumerate()
            .filter(|(i, _)| has_tree_at_height(&self.num_leaves, *i))
            .map(|(_, root)| *root)
            .collect();""", """        let mut trees: Vec<Hash256> = Vec::new();
        for (i, root) in self.trees.iter().enumerate() {
            if has_tree_at_height(&self.num_leaves, i) {
                trees.push(*root);
            }
        }"""),
]
BK=[
("hasher helper in another module", 'sia/src/types/utils.rs', "/// helper module for base64", """pub(crate) fn hasher() -> blake2b_simd::State {
    blake2b_simd::Params::new().hash_length(32).to_state()
}

/// helper module for base64"""),
("hasher helper used 1", 'sia/src/types/common.rs', """        let mut state = Params::new().hash_length(32).to_state();
        state.update(self.as_ref());
        state.finalize().into()
    }

    pub fn v2_claim""", """        let mut state = crate::types::utils::hasher();
        state.update(self.as_ref());
        state.finalize().into()
    }

    pub fn v2_claim"""),
("hasher helper used 2", V2, """        let mut state = Params::new().hash_length(32).to_state();
        state.update("sia/id/transaction|".as_bytes());
        self.encode_semantics(&mut state).unwrap();""", """        let mut state = crate::types::utils::hasher();
        state.update(b"sia/id/transaction|");
        self.encode_semantics(&mut state)
            .expect("hashing cannot fail");"""),
("partial generic helper", V1, """        for &i in covered_fields.siacoin_outputs.iter() {
            if i >= self.siacoin_outputs.len() {
                return Err(encoding::Error::Custom(
                    "siacoin_outputs index out of bounds".to_string(),
                ));
            }
            self.siacoin_outputs[i].encode_v1(&mut state)?;
        }

        for &i in covered_fields.file_contracts.iter() {
            if i >= self.file_contracts.len() {
                return Err(encoding::Error::Custom(
                    "file_contracts index out of bounds".to_string(),
                ));
            }
            self.file_contracts[i].encode_v1(&mut state)?;
        }
""", """        Self::encode_covered(
            &self.siacoin_outputs,
            &covered_fields.siacoin_outputs,
            "siacoin_outputs",
            &mut state,
        )?;
        Self::encode_covered(
            &self.file_contracts,
            &covered_fields.file_contracts,
            "file_contracts",
            &mut state,
        )?;
"""),
("partial generic helper fn", V1, "    pub fn partial_sig_hash(", """    fn encode_covered<T: V1SiaEncodable, W: std::io::Write>(
        items: &[T],
        covered: &[usize],
        name: &str,
        w: &mut W,
    ) -> Result<(), encoding::Error> {
        for &i in covered {
            match items.get(i) {
                Some(item) => item.encode_v1(w)?,
                None => {
                    return Err(encoding::Error::Custom(format!(
                        "{} index out of bounds",
                        name
                    )))
                }
            }
        }
        Ok(())
    }

    pub fn partial_sig_hash("""),
("sum_node one buffer", M, """    let h = params
        .to_state()
        .update(NODE_HASH_PREFIX)
        .update(left.as_ref())
        .update(right.as_ref())
        .finalize();

    h.into()""", """    let mut buf = [0u8; 65];
    buf[0] = NODE_HASH_PREFIX[0];
    buf[1..33].copy_from_slice(left.as_ref());
    buf[33..].copy_from_slice(right.as_ref());
    params.hash(&buf).into()"""),
("v2 txn encode nonempty helper", V2, """        if !self.siacoin_inputs.is_empty() {
            self.siacoin_inputs.encode(w)?;
        }
        if !self.siacoin_outputs.is_empty() {
            self.siacoin_outputs.encode(w)?;
        }
""", """        encode_present(&self.siacoin_inputs, w)?;
        encode_present(&self.siacoin_outputs, w)?;
"""),
("v2 txn encode nonempty helper fn", V2, "const TXN_VERSION: u8 = 2;", """fn encode_present<T: SiaEncodable, W: io::Write>(v: &Vec<T>, w: &mut W) -> encoding::Result<()> {
    if v.is_empty() {
        return Ok(());
    }
    v.encode(w)
}

const TXN_VERSION: u8 = 2;"""),
("policy encode outer loop", SP, """                    (policies.len() as u8).encode(w)?;
                    for policy in policies {
                        encode_policy(policy, w)?;
                    }
                    Ok(())""", """                    let count = policies.len() as u8;
                    w.write_all(&[count])?;
                    policies.iter().try_for_each(|p| encode_policy(p, w))"""),
("policy total saturating", SP, """                    *total += n as usize;
                    if *total > MAX_POLICIES {""", """                    let seen = *total + usize::from(n);
                    *total = seen;
                    if seen > MAX_POLICIES {"""),
("subsidy checked_sub", CS, """        if self.child_height() < self.network.hardfork_foundation.height {
            return None;
        }
        let blocks_per_month = self.blocks_per_month();
        if (self.child_height() - self.network.hardfork_foundation.height) % blocks_per_month != 0 {
            return None;
        }
""", """        let since_fork = self
            .child_height()
            .checked_sub(self.network.hardfork_foundation.height)?;
        let blocks_per_month = self.blocks_per_month();
        if since_fork % blocks_per_month != 0 {
            return None;
        }
"""),
("subsidy months", CS, """            value: if self.child_height() == self.network.hardfork_foundation.height {
                subsidy_per_month * Currency::new(12)
            } else {
                subsidy_per_month
            },""", """            value: match since_fork {
                0 => subsidy_per_month * Currency::new(12),
                _ => subsidy_per_month,
            },"""),
("prefix else chain", CS, """        if self.state.index.height >= self.network.hardfork_v2.allow_height {
            return &[2];
        } else if self.state.index.height >= self.network.hardfork_foundation.height {
            return &[1];
        } else if self.state.index.height >= self.network.hardfork_asic.height {
            return &[0];
        }
        &[]""", """        let height = self.state.index.height;
        match height {
            h if h >= self.network.hardfork_v2.allow_height => &[2],
            h if h >= self.network.hardfork_foundation.height => &[1],
            h if h >= self.network.hardfork_asic.height => &[0],
            _ => &[],
        }"""),
("nonce then_some", CS, """        if self.child_height() < self.network.hardfork_asic.height {
            return 1;
        }
        1009""", """        (self.child_height() < self.network.hardfork_asic.height)
            .then_some(1)
            .unwrap_or(1009)"""),
("attestation concat", V2, """        self.public_key.encode(w)?;
        self.key.encode(w)?;
        self.value.encode(w)?;
        [0u8; 64].encode(w) // empty sig""", """        let empty = [0u8; 64];
        self.public_key.encode(w)?;
        self.key.encode(w)?;
        self.value.encode(w)?;
        w.write_all(&empty)?;
        Ok(())"""),
("miner id write", 'sia/src/types/common.rs', """        state.update(self.as_ref());
        state.update(&(i as u64).to_le_bytes());
        state.finalize().into()
    }
}

impl_hash_id!(TransactionID);""", """        let mut buf = [0u8; 40];
        buf[..32].copy_from_slice(self.as_ref());
        buf[32..].copy_from_slice(&(i as u64).to_le_bytes());
        state.update(&buf);
        state.finalize().into()
    }
}

impl_hash_id!(TransactionID);"""),
]
BATCHES={'1':B1,'2':B2,'J':BJ,'K':BK}
