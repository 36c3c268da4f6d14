@@ fn types::common::ChainIndex::child_height
    ensures res == if self.height == u64::MAX { 0 } else { (self.height + 1) as u64 }
@@ mod consensus
impl ChainState {
    /// the height of the next block
    pub open spec fn next_height(&self) -> u64 { if self.state.index.height == u64::MAX { 0 } else { (self.state.index.height + 1) as u64 } }
    /// the prefix in force
    pub open spec fn prefix(&self) -> Seq<u8> {
        let h = self.state.index.height;
        if h >= self.network.hardfork_v2.allow_height { seq![2u8] }
        else if h >= self.network.hardfork_foundation.height { seq![1u8] }
        else if h >= self.network.hardfork_asic.height { seq![0u8] }
        else { seq![] }
    }
    /// twelfths of a year of 365 days, in blocks
    pub open spec fn month(&self) -> int { 2_628_000_000_000_000int / self.network.block_interval.ns() }
    pub open spec fn month_ok(&self) -> bool { 0 < self.network.block_interval.ns() <= 2_628_000_000_000_000 }
}
pub proof fn lemma_month(n: int)
    requires 0 < n <= 2_628_000_000_000_000,
    ensures 1 <= 2_628_000_000_000_000int / n <= 2_628_000_000_000_000,
{
    assert(1 <= 2_628_000_000_000_000int / n <= 2_628_000_000_000_000) by(nonlinear_arith) requires 0 < n <= 2_628_000_000_000_000;
}
@@ fn consensus::ChainState::child_height
    ensures res == self.next_height()
@@ fn consensus::ChainState::siafund_count
    ensures res == 10000
@@ fn consensus::ChainState::ancestor_depth
    ensures res == 1000
@@ fn consensus::ChainState::max_block_weight
    ensures res == 2_000_000
@@ fn consensus::ChainState::nonce_factor
    ensures res == if self.next_height() < self.network.hardfork_asic.height { 1u64 } else { 1009 }
@@ fn consensus::ChainState::replay_prefix
    ensures res@ == self.prefix()
@@ fn consensus::ChainState::block_reward
    requires self.next_height() <= 340282366920938,
    ensures ({
        let (i, m, d) = (self.network.initial_coinbase.0, self.network.minimum_coinbase.0, self.next_height() * 1_000_000_000_000_000_000_000_000);
        res.0 == if i - d >= m { i - d } else { m as int }
    })
@@ fn consensus::ChainState::maturity_height
    requires self.next_height() + self.network.maturity_delay <= u64::MAX,
    ensures res == self.next_height() + self.network.maturity_delay
@@ fn consensus::ChainState::blocks_per_month
    requires self.month_ok(),
    ensures res == self.month(), 0 < res <= 2_628_000_000_000_000
@start
proof { lemma_month(self.network.block_interval.ns()); }
@@ fn consensus::ChainState::foundation_subsidy
    requires self.month_ok(), self.month() <= 945228795,
    ensures ({
        let (h, f) = (self.next_height(), self.network.hardfork_foundation.height);
        match res {
            None => h < f || (h - f) % self.month() != 0,
            Some(o) => h >= f && (h - f) % self.month() == 0 && o.address == self.state.foundation_primary_address
                && o.value.0 == self.month() * 30000 * 1_000_000_000_000_000_000_000_000 * (if h == f { 12int } else { 1 }),
        }
    })
@@ impl types::common::<Address as Clone>
@@ fn types::common::<Address as Clone>::clone
    ensures res == *self
