@file ref-exchange/src/utils.rs
@type SwapVolume
@include volspec.vc
@file ref-exchange/src/${DIR}/mod.rs
@type ${P}
@verus shared
impl ${P} {
    /// shares created for a deposit: supply * (D2 - D0) / D0; the fee part completes supply * (D1 - D0) / D0
    pub open spec fn dep_mint(amp: int, rt: Seq<u128>, a: Seq<u128>, old: Seq<u128>, supply: int, tf: int) -> int {
        let d0 = Self::cd(amp, rt, old); let nb = plus(old, a); let d1 = Self::cd(amp, rt, nb); let d2 = Self::cd(amp, rt, after_fee(old, nb, d0, d1, tf));
        (supply * (d2 - d0)) / d0
    }
    pub open spec fn dep_fee(amp: int, rt: Seq<u128>, a: Seq<u128>, old: Seq<u128>, supply: int, tf: int) -> int {
        let d0 = Self::cd(amp, rt, old); let d1 = Self::cd(amp, rt, plus(old, a));
        (supply * (d1 - d0)) / d0 - Self::dep_mint(amp, rt, a, old, supply, tf)
    }
    pub open spec fn dep_ok(amp: int, rt: Seq<u128>, a: Seq<u128>, old: Seq<u128>, supply: int, tf: int, mint: int, fee: int) -> bool {
        let d0 = Self::cd(amp, rt, old); let nb = plus(old, a); let d1 = Self::cd(amp, rt, nb); let d2 = Self::cd(amp, rt, after_fee(old, nb, d0, d1, tf));
        &&& 0 < d0 < d1 && d0 <= d2
        &&& mint == Self::dep_mint(amp, rt, a, old, supply, tf) && fee == Self::dep_fee(amp, rt, a, old, supply, tf)
        &&& forall|i: int| 0 <= i < old.len() ==> (#[trigger] old[i]) + a[i] <= u128::MAX
    }
    /// shares burned for a withdrawal: supply * (D0 - D2) / D0, of which all above supply * (D0 - D1) / D0 is fee
    pub open spec fn wd_burn(amp: int, rt: Seq<u128>, a: Seq<u128>, old: Seq<u128>, supply: int, tf: int) -> int {
        let d0 = Self::cd(amp, rt, old); let nb = minus(old, a); let d1 = Self::cd(amp, rt, nb); let d2 = Self::cd(amp, rt, after_fee(old, nb, d0, d1, tf));
        (supply * (d0 - d2)) / d0
    }
    pub open spec fn wd_fee(amp: int, rt: Seq<u128>, a: Seq<u128>, old: Seq<u128>, supply: int, tf: int) -> int {
        let d0 = Self::cd(amp, rt, old); let d1 = Self::cd(amp, rt, minus(old, a));
        Self::wd_burn(amp, rt, a, old, supply, tf) - (supply * (d0 - d1)) / d0
    }
    pub open spec fn wd_ok(amp: int, rt: Seq<u128>, a: Seq<u128>, old: Seq<u128>, supply: int, tf: int, burn: int, fee: int) -> bool {
        let d0 = Self::cd(amp, rt, old); let nb = minus(old, a); let d1 = Self::cd(amp, rt, nb); let d2 = Self::cd(amp, rt, after_fee(old, nb, d0, d1, tf));
        &&& 0 <= d1 < d0 && d2 <= d0
        &&& burn == Self::wd_burn(amp, rt, a, old, supply, tf) && fee == Self::wd_fee(amp, rt, a, old, supply, tf)
        &&& forall|i: int| 0 <= i < old.len() ==> (#[trigger] old[i]) >= a[i]
    }
    /// amplification that counts now
    pub open spec fn amp_now(&self) -> int { amp_at(self.init_amp_factor as int, self.target_amp_factor as int, s_now(), self.init_amp_time as int, self.stop_amp_time as int) }
    pub open spec fn shape(&self) -> bool {
        &&& self.token_account_ids@.len() == self.token_decimals@.len() == self.c_amounts@.len() <= u32::MAX
        &&& self.total_fee < 10000
        &&& forall|i: int| 0 <= i < self.token_decimals@.len() ==> 1 <= #[trigger] self.token_decimals@[i] <= 24
        &&& 1 <= self.init_amp_factor <= 1_000_000 && 1 <= self.target_amp_factor <= 1_000_000
    }
    pub open spec fn wf(&self) -> bool { self.shape() && msum(self.shares@) == self.shares_total_supply }
    pub open spec fn dec(&self, i: int) -> int { self.token_decimals@[i] as int }
    pub open spec fn is_idx(&self, t: AccountId, i: int) -> bool {
        0 <= i < self.token_account_ids@.len() && self.token_account_ids@[i] == t && forall|j: int| 0 <= j < i ==> self.token_account_ids@[j] != t
    }
    pub open spec fn idx(&self, t: AccountId) -> int { choose|i: int| self.is_idx(t, i) }
    /// offered amounts in internal units
    pub open spec fn cs(&self, a: Seq<u128>) -> Seq<u128> { Seq::new(a.len(), |i: int| Self::to_c(a[i] as int, self.dec(i)) as u128) }
    pub open spec fn ups(&self, a: Seq<u128>) -> Seq<u128> { Seq::new(a.len(), |i: int| Self::up_c(a[i] as int, self.dec(i)) as u128) }
    pub open spec fn same_config(&self, o: &Self) -> bool {
        *self == (Self { c_amounts: self.c_amounts, shares: self.shares, shares_total_supply: self.shares_total_supply, ..*o })
    }
    /// shares for the provider, and fee shares, of adding a
    pub open spec fn add_mint(&self, a: Seq<u128>) -> int {
        if self.shares_total_supply == 0 { Self::cd(self.amp_now(), self.rt(), self.cs(a)) } else { Self::dep_mint(self.amp_now(), self.rt(), self.cs(a), self.c_amounts@, self.shares_total_supply as int, self.total_fee as int) }
    }
    pub open spec fn add_fee(&self, a: Seq<u128>) -> int {
        if self.shares_total_supply == 0 { 0 } else { Self::dep_fee(self.amp_now(), self.rt(), self.cs(a), self.c_amounts@, self.shares_total_supply as int, self.total_fee as int) }
    }
    pub open spec fn add_pre(&self, a: Seq<u128>) -> bool {
        if self.shares_total_supply == 0 { forall|i: int| 0 <= i < a.len() ==> #[trigger] self.cs(a)[i] > 0 }
        else { Self::dep_ok(self.amp_now(), self.rt(), self.cs(a), self.c_amounts@, self.shares_total_supply as int, self.total_fee as int, self.add_mint(a), self.add_fee(a)) }
    }
    pub open spec fn rem_burn(&self, a: Seq<u128>) -> int { Self::wd_burn(self.amp_now(), self.rt(), self.ups(a), self.c_amounts@, self.shares_total_supply as int, self.total_fee as int) }
    pub open spec fn rem_fee(&self, a: Seq<u128>) -> int { Self::wd_fee(self.amp_now(), self.rt(), self.ups(a), self.c_amounts@, self.shares_total_supply as int, self.total_fee as int) }
    /// result of swapping a of token i into token j
    pub open spec fn swr(&self, i: int, a: int, j: int, af: int) -> SR {
        Self::swf(self.amp_now(), self.rt(), i, Self::to_c(a, self.dec(i)), j, self.c_amounts@, self.total_fee as int, af)
    }
    /// exchange shares for the admin part of the fee of token j, given to the pool as a one-sided deposit free of fee
    pub open spec fn fee_mint(&self, c: Seq<u128>, j: int, adm: int) -> int {
        if adm > 0 { Self::dep_mint(self.amp_now(), self.rt(), onehot(c.len(), j, adm), c, self.shares_total_supply as int, 0) } else { 0 }
    }
    /// what adding liquidity does to the pool
    pub open spec fn added(&self, n: &Self, who: AccountId, a: Seq<u128>, fees: AdminFees, is_view: bool) -> bool {
        let r = self.add_mint(a); let adm = (self.add_fee(a) * fees.admin_fee_bps) / 10000;
        &&& n.same_config(self) && a.len() == self.c_amounts@.len() && self.add_pre(a) && r >= 0 && self.add_fee(a) >= 0
        &&& n.c_amounts@ == plus(self.c_amounts@, self.cs(a))
        &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] self.c_amounts@[i]) + Self::to_c(a[i] as int, self.dec(i)) <= u128::MAX
        &&& n.shares_total_supply == self.shares_total_supply + r + adm
        &&& n.shares@ == if is_view { self.shares@ } else { fee_ledger(credit(self.shares@, who, r), fees, adm) }
    }
    /// what taking out exact amounts does to the pool
    pub open spec fn taken(&self, n: &Self, who: AccountId, a: Seq<u128>, fees: AdminFees, is_view: bool) -> bool {
        let b = self.rem_burn(a); let adm = (self.rem_fee(a) * fees.admin_fee_bps) / 10000;
        &&& n.same_config(self) && a.len() == self.c_amounts@.len() && b >= 0 && self.rem_fee(a) >= 0
        &&& Self::wd_ok(self.amp_now(), self.rt(), self.ups(a), self.c_amounts@, self.shares_total_supply as int, self.total_fee as int, b, self.rem_fee(a))
        &&& n.c_amounts@ == minus(self.c_amounts@, self.ups(a))
        &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] self.c_amounts@[i]) - Self::up_c(a[i] as int, self.dec(i)) >= Self::min_res() && Self::up_c(a[i] as int, self.dec(i)) >= 0
        &&& n.shares_total_supply == self.shares_total_supply - b + adm
        &&& !is_view ==> self.shares@.dom().contains(who) && self.shares@[who] >= b
        &&& n.shares@ == if is_view { self.shares@ } else { fee_ledger(self.shares@.insert(who, (self.shares@[who] - b) as u128), fees, adm) }
    }
    /// what a swap does to the pool
    pub open spec fn swapped(&self, n: &Self, tin: AccountId, a: int, tout: AccountId, out: int, fees: AdminFees, is_view: bool) -> bool {
        let i = self.idx(tin); let j = self.idx(tout); let s = self.swr(i, a, j, fees.admin_fee_bps as int);
        let mid = self.c_amounts@.update(i, s.src as u128).update(j, s.dst as u128);
        let ns = self.fee_mint(mid, j, s.adm);
        &&& self.is_idx(tin, i) && self.is_idx(tout, j) && i != j && n.same_config(self)
        &&& Self::sw_pre(self.amp_now(), self.rt(), i, Self::to_c(a, self.dec(i)), j, self.c_amounts@, self.total_fee as int, fees.admin_fee_bps as int)
        &&& out == Self::to_a(s.out, self.dec(j)) && Self::min_res() <= s.dst <= u128::MAX && 0 <= s.src <= u128::MAX && 0 <= s.adm && s.dst + s.adm <= u128::MAX
        &&& n.c_amounts@ == self.c_amounts@.update(i, s.src as u128).update(j, (s.dst + s.adm) as u128)
        &&& ns >= 0 && n.shares_total_supply == self.shares_total_supply + ns
        &&& n.shares@ == if is_view { self.shares@ } else { fee_ledger(self.shares@, fees, ns) }
    }
}
@end
