@include utils.vc
@file ref-exchange/src/simple_pool.rs
@const NUM_TOKENS
@type SwapVolume
@include feespec.vc
@verus shared
pub enum StorageKey { Shares { pool_id: u32 } }
@type SimplePool
@include volspec.vc
@verus shared
impl SimplePool {
    /// representation invariant of a reachable pool
    pub open spec fn wf(&self) -> bool {
        &&& self.shape()
        &&& msum(self.shares@) == self.shares_total_supply
    }
    /// shape of the pool (also true of the copies that views work on)
    pub open spec fn shape(&self) -> bool {
        &&& self.token_account_ids@.len() == NUM_TOKENS
        &&& self.amounts@.len() == NUM_TOKENS
        &&& self.total_fee < FEE_DIVISOR
    }
    pub open spec fn same_config(&self, o: &SimplePool) -> bool {
        self.token_account_ids == o.token_account_ids && self.total_fee == o.total_fee && self.volumes == o.volumes
            && self.exchange_fee == o.exchange_fee && self.referral_fee == o.referral_fee
    }
    pub open spec fn is_idx(&self, t: AccountId, i: int) -> bool {
        0 <= i < self.token_account_ids@.len() && self.token_account_ids@[i] == t
            && forall|j: int| 0 <= j < i ==> self.token_account_ids@[j] != t
    }
}
/// constant product with fee in basis points: largest integer allowed
pub open spec fn cp_out(x: int, y: int, fee: int, dx: int) -> int { (dx * (10000 - fee) * y) / (10000 * x + dx * (10000 - fee)) }
pub open spec fn cp_in(x: int, y: int, fee: int, dy: int) -> int { (x * dy * 10000) / ((y - dy) * (10000 - fee)) + 1 }
/// shares created for the exchange in total by a swap that moves the invariant from p to n
pub open spec fn fee_shares(p: int, n: int, supply: int, bps: int) -> int {
    if bps > 0 && (n - p) * supply > 0 { ((n - p) * supply) / ((p * 10000) / bps) } else { 0 }
}
/// what a swap does to the share ledger and the supply (P02)
pub open spec fn fee_step(o: SimplePool, n: SimplePool, i: int, j: int, fee: AdminFees, is_view: bool) -> bool {
    let p = isqrt(o.amounts@[i] as int * o.amounts@[j] as int);
    let q = isqrt(n.amounts@[i] as int * n.amounts@[j] as int);
    let total = fee_shares(p, q, o.shares_total_supply as int, fee.admin_fee_bps as int);
    &&& is_sqrt(o.amounts@[i] as int * o.amounts@[j] as int, p)
    &&& is_sqrt(n.amounts@[i] as int * n.amounts@[j] as int, q)
    &&& p <= q
    &&& 0 <= ref_part(o.shares@, fee, total) <= total
    &&& n.shares_total_supply == o.shares_total_supply + total
    &&& n.shares@ == (if is_view { o.shares@ } else { fee_ledger(o.shares@, fee, total) })
}
@end

@fn SimplePool::new(id, token_account_ids, total_fee) -> r props=P06,P11
    ensures
        r.wf(), r.total_fee == total_fee, total_fee < 10000,
        r.token_account_ids@ == token_account_ids@.map_values(|a: VAcc| a.0),
        r.amounts@ == seq![0u128, 0u128], r.shares_total_supply == 0, r.shares@ == Map::<AccountId, u128>::empty(),
@loop 0
    invariant
        __i0 <= __s0@.len(), *__s0 == token_account_ids, __v0@.len() == __i0,
        forall|j: int| 0 <= j < __i0 ==> __v0@[j] == token_account_ids@[j].0,
@exit
    proof {
        assert(r.token_account_ids@ =~= token_account_ids@.map_values(|a: VAcc| a.0));
        assert(r.amounts@ =~= seq![0u128, 0u128]);
        msum_empty(r.shares@);
    }
@fn SimplePool::modify_total_fee(self, total_fee) props=P11
    ensures final(self).total_fee == total_fee, *final(self) == (SimplePool { total_fee: total_fee, ..*old(self) }),
@fn SimplePool::share_has_registered(self, account_id) -> r props=P06
    ensures r == self.shares@.dom().contains(*account_id),
@fn SimplePool::share_register(self, account_id) props=P06
    ensures
        !old(self).shares@.dom().contains(*account_id),
        final(self).shares@ == old(self).shares@.insert(*account_id, 0u128),
        msum(final(self).shares@) == msum(old(self).shares@),
        *final(self) == (SimplePool { shares: final(self).shares, ..*old(self) }),
@entry
    proof { msum_insert(old(self).shares@, *account_id, 0u128); }
@fn SimplePool::share_unregister(self, account_id) props=P06
    ensures
        old(self).shares@.dom().contains(*account_id), old(self).shares@[*account_id] == 0,
        final(self).shares@ == old(self).shares@.remove(*account_id),
        msum(final(self).shares@) == msum(old(self).shares@),
        *final(self) == (SimplePool { shares: final(self).shares, ..*old(self) }),
@entry
    proof { if old(self).shares@.dom().contains(*account_id) { msum_remove(old(self).shares@, *account_id); } }
@fn SimplePool::share_transfer(self, sender_id, receiver_id, amount) props=P06,P16
    ensures
        mget(old(self).shares@, *sender_id) >= amount,
        old(self).shares@.dom().contains(*sender_id), old(self).shares@.dom().contains(*receiver_id),
        *sender_id != *receiver_id ==> final(self).shares@ == old(self).shares@
            .insert(*sender_id, (old(self).shares@[*sender_id] - amount) as u128)
            .insert(*receiver_id, (old(self).shares@[*receiver_id] + amount) as u128)
            && old(self).shares@[*receiver_id] + amount <= u128::MAX,
        *sender_id == *receiver_id ==> final(self).shares@ == old(self).shares@,
        msum(final(self).shares@) == msum(old(self).shares@),
        *final(self) == (SimplePool { shares: final(self).shares, ..*old(self) }),
@entry
    proof {
        let m = old(self).shares@;
        if m.dom().contains(*sender_id) && m.dom().contains(*receiver_id) {
            let a = (m[*sender_id] - amount) as u128;
            let m1 = m.insert(*sender_id, a);
            msum_insert(m, *sender_id, a);
            msum_insert(m1, *receiver_id, (m1[*receiver_id] + amount) as u128);
            if *sender_id == *receiver_id && m[*sender_id] >= amount { assert(m1.insert(*receiver_id, (m1[*receiver_id] + amount) as u128) =~= m); }
        }
    }
@fn SimplePool::share_balance_of(self, account_id) -> r props=P06
    ensures r == mget(self.shares@, *account_id),
@fn SimplePool::share_total_balance(self) -> r props=P06
    ensures r == self.shares_total_supply,
@fn SimplePool::tokens(self) -> r props=P06
    ensures r@ == self.token_account_ids@,
@fn SimplePool::get_fee(self) -> r props=P01
    ensures r == self.total_fee,
@fn SimplePool::get_volumes(self) -> r props=P24
    ensures r@ == self.volumes@,

@fn SimplePool::mint_shares(self, account_id, shares, is_view) props=P06,P02,P04
    ensures
        final(self).shares_total_supply == old(self).shares_total_supply + shares,
        final(self).shares@ == (if is_view { old(self).shares@ } else { credit(old(self).shares@, *account_id, shares as int) }),
        !is_view ==> mget(old(self).shares@, *account_id) + shares <= u128::MAX,
        !is_view ==> msum(final(self).shares@) == msum(old(self).shares@) + shares,
        is_view ==> final(self).shares == old(self).shares,
        *final(self) == (SimplePool { shares: final(self).shares, shares_total_supply: final(self).shares_total_supply, ..*old(self) }),
@entry
    proof { msum_insert(old(self).shares@, *account_id, (mget(old(self).shares@, *account_id) + shares) as u128); msum_member(old(self).shares@, *account_id); }

@fn SimplePool::token_index(self, token_id) -> r props=P01,P03
    ensures self.is_idx(*token_id, r as int),
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == self.token_account_ids@,
        __v0 is None ==> forall|j: int| 0 <= j < __i0 ==> self.token_account_ids@[j] != *token_id,
        __v0 is Some ==> self.is_idx(*token_id, __v0->0 as int),

@fn SimplePool::internal_get_return(self, token_in, amount_in, token_out) -> r props=P01,P23
    requires self.total_fee < FEE_DIVISOR,
    ensures
        token_in < self.amounts@.len(), token_out < self.amounts@.len(), token_in != token_out, amount_in > 0,
        self.amounts@[token_in as int] > 0, self.amounts@[token_out as int] > 0,
        r == cp_out(self.amounts@[token_in as int] as int, self.amounts@[token_out as int] as int, self.total_fee as int, amount_in as int),
@fn SimplePool::internal_get_return_by_output(self, token_in, amount_out, token_out) -> r props=P03,P23
    requires self.total_fee < FEE_DIVISOR,
    ensures
        token_in < self.amounts@.len(), token_out < self.amounts@.len(), token_in != token_out, amount_out > 0,
        0 < self.amounts@[token_in as int], amount_out < self.amounts@[token_out as int],
        r == cp_in(self.amounts@[token_in as int] as int, self.amounts@[token_out as int] as int, self.total_fee as int, amount_out as int),
@entry
    proof {
        if token_in < self.amounts@.len() && token_out < self.amounts@.len() {
            let d = self.amounts@[token_out as int] as int - amount_out as int;
            if d == 0 { assert(d * (10000 - self.total_fee as int) == 0) by(nonlinear_arith) requires d == 0; }
        }
    }
@verus
/// exact products in the order the real code forms them
pub proof fn mul_assoc3(a: int, b: int, c: int) ensures a * b * c == (a * b) * c { }
@end

@fn SimplePool::update_pool_and_distribute_fee(self, in_idx, amount_in, out_idx, amount_out, admin_fee, is_view) props=P01,P02,P06
    requires old(self).shape(), in_idx != out_idx,
        admin_fee.referral_info is Some ==> (admin_fee.referral_info->0).1 <= FEE_DIVISOR,
    ensures
        in_idx < old(self).amounts@.len(), out_idx < old(self).amounts@.len(),
        final(self).same_config(old(self)), final(self).shape(),
        old(self).amounts@[out_idx as int] >= amount_out,
        final(self).amounts@ == old(self).amounts@
            .update(in_idx as int, (old(self).amounts@[in_idx as int] + amount_in) as u128)
            .update(out_idx as int, (old(self).amounts@[out_idx as int] - amount_out) as u128),
        old(self).amounts@[in_idx as int] + amount_in <= u128::MAX,
        fee_step(*old(self), *final(self), in_idx as int, out_idx as int, *admin_fee, is_view),
        !is_view && old(self).wf() ==> final(self).wf(),
@entry
    proof {
        if in_idx < self.amounts@.len() && out_idx < self.amounts@.len() {
            assert forall|t: int, f: int| 0 <= t && 0 <= f <= 10000 implies 0 <= #[trigger] (t * f) / 10000 <= t by {
                assert(0 <= t * f <= t * 10000) by(nonlinear_arith) requires 0 <= t, 0 <= f <= 10000;
                div_le(t * f, 10000, t); div_floor(t * f, 10000);
            }
        }
    }
@end
@fn SimplePool::swap(self, token_in, amount_in, token_out, min_amount_out, admin_fee, is_view) -> r props=P01,P02,P06,P23
    requires old(self).shape(),
        admin_fee.referral_info is Some ==> (admin_fee.referral_info->0).1 <= FEE_DIVISOR,
    ensures
        final(self).same_config(old(self)), final(self).shape(),
        !is_view && old(self).wf() ==> final(self).wf(),
        *token_in != *token_out, r >= min_amount_out,
        old(self).swap_effect(*final(self), *token_in, amount_in as int, *token_out, r as int, *admin_fee, is_view),
        exists|i: int, j: int| old(self).is_idx(*token_in, i) && old(self).is_idx(*token_out, j)
            && r == cp_out(old(self).amounts@[i] as int, old(self).amounts@[j] as int, old(self).total_fee as int, amount_in as int),
@fn SimplePool::swap_by_output(self, token_in, amount_out, token_out, max_amount_in, admin_fee, is_view) -> r props=P03,P02,P06,P23
    requires old(self).shape(),
        admin_fee.referral_info is Some ==> (admin_fee.referral_info->0).1 <= FEE_DIVISOR,
    ensures
        final(self).same_config(old(self)), final(self).shape(),
        !is_view && old(self).wf() ==> final(self).wf(),
        *token_in != *token_out, max_amount_in is Some ==> r <= max_amount_in->0,
        old(self).swap_effect(*final(self), *token_in, r as int, *token_out, amount_out as int, *admin_fee, is_view),
        exists|i: int, j: int| old(self).is_idx(*token_in, i) && old(self).is_idx(*token_out, j)
            && r == cp_in(old(self).amounts@[i] as int, old(self).amounts@[j] as int, old(self).total_fee as int, amount_out as int),
@verus shared
impl SimplePool {
    /// exact accounting of one swap: paid moves in, got moves out, nothing else
    pub open spec fn swap_effect(&self, n: SimplePool, tin: AccountId, paid: int, tout: AccountId, got: int, fee: AdminFees, is_view: bool) -> bool {
        exists|i: int, j: int| #[trigger] self.is_idx(tin, i) && #[trigger] self.is_idx(tout, j) && i != j
            && self.amounts@[i] > 0 && self.amounts@[j] > 0
            && 0 <= paid && 0 <= got && self.amounts@[i] + paid <= u128::MAX && got <= self.amounts@[j]
            && n.amounts@ == self.amounts@.update(i, (self.amounts@[i] + paid) as u128).update(j, (self.amounts@[j] - got) as u128)
            && fee_step(*self, n, i, j, fee, is_view)
    }
}
@verus
// ------------------------------------------------------------------ P01: value never falls
/// cp_out is the largest dy the fee formula allows, and the product of the reserves does not fall
pub proof fn p01_cp_out_largest(x: int, y: int, fee: int, dx: int)
    requires 0 < x, 0 < y, 0 <= fee < 10000, 0 < dx
    ensures ({
        let r = cp_out(x, y, fee, dx);
        let a = dx * (10000 - fee);
        // r allowed: (10000 x + a)(y - r) >= 10000 x y ; r + 1 is not
        &&& 0 <= r < y
        &&& (10000 * x + a) * (y - r) >= 10000 * x * y
        &&& (10000 * x + a) * (y - (r + 1)) < 10000 * x * y
        &&& (x + dx) * (y - r) >= x * y
    })
{
    let a = dx * (10000 - fee);
    let d = 10000 * x + a;
    let r = cp_out(x, y, fee, dx);
    assert(a > 0) by(nonlinear_arith) requires a == dx * (10000 - fee), dx > 0, fee < 10000;
    assert(a * y > 0) by(nonlinear_arith) requires a > 0, y > 0;
    div_floor(a * y, d);
    assert(r * d <= a * y && a * y < r * d + d);
    assert(r < y) by(nonlinear_arith) requires r * d <= a * y, a < d, a > 0, y > 0, d > 0;
    assert(d * (y - r) == d * y - r * d) by(nonlinear_arith);
    assert(d * (y - (r + 1)) == d * y - r * d - d) by(nonlinear_arith);
    assert(d * y == 10000 * x * y + a * y) by(nonlinear_arith) requires d == 10000 * x + a;
    // a <= 10000 dx
    assert(a <= 10000 * dx) by(nonlinear_arith) requires a == dx * (10000 - fee), fee >= 0, dx > 0;
    assert(10000 * (x + dx) * (y - r) >= d * (y - r)) by(nonlinear_arith) requires 10000 * (x + dx) >= d, y - r > 0;
    assert(10000 * ((x + dx) * (y - r)) == 10000 * (x + dx) * (y - r)) by(nonlinear_arith);
    assert(10000 * x * y == 10000 * (x * y)) by(nonlinear_arith);
}
/// P03: the charged input is enough (product after fees does not fall) and at most one unit above the exact value
pub proof fn p03_cp_in_enough(x: int, y: int, fee: int, dy: int)
    requires 0 < x, 0 < dy < y, 0 <= fee < 10000
    ensures ({
        let p = cp_in(x, y, fee, dy);
        &&& p > 0
        &&& (10000 * x + p * (10000 - fee)) * (y - dy) >= 10000 * x * y
        &&& (x + p) * (y - dy) >= x * y
        &&& (10000 * x + (p - 1) * (10000 - fee)) * (y - dy) <= 10000 * x * y
    })
{
    let n = x * dy * 10000;
    let f = 10000 - fee;
    let d = (y - dy) * f;
    let p = cp_in(x, y, fee, dy);
    assert(d > 0) by(nonlinear_arith) requires d == (y - dy) * f, y - dy > 0, f > 0;
    assert(n >= 0) by(nonlinear_arith) requires n == x * dy * 10000, x > 0, dy > 0;
    div_floor(n, d);
    assert(p * d >= n && (p - 1) * d <= n) by(nonlinear_arith) requires p == n / d + 1, (n / d) * d <= n, n < (n / d) * d + d;
    assert((10000 * x + p * f) * (y - dy) == 10000 * x * y - n + p * d) by(nonlinear_arith) requires n == x * dy * 10000, d == (y - dy) * f;
    assert((10000 * x + (p - 1) * f) * (y - dy) == 10000 * x * y - n + (p - 1) * d) by(nonlinear_arith) requires n == x * dy * 10000, d == (y - dy) * f;
    assert(10000 * (x + p) * (y - dy) >= (10000 * x + p * f) * (y - dy)) by(nonlinear_arith) requires f <= 10000, p > 0, y - dy > 0;
    assert(10000 * ((x + p) * (y - dy)) == 10000 * (x + p) * (y - dy)) by(nonlinear_arith);
    assert(10000 * x * y == 10000 * (x * y)) by(nonlinear_arith);
}
/// P02: shares created by a swap never dilute: supply grows no faster than the invariant, and their cost is covered
pub proof fn p02_no_dilution(p: int, q: int, supply: int, bps: int)
    requires 0 <= p <= q, 0 <= supply, 0 <= bps <= 10000
    ensures ({
        let t = fee_shares(p, q, supply, bps);
        &&& (bps > 0 && (q - p) * supply > 0 && p == 0) || (supply + t) * p <= supply * q
        &&& p > 0 ==> t >= 0 && t * ((p * 10000) / (if bps > 0 { bps } else { 1 })) <= (q - p) * supply
    })
{
    let t = fee_shares(p, q, supply, bps);
    let n = (q - p) * supply;
    assert(n >= 0) by(nonlinear_arith) requires n == (q - p) * supply, q >= p, supply >= 0;
    if bps > 0 && n > 0 && p > 0 {
        assert(bps * p <= 10000 * p) by(nonlinear_arith) requires bps <= 10000, p > 0;
        assert(p * bps == bps * p && p * 10000 == 10000 * p) by(nonlinear_arith);
        div_ge(p * 10000, bps, p);
        let d = (p * 10000) / bps;
        div_floor(n, d);
        assert(t * p <= t * d) by(nonlinear_arith) requires p <= d, t >= 0;
        assert((supply + t) * p == supply * p + t * p) by(nonlinear_arith);
        assert(supply * q == supply * p + n) by(nonlinear_arith) requires n == (q - p) * supply;
    } else if !(bps > 0 && n > 0) {
        assert(t == 0);
        assert(supply * p <= supply * q) by(nonlinear_arith) requires p <= q, supply >= 0;
    }
}
@end

@fn SimplePool::add_liquidity(self, sender_id, amounts, is_view) -> r props=P04,P06,P23
    requires old(self).shape(),
    ensures
        final(self).same_config(old(self)), final(self).shape(), final(amounts)@.len() == NUM_TOKENS, old(amounts)@.len() == NUM_TOKENS, r > 0,
        !is_view && old(self).wf() ==> final(self).wf(),
        final(self).shares_total_supply == old(self).shares_total_supply + r,
        final(self).shares@ == (if is_view { old(self).shares@ } else { credit(old(self).shares@, *sender_id, r as int) }),
        forall|i: int| 0 <= i < 2 ==> (#[trigger] old(amounts)@[i]) > 0 && final(amounts)@[i] <= old(amounts)@[i]
            && final(self).amounts@[i] == old(self).amounts@[i] + final(amounts)@[i],
        old(self).shares_total_supply == 0 ==> r == INIT_SHARES_SUPPLY && final(amounts)@ == old(amounts)@,
        old(self).shares_total_supply > 0 ==> ({
            let s = old(self).shares_total_supply as int;
            let f = |i: int| ((old(amounts)@[i] - 1) * s) / old(self).amounts@[i] as int;
            // exactly the fair supply ...
            &&& r == (if f(1) < f(0) { f(1) } else { f(0) })
            // ... and every token is charged at least in proportion
            &&& forall|i: int| 0 <= i < 2 ==> (#[trigger] final(amounts)@[i]) == (old(self).amounts@[i] * r) / s + 1
            &&& forall|i: int| 0 <= i < 2 ==> r * old(self).amounts@[i] <= s * #[trigger] final(amounts)@[i]
        }),
@loop 0
    invariant
        __i0 <= __n0 == 2, self.shape(), *self == *old(self), amounts@ == old(amounts)@, amounts@.len() == 2, self.shares_total_supply > 0,
        __i0 == 0 ==> fair_supply.v() == max_u256(),
        __i0 > 0 ==> self.amounts@[0] > 0, __i0 > 1 ==> self.amounts@[1] > 0,
        __i0 == 1 ==> fair_supply.v() == fair(old(amounts)@, *self, 0),
        __i0 == 2 ==> fair_supply.v() == imin(fair(old(amounts)@, *self, 0), fair(old(amounts)@, *self, 1)),
        forall|i: int| 0 <= i < __i0 ==> #[trigger] old(amounts)@[i] > 0,
@loop_entry 0
    proof { if __i0 < 2 { fair_bounds(old(amounts)@[__i0 as int] as int, self.shares_total_supply as int, self.amounts@[__i0 as int] as int); } }
@loop 1
    invariant
        __i1 <= __n1 == 2, self.shape(), self.same_config(old(self)), self.shares == old(self).shares, self.shares_total_supply == old(self).shares_total_supply,
        amounts@.len() == 2, self.shares_total_supply > 0, old(amounts)@.len() == 2, old(self).amounts@.len() == 2,
        old(self).amounts@[0] > 0, old(self).amounts@[1] > 0,
        forall|i: int| 0 <= i < 2 ==> #[trigger] old(amounts)@[i] > 0,
        fair_supply.v() == imin(fair(old(amounts)@, *old(self), 0), fair(old(amounts)@, *old(self), 1)),
        forall|i: int| #![trigger amounts@[i]] #![trigger self.amounts@[i]] 0 <= i < __i1 ==> amounts@[i] == (old(self).amounts@[i] * fair_supply.v()) / (self.shares_total_supply as int) + 1
            && self.amounts@[i] == old(self).amounts@[i] + amounts@[i],
        forall|i: int| #![trigger amounts@[i]] #![trigger self.amounts@[i]] __i1 <= i < 2 ==> amounts@[i] == old(amounts)@[i] && self.amounts@[i] == old(self).amounts@[i],
@loop 2
    invariant
        __i2 <= __n2 == 2, self.shape(), self.same_config(old(self)), self.shares == old(self).shares, self.shares_total_supply == old(self).shares_total_supply,
        amounts@ == old(amounts)@, old(amounts)@.len() == 2, self.shares_total_supply == 0,
        forall|i: int| 0 <= i < __i2 ==> (#[trigger] amounts@[i]) > 0 && self.amounts@[i] == old(self).amounts@[i] + amounts@[i],
        forall|i: int| __i2 <= i < 2 ==> self.amounts@[i] == #[trigger] old(self).amounts@[i],
@exit
    proof {
        if old(self).shares_total_supply > 0 {
            assert forall|i: int| 0 <= i < 2 implies final_ok(old(amounts)@[i] as int, old(self).amounts@[i] as int, old(self).shares_total_supply as int, r as int, #[trigger] amounts@[i] as int) by {
                add_ok(old(amounts)@[i] as int, old(self).amounts@[i] as int, old(self).shares_total_supply as int, r as int);
            }
        }
    }
@verus
pub open spec fn fair(a: Seq<u128>, p: SimplePool, i: int) -> int { ((a[i] - 1) * p.shares_total_supply as int) / p.amounts@[i] as int }
pub open spec fn imin(a: int, b: int) -> int { if b < a { b } else { a } }
pub open spec fn final_ok(off: int, res: int, s: int, r: int, taken: int) -> bool { taken <= off && r * res <= s * taken }
pub proof fn fair_bounds(a: int, s: int, x: int)
    requires 0 <= a <= u128::MAX, 0 <= s <= u128::MAX, 0 <= x
    ensures x > 0 && a > 0 ==> 0 <= ((a - 1) * s) / x <= max_u256()
{
    if x > 0 && a > 0 {
        assert(0 <= (a - 1) * s <= max_u256()) by(nonlinear_arith) requires 0 < a <= u128::MAX, 0 <= s <= u128::MAX;
        div_floor((a - 1) * s, x);
        assert(((a - 1) * s) / x <= ((a - 1) * s)) by {
            assert((a - 1) * s <= ((a - 1) * s) * x) by(nonlinear_arith) requires (a - 1) * s >= 0, x >= 1;
            div_le((a - 1) * s, x, (a - 1) * s); }
    }
}
/// taking floor(res*r/s)+1 is at least proportional, and never above the offer when r <= fair supply of the offer
pub proof fn add_ok(off: int, res: int, s: int, r: int)
    requires 0 < off, 0 < res, 0 < s, 0 <= r <= ((off - 1) * s) / res
    ensures final_ok(off, res, s, r, (res * r) / s + 1)
{
    let q = (res * r) / s;
    assert((off - 1) * s >= 0) by(nonlinear_arith) requires off > 0, s > 0;
    assert(res * r >= 0) by(nonlinear_arith) requires res > 0, r >= 0;
    div_floor(res * r, s);
    div_floor((off - 1) * s, res);
    assert(r * res <= (off - 1) * s) by(nonlinear_arith) requires r <= ((off - 1) * s) / res, (((off - 1) * s) / res) * res <= (off - 1) * s, res > 0;
    assert(res * r == r * res) by(nonlinear_arith);
    div_le(res * r, s, off - 1);
    assert(s * (q + 1) == q * s + s) by(nonlinear_arith);
}
@end

@fn SimplePool::remove_liquidity(self, sender_id, shares, min_amounts, is_view) -> r props=P05,P06,P23
    requires old(self).shape(),
    ensures
        final(self).same_config(old(self)), final(self).shape(), r@.len() == NUM_TOKENS, min_amounts@.len() == NUM_TOKENS,
        !is_view && old(self).wf() ==> final(self).wf(),
        !is_view ==> old(self).shares@.dom().contains(*sender_id) && old(self).shares@[*sender_id] >= shares
            && final(self).shares@ == old(self).shares@.insert(*sender_id, (old(self).shares@[*sender_id] - shares) as u128),
        is_view ==> final(self).shares@ == old(self).shares@,
        old(self).shares_total_supply > 0, shares <= old(self).shares_total_supply,
        final(self).shares_total_supply == old(self).shares_total_supply - shares,
        forall|i: int| 0 <= i < 2 ==> (#[trigger] r@[i]) == (old(self).amounts@[i] * shares) / (old(self).shares_total_supply as int)
            && r@[i] >= min_amounts@[i] && final(self).amounts@[i] == old(self).amounts@[i] - r@[i],
@loop 0
    invariant
        __i0 <= __n0 == 2, self.shape(), self.same_config(old(self)), self.shares_total_supply == old(self).shares_total_supply,
        !is_view ==> old(self).shares@.dom().contains(*sender_id) && old(self).shares@[*sender_id] >= shares
            && self.shares@ == old(self).shares@.insert(*sender_id, (old(self).shares@[*sender_id] - shares) as u128),
        is_view ==> self.shares@ == old(self).shares@,
        min_amounts@.len() == 2, result@.len() == __i0, __i0 > 0 ==> self.shares_total_supply != 0,
        forall|i: int| 0 <= i < __i0 ==> (#[trigger] result@[i]) == (old(self).amounts@[i] * shares) / (old(self).shares_total_supply as int)
            && result@[i] >= min_amounts@[i] && self.amounts@[i] == old(self).amounts@[i] - result@[i],
        forall|i: int| __i0 <= i < 2 ==> self.amounts@[i] == #[trigger] old(self).amounts@[i],
@entry
    proof { if self.shares@.dom().contains(*sender_id) { msum_insert(self.shares@, *sender_id, (self.shares@[*sender_id] - shares) as u128); msum_member(self.shares@, *sender_id); } }
@verus
/// P05: what remains behind each remaining share does not fall
pub proof fn p05_remaining_share_value(res: int, s: int, b: int)
    requires 0 <= res, 0 < s, 0 <= b <= s
    ensures ({ let paid = (res * b) / s; 0 <= paid <= res && paid * s <= res * b && (res - paid) * s >= res * (s - b) })
{
    assert(0 <= res * b <= res * s) by(nonlinear_arith) requires 0 <= res, 0 <= b <= s;
    div_floor(res * b, s);
    div_le(res * b, s, res);
    let paid = (res * b) / s;
    assert((res - paid) * s == res * s - paid * s) by(nonlinear_arith);
    assert(res * (s - b) == res * s - res * b) by(nonlinear_arith);
}
@end
