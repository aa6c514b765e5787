@file ref-exchange/src/admin_fee.rs
@type AdminFees
@verus shared
pub open spec fn ref_part(shares: Map<AccountId, u128>, fee: AdminFees, total: int) -> int {
    match fee.referral_info {
        Some(ri) => if shares.dom().contains(ri.0) { (total * ri.1 as int) / 10000 } else { 0 },
        None => 0,
    }
}
/// ledger after crediting n shares (nothing happens when n == 0)
pub open spec fn credit(m: Map<AccountId, u128>, k: AccountId, n: int) -> Map<AccountId, u128> {
    if n == 0 { m } else { m.insert(k, (mget(m, k) + n) as u128) }
}
pub open spec fn fee_ledger(m: Map<AccountId, u128>, fee: AdminFees, total: int) -> Map<AccountId, u128> {
    let rp = ref_part(m, fee, total);
    credit(if rp > 0 { credit(m, (fee.referral_info->0).0, rp) } else { m }, fee.exchange_id, total - rp)
}
pub proof fn fee_ledger_zero(m: Map<AccountId, u128>, fee: AdminFees) ensures fee_ledger(m, fee, 0) == m
{ if fee.referral_info is Some { let b = (fee.referral_info->0).1 as int; assert(0 * b == 0) by(nonlinear_arith); } }
@end
