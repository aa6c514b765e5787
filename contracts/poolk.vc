@verus
proof fn ${P}_fee(o: ${P}, m: Map<AccountId, u128>, fees: AdminFees, n: int)
    requires msum(m) + n <= u128::MAX, 0 <= n, fees.referral_info is Some ==> (fees.referral_info->0).1 <= 10000
    ensures forall|id: AccountId| #[trigger] mget(fee_ledger(m, fees, n), id) >= mget(m, id)
{ fee_up(m, fees, n); }
/// reserves of one token, before and after, in units of 1/us()
proof fn ${P}_res(o: ${P}, n: ${P}, k: int)
    requires o.shape(), n.same_config(&o), n.c_amounts@.len() == o.c_amounts@.len(), 0 <= k < o.c_amounts@.len()
    ensures ({ let po = Pool::${P}(o); let pn = Pool::${P}(n); let u = ${P}::unit(o.dec(k)); u > 0 && po.res()[k] == o.c_amounts@[k] * u && pn.res()[k] == n.c_amounts@[k] * u
        && pn.res()[k] - po.res()[k] == (n.c_amounts@[k] - o.c_amounts@[k]) * u && pn.res()[k] >= 0 })
{
    ${P}::unit_pos(o.dec(k)); let u = ${P}::unit(o.dec(k)); let a = o.c_amounts@[k] as int; let b = n.c_amounts@[k] as int;
    assert(b * u - a * u == (b - a) * u) by(nonlinear_arith);
    assert(b * u >= 0) by(nonlinear_arith) requires b >= 0, u > 0;
}
proof fn ${P}_swap(o: ${P}, n: ${P}, tin: AccountId, a: int, tout: AccountId, out: int, fees: AdminFees, v: bool)
    requires o.shape(), o.swapped(&n, tin, a, tout, out, fees, v), 0 <= a, fees.admin_fee_bps <= 8000, fees.referral_info is Some ==> (fees.referral_info->0).1 <= 10000,
    ensures exists|i: int, j: int| #[trigger] swapped(Pool::${P}(o), Pool::${P}(n), i, j, tin, tout, a, out),
        !v && o.wf() ==> no_one_loses(Pool::${P}(n), Pool::${P}(o)),
{
    let po = Pool::${P}(o); let pn = Pool::${P}(n); let i = o.idx(tin); let j = o.idx(tout);
    o.p07_swap(&n, tin, a, tout, out, fees, v); e24();
    ${P}_res(o, n, i); ${P}_res(o, n, j);
    let d = o.c_amounts@[j] - n.c_amounts@[j]; let u = ${P}::unit(o.dec(j));
    assert((n.c_amounts@[j] - o.c_amounts@[j]) * u == -(d * u)) by(nonlinear_arith) requires d == o.c_amounts@[j] - n.c_amounts@[j];
    assert(swapped(po, pn, i, j, tin, tout, a, out));
    if !v && o.wf() { let ns = n.shares_total_supply - o.shares_total_supply; fee_up(o.shares@, fees, ns); }
}
proof fn ${P}_add(o: ${P}, n: ${P}, who: AccountId, a: Seq<u128>, fees: AdminFees, v: bool)
    requires o.shape(), o.added(&n, who, a, fees, v), fees.admin_fee_bps <= 10000, fees.referral_info is Some ==> (fees.referral_info->0).1 <= 10000,
    ensures took(Pool::${P}(o), Pool::${P}(n), a),
        !v && o.wf() ==> no_one_loses(Pool::${P}(n), Pool::${P}(o)) && mget(n.shares@, who) >= mget(o.shares@, who) + o.add_mint(a),
{
    let po = Pool::${P}(o); let pn = Pool::${P}(n);
    o.p08_add(&n, who, a, fees, v); e24();
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] pn.res()[i] <= po.res()[i] + a[i] * us() && pn.res()[i] >= po.res()[i] by {
        ${P}_res(o, n, i); let u = ${P}::unit(o.dec(i)); let d = n.c_amounts@[i] - o.c_amounts@[i]; assert(d * u >= 0) by(nonlinear_arith) requires d >= 0, u > 0;
    }
    if !v && o.wf() {
        let m = o.add_mint(a); let f = o.add_fee(a); let b = fees.admin_fee_bps as int; let adm = (f * b) / 10000;
        assert(f * b >= 0) by(nonlinear_arith) requires f >= 0, b >= 0;
        credit_up(o.shares@, who, m); fee_up(credit(o.shares@, who, m), fees, adm);
    }
}
proof fn ${P}_take(o: ${P}, n: ${P}, who: AccountId, a: Seq<u128>, fees: AdminFees, v: bool)
    requires o.shape(), o.taken(&n, who, a, fees, v), fees.admin_fee_bps <= 10000, fees.referral_info is None,
    ensures gave(Pool::${P}(o), Pool::${P}(n), a),
        !v && who != fees.exchange_id ==> mget(n.shares@, who) == mget(o.shares@, who) - o.rem_burn(a),
        !v && o.wf() ==> forall|id: AccountId| id != who ==> #[trigger] mget(n.shares@, id) >= mget(o.shares@, id),
{
    let po = Pool::${P}(o); let pn = Pool::${P}(n);
    o.p10_take(&n, who, a, fees, v); e24();
    assert forall|i: int| 0 <= i < a.len() implies 0 <= #[trigger] pn.res()[i] <= po.res()[i] - a[i] * us() by {
        ${P}_res(o, n, i); let u = ${P}::unit(o.dec(i)); let d = o.c_amounts@[i] - n.c_amounts@[i];
        assert((n.c_amounts@[i] - o.c_amounts@[i]) * u == -(d * u)) by(nonlinear_arith) requires d == o.c_amounts@[i] - n.c_amounts@[i];
    }
    if !v {
        let bu = o.rem_burn(a); let m = o.shares@.insert(who, (o.shares@[who] - bu) as u128);
        let f = o.rem_fee(a); let b = fees.admin_fee_bps as int; let adm = (f * b) / 10000;
        assert(f * b >= 0) by(nonlinear_arith) requires f >= 0, b >= 0;
        if o.wf() { msum_insert(o.shares@, who, (o.shares@[who] - bu) as u128); fee_up(m, fees, adm);
            assert forall|id: AccountId| id != who implies #[trigger] mget(n.shares@, id) >= mget(o.shares@, id) by { assert(mget(m, id) == mget(o.shares@, id)); }
        }
    }
}
spec fn ${P}_paid(o: ${P}, n: ${P}, s: int, r: Seq<u128>, i: int) -> bool {
    o.shares_total_supply > 0 && r[i] == ${P}::to_a((o.c_amounts@[i] * s) / (o.shares_total_supply as int), o.dec(i))
        && n.c_amounts@[i] == o.c_amounts@[i] - (o.c_amounts@[i] * s) / (o.shares_total_supply as int)
}
proof fn ${P}_share(o: ${P}, n: ${P}, s: int, r: Seq<u128>)
    requires o.shape(), n.same_config(&o), n.shape(), r.len() == o.c_amounts@.len(), 0 <= s <= o.shares_total_supply,
        forall|i: int| 0 <= i < r.len() ==> #[trigger] ${P}_paid(o, n, s, r, i),
    ensures gave(Pool::${P}(o), Pool::${P}(n), r), r == Pool::${P}(o).redeem(s),
{
    let po = Pool::${P}(o); let pn = Pool::${P}(n); e24();
    assert forall|i: int| 0 <= i < r.len() implies r[i] == po.redeem(s)[i] by { assert(${P}_paid(o, n, s, r, i)); }
    assert(r =~= po.redeem(s));
    assert forall|i: int| 0 <= i < r.len() implies 0 <= #[trigger] pn.res()[i] <= po.res()[i] - r[i] * us() by {
        assert(${P}_paid(o, n, s, r, i));
        assert(1 <= o.token_decimals@[i] <= 24);
        ${P}_res(o, n, i); ${P}::p09_share(o.c_amounts@[i] as int, s, o.shares_total_supply as int, o.dec(i));
        let u = ${P}::unit(o.dec(i)); let t = (o.c_amounts@[i] * s) / (o.shares_total_supply as int);
        assert((n.c_amounts@[i] - o.c_amounts@[i]) * u == -(t * u)) by(nonlinear_arith) requires -t == n.c_amounts@[i] - o.c_amounts@[i];
    }
}
/// what the contract assumes of a new pool and of a change of the amplification
fn ${P}_new(id: u32, toks: Vec<VAcc>, dec: Vec<u8>, amp: u128, fee: u32) -> (r: ${P})
    requires toks@.len() == dec@.len() <= u32::MAX ensures fee < 10000, fresh(Pool::${P}(r), toks@, fee as int)
{ let ghost t = toks@; let r = ${P}::new(id, toks, dec, amp, fee);
  proof { let p = Pool::${P}(r); assert(p.toks() =~= acc_of(t));
    assert forall|i: int| 0 <= i < t.len() implies p.res()[i] == 0 by { let u = ${P}::unit(r.dec(i)); assert(0 * u == 0) by(nonlinear_arith); }
    assert(p.res() =~= Seq::new(t.len(), |i: int| 0int)); }
  r }
fn ${P}_ramp(p: &mut ${P}, f: u128, t: u64) requires old(p).shape() ensures ramp_only(Pool::${P}(*old(p)), Pool::${P}(*final(p)))
{ p.ramp_amplification(f, t); proof { assert(Pool::${P}(*p).res() =~= Pool::${P}(*old(p)).res()); } }
fn ${P}_stop(p: &mut ${P}) requires old(p).shape() ensures ramp_only(Pool::${P}(*old(p)), Pool::${P}(*final(p)))
{ p.stop_ramp_amplification(); proof { assert(Pool::${P}(*p).res() =~= Pool::${P}(*old(p)).res()); } }
@end
