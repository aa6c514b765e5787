@include dbase.vc
@verus
/// what the pools' contracts call the price of a token, and its validity
pub axiom fn price_table()
    ensures forall|t: AccountId| #[trigger] s_degen(t) == (s_degens()[t].info()->0).stored_degen,
        forall|t: AccountId| #[trigger] s_degen_ok(t) == (s_degens().dom().contains(t) && s_degens()[t].fresh());
impl VDegens {
    #[verifier::external_body] pub fn lock(&self) -> (r: Option<VDegens>) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &AccountId) -> (r: Option<&Degen>) ensures r is Some <==> s_degens().dom().contains(*k), r is Some ==> *(r->0) == s_degens()[*k] { unimplemented!() }
}
@fn global_get_degen(token_id) -> r props=P21
    ensures s_degens().dom().contains(*token_id), r == s_degens()[*token_id],
@fn is_global_degen_price_valid(token_id) -> r props=P21
    ensures s_degens().dom().contains(*token_id), s_degens()[*token_id].info() is Some, r == s_degen_ok(*token_id),
@entry
    proof { price_table(); }
@fn DegenSwapPool::get_degens(self) -> r props=P21,P07
    ensures r@ == self.rt(),
@entry
    proof { price_table(); }
@loop 0
    invariant forall|t: AccountId| #[trigger] s_degen(t) == (s_degens()[t].info()->0).stored_degen,
        0 <= __i0 <= __s0@.len(), __s0@ == self.token_account_ids@, __v0@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> #[trigger] __v0@[i] == s_degen(self.token_account_ids@[i]),
@exit
    proof { assert(r@ =~= self.rt()); }
@fn DegenSwapPool::assert_degens_valid(self) props=P21
    ensures self.gate(),
@loop 0
    invariant 0 <= __i0 <= __s0@.len(), __s0@ == self.token_account_ids@, forall|i: int| 0 <= i < __i0 ==> s_degen_ok(#[trigger] self.token_account_ids@[i]),
@end
