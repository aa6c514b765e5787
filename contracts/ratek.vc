@fn ${T}::are_actual(self) -> r props=P21
    ensures r == (s_now() <= self.rates_updated_at + DAY),
@fn ${T}::get(self) -> r props=P21
    ensures r == self.stored_rates,
@fn ${T}::last_update_ts(self) -> r props=P21
    ensures r == self.rates_updated_at,
@fn ${T}::async_update(self) -> r props=P21
    ensures r@ == ask(self.contract_id, ${M}(), PArgs::None),
@fn ${T}::set(self, cross_call_result) -> r props=P21
    ensures near_ok(cross_call_result@, r as int), final(self).stored_rates == r, final(self).rates_updated_at == s_now(), final(self).contract_id == old(self).contract_id,
@fn ${T}::new(contract_id) -> r props=P21
    ensures r.stored_rates == 1_000_000_000_000_000_000_000_000, r.rates_updated_at == 0, r.contract_id == contract_id,
@end
