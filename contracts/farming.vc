@include fbase.vc
@file ref-farming/src/actions_of_reward.rs
@file ref-farming/src/actions_of_seed.rs
@file ref-farming/src/actions_of_farm.rs
@file ref-farming/src/owner.rs
@file ref-farming/src/storage_impl.rs
@file ref-farming/src/token_receiver.rs
@file ref-farming/src/view.rs
@fn FarmSeed::add_amount(self, amount) props=F04
    ensures *final(self) == (FarmSeed { amount: (old(self).amount + amount) as u128, ..*old(self) }), old(self).amount + amount <= u128::MAX,
@fn FarmSeed::sub_amount(self, amount) -> r props=F04
    ensures *final(self) == (FarmSeed { amount: (old(self).amount - amount) as u128, ..*old(self) }), old(self).amount >= amount, r == final(self).amount,
@fn Farmer::add_reward(self, token, amount) props=F05
    ensures final(self).seeds == old(self).seeds, final(self).user_rps == old(self).user_rps, final(self).rps_count == old(self).rps_count, final(self).amount == old(self).amount,
        forall|t: AccountId| #[trigger] mget(final(self).rewards@, t) == mget(old(self).rewards@, t) + (if t == *token { amount as int } else { 0 }),
@fn Farmer::sub_reward(self, token, amount) -> r props=F05
    ensures final(self).seeds == old(self).seeds, final(self).user_rps == old(self).user_rps, final(self).rps_count == old(self).rps_count, final(self).amount == old(self).amount,
        old(self).rewards@.dom().contains(*token), r == (if amount == 0 { mget(old(self).rewards@, *token) } else { amount as int }),
        forall|t: AccountId| #[trigger] mget(final(self).rewards@, t) == mget(old(self).rewards@, t) - (if t == *token { r as int } else { 0 }),
@fn Farmer::add_seed(self, seed_id, amount) props=F04
    ensures final(self).rewards == old(self).rewards, final(self).user_rps == old(self).user_rps, final(self).rps_count == old(self).rps_count, final(self).amount == old(self).amount,
        forall|s: SeedId| #[trigger] mget(final(self).seeds@, s) == mget(old(self).seeds@, s) + (if s == *seed_id { amount as int } else { 0 }),
@fn Farmer::sub_seed(self, seed_id, amount) -> r props=F04
    ensures final(self).rewards == old(self).rewards, final(self).user_rps == old(self).user_rps, final(self).rps_count == old(self).rps_count, final(self).amount == old(self).amount,
        old(self).seeds@.dom().contains(*seed_id), mget(old(self).seeds@, *seed_id) >= amount, r == mget(final(self).seeds@, *seed_id),
        forall|s: SeedId| #[trigger] mget(final(self).seeds@, s) == mget(old(self).seeds@, s) - (if s == *seed_id { amount as int } else { 0 }),
@fn Farmer::get_rps(self, farm_id) -> r props=F03
    ensures r.v() == mark_in(self.user_rps@, *farm_id),
@fn Farmer::set_rps(self, farm_id, rps) props=F03
    ensures final(self).rewards == old(self).rewards, final(self).seeds == old(self).seeds, final(self).amount == old(self).amount,
        final(self).user_rps@ == old(self).user_rps@.insert(*farm_id, rps),
        /*F06*/ final(self).rps_count == old(self).rps_count + (if old(self).user_rps@.dom().contains(*farm_id) { 0int } else { 1 }),
@fn Farmer::remove_rps(self, farm_id) props=F03
    ensures final(self).rewards == old(self).rewards, final(self).seeds == old(self).seeds, final(self).amount == old(self).amount,
        final(self).user_rps@ == old(self).user_rps@.remove(*farm_id),
@exit
    proof { if !old(self).user_rps@.dom().contains(*farm_id) { assert(old(self).user_rps@.remove(*farm_id) =~= old(self).user_rps@); } }
@fn Farmer::storage_usage(self) -> r props=F06
    ensures r == f_cost(*self),
@entry
    proof {
        let x = self.rewards@.dom().len() as int; let y = self.seeds@.dom().len() as int; let z = self.rps_count as int;
        assert(x * 84 == 84 * x && y * 84 == 84 * y && z * 165 == 165 * z);
        assert(forall|s: int| s == 92 + 84 * x + 84 * y + 165 * z ==> #[trigger] (s * s_byte_cost()) == f_cost(*self));
    }
@fn VersionedFarmer::new(farmer_id, amount) -> r props=F05
    ensures r->V101_0.amount == amount, r->V101_0.rewards@ == Map::<AccountId, u128>::empty(), r->V101_0.seeds@ == Map::<SeedId, u128>::empty(), r->V101_0.rps_count == 0, marks(r) == s_left(farmer_id),
@subst LookupMap :: new (=>v_reopen (
@fn VersionedFarmer::get_ref_mut(self) -> r props=F05
    ensures *r == old(self)->V101_0, *final(self) == VersionedFarmer::V101(*final(r)),
@fn VersionedFarmSeed::get_ref_mut(self) -> r props=F04
    ensures *r == old(self)->V101_0, *final(self) == VersionedFarmSeed::V101(*final(r)),
@fn Contract::data_mut(self) -> r props=F04,F05
    ensures old(self).data is V0110, *r == old(self).d(), final(self).data == VersionedContractData::V0110(*final(r)),
@fn VersionedFarmer::need_upgrade(self) -> r props=F05
    ensures r == false,
@fn VersionedFarmer::upgrade(self) -> r props=F05
    ensures r == self,
@fn VersionedFarmer::get_ref(self) -> r props=F05
    ensures *r == self->V101_0,
@fn VersionedFarmSeed::new(seed_id, min_deposit) -> r props=F04
    ensures ({ let x = r->V101_0; x.seed_id == *seed_id && x.farms@ == Set::<FarmId>::empty() && x.next_index == 0 && x.amount == 0 && x.min_deposit == min_deposit }),
@fn VersionedFarmSeed::need_upgrade(self) -> r props=F04
    ensures r == false,
@fn VersionedFarmSeed::upgrade(self) -> r props=F04
    ensures r == self,
@fn VersionedFarmSeed::get_ref(self) -> r props=F04
    ensures *r == self->V101_0,
@fn FarmSeed::new(seed_id, min_deposit) -> r props=F04
    ensures r.seed_id == *seed_id && r.farms@ == Set::<FarmId>::empty() && r.next_index == 0 && r.amount == 0 && r.min_deposit == min_deposit,
@fn Farm::add_reward(self, amount) -> r props=F01
    requires sf(*old(self)).wf(),
    ensures reward_added(sf(*old(self)), sf(*final(self)), *amount as int, r),
@fn Farm::get_seed_id(self) -> r props=F04
    ensures r == sf(*self).terms.seed_id,
@fn Farm::get_reward_token(self) -> r props=F05
    ensures r == sf(*self).terms.reward_token,
@fn Farm::get_farm_id(self) -> r props=F03
    ensures r == sf(*self).farm_id,
@fn Farm::view_farmer_unclaimed_reward(self, user_rps, user_seeds, total_seeds) -> r props=F03
    ensures r == unclaimed_now(sf(*self), user_rps.v(), *user_seeds as int, *total_seeds as int),
@fn Farm::claim_user_reward(self, user_rps, user_seeds, total_seeds, silent) -> r props=F01,F03
    requires sf(*old(self)).wf(),
    ensures sf(*final(self)).wf(), claimed_step(sf(*old(self)), user_rps.v(), *user_seeds as int, *total_seeds as int, sf(*final(self)), r.0, r.1 as int),
@fn Farm::can_be_removed(self, total_seeds) -> r props=F06
    ensures r == removable(sf(*self)),
@fn Farm::move_to_clear(self, total_seeds) -> r props=F06,F01
    requires sf(*old(self)).wf(),
    ensures cleared(sf(*old(self)), sf(*final(self)), r),
@fn parse_farm_id(farm_id) -> r trusted
    ensures r.0 == seed_of(*farm_id),
@fn gen_farm_id(seed_id, index) -> r trusted
    ensures r == mk_fid(*seed_id, index as int),
@fn parse_seed_id(lpt_id) -> r trusted
    ensures r.0 == seed_host(*lpt_id), r.1 == seed_sub(*lpt_id),
@fn wrap_mft_token_id(token_id) -> r trusted
    ensures r == mft_name(*token_id),
@fn assert_one_yocto() as=one_yocto_here props=F05
    ensures s_deposit() == 1,
@fn claim_user_reward_from_farm(farm, farmer, total_seeds, silent) props=F01,F03,F05
    requires sf(*old(farm)).wf(),
    ensures one_claim(*old(farm), VersionedFarmer::V101(*old(farmer)), *total_seeds as int, *final(farm), VersionedFarmer::V101(*final(farmer))),
@fn Contract::get_farmer(self, from) -> r props=F04,F05
    requires self.data is V0110,
    ensures self.has(*from), r == self.fm()[*from],
@fn Contract::get_farmer_wrapped(self, from) -> r props=F04,F05
    requires self.data is V0110,
    ensures r == mopt(self.fm(), *from),
@fn Contract::get_seed(self, seed_id) -> r props=F04
    requires self.data is V0110,
    ensures self.sm().dom().contains(*seed_id), r == self.sm()[*seed_id],
@fn Contract::get_seed_wrapped(self, seed_id) -> r props=F04
    requires self.data is V0110,
    ensures r == mopt(self.sm(), *seed_id),
@fn Contract::internal_claim_user_reward_by_farm_id(self, sender_id, farm_id) props=F01,F03,F05
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same_conf(old(self)), final(self).sm() == old(self).sm(), final(self).only(old(self), *sender_id), kept(old(self), final(self), *sender_id),
        ({ let fset = if old(self).gm().dom().contains(*farm_id) { set![*farm_id] } else { Set::<FarmId>::empty() };
           claims(old(self), final(self), *sender_id, fset) && marked(old(self), final(self), *sender_id, fset) }),
@exit
    proof {
        let a = *sender_id; let f = *farm_id;
        claim_start(old(self), a);
        assert(self.sm() =~= old(self).sm());
        assert(self.fm() =~= old(self).fm().insert(a, self.fm()[a]));
        if old(self).gm().dom().contains(f) {
            assert(farm_ok(old(self).sm(), f, old(self).gm()[f]));
            assert(self.gm() =~= old(self).gm().insert(f, self.gm()[f]));
            claim_one(old(self), old(self).gm(), old(self).fm()[a], a, Set::empty(), f, self.gm()[f], self.fm()[a]);
            assert(Set::<FarmId>::empty().insert(f) =~= set![f]);
        } else { assert(self.fm() =~= old(self).fm()); assert(self.gm() =~= old(self).gm()); }
    }
@fn Contract::internal_claim_user_reward_by_seed_id(self, sender_id, seed_id) props=F01,F03,F05
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same_conf(old(self)), final(self).sm() == old(self).sm(), final(self).only(old(self), *sender_id), kept(old(self), final(self), *sender_id),
        claims(old(self), final(self), *sender_id, seed_farms(old(self), *seed_id)), marked(old(self), final(self), *sender_id, seed_farms(old(self), *seed_id)),
@entry
    proof { if self.has(*sender_id) { claim_start(self, *sender_id); } }
@loop 0
    invariant __i0 == 0 || (__i0 <= __s0.ord().len() && is_order(__s0.ord(), __s0@)), __s0@ == seed_farms(old(self), *seed_id), amount == total_of(old(self).sm(), *seed_id),
        old(self).sm().dom().contains(*seed_id), self.same_conf(old(self)), self.sm() == old(self).sm(), self.fm() == old(self).fm(), self.om() == old(self).om(),
        part(old(self), self.gm(), farmer, *sender_id, seen(__s0.ord(), __i0 as int)),
@loop_entry 0
    let ghost gm0 = self.gm(); let ghost v0 = farmer; let ghost i0 = __i0 as int;
    proof { assert(__s0@.contains(__s0.ord()[i0])); farm_of_seed(old(self), gm0, v0, *sender_id, seen(__s0.ord(), i0), *seed_id, __s0.ord()[i0]); }
@loop_end 0
    proof {
        let f = __s0.ord()[i0];
        seen_step(__s0.ord(), __s0@, i0);
        assert(self.gm() =~= gm0.insert(f, self.gm()[f]));
        claim_one(old(self), gm0, v0, *sender_id, seen(__s0.ord(), i0), f, self.gm()[f], farmer);
    }
@after_loop 0
    proof { seen_all(__s0.ord(), __s0@); }
@exit
    proof {
        assert(self.sm() =~= old(self).sm());
        assert(self.fm() =~= old(self).fm().insert(*sender_id, self.fm()[*sender_id]));
        if !old(self).sm().dom().contains(*seed_id) { assert(self.fm() =~= old(self).fm()); assert(self.gm() =~= old(self).gm()); }
    }
@fn Contract::internal_seed_deposit(self, seed_id, sender_id, amount, seed_type) props=F03,F04
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same_conf(old(self)), final(self).only(old(self), *sender_id),
        staked(old(self), final(self), *sender_id, *seed_id, amount as int), fs(final(self).sm(), *seed_id).seed_type == seed_type,
        claims(old(self), final(self), *sender_id, seed_farms(old(self), *seed_id)), marked(old(self), final(self), *sender_id, seed_farms(old(self), *seed_id)),
@exit
    proof {
        let (a, s, fset) = (*sender_id, *seed_id, seed_farms(old(self), *seed_id));
        assert(self.fm() =~= old(self).fm().insert(a, self.fm()[a]));
        assert(self.sm() =~= old(self).sm().insert(s, self.sm()[s]));
        assert forall|v1: VersionedFarmer| #[trigger] claims_v(old(self), self.gm(), v1, a, fset) && part(old(self), self.gm(), v1, a, fset) && restaked(old(self).sm(), self.sm(), v1, self.fm()[a], s, amount as int)
            implies st_inv(self.sm(), self.fm(), self.gm(), self.om()) && claims_v(old(self), self.gm(), self.fm()[a], a, fset) && (stk(self.fm()[a], s) != 0 || marks(self.fm()[a]) == marks(v1) ==> marked_v(old(self), self.gm(), self.fm()[a], a, fset))
            by { restake(old(self), self.gm(), v1, a, s, self.fm()[a], self.sm(), amount as int); }
    }
@fn Contract::internal_seed_withdraw(self, seed_id, sender_id, amount) -> r props=F03,F04
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same_conf(old(self)), final(self).only(old(self), *sender_id),
        old(self).stake(*sender_id, *seed_id) >= amount,
        staked(old(self), final(self), *sender_id, *seed_id, -(amount as int)),
        r == fs(old(self).sm(), *seed_id).seed_type,
        claims(old(self), final(self), *sender_id, seed_farms(old(self), *seed_id)),
        final(self).stake(*sender_id, *seed_id) > 0 ==> marked(old(self), final(self), *sender_id, seed_farms(old(self), *seed_id)),
@before_loop 0
    let ghost w0 = farmer; let ghost wm = marks(farmer);
@loop 0
    invariant __i0 == 0 || (__i0 <= __s0.ord().len() && is_order(__s0.ord(), __s0@)), __s0@ == farm_seed->V101_0.farms@,
        farmer->V101_0.seeds@ == w0->V101_0.seeds@, farmer->V101_0.rewards@ == w0->V101_0.rewards@, farmer->V101_0.amount == w0->V101_0.amount,
        forall|f: FarmId| #[trigger] marks(farmer).dom().contains(f) ==> wm.dom().contains(f) && marks(farmer)[f] == wm[f],
        forall|f: FarmId| #[trigger] wm.dom().contains(f) ==> marks(farmer).dom().contains(f) || farm_seed->V101_0.farms@.contains(f),
@loop_entry 0
    let ghost m0 = marks(farmer);
@loop_end 0
    proof {
        assert forall|f: FarmId| #[trigger] marks(farmer).dom().contains(f) implies m0.dom().contains(f) && marks(farmer)[f] == m0[f] by {}
    }
@exit
    proof {
        let (a, s, fset) = (*sender_id, *seed_id, seed_farms(old(self), *seed_id));
        assert(self.fm() =~= old(self).fm().insert(a, self.fm()[a]));
        assert(self.sm() =~= old(self).sm().insert(s, self.sm()[s]));
        assert forall|v1: VersionedFarmer| #[trigger] claims_v(old(self), self.gm(), v1, a, fset) && part(old(self), self.gm(), v1, a, fset) && restaked(old(self).sm(), self.sm(), v1, self.fm()[a], s, -(amount as int))
            implies st_inv(self.sm(), self.fm(), self.gm(), self.om()) && claims_v(old(self), self.gm(), self.fm()[a], a, fset) && (stk(self.fm()[a], s) != 0 || marks(self.fm()[a]) == marks(v1) ==> marked_v(old(self), self.gm(), self.fm()[a], a, fset))
            by { restake(old(self), self.gm(), v1, a, s, self.fm()[a], self.sm(), -(amount as int)); }
    }
@fn Contract::withdraw_seed(self, seed_id, amount) -> r props=F03,F04
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same_conf(old(self)), s_deposit() == 1, /*F06*/ old(self).running(), final(self).only(old(self), s_pred()),
        old(self).stake(s_pred(), seed_id) >= amount.0,
        staked(old(self), final(self), s_pred(), seed_id, -(amount.0 as int)),
        claims(old(self), final(self), s_pred(), seed_farms(old(self), seed_id)),
        fs(old(self).sm(), seed_id).seed_type is FT ==> sends_ft(r@, seed_id, s_pred(), amount.0 as int, m_cb_ft_seed()),
        fs(old(self).sm(), seed_id).seed_type is MFT ==> sends_mft(r@, seed_id, s_pred(), amount.0 as int),
@fn Contract::callback_post_withdraw_ft_seed(self, seed_id, sender_id, amount) -> r props=F04,F03
    requires old(self).inv(),
    ensures /*F06*/ s_pred() == s_me(), s_results() == 1, final(self).inv(),
        s_result(0) is Successful ==> *final(self) == *old(self) && r.0 == amount.0,
        s_result(0) is Failed ==> final(self).same_conf(old(self)) && final(self).only(old(self), sender_id) && r.0 == 0
            && staked(old(self), final(self), sender_id, seed_id, amount.0 as int) && fs(final(self).sm(), seed_id).seed_type is FT
            && claims(old(self), final(self), sender_id, seed_farms(old(self), seed_id)) && marked(old(self), final(self), sender_id, seed_farms(old(self), seed_id)),
@exit
    proof {
        let (a, s, fset) = (sender_id, seed_id, seed_farms(old(self), seed_id));
        if !(s_result(0) is Successful) {
        assert(self.fm() =~= old(self).fm().insert(a, self.fm()[a]));
        assert(self.sm() =~= old(self).sm().insert(s, self.sm()[s]));
        assert forall|v1: VersionedFarmer| #[trigger] claims_v(old(self), self.gm(), v1, a, fset) && part(old(self), self.gm(), v1, a, fset) && restaked(old(self).sm(), self.sm(), v1, self.fm()[a], s, amount.0 as int)
            implies st_inv(self.sm(), self.fm(), self.gm(), self.om()) && claims_v(old(self), self.gm(), self.fm()[a], a, fset) && (stk(self.fm()[a], s) != 0 || marks(self.fm()[a]) == marks(v1) ==> marked_v(old(self), self.gm(), self.fm()[a], a, fset))
            by { restake(old(self), self.gm(), v1, a, s, self.fm()[a], self.sm(), amount.0 as int); }
        }
    }
@fn Contract::callback_post_withdraw_mft_seed(self, seed_id, sender_id, amount) -> r props=F04,F03
    requires old(self).inv(),
    ensures /*F06*/ s_pred() == s_me(), s_results() == 1, final(self).inv(),
        s_result(0) is Successful ==> *final(self) == *old(self) && r.0 == amount.0,
        s_result(0) is Failed ==> final(self).same_conf(old(self)) && final(self).only(old(self), sender_id) && r.0 == 0
            && staked(old(self), final(self), sender_id, seed_id, amount.0 as int) && fs(final(self).sm(), seed_id).seed_type is MFT
            && claims(old(self), final(self), sender_id, seed_farms(old(self), seed_id)) && marked(old(self), final(self), sender_id, seed_farms(old(self), seed_id)),
@exit
    proof {
        let (a, s, fset) = (sender_id, seed_id, seed_farms(old(self), seed_id));
        if !(s_result(0) is Successful) {
        assert(self.fm() =~= old(self).fm().insert(a, self.fm()[a]));
        assert(self.sm() =~= old(self).sm().insert(s, self.sm()[s]));
        assert forall|v1: VersionedFarmer| #[trigger] claims_v(old(self), self.gm(), v1, a, fset) && part(old(self), self.gm(), v1, a, fset) && restaked(old(self).sm(), self.sm(), v1, self.fm()[a], s, amount.0 as int)
            implies st_inv(self.sm(), self.fm(), self.gm(), self.om()) && claims_v(old(self), self.gm(), self.fm()[a], a, fset) && (stk(self.fm()[a], s) != 0 || marks(self.fm()[a]) == marks(v1) ==> marked_v(old(self), self.gm(), self.fm()[a], a, fset))
            by { restake(old(self), self.gm(), v1, a, s, self.fm()[a], self.sm(), amount.0 as int); }
        }
    }
@fn Contract::remove_user_rps_by_farm(self, farm_id) -> r props=F03,F06
    requires old(self).inv(),
    ensures final(self).inv(), /*F06*/ old(self).running(), final(self).same_conf(old(self)), final(self).sm() == old(self).sm(), final(self).gm() == old(self).gm(),
        final(self).only(old(self), s_pred()), kept(old(self), final(self), s_pred()), final(self).fr(s_pred()).rewards == old(self).fr(s_pred()).rewards,
        // only the marker of a farm that is no more
        r ==> !old(self).gm().dom().contains(farm_id) && marks(final(self).fm()[s_pred()]) == marks(old(self).fm()[s_pred()]).remove(farm_id),
        !r ==> *final(self) == *old(self),
@exit
    proof {
        let a = s_pred();
        assert(self.fm() =~= old(self).fm().insert(a, self.fm()[a]));
        if r { unmark(old(self), a, self.fm()[a], farm_id);
            if old(self).gm().dom().contains(farm_id) { assert(farm_ok(old(self).sm(), farm_id, old(self).gm()[farm_id])); } }
    }
@fn Contract::internal_farmer_storage(self, account_id) -> r props=F06
    requires self.data is V0110,
    ensures self.has(*account_id) ==> r.0 == f_cost(self.fr(*account_id)) && r.1 == self.fr(*account_id).amount, !self.has(*account_id) ==> r.0 == 0 && r.1 == 0,
@fn Contract::assert_storage_usage(self, account_id) props=F06
    requires self.data is V0110,
    ensures self.pays(*account_id),
@fn Contract::suggested_min_storage_usage() -> r props=F06
    ensures r == min_cost(),
@fn Contract::claim_reward_by_farm(self, farm_id) props=F01,F03,F05
    requires old(self).inv(),
    ensures final(self).inv(), /*F06*/ old(self).running(), /*F06*/ final(self).pays(s_pred()), final(self).same_conf(old(self)), final(self).sm() == old(self).sm(), final(self).only(old(self), s_pred()), kept(old(self), final(self), s_pred()),
        ({ let fset = if old(self).gm().dom().contains(farm_id) { set![farm_id] } else { Set::<FarmId>::empty() };
           claims(old(self), final(self), s_pred(), fset) && marked(old(self), final(self), s_pred(), fset) }),
@fn Contract::claim_reward_by_seed(self, seed_id) props=F01,F03,F05
    requires old(self).inv(),
    ensures final(self).inv(), /*F06*/ old(self).running(), /*F06*/ final(self).pays(s_pred()), final(self).same_conf(old(self)), final(self).sm() == old(self).sm(), final(self).only(old(self), s_pred()), kept(old(self), final(self), s_pred()),
        claims(old(self), final(self), s_pred(), seed_farms(old(self), seed_id)), marked(old(self), final(self), s_pred(), seed_farms(old(self), seed_id)),
@fn Contract::withdraw_reward(self, token_id, amount) -> r props=F05
    requires old(self).inv(),
    ensures final(self).inv(), /*F06*/ old(self).running(), s_deposit() == 1,
        ({ let (a, t) = (s_pred(), token_id.0); let amt = if amount is Some && (amount->0).0 != 0 { (amount->0).0 as int } else { old(self).reward(a, t) };
           &&& amt <= old(self).reward(a, t)
           &&& final(self).rewarded(old(self), a, t, -amt)
           &&& sends_ft(r@, t, a, amt, m_cb_reward()) }),
@exit
    proof {
        let a = s_pred();
        assert(self.fm() =~= old(self).fm().insert(a, self.fm()[a]));
        touch(old(self), a, self.fm()[a]);
        assert(owns(self.fm()[a], token_id.0) >= 0);
        assert(self.reward(a, token_id.0) == mget(self.fr(a).rewards@, token_id.0));
    }
@fn Contract::callback_post_withdraw_reward(self, token_id, sender_id, amount) -> r props=F05
    requires old(self).inv(),
    ensures /*F06*/ s_pred() == s_me(), s_results() == 1, final(self).inv(),
        s_result(0) is Successful ==> *final(self) == *old(self) && r.0 == amount.0,
        s_result(0) is Failed ==> final(self).rewarded(old(self), sender_id, token_id, amount.0 as int) && r.0 == 0,
@exit
    proof {
        if s_result(0) is Failed {
        assert(self.fm() =~= old(self).fm().insert(sender_id, self.fm()[sender_id]));
        touch(old(self), sender_id, self.fm()[sender_id]); }
    }
@fn Contract::internal_register_account(self, account_id, amount) props=F06
    requires old(self).inv(), old(self).left_ok(*account_id),
    ensures final(self).inv(), final(self).re_deposit(old(self), *account_id, old(self).deposited(*account_id) + amount),
@exit
    proof {
        let a = *account_id;
        assert(self.fm() =~= old(self).fm().insert(a, self.fm()[a]));
        if old(self).has(a) { touch(old(self), a, self.fm()[a]); } else { enroll(old(self), a, self.fm()[a]); }
    }
@fn Contract::storage_balance_of(self, account_id) -> r props=F06
    requires self.data is V0110,
    ensures r is Some ==> self.has(account_id.0) && (r->0).total.0 == self.fr(account_id.0).amount && (r->0).available.0 == (if self.fr(account_id.0).amount >= f_cost(self.fr(account_id.0)) { self.fr(account_id.0).amount - f_cost(self.fr(account_id.0)) } else { 0 }),
        self.has(account_id.0) && f_cost(self.fr(account_id.0)) > 0 ==> r is Some,
@fn Contract::storage_balance_bounds(self) -> r props=F06
    ensures r.min.0 == min_cost(), r.max is None,
@fn Contract::storage_deposit(self, account_id, registration_only) -> r props=F06
    requires old(self).inv(),
        ({ let who = if account_id is Some { (account_id->0).0 } else { s_pred() };
           &&& old(self).left_ok(who)
           &&& registration_only == Some(true) && old(self).deposited(who) == 0 ==> may_send(s_pred(), s_deposit() - min_cost()) }),
    ensures final(self).inv(), old(self).running(),
        ({ let who = if account_id is Some { (account_id->0).0 } else { s_pred() }; let fresh = old(self).deposited(who) == 0; let only = registration_only == Some(true);
           &&& fresh ==> s_deposit() >= min_cost()
           &&& !fresh ==> !only && s_deposit() + old(self).deposited(who) >= f_cost(old(self).fr(who))
           &&& final(self).re_deposit(old(self), who, old(self).deposited(who) + (if only { min_cost() } else { s_deposit() }))
           &&& r.total.0 == final(self).fr(who).amount }),
@fn Contract::storage_withdraw(self, amount) -> r props=F06
    requires old(self).inv(),
        old(self).has(s_pred()) ==> may_send(s_pred(), if amount is Some { (amount->0).0 as int } else { old(self).fr(s_pred()).amount - f_cost(old(self).fr(s_pred())) }),
    ensures final(self).inv(), old(self).running(), s_deposit() == 1, old(self).has(s_pred()),
        // at most the unused part
        ({ let amt = if amount is Some { (amount->0).0 as int } else { old(self).fr(s_pred()).amount - f_cost(old(self).fr(s_pred())) };
           &&& 0 <= amt <= old(self).fr(s_pred()).amount - f_cost(old(self).fr(s_pred()))
           &&& final(self).re_deposit(old(self), s_pred(), old(self).fr(s_pred()).amount - amt) }),
@exit
    proof {
        let a = s_pred();
        assert(self.fm() =~= old(self).fm().insert(a, self.fm()[a]));
        touch(old(self), a, self.fm()[a]);
    }
@fn Contract::storage_unregister(self, force) -> r props=F06
    requires old(self).inv(), old(self).has(s_pred()) ==> may_send(s_pred(), old(self).fr(s_pred()).amount as int),
    ensures final(self).inv(), old(self).running(), s_deposit() == 1, r == old(self).has(s_pred()),
        r ==> old(self).fr(s_pred()).rewards@.dom().len() == 0 && old(self).fr(s_pred()).seeds@.dom().len() == 0,
        final(self).same_farming(old(self)), final(self).fm() == old(self).fm().remove(s_pred()), r ==> final(self).d().farmer_count == old(self).d().farmer_count - 1,
@exit
    proof {
        let a = s_pred();
        assert(self.fm() =~= old(self).fm().remove(a));
        if r {
            assert forall|s: SeedId| #[trigger] stk(old(self).fm()[a], s) == 0 by { no_elem(old(self).fr(a).seeds@.dom(), s); }
            drop_farmer(old(self).sm(), old(self).fm(), old(self).gm(), old(self).om(), a);
        } else { assert(self.fm() =~= old(self).fm()); }
    }
@fn Contract::assert_owner(self) props=F06
    requires self.data is V0110,
    ensures self.by_owner(),
@fn Contract::set_owner(self, owner_id) props=F06
    requires old(self).inv(),
    ensures final(self).inv(), old(self).by_owner(), final(self).d() == (ContractData { owner_id: owner_id.0, ..old(self).d() }),
@fn Contract::modify_seed_min_deposit(self, seed_id, min_deposit) props=F06
    requires old(self).inv(),
    ensures final(self).inv(), old(self).by_owner(), final(self).same_conf(old(self)), final(self).fm() == old(self).fm(), final(self).gm() == old(self).gm(), old(self).sm().dom().contains(seed_id),
        final(self).sm() == old(self).sm().insert(seed_id, VersionedFarmSeed::V101(FarmSeed { min_deposit: min_deposit.0, ..fs(old(self).sm(), seed_id) })),
@exit
    proof {
        assert(self.sm().dom() =~= old(self).sm().dom());
        same_stakes(old(self).sm(), self.sm(), self.fm(), self.gm(), self.om());
    }
@fn Contract::pause_contract(self) props=F06
    requires old(self).inv(),
    ensures final(self).inv(), old(self).by_owner(), s_deposit() == 1, final(self).d() == (ContractData { state: RunningState::Paused, ..old(self).d() }),
@fn Contract::resume_contract(self) props=F06
    requires old(self).inv(),
    ensures final(self).inv(), old(self).by_owner(), s_deposit() == 1, final(self).d() == (ContractData { state: RunningState::Running, ..old(self).d() }),
@fn Contract::internal_remove_farm_by_farm_id(self, farm_id) -> r props=F06,F01
    requires old(self).inv(),
    ensures final(self).inv(), final(self).cleaned(old(self), *farm_id, r),
@entry
    proof { if self.gm().dom().contains(*farm_id) { assert(farm_ok(self.sm(), *farm_id, self.gm()[*farm_id])); } }
@at return
    proof {
        let f = *farm_id;
        if r {
            assert(farm_ok(old(self).sm(), f, old(self).gm()[f]));
            drop_farm(old(self).sm(), self.sm(), old(self).fm(), old(self).gm(), old(self).om(), f, self.om()[f]);
            assert(self.gm() =~= old(self).gm().remove(f)); assert(self.om() =~= old(self).om().insert(f, self.om()[f]));
            assert(self.fm() =~= old(self).fm()); assert(st_inv(self.sm(), self.fm(), self.gm(), self.om()));
        }
    }
@exit
    proof {
        let f = *farm_id;
        if r {
            assert(farm_ok(old(self).sm(), f, old(self).gm()[f]));
            drop_farm(old(self).sm(), self.sm(), old(self).fm(), old(self).gm(), old(self).om(), f, self.om()[f]);
            assert(self.gm() =~= old(self).gm().remove(f)); assert(self.om() =~= old(self).om().insert(f, self.om()[f]));
            assert(self.fm() =~= old(self).fm()); assert(st_inv(self.sm(), self.fm(), self.gm(), self.om()));
        }
    }
@fn Contract::force_clean_farm(self, farm_id) -> r props=F06,F01
    requires old(self).inv(),
    ensures final(self).inv(), old(self).by_owner(), final(self).cleaned(old(self), farm_id, r),
@fn Contract::internal_add_farm(self, terms, min_deposit) -> r props=F06,F01
    requires old(self).inv(),
    ensures final(self).inv(), final(self).farm_added(old(self), *terms, min_deposit as int, r),
@exit
    proof {
        new_farm(old(self).sm(), self.sm(), old(self).fm(), old(self).gm(), old(self).om(), r, self.gm()[r]);
        assert(self.gm() =~= old(self).gm().insert(r, self.gm()[r]));
    }
@fn Contract::create_simple_farm(self, terms, min_deposit) -> r props=F06,F01
    requires old(self).inv(), forall|a: int| 0 <= a <= s_deposit() ==> may_send(s_pred(), a),
    ensures final(self).inv(), old(self).by_owner(), final(self).farm_added(old(self), terms, if min_deposit is Some { (min_deposit->0).0 as int } else { MIN_SEED_DEPOSIT as int }, r),
@fn Contract::ft_on_transfer(self, sender_id, amount, msg) -> r props=F04,F01,F03
    requires old(self).inv(),
    ensures final(self).inv(), /*F06*/ old(self).running(), r is Value && (r->Value_0).0 == 0,
        msg.ves() ==> ({ let (a, s, n) = (sender_id.0, s_pred(), amount.0 as int);
            &&& final(self).same_conf(old(self)) && final(self).only(old(self), a) && staked(old(self), final(self), a, s, n) && n >= fs(old(self).sm(), s).min_deposit && fs(final(self).sm(), s).seed_type is FT
            &&& claims(old(self), final(self), a, seed_farms(old(self), s)) && marked(old(self), final(self), a, seed_farms(old(self), s))
            &&& /*F06*/ final(self).pays(a) }),
        !msg.ves() ==> ({
            &&& old(self).gm().dom().contains(msg) && sf(old(self).gm()[msg]).terms.reward_token == s_pred()
            &&& final(self).gm() == old(self).gm().insert(msg, final(self).gm()[msg]) && reward_added(sf(old(self).gm()[msg]), sf(final(self).gm()[msg]), amount.0 as int, Some(sf(final(self).gm()[msg]).last_distribution.undistributed))
            &&& final(self).d() == (ContractData { farms: final(self).d().farms, reward_info: final(self).d().reward_info, ..old(self).d() })
            &&& final(self).data is V0110 && final(self).fm() == old(self).fm() && final(self).sm() == old(self).sm() }),
@entry
    proof { if self.gm().dom().contains(msg) { assert(farm_ok(self.sm(), msg, self.gm()[msg])); } }
@exit
    proof {
        if !msg.ves() {
            assert(farm_ok(old(self).sm(), msg, old(self).gm()[msg]));
            assert(self.gm() =~= old(self).gm().insert(msg, self.gm()[msg]));
            put_farm(old(self).sm(), old(self).fm(), old(self).gm(), old(self).om(), msg, self.gm()[msg]);
        }
    }
@type TokenOrPool
@fn parse_token_id(token_id) -> r trusted
@fn Contract::mft_on_transfer(self, token_id, sender_id, amount, msg) -> r props=F04,F03
    requires old(self).inv(),
    ensures final(self).inv(), /*F06*/ old(self).running(), msg.ves(), r is Value && (r->Value_0).0 == 0,
        final(self).same_conf(old(self)), final(self).only(old(self), sender_id), /*F06*/ final(self).pays(sender_id),
        exists|s: SeedId| #[trigger] staked(old(self), final(self), sender_id, s, amount.0 as int) && amount.0 >= fs(old(self).sm(), s).min_deposit && fs(final(self).sm(), s).seed_type is MFT
            && claims(old(self), final(self), sender_id, seed_farms(old(self), s)) && marked(old(self), final(self), sender_id, seed_farms(old(self), s)),
@fn Contract::get_farmer_default(self, from) -> r props=F05
    requires self.data is V0110,
    ensures self.has(*from) ==> r == self.fm()[*from], !self.has(*from) ==> r->V101_0.rewards@ == Map::<AccountId, u128>::empty() && r->V101_0.seeds@ == Map::<SeedId, u128>::empty(),
@fn Contract::internal_get_reward(self, sender_id, token_id) -> r props=F05
    requires self.data is V0110,
    ensures r == self.reward(*sender_id, *token_id),
@fn Contract::get_reward(self, account_id, token_id) -> r props=F05
    requires self.data is V0110,
    ensures r.0 == self.reward(account_id.0, token_id.0),
@fn Contract::get_unclaimed_reward(self, account_id, farm_id) -> r props=F03
    requires self.inv(),
    ensures ({ let (a, f, s) = (account_id.0, farm_id, seed_of(farm_id));
        r.0 == (if self.has(a) && self.gm().dom().contains(f) { unclaimed_now(sf(self.gm()[f]), mark(self.fm()[a], f), stk(self.fm()[a], s), total_of(self.sm(), s)) } else { 0 }) }),
@entry
    proof { if self.gm().dom().contains(farm_id) { assert(farm_ok(self.sm(), farm_id, self.gm()[farm_id])); } }
@fn Contract::new(owner_id) -> r props=F06,F04
    ensures r.inv(), r.running(), r.d().owner_id == owner_id.0, r.fm() == Map::<AccountId, VersionedFarmer>::empty(), r.gm() == Map::<FarmId, Farm>::empty(),
@exit
    proof { fresh_state(); }
@verus
pub proof fn no_elem<T>(s: Set<T>, x: T) requires s.len() == 0, s.finite() ensures !s.contains(x) { assert(s =~= Set::<T>::empty()) by { if s.contains(x) { assert(s.remove(x).len() < s.len()); } } }
pub proof fn same_stakes(sm: SM, sm2: SM, fm: FM, gm: GM, om: GM)
    requires st_inv(sm, fm, gm, om), same_index(sm, sm2), forall|s: SeedId| #[trigger] total_of(sm2, s) == total_of(sm, s),
    ensures st_inv(sm2, fm, gm, om)
{
    assert forall|f: FarmId| known(sm, f) implies #[trigger] known(sm2, f) by { assert(sm.dom().contains(seed_of(f))); }
    assert forall|s: SeedId| #[trigger] total_of(sm2, s) == fsum(fm, f_stk(s)) by { assert(total_of(sm, s) == fsum(fm, f_stk(s))); }
    assert forall|f: FarmId| #[trigger] gm.dom().contains(f) implies farm_ok(sm2, f, gm[f]) by { assert(farm_ok(sm, f, gm[f])); assert(sm.dom().contains(seed_of(f))); }
    assert forall|s: SeedId, f: FarmId| sm2.dom().contains(s) && #[trigger] fs(sm2, s).farms@.contains(f) implies gm.dom().contains(f) && seed_of(f) == s && idx_of(f) < fs(sm2, s).next_index by { assert(sm.dom().contains(s)); assert(fs(sm, s).farms@.contains(f)); }
    assert forall|b: AccountId, f: FarmId| fm.dom().contains(b) && #[trigger] marks(fm[b]).dom().contains(f) implies known(sm2, f) by { assert(known(sm, f)); }
}
pub proof fn fresh_state()
    ensures st_inv(Map::empty(), Map::empty(), Map::empty(), Map::empty())
{
    let fm = Map::<AccountId, VersionedFarmer>::empty();
    assert forall|s: SeedId| #[trigger] total_of(Map::empty(), s) == fsum(fm, f_stk(s)) by { fsum_zero(fm, f_stk(s)); }
}
@end
