#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so the lines stay consistent)."""
import json
E="ref-exchange/src/"; F="ref-farming/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Constant-product swap: exact accounting, value per share never falls",
"For every two-token constant-product pool and every swap, the recorded reserve of the input token grows by exactly the amount paid in, that of the output token falls by exactly the amount paid out, and no other reserve moves. The output is the largest integer the constant-product formula with the pool's fee allows (never more), so the product of the reserves never decreases, and a swap that would return less than the caller's minimum, or that names the same token twice or a foreign token, has no effect.",
["inputs","histories"],"all reserves, fees, amounts in u128 and every reachable pool state",
"Tests sample a handful of reserve/amount pairs; the inequality must hold for every 128-bit reserve, fee and amount, including rounding edges.",
[E+"simple_pool.rs"],[("SimplePool::swap",E+"simple_pool.rs"),("SimplePool::internal_get_return",E+"simple_pool.rs")],["reserves (amounts)"],"pool reserves and swap return value")
p("P02","Swap fee shares for exchange and referrer never exceed their cut of growth",
"Shares created during a constant-product swap go only to the exchange account and, when it holds a share account in that pool, to the referrer; the referrer's part plus the exchange's part never exceeds what the configured admin fee allows of the growth of the pool invariant, and the value behind each already existing share does not fall. When the admin fee is zero no share is created.",
["inputs","histories"],"all reserves, supplies, fee settings and referral settings",
"The few fee tests use one pool and one fee; dilution must be excluded for every reserve/supply combination.",
[E+"simple_pool.rs",E+"admin_fee.rs",E+"utils.rs"],[("update_pool_and_distribute_fee",E+"simple_pool.rs"),("AdminFees::calc_referral_share",E+"admin_fee.rs"),("integer_sqrt",E+"utils.rs")],["shares","total supply"])
p("P03","Exact-output swap delivers exactly the requested output and charges enough",
"A constant-product swap that asks for an exact output pays out exactly that amount, charges an input no larger than the caller's maximum, and the charged input is always enough that the reserve product after fees does not fall; otherwise the call fails without effect.",
["inputs"],"all reserves, fees and requested outputs",
"Rounding must favour the pool for every input; tests check a few values.",
[E+"simple_pool.rs"],[("SimplePool::swap_by_output",E+"simple_pool.rs"),("internal_get_return_by_output",E+"simple_pool.rs")])
p("P04","Adding liquidity to a constant-product pool never dilutes existing holders",
"When liquidity is added to a constant-product pool, the amount of each token taken is never more than offered, is exactly what is added to the recorded reserves, and is at least proportional to the shares created (the proportional part rounded down plus one unit), so no existing share loses backing in any token. The shares created are the largest number that both offers, each less one unit, can pay for. The first provider receives a fixed initial supply, a deposit that would create no share or for which a taken amount is below the caller's minimum fails, and the shares reported are those credited to the provider.",
["inputs","histories"],"all reserves, supplies and offered amounts",
"Proportional rounding must favour the pool for every 128-bit combination; tests use round numbers.",
[E+"simple_pool.rs"],[("SimplePool::add_liquidity",E+"simple_pool.rs"),("mint_shares",E+"simple_pool.rs")])
p("P05","Removing liquidity from a constant-product pool never overpays",
"Burning shares of a constant-product pool pays at most the proportional part of every reserve, rounded down, reduces the recorded reserves by exactly what is paid, and burns exactly the requested shares from the caller, who must own them; if any amount is below the caller's minimum, nothing happens.",
["inputs","histories"],"all reserves, supplies and share amounts",
"Tests remove a few fixed share amounts only.",
[E+"simple_pool.rs"],[("SimplePool::remove_liquidity",E+"simple_pool.rs")])
p("P06","Pool share ledger: balances always add up to the total supply",
"In every pool of every kind, the share balances of all holders always add up to the pool's total supply: minting and burning change one holder and the supply by the same amount, a transfer moves exactly the stated amount between two different registered holders, registration changes no balance, a holder can only be unregistered with a zero balance, and no operation changes any other holder's balance.",
["inputs","histories"],"all holders, amounts and operation sequences",
"Needs an invariant over all holders after any operation history.",
[E+"simple_pool.rs",E+"stable_swap/mod.rs",E+"rated_swap/mod.rs",E+"degen_swap/mod.rs"],[("mint_shares/burn_shares",E+"stable_swap/mod.rs"),("share_transfer/share_register/share_unregister",E+"simple_pool.rs"),("add_to_collection",E+"utils.rs")],["shares","total supply"])
p("P07","Stable-type pool swap: reserves move exactly, output follows curve and fee",
"In stable, rated and degen pools a swap adds the amount paid in to the input token's recorded reserve (exactly when the internal precision can hold it, otherwise rounded down, so the pool never records more than it received), removes at least the value paid out from the output token's reserve and touches no other reserve. The amount paid is the curve output (less one unit of rounding) less the trading fee, converted down to token precision, is at least the caller's minimum, and never pushes the output reserve below the pool's minimum; exchange fee shares only come from the admin part of the fee.",
["inputs","histories"],"all reserves, amounts, decimals, rates, amplification and fee settings",
"256/384-bit curve arithmetic with rounding; tests compare few reference values.",
[E+"stable_swap/mod.rs",E+"stable_swap/math.rs",E+"rated_swap/mod.rs",E+"rated_swap/math.rs",E+"degen_swap/mod.rs",E+"degen_swap/math.rs"],[("swap / internal_get_return",E+"stable_swap/mod.rs"),("swap_to",E+"stable_swap/math.rs")])
p("P08","Stable-type pool add-liquidity: exact reserves, no excess shares",
"Adding liquidity to stable, rated and degen pools adds exactly the offered amounts (normalised, rounding down) to the reserves; the shares created for the provider equal supply times growth of the curve invariant after imbalance fees divided by the old invariant, rounded down, and the shares created for exchange and referrer come only from the admin part of the fee. A deposit below the caller's minimum shares, with a missing token in the first deposit, or with the wrong number of amounts fails without effect.",
["inputs","histories"],"all reserves, offered amounts, decimals, rates and fees",
"Tests check single examples of the formulas.",
[E+"stable_swap/mod.rs",E+"stable_swap/math.rs",E+"rated_swap/mod.rs",E+"degen_swap/mod.rs"],[("add_liquidity",E+"stable_swap/mod.rs"),("compute_lp_amount_for_deposit",E+"stable_swap/math.rs")])
p("P09","Stable-type pool proportional removal never overpays",
"Burning shares of a stable, rated or degen pool proportionally pays for every token at most the proportional part of the reserve, rounded down to token precision; the recorded reserves fall by the value paid, never under the pool's minimum reserve, and exactly the requested shares are burned from the owner. A result under the caller's minimum amounts has no effect.",
["inputs","histories"],"all reserves, supplies, share amounts, decimals",
"Only fixed examples are tested.",
[E+"stable_swap/mod.rs",E+"rated_swap/mod.rs",E+"degen_swap/mod.rs"],[("remove_liquidity_by_shares",E+"stable_swap/mod.rs")])
p("P10","Stable-type pool removal by token amounts charges full price in shares",
"When exact token amounts are withdrawn from a stable, rated or degen pool, the recorded reserves fall by at least the value paid out for each token and the shares burned from the owner are supply times the fall of the curve invariant including imbalance fees, as a whole number of shares, never above the caller's maximum; fee shares for exchange and referrer come only from the admin part of that burn, and the reserves never fall under the pool's minimum.",
["inputs","histories"],"all reserves, requested amounts, decimals 1..24, fees",
"Only fixed examples with 6/18 decimals are tested.",
[E+"stable_swap/mod.rs",E+"stable_swap/math.rs",E+"rated_swap/mod.rs",E+"degen_swap/mod.rs"],[("remove_liquidity_by_tokens",E+"stable_swap/mod.rs"),("compute_lp_amount_for_withdraw",E+"stable_swap/math.rs")])
p("P11","Amplification ramps and fee settings stay within their declared bounds",
"The effective amplification of a stable-type pool always lies between its start and target values, moves linearly and monotonically from one to the other over the ramp window and equals the target afterwards; only a ramp of at least the minimum duration, with a target in the allowed range and at most ten times away, is accepted, and stopping a ramp freezes the current value. Trading fee, exchange fee and referral fee can only be set within their maxima.",
["inputs","histories","schedules"],"all ramp parameters and block times",
"The ramp must be right for every block timestamp; tests probe a few.",
[E+"stable_swap/mod.rs",E+"stable_swap/math.rs",E+"rated_swap/mod.rs",E+"rated_swap/math.rs",E+"degen_swap/mod.rs",E+"degen_swap/math.rs"],[("compute_amp_factor",E+"stable_swap/math.rs"),("ramp_amplification/stop_ramp_amplification",E+"stable_swap/mod.rs")])
p("P12","User balance ledger: deposits and withdrawals are exact and isolated",
"Crediting an account raises exactly that token's balance by exactly the amount; debiting lowers it by exactly the amount and fails when the balance is smaller; neither changes any other token, any other account or the account's storage deposit. A token can only be unregistered at zero balance, and balances kept in the older storage layout count the same as current ones and are never lost or counted twice when moved.",
["inputs","histories"],"all accounts, tokens and amounts, in every storage version",
"Frame conditions over all tokens and accounts cannot be sampled.",
[E+"account_deposit.rs",E+"legacy.rs"],[("Account::deposit/withdraw/get_balance",E+"account_deposit.rs"),("Contract::internal_deposit",E+"account_deposit.rs")],["accounts","tokens"])
p("P13","A failed outgoing token transfer is always given back once, to the right owner",
"After a withdrawal is debited and the token transfer fails, exactly the debited amount of that token is credited back: to the user's account if it still exists and has room for it, otherwise to that user's lost-and-found record if the contract can pay its storage, otherwise to the exchange owner. After a successful transfer nothing is credited, and lost-and-found balances leave only once and only to their user.",
["histories","fault_sequences"],"every outcome of the transfer, any account state at callback time",
"Tests exercise one failing token; the callback must be right for every account state.",
[E+"account_deposit.rs",E+"account_lostfound.rs"],[("exchange_callback_post_withdraw",E+"account_deposit.rs"),("internal_handle_fail_in_withdraw_callback",E+"account_deposit.rs"),("internal_lostfound",E+"account_deposit.rs")])
p("P14","Swap batches: each hop is fed by the previous one and balances conserve",
"A batch of swaps debits the user exactly the stated inputs and credits exactly what the pools returned: when a hop states no input it consumes exactly the previous hop's output, intermediate tokens net to zero, and the final amount is what the user receives. Exact-output batches deliver the requested amount and debit exactly what the pools charge, a hop without a stated output being asked for exactly what the following hop charged; every hop honours its minimum or maximum, a batch mixes no kinds of hop, and a batch that fails at any hop leaves everything unchanged.",
["inputs","histories"],"all action lists, pools and amounts",
"Batches of arbitrary length and mix cannot be enumerated by tests.",
[E+"lib.rs",E+"action.rs",E+"utils.rs"],[("internal_execute_actions",E+"lib.rs"),("internal_execute_action_by_cache",E+"lib.rs"),("TokenCache",E+"utils.rs")])
p("P15","Storage is always paid for; only the unused part can be withdrawn",
"No user operation leaves an account with a storage deposit below the cost of what it stores (except the exchange owner's account when it receives unclaimed or donated tokens; pledge records are paid for separately when they are made); the amount a user can withdraw from the storage deposit is at most deposit minus that cost, the deposit is reduced by exactly the amount sent, and an account can be closed only when it holds no token, returning exactly its remaining deposit.",
["inputs","histories"],"all accounts, token counts and amounts",
"Must hold for every account shape and order of operations.",
[E+"account_deposit.rs",E+"storage_impl.rs"],[("Account::storage_usage/storage_available",E+"account_deposit.rs"),("internal_storage_withdraw",E+"account_deposit.rs"),("storage_unregister",E+"storage_impl.rs")])
p("P16","Transferring pool shares or deposits as tokens conserves them",
"Transferring pool shares (or inner token deposits) through the multi-token interface moves exactly the amount from sender to receiver, never more than the sender's free shares, and never between an account and itself; after a transfer-and-call, exactly the unused amount reported by the receiver, capped by the amount sent and by the receiver's current balance, comes back to the sender.",
["inputs","histories","fault_sequences"],"all amounts, receivers' answers and intermediate balance changes",
"Resolver behaviour depends on every possible answer and balance at callback time.",
[E+"multi_fungible_token.rs"],[("internal_mft_transfer",E+"multi_fungible_token.rs"),("mft_resolve_transfer",E+"multi_fungible_token.rs")])
p("P17","Shares pledged to farming or lending can never be moved away",
"For every account and pool, the amount pledged as a shadow in farming or in lending never exceeds the shares the account owns: shares that are pledged cannot be withdrawn, transferred, donated or removed as liquidity until the pledge is released (by the holder, or by the lending contract when it liquidates), a pledge can only be made from shares not already pledged to the same side, each pledge or release changes only that record by exactly its amount, and the exchange's own account pledges nothing.",
["inputs","histories"],"all accounts, pools and interleavings of pledge, release, transfer, removal and liquidation",
"Needs an invariant over all operation orders.",
[E+"shadow_actions.rs",E+"account_deposit.rs",E+"lib.rs",E+"multi_fungible_token.rs",E+"donation.rs"],[("ShadowRecord::free_shares",E+"account_deposit.rs"),("Account::update_shadow_record",E+"account_deposit.rs"),("remove_liquidity checks",E+"lib.rs"),("shadow_action",E+"shadow_actions.rs")],["shadow records","pool shares"])
p("P18","Only the proper role can change exchange configuration",
"Configuration, fees, ownership, guardians, whitelists, frozen tokens, ramps, fee withdrawal, rate settings and pool limits can only be changed by a call with one attached yoctoNEAR from the owner or, where allowed, a guardian; a paused exchange can be resumed only by the owner, and continuation callbacks can be invoked only by the contract itself. A call by anyone else to one of these has no effect.",
["inputs","histories","configurations"],"every caller and every administrative entry point",
"Tests try a few callers on a few methods.",
[E+"owner.rs",E+"lib.rs"],[("assert_owner/is_owner_or_guardians",E+"owner.rs")])
p("P19","A paused exchange or a frozen token blocks user operations",
"While the exchange is paused, no user-facing operation that moves tokens or shares (swap, add or remove liquidity, deposit, withdraw, share transfer, pool creation by users, pledging) succeeds; while a token is frozen, no deposit, withdrawal, swap or liquidity operation involving it succeeds.",
["inputs","configurations"],"every entry point, caller and token",
"Tests cover a few entry points per state.",
[E+"lib.rs",E+"account_deposit.rs",E+"token_receiver.rs",E+"multi_fungible_token.rs",E+"shadow_actions.rs"],[("assert_contract_running",E+"lib.rs"),("assert_no_frozen_tokens",E+"lib.rs")])
p("P20","Time-weighted average pool price is the true time average",
"The recorded cumulative amount of each token per unit of pool share grows by current amount times elapsed seconds between updates, never runs backwards, keeps at most the allowed number of records in time order, and the published average over two records is the difference of the cumulatives divided by the elapsed time. Every swap and every addition or removal of liquidity by a user is recorded with the amounts that were in force before it.",
["inputs","histories","schedules"],"all pools, update times and histories",
"Requires all update histories.",
[E+"unit_lpt_cumulative_infos.rs"],[("UnitLptCumulativeInfoRecord",E+"unit_lpt_cumulative_infos.rs")])
p("P21","Rates and prices from outside are used only while valid and fresh",
"A rated or degen pool only swaps, adds liquidity or removes liquidity by token amounts while the rate or price of each of its tokens is valid, that is fetched within its allowed age (a proportional removal needs no rate). A failed, missing, stale or wrong-asset answer, or one of the NEAR price oracle dated in the future, never replaces a stored value, a price from an oracle is stored scaled exactly to the pool's precision, and a degen pool with configured value limits never ends an addition of liquidity beyond them.",
["inputs","histories","fault_sequences"],"all answers of the external sources and all ages",
"Every answer and time must be covered; tests use mocks with few values.",
[E+"rated_swap/rate.rs",E+"rated_swap/sfrax_rate.rs",E+"rated_swap/stnear_rate.rs",E+"rated_swap/linear_rate.rs",E+"rated_swap/nearx_rate.rs",E+"degen_swap/degen.rs",E+"degen_swap/price_oracle.rs",E+"degen_swap/pyth_oracle.rs",E+"oracle.rs",E+"pool.rs"],[("are_actual/set",E+"rated_swap/rate.rs"),("assert_tvl_not_exceed_limit",E+"pool.rs")])
p("P22","Incoming token transfers are fully credited, fully swapped or fully refunded",
"When tokens arrive, either the whole amount is credited to the sender's registered account, or the requested swaps run on exactly that amount and every resulting token goes to the sender's account or is sent out, or the call fails and the token contract refunds everything; messages naming another input token, a restricted receiver or an unused remainder never lose or create tokens.",
["inputs","histories"],"all messages, amounts, senders and tokens",
"Tests cover a few messages.",
[E+"token_receiver.rs",E+"client_echo_limit.rs"],[("ft_on_transfer",E+"token_receiver.rs"),("internal_direct_actions",E+"token_receiver.rs")])
p("P23","Predictions agree with execution",
"The amount a view predicts for a swap, an addition or a removal of liquidity is exactly the amount the corresponding operation yields when executed in the same state by the same caller.",
["inputs","histories"],"all pools, states and arguments",
"Equality over all states is not sampled by tests.",
[E+"views.rs",E+"pool.rs",E+"simple_pool.rs",E+"stable_swap/mod.rs",E+"rated_swap/mod.rs",E+"degen_swap/mod.rs"],[("get_return/predict_*",E+"views.rs")])
p("P24","Swap volume counters only grow, by exactly the traded amounts",
"For each constant-product pool, the per-token volume counters grow by exactly the input and output amount of each swap in the right direction, and nothing else changes them.",
["inputs","histories"],"all swaps","Tests look at one or two swaps.",
[E+"swap_volume.rs",E+"simple_pool.rs"],[("SwapVolume",E+"simple_pool.rs")])
p("F01","Farm reward conservation",
"In every farm, the total reward ever added always equals what is not yet distributed plus what is distributed but unclaimed plus what has been claimed, plus what went to the beneficiary when nobody was staking; no claim, distribution or added reward breaks this and a claim pays exactly what it removes from the unclaimed part.",
["inputs","histories","schedules"],"all reward sizes, stakes, times and claim orders",
"Needs an invariant over all histories.",
[F+"simple_farm.rs"],[("SimpleFarm::distribute/claim_user_reward/add_reward",F+"simple_farm.rs")])
p("F02","Farm reward is released no faster than scheduled",
"A farm releases at most its reward per session for each completed session since it started, never more than was added, and nothing before its start time; asking for the same block time twice releases nothing more, and a farm ends only when all of its reward has been released.",
["inputs","schedules"],"all terms, start times and block times",
"Every block time must be covered.",
[F+"simple_farm.rs"],[("SimpleFarm::try_distribute",F+"simple_farm.rs")])
p("F03","Each staker is paid its own share and never twice",
"A staker's claim pays its stake times the growth of the farm's reward per staked unit since its previous claim, rounded down, and moves its marker to the present, so a second claim at the same time pays nothing; the sum of all payable rewards never exceeds the distributed unclaimed reward, a stake added later earns nothing for the past, and a staker is never prevented from withdrawing its stake.",
["inputs","histories","schedules"],"all stakes, claim orders and times",
"Needs all interleavings of stakers.",
[F+"simple_farm.rs",F+"actions_of_reward.rs",F+"actions_of_seed.rs",F+"farmer.rs"],[("claim_user_reward",F+"simple_farm.rs"),("internal_claim_user_reward_by_farm_id",F+"actions_of_reward.rs")])
p("F04","Seed total equals the sum of farmers' stakes",
"The total staked for a seed always equals the sum of what its farmers have staked; staking adds, and unstaking removes, exactly the stated amount for that farmer and seed only, unstaking more than staked fails, and a failed outgoing seed transfer restores exactly the amount to the farmer and the total, for which the farmer stays registered.",
["inputs","histories","fault_sequences"],"all farmers, seeds, amounts and transfer outcomes",
"Needs all histories and callback outcomes.",
[F+"farm_seed.rs",F+"farmer.rs",F+"actions_of_seed.rs"],[("internal_seed_deposit/withdraw",F+"actions_of_seed.rs"),("callback_post_withdraw_*",F+"actions_of_seed.rs")])
p("F05","Claimed rewards are withdrawn exactly, and restored when sending fails",
"A farmer's reward balance grows by exactly what is claimed, falls by exactly what is withdrawn (never below zero, and only the caller's own), and when the outgoing transfer fails exactly that amount is restored to the same farmer; other rewards and other farmers are untouched.",
["inputs","histories","fault_sequences"],"all farmers, tokens, amounts and transfer outcomes",
"Callback outcomes and frames over all farmers cannot be sampled.",
[F+"farmer.rs",F+"actions_of_reward.rs"],[("add_reward/sub_reward",F+"farmer.rs"),("withdraw_reward/callback_post_withdraw_reward",F+"actions_of_reward.rs")])
p("F06","Farming: roles, storage and farm lifecycle are enforced",
"Only the owner can change ownership, pause or resume, create farms, change a seed's minimum deposit or force-clean a farm; while paused no farmer operation succeeds; a farm can be cleaned only when it has ended or all its reward is distributed, and its unclaimed reward is then recorded for the beneficiary, which no operation moves away; a farmer pays for its storage, can withdraw only the unused part of its deposit, and can unregister only when it holds no stake and no reward.",
["inputs","histories","configurations"],"all callers, farms and accounts",
"Every caller and state.",
[F+"owner.rs",F+"actions_of_farm.rs",F+"storage_impl.rs",F+"simple_farm.rs"],[("assert_owner",F+"owner.rs"),("storage_withdraw/unregister",F+"storage_impl.rs"),("move_to_clear",F+"simple_farm.rs")])
import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
