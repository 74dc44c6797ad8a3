import json
EX="exchange/src/exchange.rs"
VA="exchange/src/exchange/virtual_margin_account.rs"
VP="exchange/src/exchange/virtual_margin_pool.rs"
VO="exchange/src/exchange/virtual_oracle.rs"
RQ="exchange/src/exchange/requests.rs"
AC="account/src/margin_account.rs"
PO="pool/src/margin_pool.rs"
CF="config/src/config.rs"; CS="config/src/config/structs.rs"
DF="common/src/d_float.rs"; VT="common/src/vaults.rs"
OR="oracle/src/oracle.rs"; RG="referral_generator/src/referral_generator.rs"
PR="permission_registry/src/permission_registry.rs"
FD="fee_distributor/src/fee_distributor.rs"; FG="fee_delegator/src/fee_delegator.rs"
TW="token_wrapper/src/token_wrapper.rs"
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(obs),hook_needed=hook)))
W=" The repository's wasm scenario tests sample one hand-picked sequence per method; only the decimal-format unit tests run reliably."
p("P01","Internal base-token balances always sum to zero",
 "The internal base-token balances of the pool, every trading account, the protocol, the treasury, the fee delegator and every referral always add up to exactly zero, whatever sequence of operations ran. Base tokens enter or leave the pool's vault only together with an equal and opposite change of those balances or with an equal change of what liquidity providers own. A rejected operation changes no balance at all.",
 ["histories","inputs"],"every finite history of public operations with any amounts, prices, times and configurations",
 "Conservation is a statement about sums over all parties after arbitrary histories."+W,
 [EX,VA,VP,PO,AC,FD,FG],[("settlement of account against pool",EX+": _settle_account, _settle_funding"),("fee distribution",EX+": _settle_fees_basic, _settle_fees_referral"),("payouts",EX+": collect_treasury, collect_fee_delegator, collect_referral_rewards, swap_protocol_fee"),("write back",VA+": realize; "+VP+": realize")],
 [("virtual balances","base-token claims of each party",PO+", "+AC+", "+FD+", "+FG),("base token vault","tokens held by the pool",PO)],
 ["pool, account, protocol and treasury balance getters","vault balances"])
p("P02","Pool open interest and cost mirror the sum of account positions",
 "For every trading pair, the pool's long and short open interest equal the sums of the long and short position sizes of all accounts, and the pool's cost basis equals the sum of their cost bases. The pool's recorded total skew and total unrealised profit always equal the sums of the values recorded per pair, and each per-pair record equals the one implied by that pair's open interest, cost and last applied price. No stored position has size zero.",
 ["histories","inputs"],"every history of orders, liquidations, deleveragings and pair updates over any number of accounts and pairs",
 "A relation between the pool and all accounts after arbitrary interleavings of several users' operations."+W,
 [EX,VP,PO,AC],[("opening, closing and liquidating positions",EX+": _open_position, _close_position, _liquidate_positions"),("snapshots",EX+": _update_pair, _update_pair_snaps"),("write back",VP+": realize; "+AC+": update")],
 [("pool position","open interest, cost, snapshots per pair",PO),("account positions","size, cost, funding index per pair",AC)],
 ["pair details, pool details and account details getters"])
p("P03","New exposure and withdrawals need initial margin",
 "After an executed order that opens or adds to a position, an executed collateral withdrawal, or any user operation that charges a delegated network fee to the account, the account's value (internal balance, profit of all open positions after closing fees and accrued funding, and discounted collateral) is at least its total initial margin requirement, collateral margin included; otherwise the operation is rejected and leaves no effect. An order that only closes exposure is never refused for lack of margin. Positions in every pair and every configured collateral count at fresh prices.",
 ["histories","inputs","configurations"],"all account states, prices, configurations and request contents, including values exactly at the margin threshold",
 "The threshold depends on the whole portfolio, funding and fees; tests probe a few round numbers."+W,
 [EX,VA],[("account integrity assertion",EX+": _assert_account_integrity, _value_positions, _value_collateral"),("callers",EX+": _open_position, _remove_collateral, _settle_fee_oath")],
 [("account portfolio","positions, collateral, internal balance",AC)],["acceptance or rejection of request processing","account details getter"])
p("P04","Liquidation only below maintenance margin, and complete",
 "An account can be liquidated exactly when its value at current prices (after updating funding, deducting closing fees) is strictly below its total maintenance requirement, and only against a base-token payment covering the discounted value of its configured collateral. A liquidation closes every position, hands all configured collateral to the liquidator for exactly that rounded-up value with the surplus payment returned, and leaves the account with its remaining value or, if that is negative, with zero while the pool absorbs the loss. Every request the account had submitted before becomes permanently unexecutable.",
 ["histories","inputs","configurations"],"all portfolios, prices, funding histories and payments, including values exactly at the threshold and accounts with bad debt",
 "Depends on portfolio-wide thresholds and multi-step histories."+W,
 [EX,VA,AC],[("liquidation",EX+": _liquidate, _liquidate_positions, _liquidate_collateral"),("invalidation of older requests",VA+": update_valid_requests_start; "+AC+": update")],
 [("valid requests start","first request index still executable",AC)],["liquidation outcome, returned tokens, account and pool details"])
p("P05","Auto-deleveraging only of profitable positions while skew is too high",
 "A position can be forcibly deleveraged only while the pool's skew ratio is strictly above its cap, and only if the position's profit relative to the size of its entry cost, positive for gains on long and short positions alike, is strictly above a threshold that falls as the skew ratio grows. Deleveraging closes the whole position in that pair at the current price with the normal fees and funding, touches no other position, and is rejected unless it strictly reduces the skew ratio.",
 ["histories","inputs","configurations"],"all pool skews, positions on either side, prices and deleverage parameters, including exact thresholds",
 "The condition combines pool state, position profit and a cubic threshold."+W,
 [EX],[("auto deleverage",EX+": _auto_deleverage, _close_position"),("skew ratio",EX+": _skew_ratio, _pool_value")],
 [("skew snapshot","total absolute skew of the pool",PO)],["auto-deleverage outcome, pool and account details"])
p("P06","Skew cap and open-interest limits hold after trades and LP withdrawals",
 "A trade is rejected if it would leave the pool's skew ratio at or above the configured cap, unless it strictly reduces the total absolute skew. A liquidity withdrawal is always rejected if it would leave the ratio at or above the cap. No order may open a position that pushes a pair's long or short open interest above its maximum or the account's number of positions above its limit, while closing remains possible beyond those limits.",
 ["histories","inputs","configurations"],"all trades and withdrawals in all pool states, including values exactly at each cap",
 "Boundary conditions over pool-wide state with several pairs."+W,
 [EX],[("pool integrity assertion",EX+": _assert_pool_integrity, _skew_ratio"),("open-interest limits",EX+": _open_position"),("position limit",EX+": _assert_position_limit")],
 [],["acceptance or rejection of orders and liquidity removals","pool details"])
p("P07","Orders execute at the oracle price within the user's limits",
 "A market or limit order executes entirely at the current oracle price, first closing any opposite position and only then opening the rest, and it executes only if the price satisfies the order's price limit (inclusive) and the fee paid is within the order's slippage limit (inclusive). A reduce-only order never opens or enlarges a position or flips its side. The profit of a close is the executed value minus the proportionate share of the cost basis minus the fee, and exactly that amount is settled; a partial close leaves the rest of the cost basis in place.",
 ["histories","inputs"],"all orders, sizes, signs, limits and existing positions, including flips, exact limits and partial closes",
 "Size, sign, limit and existing-position combinations are unbounded."+W,
 [EX,RQ],[("order execution",EX+": _margin_order, _open_position, _close_position"),("limits",RQ+": PriceLimit, SlippageLimit")],
 [("account position","size and cost basis",AC)],["account details, acceptance or rejection"])
p("P08","Trading fees follow the schedule and are split as configured",
 "The fee of every position opened, closed, liquidated or deleveraged is the linear part plus the skew-impact part of the pair's fee schedule, reduced by the account's referral rebate, never negative and never above the configured maximum share of the traded value. Of each fee the protocol, the treasury and the account's referrer receive exactly their configured shares and the pool keeps the rest; an account without a referrer gets no rebate and pays no referral share. Liquidity fees split the same way without a referrer.",
 ["inputs","configurations","histories"],"all trade sizes, signs, skews, prices, fee configurations and referral terms",
 "A formula over six continuous inputs with two clamps."+W,
 [EX,FD,VA],[("fee formula",EX+": _calculate_fee"),("split",EX+": _settle_fees_basic, _settle_fees_referral"),("accrual",FD+": distribute; "+VA+": reward_referral")],
 [("protocol, treasury and referral balances","accrued fee shares",FD)],["balances of protocol, treasury and referral"])
p("P09","Funding accrues from skew and time and is paid between sides and pool",
 "Between two updates of a pair with both sides open, the funding owed grows by the elapsed time times the rate implied by skew, the bounded adaptive rate and the pool-funding parameters: the heavier-paying side pays, the other side receives all of it except the pool's share, and both sides additionally pay the pool funding. No funding accrues with no time elapsed or while one side is empty, and the adaptive rate moves with skew, is clamped to the open-interest bounds, and only decays toward them from outside. Each position pays exactly its size times the growth of its side's index since it was last settled, once, and the pool's unrealised funding record changes by exactly what accrues to it and what is settled.",
 ["histories","inputs","configurations"],"all sequences of pair updates at any times and prices interleaved with trades on both sides",
 "Funding is path dependent over time."+W,
 [EX],[("pair update",EX+": _update_pair"),("settlement",EX+": _settle_funding, _liquidate_positions")],
 [("funding indices and rate","per pair accumulated funding",PO),("position funding index","index at last settlement",AC)],["pair details, account details, pool details"])
p("P10","Each request executes at most once, in its window, and never after its end",
 "A request runs at most once: it executes only while active, strictly after its submission time (creation plus delay, any delay) and strictly before its expiry, and executed, cancelled and expired are final states. Processing a pending request at or after expiry, active or dormant, marks it expired and has no other effect on the account; a dormant request never executes. Users can create requests only as active or dormant, may always cancel pending ones (all or none of the listed), keep at most the configured number pending, and the list of active requests always equals the pending requests that are still valid.",
 ["histories","inputs"],"all histories of request creation, processing, cancellation, expiry and liquidation at any times, with any delay and expiry values",
 "A lifecycle over unbounded histories and times."+W,
 [EX,VA,AC,RQ],[("request state machine",VA+": push_request, process_request, cancel_requests, try_set_keeper_requests_status"),("storage",AC+": update"),("limit",EX+": _assert_active_requests_limit")],
 [("requests","status, submission and expiry of each request",AC),("active request set","indexes of pending requests",AC)],["account details getter, acceptance or rejection of processing and cancelling"])
p("P11","Account actions need the matching permission level",
 "Changing any permission level of an account or minting a recovery key for it requires satisfying that account's level 1 rule; requesting a withdrawal requires level 2; adding collateral, placing orders and cancelling requests requires level 3, always the rule currently set. No other party can do any of these, and nobody else's permissions matter. Adding a rule keeps existing holders (or replaces an allow-all or deny-all rule) and adds only the new one, and minting a recovery key gives only that key additional level 1 access.",
 ["histories","inputs"],"all sequences of permission changes over several accounts, rules and callers",
 "Every method must be checked against every caller after every rule change."+W,
 [EX,VA,AC],[("permission checks",VA+": verify_level_1_auth, verify_level_2_auth, verify_level_3_auth"),("rule updates",EX+": _set_level_1_auth, add_auth_rule, create_recovery_key")],
 [("level rules","access rules of an account",AC)],["acceptance or rejection of calls signed by different users; role getters"])
p("P12","Internal components obey only the exchange; admin methods only admins",
 "The mutating methods of accounts, pool, configuration, fee accounting, permission registry, referral store and the authenticated price feed accept only callers holding the system's authority token, so no outside user can move funds or alter state except through the exchange's public operations. Owner and admin operations of the exchange and other components accept only their owner or admin, and user and keeper operations accept whoever their role currently allows. The exchange never leaks its authority to callers.",
 ["inputs","histories"],"every method of every deployed component called by every kind of caller",
 "Needs the full matrix of methods and callers; the tests deploy everything with an allow-all owner."+W,
 [EX,AC,PO,CF,OR,RG,PR,FD,FG,TW],[("role tables","enable_method_auth! blocks of each blueprint"),("scoped authority",EX+": authorize!")],
 [("authority token","badge held by the exchange",EX)],["acceptance or rejection of direct component calls"])
p("P13","The permission registry lists exactly the accounts a rule controls",
 "For every account and every permission level, the registry lists the account under that level's current rule and under each alternative of it when the rule is an any-of list, and under no other rule. This stays true across account creation, setting rules, adding rules and minting recovery keys, and changes to one level or account never disturb another's entries.",
 ["histories"],"all sequences of account creations and permission changes over several accounts sharing rules",
 "An index consistency over histories with overlapping rules."+W,
 [EX,PR],[("registry maintenance",EX+": create_account, _set_level_1_auth, _set_level_2_auth, _set_level_3_auth"),("registry",PR+": get_permissions, set_permissions")],
 [("permissions","accounts per rule and level",PR)],["permission getter compared with the accounts' role rules"])
p("P14","Liquidity shares are minted and redeemed at fair pool value",
 "Adding liquidity mints shares worth the deposit minus the add fee at the pool value per share before the deposit (one per share for the first deposit), and removing liquidity burns the shares and pays their part of the pool value minus the removal fee. The value per share therefore never falls because someone else adds or removes liquidity, beyond the configured protocol and treasury shares of the fee and rounding. No withdrawal exceeds the base tokens held, only the designated share and base tokens are accepted, and pool value always counts tokens, internal balance, unrealised funding and unrealised profit.",
 ["histories","inputs","configurations"],"all deposits and withdrawals interleaved with trading, including near-empty, loss-making and first-deposit pools",
 "Share pricing over arbitrary pool states."+W,
 [EX,VP,PO],[("add and remove liquidity",EX+": _add_liquidity, _remove_liquidity"),("pool value",EX+": _pool_value")],
 [("share supply","outstanding LP tokens",EX)],["returned token amounts, pool details"])
p("P15","Prices are authentic, monotone in time and fresh when used",
 "A price enters the system only in a message validly signed by a currently registered oracle key over exactly that message, and it replaces the stored price of a pair only if its timestamp is strictly newer. Every operation that values a pair or a collateral is rejected unless a stored price exists for each pair and collateral involved, is positive, and is newer than the current time minus the smallest applicable configured age limit. Removing a key or a price takes effect immediately.",
 ["histories","inputs"],"all sequences of price messages (replayed, reordered, tampered, wrong key, duplicated pairs) and operations at any times",
 "Message orders, tampering and ages are unbounded."+W,
 [OR,VO,EX],[("signature and timestamp checks",OR+": _push_and_get_prices"),("age and sign checks",VO+": new"),("age limits",EX+": _pair_feeds")],
 [("stored prices","price and timestamp per pair",OR),("keys","registered oracle keys",OR)],["oracle price getter, acceptance or rejection of priced operations"])
p("P16","Collateral custody: credited as deposited, released only as owned",
 "Depositing credits the account with exactly the tokens deposited: base tokens go to the pool and the internal balance, other tokens to the account's own vaults, and only configured collateral is accepted up to the configured number of kinds. A withdrawal request pays exactly the requested amounts, rounded down to the token's divisibility, to the requested target account or has no effect, and never more than the account's own balance of each token or, for base tokens, than its internal balance and the pool's holdings. The recorded collateral amounts always equal the vault contents.",
 ["histories","inputs","configurations"],"all deposits and withdrawals with any mix of tokens, repeated claims, amounts and configurations",
 "Combinations of repeated claims, token kinds, divisibilities and configuration changes."+W,
 [EX,VA,AC,VT],[("deposit",EX+": _add_collateral"),("withdraw",EX+": _remove_collateral"),("vaults",AC+": deposit_collateral_batch, withdraw_collateral_batch; "+VT)],
 [("collateral balances","recorded amounts per token",AC)],["account details, vault balances, target account balances"])
p("P17","Debt swaps never overpay the swapper or overcharge the account",
 "A debt swap is possible only for an account with negative internal balance and a configured collateral, and it repays at most the debt, at most the payment and at most what the held collateral is worth at the discounted price. The account gives up collateral worth, at the oracle price times the damped discount, exactly what is repaid; the payment is credited in full to the pool and the account's balance, and the unused payment is returned.",
 ["histories","inputs","configurations"],"all debts, payments, collateral holdings, discounts and prices, including each being the binding limit",
 "Three-way minimum over continuous inputs."+W,
 [EX],[("debt swap",EX+": _swap_debt")],[],["returned tokens, account and pool details"])
p("P18","Referral codes and allocations pay each backed reward once",
 "Tokens promised by referral codes and allocations are always fully backed in the referral vaults: creating them takes the complete total from the creator and returns the rest, and each successful claim pays exactly the code's promised tokens into the newly created account. A code can be claimed at most its allowed number of times, exists once, and links the account to its referrer; codes drawn from an allocation, and the referrals granted to a referrer, never exceed their limits. Referral rates stay within zero and ten percent, and only the holder of a referral can issue its codes or collect its rewards.",
 ["histories","inputs"],"all histories of minting, allocating, creating and claiming codes by several referrers and users",
 "Backing is a sum over all outstanding codes."+W,
 [RG,EX],[("codes and allocations",RG+": add_allocation, create_referral_codes, create_referral_codes_from_allocation, claim_referral_code"),("limits",EX+": mint_referral, update_referral, add_referral_allocation, create_referral_codes")],
 [("referral codes and allocations","claims, counts and limits",RG)],["referral details, code getter, vault balances, new account collateral"])
p("P19","Configuration updates are validated and read back faithfully",
 "A configuration change is accepted only if every field lies within its documented bounds, and a batch with any invalid entry changes nothing. An accepted configuration is what later operations and getters see: flags, counts, limits and times exactly, decimal parameters to the stored precision of about three significant digits, never larger in magnitude than requested. Updating one pair or collateral leaves all others untouched, pairs keep their listing order, and a removed collateral is no longer accepted for deposit or counted as collateral.",
 ["inputs","configurations","histories"],"all field values, at and around each bound and across the full range of the compressed number format, and all update sequences",
 "Field ranges and the compressed decimal format have far more values than any test list."+W,
 [CF,CS,DF],[("validation",CS+": validate"),("compression",CS+": compress, decompress; "+DF),("storage",CF)],
 [("stored configuration","exchange, pair and collateral settings",CF)],["config getters of the exchange, acceptance or rejection of updates"])
p("P20","Wrapped base tokens stay backed; flash loans are repaid in full",
 "Wrapping accepts only registered, enabled tokens and issues exactly as many base tokens as deposited; unwrapping burns base tokens, and nothing but base tokens, and releases exactly that many of the chosen registered token, as far as its vault holds them. The wrapper-issued supply therefore never exceeds the tokens held by the wrapper. A flash loan can only survive a transaction that repays at least the loaned amount in base tokens, after which the loan tokens and the obligation are destroyed and the surplus is returned.",
 ["histories","inputs"],"all sequences of wraps, unwraps and flash loans with any tokens and amounts",
 "Backing over histories and hostile token choices; the component has no tests."+"",
 [TW],[("wrap and unwrap",TW+": wrap, unwrap"),("flash loans",TW+": flash_loan, repay_flash_loan")],
 [("input vaults","backing tokens per input",TW)],["token supplies, input list getter, returned tokens"])
p("P21","Delegated network fees are owed, capped and always settled",
 "Locking a delegated network fee creates an obligation equal to the dollar value of the locked amount times the configured multiplier, adds the same amount to the delegator's claim, and is refused if the obligations outstanding exceed the configured maximum. An obligation can neither be kept nor destroyed by a user: the transaction succeeds only if the whole obligation is charged to an account through an exchange operation, which lowers that account's internal balance by exactly that amount. Only the real obligation token is accepted.",
 ["histories","inputs","configurations"],"all fee amounts, delegator settings and account operations that carry a fee obligation",
 "Needs real transactions composed of several calls."+W,
 [FG,EX],[("lock and mint",FG+": lock_fee"),("settle and burn",EX+": _settle_fee_oath")],
 [("fee delegator balance","claim of the delegator",FG)],["obligation supply, delegator info getter, account balance"])
p("P22","Accrued fees are paid out exactly once and only to their owner",
 "Protocol, treasury, fee-delegator and referral payouts transfer exactly the accrued balance in base tokens from the pool, reset that balance to zero, leave every other balance untouched, and are rejected if the pool does not hold enough tokens. The protocol's share is released only against burning the configured amount of protocol tokens, with the excess returned; a referral's rewards only to the holder of that referral.",
 ["histories","inputs"],"all histories of fee accrual and payouts in any order, with any payment amounts",
 "Exactly-once over histories with several beneficiaries."+W,
 [EX,FD,FG],[("payouts",EX+": collect_treasury, collect_fee_delegator, collect_referral_rewards, swap_protocol_fee")],
 [],["returned tokens, balances, protocol token supply"])
p("P23","Linked orders activate and cancel exactly as specified",
 "When an order executes, and only then, exactly the dormant requests it names for activation become active and the pending requests it names for cancellation become cancelled; requests in any other state are left alone, and a failed or expired order triggers nothing. A bracket order creates the main order active and its take-profit and stop-loss dormant, reduce-only, opposite in size, with limits on the correct side for the order's direction, each cancelling the other. References relative to the new request resolve to the intended request, and at most two activations and two cancellations are accepted.",
 ["histories","inputs"],"all combinations of linked requests, statuses, directions and optional take-profit and stop-loss prices",
 "Graphs of linked requests in all statuses."+W,
 [EX,VA,RQ],[("bracket orders",EX+": margin_order_tp_sl_request"),("chained effects",EX+": _margin_order; "+VA+": try_set_keeper_requests_status"),("references",RQ+": RequestIndexRef")],
 [],["account details (request contents and statuses)"])
p("P24","Keepers are rewarded for useful work and only for it",
 "Every successful processing of a request (executed or expired), liquidation and deleveraging mints exactly the configured keeper reward to the caller, and a failed attempt mints nothing. A pair update mints one reward per distinct listed pair whose last update is at least the configured period old or whose price moved by at least the configured ratio, and none for other pairs; a repeated update at the same time and price earns nothing. No other operation mints rewards.",
 ["histories","inputs","configurations"],"all keeper operations at any times and prices, including exact thresholds and duplicate pairs",
 "Thresholds in time and price over histories."+W,
 [EX],[("rewards",EX+": process_request, liquidate, auto_deleverage, update_pairs, _update_pair")],
 [("last update and last price","per pair reference values",PO)],["returned reward tokens and reward supply"])
p("P25","Read-only calls always answer and report exactly what operations use",
 "The read-only calls of the exchange answer in every reachable state in which the account's pairs are configured, whatever requests the account holds, and report what operations would act on: the account's internal balance, positions with the funding they owe and the margin they require, every configured collateral with its amount, discount and margin, the executable and the recent requests exactly as stored, newest first and paged as asked, its referral terms, the pool's holdings, value per share and skew ratio, and each pair's stored state and configuration. The accounts, the pool, the configuration and the referral generator answer the same when asked directly: pages of requests from the front, single requests and lists of them (absent ones as absent), pair configurations by name and page, pairs never traded as empty, and a referral's allocations. Reading changes nothing.",
 ["histories","inputs"],"all reachable states, accounts, requests and page parameters",
 "The getters derive their answers from the whole state and can fail in states nobody tried."+W,
 [EX,VA,AC,CF],[("details",EX+": get_account_details, _account_details, get_pool_details, _pool_details, get_pair_details, _pair_details, get_referral_details"),("pages",AC+": get_requests_tail, get_active_requests; "+CF+": get_pair_configs; "+TW+": get_inputs")],
 [],["results of the read-only methods"])
p("P26","Events announce exactly what every accepted operation did",
 "Every accepted operation announces, in the exchange's events, exactly what it did and nothing else. A deposit or withdrawal announces the tokens and amounts moved. An executed order or a deleveraging announces the price, the amounts closed and opened, the profit including funding, the funding, the fee split and the linked requests that really changed. A liquidation announces the value and margin it was judged by, the positions and collateral taken with their prices, and the loss the pool took. Liquidity changes, debt swaps, new accounts, configuration updates, new or changed requests (as they are stored, with the account and tokens they will touch), invalidated requests and each changed pair state are announced with the values that hold afterwards. Rejected operations announce nothing.",
 ["histories","inputs"],"all accepted operations in all states reached by any history",
 "Indexers, keepers and wallets follow the exchange through its events; no test reads them, and their contents depend on the whole history."+W,
 [EX,VA,VP,"exchange/src/exchange/events.rs"],[("operation events",EX+": emit_event in _margin_order, _liquidate, _auto_deleverage, _swap_debt, _add_liquidity, _remove_liquidity, _add_collateral, _remove_collateral"),("request and pair events",VA+": realize, update_valid_requests_start; "+VP+": realize")],
 [],["application events of the exchange component"])
p("P27","Environment variables read back as the owner last set them",
 "Reading any list of environment variables answers, for every name asked, the value the owner most recently set for it, and the empty text for a name that was never set or has been removed since. Names set together are all set, a name given twice takes its last value, names not mentioned keep their values, and nobody but the owner sets or removes any.",
 ["histories","inputs"],"all histories of setting and removing variables, with repeated, empty and unknown names, by any caller",
 "Clients find the deployment through the registry; what it answers depends on the whole history of updates, and it has no test that runs reliably."+W,
 ["env_registry/src/env_registry.rs"],[("variables","env_registry/src/env_registry.rs: get_variables, set_variables, remove_variables")],
 [("variables","name to value","env_registry/src/env_registry.rs")],["get_variables"])
p("P28","The test faucet hands out exactly the configured amounts",
 "Every accepted call for free tokens mints to the caller, for each token with a positive configured amount, exactly that amount, and nothing of any other token; it is refused as a whole when one of these amounts cannot be minted or the caller does not satisfy the user rule. Only a holder of the faucet's owner badge changes amounts, changes the user rule or mints freely, and then exactly the amount asked of the token asked. The initial amounts are 0.001 wrapped BTC, 0.2 wrapped ETH and none of the two dollar tokens.",
 ["histories","inputs"],"all histories of amount changes, user rules, free claims and owner mints, with amounts around each token's smallest unit",
 "The faucet has no test at all; what a claim mints depends on the history of amount changes."+W,
 ["faucet/src/lib.rs"],[("minting","faucet/src/lib.rs: free_tokens, admin_mint_token, update_mint_amount")],
 [("mint_amounts","amount handed out per token","faucet/src/lib.rs")],["tokens received and their supplies"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
