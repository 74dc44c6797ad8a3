//! What the exchange announces: its application events, flattened to (kind, names, exact numbers, amounts).
use crate::exec::*;
use ::account::KeeperRequest;
use ::config::*;
use ::exchange::*;
use scrypto_test::prelude::*;
use serde_json::{json, Value};

fn ev(k: &str, t: Vec<String>, n: Vec<i128>, m: Vec<Decimal>) -> Value {
    json!([k, t, n.iter().map(|x| x.to_string()).collect::<Vec<_>>(), m.into_iter().map(dj).collect::<Vec<_>>()])
}
fn get<T: ScryptoDecode>(b: &[u8]) -> T { scrypto_decode(b).unwrap() }

pub fn pair_amounts(c: &PairConfig) -> Vec<Decimal> {
    vec![c.oi_max, c.trade_size_min, c.update_price_delta_ratio, c.margin_initial, c.margin_maintenance, c.funding_1, c.funding_2, c.funding_2_delta,
        c.funding_2_decay, c.funding_pool_0, c.funding_pool_1, c.funding_share, c.fee_0, c.fee_1]
}

pub fn read(x: &Exec, list: &Vec<(EventTypeIdentifier, Vec<u8>)>) -> Value {
    let mut out = vec![];
    let ex = x.w.comp["EXCHANGE"];
    let acct = |a: &ComponentAddress| x.accts.iter().position(|y| y == a).map(|p| p as i128).unwrap_or(-1);
    for (EventTypeIdentifier(emitter, name), b) in list {
        match emitter { Emitter::Method(n, ModuleId::Main) if n == ex.as_node_id() => {}, _ => continue }
        match name.as_str() {
            "EventSignalUpgrade" => {
                let e: EventSignalUpgrade = get(b);
                out.push(ev("SignalUpgrade", vec![x.w.comp.iter().find(|(_, a)| **a == e.new_exchange).map(|(n, _)| n.to_string()).unwrap_or("?".into())], vec![], vec![]));
            }
            "EventExchangeConfigUpdate" => {
                let c = get::<EventExchangeConfigUpdate>(b).config;
                out.push(ev("ExchangeConfig", vec![], vec![c.positions_max as i128, c.collaterals_max as i128, c.active_requests_max as i128],
                    vec![c.skew_ratio_cap, c.adl_offset, c.adl_a, c.adl_b, c.fee_liquidity_add, c.fee_liquidity_remove,
                        c.fee_share_protocol, c.fee_share_treasury, c.fee_share_referral, c.fee_max, c.protocol_burn_amount, c.reward_keeper]));
            }
            "EventPairConfigUpdates" => for (k, c) in get::<EventPairConfigUpdates>(b).configs.iter().enumerate() {
                out.push(ev("PairConfig", vec![c.pair_id.clone()], vec![k as i128, c.price_age_max as i128, c.update_period_seconds as i128], pair_amounts(c)));
            },
            "EventCollateralConfigUpdates" => for (k, (r, c)) in get::<EventCollateralConfigUpdates>(b).configs.iter().enumerate() {
                out.push(ev("CollateralConfig", vec![x.res_name(r), c.pair_id.clone()], vec![k as i128, c.price_age_max as i128], vec![c.discount, c.margin]));
            },
            "EventCollateralConfigRemoval" => out.push(ev("CollateralConfigRemoval", vec![x.res_name(&get::<EventCollateralConfigRemoval>(b).resource)], vec![], vec![])),
            "EventPairUpdates" => for (p, q) in get::<EventPairUpdates>(b).updates {
                out.push(ev("PairUpdate", vec![p], vec![q.last_update.seconds_since_unix_epoch as i128],
                    vec![q.oi_long, q.oi_short, q.cost, q.skew_abs_snap, q.pnl_snap, q.funding_2_rate, q.funding_long_index, q.funding_short_index, q.last_price]));
            },
            "EventAccountCreation" => {
                let e: EventAccountCreation = get(b);
                out.push(ev("AccountCreation", vec![], vec![acct(&e.account), e.referral_id.map(|r| x.refs.iter().position(|y| *y == r).map(|p| p as i128).unwrap_or(-2)).unwrap_or(-1)], vec![]));
            }
            "EventRequests" => {
                let e: EventRequests = get(b);
                out.push(ev("Requests", vec![], vec![acct(&e.account), e.requests.len() as i128], vec![]));
                for (k, r) in e.requests {
                    let r: KeeperRequest = r;
                    let mut v = ev("Request", vec![], vec![acct(&e.account), k as i128, r.status as i128, r.submission.seconds_since_unix_epoch as i128, r.expiry.seconds_since_unix_epoch as i128], vec![]);
                    v.as_array_mut().unwrap().push(x.stored_request(&r));
                    out.push(v);
                }
            }
            "EventValidRequestsStart" => { let e: EventValidRequestsStart = get(b); out.push(ev("ValidRequestsStart", vec![], vec![acct(&e.account), e.valid_requests_start as i128], vec![])); }
            "EventLiquidityChange" => { let e: EventLiquidityChange = get(b); out.push(ev("LiquidityChange", vec![], vec![], vec![e.lp_price, e.lp_amount, e.amount, e.fee_pool, e.fee_protocol, e.fee_treasury])); }
            "EventAddCollateral" => {
                let e: EventAddCollateral = get(b);
                out.push(ev("AddCollateral", vec![], vec![acct(&e.account), e.amounts.len() as i128], vec![]));
                for (r, v) in e.amounts { out.push(ev("AddCollateralToken", vec![x.res_name(&r)], vec![acct(&e.account)], vec![v])); }
            }
            "EventRemoveCollateral" => {
                let e: EventRemoveCollateral = get(b);
                out.push(ev("RemoveCollateral", vec![x.target_name(&e.target_account)], vec![acct(&e.account), e.amounts.len() as i128], vec![]));
                for (r, v) in e.amounts { out.push(ev("RemoveCollateralToken", vec![x.res_name(&r)], vec![acct(&e.account)], vec![v])); }
            }
            "EventMarginOrder" => {
                let e: EventMarginOrder = get(b);
                let (k, l) = match e.price_limit { PriceLimit::None => ("none", dec!(0)), PriceLimit::Gte(p) => ("gte", p), PriceLimit::Lte(p) => ("lte", p) };
                let a = acct(&e.account);
                out.push(ev("MarginOrder", vec![e.pair_id, k.into()], vec![a],
                    vec![e.price, l, e.amount_close, e.amount_open, e.pnl, e.funding, e.fee_pool, e.fee_protocol, e.fee_treasury, e.fee_referral]));
                let ix = |l: Vec<u64>| -> Vec<i128> { std::iter::once(a).chain(l.into_iter().map(|n| n as i128)).collect() };
                out.push(ev("Activated", vec![], ix(e.activated_requests), vec![]));
                out.push(ev("Cancelled", vec![], ix(e.cancelled_requests), vec![]));
            }
            "EventSwapDebt" => { let e: EventSwapDebt = get(b); out.push(ev("SwapDebt", vec![x.res_name(&e.resource)], vec![acct(&e.account)], vec![e.amount, e.price])); }
            "EventLiquidate" => {
                let e: EventLiquidate = get(b);
                let a = acct(&e.account);
                out.push(ev("Liquidate", vec![], vec![a], vec![e.account_value, e.margin, e.virtual_balance, e.positions_pnl, e.collateral_value, e.collateral_value_discounted,
                    e.funding, e.fee_pool, e.fee_protocol, e.fee_treasury, e.fee_referral, e.pool_loss]));
                // prices and amounts are two lists over the same names
                let mut used = 0;
                for (p, v) in &e.position_amounts {
                    let q: Vec<Decimal> = e.position_prices.iter().filter(|y| y.0 == *p).map(|y| y.1).collect();
                    used += q.len();
                    out.push(ev("LiquidatePosition", vec![p.clone()], vec![a], q.into_iter().chain([*v]).collect()));
                }
                for (r, v) in &e.collateral_amounts {
                    let q: Vec<Decimal> = e.collateral_prices.iter().filter(|y| y.0 == *r).map(|y| y.1).collect();
                    used += q.len();
                    out.push(ev("LiquidateCollateral", vec![x.res_name(r)], vec![a], q.into_iter().chain([*v]).collect()));
                }
                if used != e.position_prices.len() + e.collateral_prices.len() { out.push(ev("LiquidateStrayPrices", vec![], vec![a], vec![])); }
            }
            "EventAutoDeleverage" => {
                let e: EventAutoDeleverage = get(b);
                out.push(ev("AutoDeleverage", vec![e.pair_id], vec![acct(&e.account)], vec![e.price, e.amount_close, e.pnl, e.funding, e.fee_pool, e.fee_protocol, e.fee_treasury,
                    e.fee_referral, e.pnl_percent, e.threshold]));
            }
            other => out.push(ev("Unknown", vec![other.to_string()], vec![], vec![])),
        }
    }
    Value::Array(out)
}
