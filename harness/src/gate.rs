//! Calls any single method with well-formed arguments, to observe who is allowed to call it.
use crate::deploy::key;
use crate::exec::*;
use scrypto_test::prelude::*;
use serde_json::{json, Map, Value};

type Claims = Vec<(ResourceAddress, Decimal)>;
type KReq = (Vec<u8>, Instant, Instant, u8, Vec<ComponentAddress>);

pub fn call(e: &Exec, b: ManifestBuilder, comp: &str, method: &str, op: &Value) -> ManifestBuilder {
    let a = e.comp(comp);
    let kind = if comp.starts_with('A') && comp != "AUTH" { "ACCOUNT" } else { comp };
    let acct = if e.accts.is_empty() { e.w.wallet } else { e.accts[op["acct"].as_u64().unwrap_or(0) as usize] };
    let base = e.w.res["BASE"];
    let one = dec!(1);
    let d = |k: &str, def: Decimal| if op[k].is_null() { def } else { dec_of(&op[k]) };
    let m = |b: ManifestBuilder, args: ManifestValue| b.call_method_raw(a, method, args);
    let bucket = |b: ManifestBuilder, res: &str, amount: Decimal| {
        let b = e.take(b, res, amount, "gb");
        b.call_method_with_name_lookup(a, method, |l| (l.bucket("gb"),))
    };
    let buckets = |b: ManifestBuilder| {
        let b = e.take(b, "BASE", one, "gb");
        b.call_method_with_name_lookup(a, method, |l| (vec![l.bucket("gb")],))
    };
    let px = e.px(&json!({"prices": [["P1", "1000000000000000000", "1"]], "key": 0, "seed": 1})).unwrap();
    let rid = e.refs.first().cloned().unwrap_or(NonFungibleLocalId::ruid([7u8; 32]));
    let feeds: Vec<String> = vec![];
    match (kind, method) {
        ("ACCOUNT", "update") => m(b, v(&(
            IndexMap::<String, (Decimal, Decimal, Decimal)>::new(), d("vb", dec!(1000000)), 0u64, Vec::<KReq>::new(), IndexMap::<u64, KReq>::new(), Vec::<u64>::new(), Vec::<u64>::new(),
        )).wrap1()),
        ("ACCOUNT", "update_referral_id") => m(b, v(&(None::<NonFungibleLocalId>,))),
        ("ACCOUNT", "deposit_collateral_batch") => buckets(b),
        ("ACCOUNT", "withdraw_collateral_batch") => {
            let c: Claims = vec![(e.w.res["C1"], d("amount", dec!(0)))];
            m(b, v(&(c, WithdrawStrategy::Exact)))
        }
        ("POOL", "update") => m(b, v(&(IndexMap::<String, (Decimal, Decimal, Decimal, Decimal, Decimal, Decimal, Decimal, Decimal, Instant, Decimal)>::new(), d("vb", dec!(5)), dec!(0), dec!(0), dec!(0))).wrap1()),
        ("POOL", "deposit") => bucket(b, "BASE", one),
        ("POOL", "withdraw") => m(b, v(&(d("amount", dec!(0)), WithdrawStrategy::Exact))),
        ("CONFIG", "update_exchange_config") | ("EXCHANGE", "update_exchange_config") => b.call_method(a, method, manifest_args!(::config::ExchangeConfig::default())),
        ("CONFIG", "update_pair_configs") | ("EXCHANGE", "update_pair_configs") => b.call_method(a, method, manifest_args!(Vec::<::config::PairConfig>::new())),
        ("CONFIG", "update_collateral_configs") | ("EXCHANGE", "update_collateral_configs") => b.call_method(a, method, manifest_args!(Vec::<(ResourceAddress, ::config::CollateralConfig)>::new())),
        ("CONFIG", "remove_collateral_config") | ("EXCHANGE", "remove_collateral_config") => m(b, v(&(e.w.res["CX"],))),
        ("FEE_DISTRIBUTOR", "distribute") => m(b, v(&(one, one))),
        ("FEE_DISTRIBUTOR", _) => m(b, v(&(one,))),
        ("FEE_DELEGATOR", "update_is_contingent") => m(b, v(&(false,))),
        ("FEE_DELEGATOR", "deposit") => bucket(b, "XRD", one),
        ("FEE_DELEGATOR", "withdraw") => m(b, v(&(d("amount", dec!(0)),))),
        ("FEE_DELEGATOR", "lock_fee") => m(b, v(&(dec!(0),))),
        ("FEE_DELEGATOR", "get_info" | "get_virtual_balance") => m(b, v(&())),
        ("FEE_DELEGATOR", _) => m(b, v(&(one,))),
        ("PERMISSION_REGISTRY", "set_permissions") => m(b, v(&(e.rule("K4"), (IndexSet::<ComponentAddress>::new(), IndexSet::<ComponentAddress>::new(), IndexSet::<ComponentAddress>::new())))),
        ("REFERRAL_GENERATOR", "add_allocation") => {
            let b = e.take(b, "BASE", one, "gb");
            b.call_method_with_name_lookup(a, method, |l| (vec![l.bucket("gb")], rid, vec![(base, one)], 1u64))
        }
        ("REFERRAL_GENERATOR", "create_referral_codes") => {
            let b = e.take(b, "BASE", one, "gb");
            let h: IndexMap<Hash, (Claims, u64)> = indexmap! { hash_of("gate") => (vec![(base, one)], 1u64) };
            b.call_method_with_name_lookup(a, method, |l| (vec![l.bucket("gb")], rid, h))
        }
        ("REFERRAL_GENERATOR", "create_referral_codes_from_allocation") => m(b, v(&(rid, 0u64, btreeset![hash_of("gate")]))),
        ("REFERRAL_GENERATOR", "claim_referral_code") => m(b, v(&(hash_of(op["code"].as_str().unwrap_or("gate")),))),
        ("ORACLE", "add_key") => b.call_method(a, method, manifest_args!(77u64, Bls12381G1PrivateKey::from_u64(9).unwrap().public_key())),
        ("ORACLE", "remove_key") => m(b, v(&(77u64,))),
        ("ORACLE", "remove_price") => m(b, v(&("ZZ".to_string(),))),
        ("ORACLE", "push_and_get_prices_with_auth" | "push_and_get_prices") => b.call_method(a, method, manifest_args!(feeds.into_iter().collect::<BTreeSet<String>>(), px.0, px.1, px.2)),
        ("ORACLE", "get_prices_with_auth" | "get_prices") => m(b, v(&(BTreeSet::<String>::new(),))),
        ("TOKEN_WRAPPER", "deposit_authority") => bucket(b, "BAUTH", dec!(0)),
        ("EXCHANGE", "deposit_authority") => bucket(b, "AUTH", dec!(0)),
        ("TOKEN_WRAPPER" | "EXCHANGE", "withdraw_authority") => m(b, v(&())),
        ("TOKEN_WRAPPER", "add_input") => m(b, v(&(e.w.res["CX"],))),
        ("TOKEN_WRAPPER", "update_wrappable") => m(b, v(&(e.w.res[op["res"].as_str().unwrap_or("C1")], true))),
        ("TOKEN_WRAPPER", "wrap") => bucket(b, "C1", one),
        ("TOKEN_WRAPPER", "unwrap") => { let c1 = e.w.res["C1"]; e.take(b, "BASE", one, "gb").call_method_with_name_lookup(a, method, |l| (l.bucket("gb"), c1)) }
        ("TOKEN_WRAPPER", "flash_loan") => m(b, v(&(dec!(0),))),
        ("TOKEN_WRAPPER", "repay_flash_loan") => e.take(b, "C1", one, "ga").take_from_worktop(e.w.res["C1"], dec!(0), "gc")
            .call_method_with_name_lookup(a, method, |l| (l.bucket("ga"), l.bucket("gc"))),
        ("TOKEN_WRAPPER", _) => m(b, v(&(10u64, None::<u64>))),
        ("ENV_REGISTRY", "remove_variables") => m(b, v(&(Vec::<String>::new(),))),
        ("ENV_REGISTRY", "set_variables") => m(b, v(&(Vec::<(String, String)>::new(),))),
        ("EXCHANGE", "signal_upgrade") => m(b, v(&(acct,))),
        ("EXCHANGE", x) => {
            let z = "0";
            let o = match x {
                "collect_treasury" | "collect_fee_delegator" => json!({"op": x}),
                "mint_referral" => json!({"op": "mint_ref", "fee_referral": z, "fee_rebate": z, "max": 1}),
                "mint_referral_with_allocation" => json!({"op": "mint_ref", "fee_referral": z, "fee_rebate": z, "max": 1, "tokens": [["BASE", "5"]], "alloc": [["BASE", "5"]], "count": 1}),
                "update_referral" => json!({"op": "update_ref", "ref": 0}),
                "add_referral_allocation" => json!({"op": "add_alloc", "ref": 0, "tokens": [["BASE", "5"]], "claims": [["BASE", "5"]], "count": 1}),
                "swap_protocol_fee" => json!({"op": "swap_protocol", "amount": "10000000000000000000000"}),
                "add_liquidity" => json!({"op": "add_liq", "amount": "1000000000000000000"}),
                "remove_liquidity" => json!({"op": "remove_liq", "amount": z}),
                "create_referral_codes" => json!({"op": "create_codes", "ref": 0, "fake": "auth", "codes": []}),
                "create_referral_codes_from_allocation" => json!({"op": "codes_from_alloc", "ref": 0, "fake": "auth", "alloc": 0, "codes": []}),
                "collect_referral_rewards" => json!({"op": "collect_ref", "ref": 0, "fake": "auth"}),
                "create_account" => json!({"op": "create_account", "rule": "K1", "tokens": []}),
                "create_recovery_key" => json!({"op": "recovery", "acct": 0}),
                "add_auth_rule" => json!({"op": "add_rule", "acct": 0, "level": 1, "rule": "K4"}),
                "set_level_1_auth" => json!({"op": "set_auth", "acct": 0, "level": 1, "rule": "K1"}),
                "set_level_2_auth" => json!({"op": "set_auth", "acct": 0, "level": 2, "rule": "K1"}),
                "set_level_3_auth" => json!({"op": "set_auth", "acct": 0, "level": 3, "rule": "K1"}),
                "add_collateral" => json!({"op": "add_coll", "acct": 0, "tokens": []}),
                "remove_collateral_request" => json!({"op": "remove_req", "acct": 0, "expiry": 1, "target": "TARGET", "claims": []}),
                "margin_order_request" => json!({"op": "order", "delay": 0, "expiry": 1, "acct": 0, "pair": "P1", "amt": "1000000000000000000", "status": 1}),
                "margin_order_tp_sl_request" => json!({"op": "tpsl", "delay": 0, "expiry": 1, "acct": 0, "pair": "P1", "amt": "1000000000000000000"}),
                "cancel_requests" => json!({"op": "cancel", "acct": 0, "indexes": []}),
                "process_request" => json!({"op": "process", "acct": 0, "index": 0}),
                "swap_debt" => json!({"op": "swap_debt", "acct": 0, "res": "C1", "amount": "1"}),
                "liquidate" => json!({"op": "liquidate", "acct": 0, "amount": "1"}),
                "auto_deleverage" => json!({"op": "adl", "acct": 0, "pair": "P1"}),
                "update_pairs" => json!({"op": "update_pairs", "pairs": []}),
                _ => panic!("gate: {}", x),
            };
            e.build(b, &o)
        }
        (k, x) => panic!("gate: {} {}", k, x),
    }
}

trait CallRaw { fn call_method_raw(self, a: ComponentAddress, m: &str, args: ManifestValue) -> Self; }
impl CallRaw for ManifestBuilder {
    fn call_method_raw(self, a: ComponentAddress, m: &str, args: ManifestValue) -> Self {
        self.add_instruction_advanced(InstructionV1::CallMethod { address: a.into(), method_name: m.to_string(), args }).0
    }
}
trait Wrap1 { fn wrap1(self) -> Self; }
impl Wrap1 for ManifestValue { fn wrap1(self) -> Self { ManifestValue::Tuple { fields: vec![self] } } }

/// {"op":"gate","comp","method","before":[ops in the same transaction]}: nothing is committed.
pub fn run(e: &mut Exec, s: &Value) -> Map<String, Value> {
    let op = &s["op"];
    let mut b = ManifestBuilder::new().lock_fee_from_faucet();
    if s["auth"].as_bool() == Some(true) { b = b.create_proof_from_account_of_amount(e.w.wallet, e.w.res["AUTH"], dec!(1)); }
    let rk = e.rk_signers(&s["signers"]);
    if !rk.is_empty() { b = b.create_proof_from_account_of_non_fungibles(e.w.wallet, e.w.res["RKEY"], rk); }
    for o in op["before"].as_array().into_iter().flatten() { b = e.build(b, o); }
    b = call(e, b, st(op, "comp"), st(op, "method"), op);
    b = b.drop_all_proofs().try_deposit_entire_worktop_or_abort(e.w.wallet, None);
    let names = ["W", "D", "K1", "K2", "K3", "K4"];
    let mut keys = vec![PublicKey::Secp256k1(key(1001))];
    for x in s["signers"].as_array().into_iter().flatten() {
        if let Some(p) = names.iter().position(|n| Some(*n) == x.as_str()) { if p > 0 { keys.push(PublicKey::Secp256k1(key(1001 + p as u64))); } }
    }
    let r = e.l.preview_manifest(b.build(), keys, 0, PreviewFlags::default());
    let mut o = Map::new();
    match &r.result {
        TransactionResult::Commit(c) => match &c.outcome {
            TransactionOutcome::Success(_) => { o.insert("ok".into(), json!(true)); o.insert("auth".into(), json!(false)); }
            TransactionOutcome::Failure(x) => { o.insert("ok".into(), json!(false)); o.insert("auth".into(), json!(is_auth_error(x))); o.insert("err".into(), json!(short(format!("{:?}", x)))); }
        },
        x => { o.insert("ok".into(), json!(false)); o.insert("auth".into(), json!(null)); o.insert("err".into(), json!(short(format!("{:?}", x)))); }
    }
    o
}
