//! Executes scenario steps against the deployed system and reports what can be observed.
use crate::deploy::*;
use crate::gate;
use crate::native::SurgeVm;
use ::account::*;
use ::common::{ListIndex, PairId};
use ::config::*;
use ::exchange::{PriceLimit, Request, RequestIndexRef, SlippageLimit};
use ::oracle::Price;
use ::pool::*;
use ::referral_generator::*;
use radix_engine::object_modules::role_assignment::*;
use radix_engine::system::system_db_reader::*;
use scrypto_test::prelude::*;
use serde_json::{json, Map, Value};
use std::io::{BufRead, Write};
use std::str::FromStr;

pub const DISPENSED: [&str; 4] = ["FBTC", "FETH", "FUSDC", "FUSDT"];
pub const RESOURCES: [&str; 12] = ["BASE", "LP", "PROT", "KEEP", "C1", "C2", "C3", "CX", "XRD", "OATH", "FLASH", "AUTH"];
pub const PAIRS: [&str; 4] = ["P1", "P2", "P3", "P4"];

pub struct Exec {
    pub l: Ledger,
    pub w: World,
    pub base: LedgerSimulatorSnapshot,
    pub accts: Vec<ComponentAddress>,
    pub refs: Vec<NonFungibleLocalId>,
    pub rkeys: Vec<NonFungibleLocalId>,
    pub rules: Vec<String>,
    pub codes: Vec<String>,
    pub feeds: Vec<String>,
    pair_list: Vec<String>,
    req_lens: Vec<u64>,
}

type B = ManifestBuilder;

pub fn dec_of(v: &Value) -> Decimal {
    let s = v.as_str().map(|s| s.to_string()).unwrap_or_else(|| v.to_string());
    Decimal(I192::from_str(&s).unwrap_or_else(|_| panic!("bad amount {}", s)))
}
pub fn dj(d: Decimal) -> Value { Value::String(d.0.to_string()) }
pub fn st<'a>(v: &'a Value, k: &str) -> &'a str { v[k].as_str().unwrap_or_else(|| panic!("missing {} in {}", k, v)) }
// pages asked of the paginated getters
const REQUEST_PAGES: [(u64, Option<u64>); 9] = [(3, None), (2, Some(1)), (4, Some(50)), (0, None), (1, Some(0)), (1, None), (3, Some(4)), (100, None), (1, Some(2))];
const FORWARD_PAGES: [(u64, Option<u64>); 5] = [(2, None), (1, Some(1)), (3, Some(2)), (100, Some(0)), (0, None)];
const VARIABLES: [&str; 5] = ["a", "b", "c", "", "a.b"];
const PAIR_PAGES: [(u64, Option<u64>); 4] = [(2, None), (1, Some(1)), (5, Some(1)), (3, Some(7))];

pub fn u(v: &Value) -> u64 { v.as_u64().or_else(|| v.as_str().and_then(|s| s.parse().ok())).unwrap_or_else(|| panic!("not u64 {}", v)) }
pub fn i(v: &Value) -> i64 { v.as_i64().or_else(|| v.as_str().and_then(|s| s.parse().ok())).unwrap_or_else(|| panic!("not i64 {}", v)) }
pub fn hash_of(code: &str) -> Hash { keccak256_hash(code.as_bytes()) }

pub fn serve(ledger: Ledger, w: World) {
    let base = ledger.create_snapshot();
    let mut e = Exec { l: ledger, w, base, accts: vec![], refs: vec![], rkeys: vec![], rules: vec![], codes: vec![], feeds: vec![], pair_list: vec![], req_lens: vec![] };
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() { continue; }
        let trace: Value = serde_json::from_str(&line).unwrap();
        let r = e.trace(&trace);
        let mut o = out.lock();
        serde_json::to_writer(&mut o, &r).unwrap();
        o.write_all(b"\n").unwrap();
        o.flush().unwrap();
    }
}

impl Exec {
    fn trace(&mut self, t: &Value) -> Value {
        self.l.restore_snapshot(self.base.clone());
        self.accts.clear();
        self.refs.clear();
        self.rkeys.clear();
        let strs = |v: &Value| v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
        self.rules = strs(&t["rules"]);
        self.codes = strs(&t["codes"]);
        self.feeds = PAIRS.iter().map(|s| s.to_string()).collect();
        self.feeds.extend(strs(&t["feeds"]));
        let mut steps = vec![];
        for s in t["steps"].as_array().unwrap() {
            let mut r = self.step(s);
            if s["quiet"].as_bool() != Some(true) {
                r.insert("obs".into(), self.observe());
            }
            steps.push(Value::Object(r));
        }
        json!({"id": t["id"], "steps": steps})
    }

    pub fn set_time(&mut self, sec: i64) {
        let mut wr = SystemDatabaseWriter::new(self.l.substate_db_mut());
        wr.write_typed_object_field(
            CONSENSUS_MANAGER.as_node_id(), ModuleId::Main, ConsensusManagerField::ProposerMilliTimestamp.field_index(),
            ConsensusManagerProposerMilliTimestampFieldPayload::from_content_source(ProposerMilliTimestampSubstate { epoch_milli: sec * 1000 }),
        ).unwrap();
        wr.write_typed_object_field(
            CONSENSUS_MANAGER.as_node_id(), ModuleId::Main, ConsensusManagerField::ProposerMinuteTimestamp.field_index(),
            ConsensusManagerProposerMinuteTimestampFieldPayload::from_content_source(ProposerMinuteTimestampSubstate { epoch_minute: (sec / 60) as i32 }),
        ).unwrap();
    }

    pub fn rk_id(&self, n: usize) -> NonFungibleGlobalId {
        NonFungibleGlobalId::new(self.w.res["RKEY"], self.rkeys.get(n).cloned().unwrap_or(NonFungibleLocalId::integer(n as u64 + 1)))
    }
    fn leaf(&self, s: &str) -> AccessRuleNode {
        if let Some(n) = s.strip_prefix("RK") {
            return AccessRuleNode::ProofRule(ProofRule::Require(ResourceOrNonFungible::NonFungible(self.rk_id(n.parse().unwrap()))));
        }
        if let Some(r) = self.w.res.get(s) {
            return AccessRuleNode::ProofRule(ProofRule::Require(ResourceOrNonFungible::Resource(*r)));
        }
        AccessRuleNode::ProofRule(ProofRule::Require(ResourceOrNonFungible::NonFungible(self.w.keys[s].clone())))
    }
    /// "allow" | "deny" | node ; node = leaf | any(node,..) | all(node,..)
    pub fn node(&self, s: &str) -> AccessRuleNode {
        let list = |inner: &str| -> Vec<AccessRuleNode> {
            let (mut depth, mut start, mut v) = (0, 0, vec![]);
            for (p, c) in inner.char_indices() {
                match c { '(' => depth += 1, ')' => depth -= 1, ',' if depth == 0 => { v.push(self.node(&inner[start..p])); start = p + 1; } _ => {} }
            }
            if start < inner.len() { v.push(self.node(&inner[start..])); }
            v
        };
        if let Some(x) = s.strip_prefix("any(").and_then(|x| x.strip_suffix(")")) { AccessRuleNode::AnyOf(list(x)) }
        else if let Some(x) = s.strip_prefix("all(").and_then(|x| x.strip_suffix(")")) { AccessRuleNode::AllOf(list(x)) }
        else { self.leaf(s) }
    }
    pub fn rule(&self, s: &str) -> AccessRule {
        match s { "allow" => AccessRule::AllowAll, "deny" => AccessRule::DenyAll, _ => AccessRule::Protected(self.node(s)) }
    }
    fn node_str(&self, n: &AccessRuleNode) -> String {
        match n {
            AccessRuleNode::AnyOf(v) => format!("any({})", v.iter().map(|x| self.node_str(x)).collect::<Vec<_>>().join(",")),
            AccessRuleNode::AllOf(v) => format!("all({})", v.iter().map(|x| self.node_str(x)).collect::<Vec<_>>().join(",")),
            AccessRuleNode::ProofRule(ProofRule::Require(ResourceOrNonFungible::NonFungible(g))) => {
                if let Some((k, _)) = self.w.keys.iter().find(|(_, v)| *v == g) { return k.clone(); }
                if let Some(p) = (0..self.rkeys.len()).find(|p| self.rk_id(*p) == *g) { return format!("RK{}", p); }
                format!("{:?}", g)
            }
            AccessRuleNode::ProofRule(ProofRule::Require(ResourceOrNonFungible::Resource(r))) => self.res_name(r),
            x => format!("{:?}", x),
        }
    }
    pub fn rule_str(&self, r: &AccessRule) -> String {
        match r { AccessRule::AllowAll => "allow".into(), AccessRule::DenyAll => "deny".into(), AccessRule::Protected(n) => self.node_str(n) }
    }
    pub fn res_name(&self, r: &ResourceAddress) -> String {
        self.w.res.iter().find(|(_, v)| *v == r).map(|(k, _)| k.clone()).unwrap_or_else(|| format!("{:?}", r))
    }
    pub fn res(&self, s: &str) -> ResourceAddress { *self.w.res.get(s).unwrap_or_else(|| panic!("no resource {}", s)) }
    pub fn acct(&self, v: &Value) -> ComponentAddress {
        let n = u(v) as usize;
        self.accts.get(n).copied().unwrap_or(self.w.wallet)
    }
    fn ref_id(&self, v: &Value) -> NonFungibleLocalId {
        self.refs.get(u(v) as usize).cloned().unwrap_or_else(|| NonFungibleLocalId::ruid([u(v) as u8; 32]))
    }
    pub fn comp(&self, s: &str) -> ComponentAddress {
        if let Some(n) = s.strip_prefix('A') { if let Ok(n) = n.parse::<usize>() { return self.accts.get(n).copied().unwrap_or(self.w.wallet); } }
        match s { "WALLET" => self.w.wallet, "TARGET" => self.w.target, "REJECT" => self.w.rejecting, _ => self.w.comp[s] }
    }
    pub fn signers(&self, v: &Value) -> Vec<NonFungibleGlobalId> {
        let mut s = vec![self.w.keys["W"].clone()];
        if let Some(a) = v.as_array() {
            for x in a {
                let x = x.as_str().unwrap();
                if x != "W" && !x.starts_with("RK") { s.push(self.w.keys[x].clone()); }
            }
        }
        s
    }
    pub fn rk_signers(&self, v: &Value) -> BTreeSet<NonFungibleLocalId> {
        v.as_array().into_iter().flatten().filter_map(|x| x.as_str().unwrap().strip_prefix("RK").map(|n| n.parse::<usize>().unwrap()))
            .filter_map(|n| self.rkeys.get(n).cloned()).collect()
    }

    /// Takes `amount` of `res` out of the wallet into a bucket called `name`.
    pub fn take(&self, b: B, res: &str, amount: Decimal, name: &str) -> B {
        let r = self.res(res);
        let b = if amount.is_positive() { b.withdraw_from_account(self.w.wallet, r, amount) } else { b };
        b.take_from_worktop(r, amount.max(Decimal::ZERO), name)
    }
    pub fn take_tokens(&self, mut b: B, v: &Value, prefix: &str) -> (B, Vec<String>) {
        let mut names = vec![];
        for (n, t) in v.as_array().into_iter().flatten().enumerate() {
            let name = format!("{}{}", prefix, n);
            b = self.take(b, t[0].as_str().unwrap(), dec_of(&t[1]), &name);
            names.push(name);
        }
        (b, names)
    }
    pub fn claims(&self, v: &Value) -> Vec<(ResourceAddress, Decimal)> {
        v.as_array().into_iter().flatten().map(|c| (self.res(c[0].as_str().unwrap()), dec_of(&c[1]))).collect()
    }
    /// {"prices":[[feed,quote,ts]..],"key":id,"seed":n,"tamper":""|"data"|"sig"|"garbage"}
    pub fn px(&self, v: &Value) -> Option<(Vec<u8>, Bls12381G2Signature, ListIndex)> {
        if v.is_null() { return None; }
        let mut prices: Vec<Price> = v["prices"].as_array().unwrap().iter().map(|p| Price {
            pair: p[0].as_str().unwrap().to_string(), quote: dec_of(&p[1]), timestamp: Instant::new(i(&p[2])),
        }).collect();
        let mut data = scrypto_encode(&prices).unwrap();
        let tamper = v["tamper"].as_str().unwrap_or("");
        if tamper == "garbage" { data = vec![1, 2, 3]; }
        let hash = keccak256_hash(&data).to_vec();
        let mut sig = Bls12381G1PrivateKey::from_u64(u(&v["seed"])).unwrap().sign_v1(&hash);
        match tamper {
            "data" => { for p in prices.iter_mut() { p.quote = p.quote.checked_add(Decimal(I192::ONE)).unwrap(); } data = scrypto_encode(&prices).unwrap(); }
            "ts" => { for p in prices.iter_mut() { p.timestamp = Instant::new(p.timestamp.seconds_since_unix_epoch + 1); } data = scrypto_encode(&prices).unwrap(); }
            "sig" => { sig = Bls12381G1PrivateKey::from_u64(u(&v["seed"])).unwrap().sign_v1(&data); }
            "append" => { prices.push(Price { pair: "ZZ".into(), quote: dec!(1), timestamp: Instant::new(1) }); data = scrypto_encode(&prices).unwrap(); }
            _ => {}
        }
        Some((data, sig, u(&v["key"])))
    }
    /// Locks a delegated fee; the obligation ends up in bucket "oath".
    fn oath(&self, b: B, v: &Value) -> (B, bool) {
        if v.is_null() { return (b, false); }
        let amount = dec_of(&v["amount"]);
        let fd = self.w.comp["FEE_DELEGATOR"];
        let oath = self.w.res["OATH"];
        match v["mode"].as_str().unwrap_or("full") {
            "fake" => (self.take(b, v["res"].as_str().unwrap_or("BASE"), amount, "oath"), true),
            "part" => (b.call_method(fd, "lock_fee", manifest_args!(amount)).take_from_worktop(oath, dec_of(&v["part"]), "oath"), true),
            // two locks, both charged at once
            "double" => (b.call_method(fd, "lock_fee", manifest_args!(amount)).call_method(fd, "lock_fee", manifest_args!(amount)).take_all_from_worktop(oath, "oath"), true),
            _ => (b.call_method(fd, "lock_fee", manifest_args!(amount)).take_all_from_worktop(oath, "oath"), true),
        }
    }
    fn index_ref(v: &Value) -> RequestIndexRef {
        if let Some(r) = v.get("rel") { RequestIndexRef::RelativeIndex(i(r)) } else { RequestIndexRef::Index(u(v)) }
    }
    pub fn price_limit(v: &Value) -> PriceLimit {
        match v[0].as_str() { Some("gte") => PriceLimit::Gte(dec_of(&v[1])), Some("lte") => PriceLimit::Lte(dec_of(&v[1])), _ => PriceLimit::None }
    }
    pub fn slippage(v: &Value) -> SlippageLimit {
        match v[0].as_str() { Some("pct") => SlippageLimit::Percent(dec_of(&v[1])), Some("abs") => SlippageLimit::Absolute(dec_of(&v[1])), _ => SlippageLimit::None }
    }
    pub fn exchange_config(c: &Value) -> ExchangeConfig {
        ExchangeConfig {
            positions_max: u(&c["positions_max"]) as u16, collaterals_max: u(&c["collaterals_max"]) as u16, active_requests_max: u(&c["active_requests_max"]) as u16,
            skew_ratio_cap: dec_of(&c["skew_ratio_cap"]), adl_offset: dec_of(&c["adl_offset"]), adl_a: dec_of(&c["adl_a"]), adl_b: dec_of(&c["adl_b"]),
            fee_liquidity_add: dec_of(&c["fee_liquidity_add"]), fee_liquidity_remove: dec_of(&c["fee_liquidity_remove"]),
            fee_share_protocol: dec_of(&c["fee_share_protocol"]), fee_share_treasury: dec_of(&c["fee_share_treasury"]), fee_share_referral: dec_of(&c["fee_share_referral"]),
            fee_max: dec_of(&c["fee_max"]), protocol_burn_amount: dec_of(&c["protocol_burn_amount"]), reward_keeper: dec_of(&c["reward_keeper"]),
        }
    }
    pub fn pair_config(c: &Value) -> PairConfig {
        PairConfig {
            pair_id: st(c, "pair_id").to_string(), price_age_max: i(&c["price_age_max"]), oi_max: dec_of(&c["oi_max"]), trade_size_min: dec_of(&c["trade_size_min"]),
            update_price_delta_ratio: dec_of(&c["update_price_delta_ratio"]), update_period_seconds: i(&c["update_period_seconds"]),
            margin_initial: dec_of(&c["margin_initial"]), margin_maintenance: dec_of(&c["margin_maintenance"]),
            funding_1: dec_of(&c["funding_1"]), funding_2: dec_of(&c["funding_2"]), funding_2_delta: dec_of(&c["funding_2_delta"]), funding_2_decay: dec_of(&c["funding_2_decay"]),
            funding_pool_0: dec_of(&c["funding_pool_0"]), funding_pool_1: dec_of(&c["funding_pool_1"]), funding_share: dec_of(&c["funding_share"]),
            fee_0: dec_of(&c["fee_0"]), fee_1: dec_of(&c["fee_1"]),
        }
    }
    pub fn collateral_config(c: &Value) -> CollateralConfig {
        CollateralConfig { pair_id: st(c, "pair_id").to_string(), price_age_max: i(&c["price_age_max"]), discount: dec_of(&c["discount"]), margin: dec_of(&c["margin"]) }
    }

    fn badge(&self, b: B, op: &Value) -> B {
        if op["badge"].as_bool() == Some(true) { b.create_proof_from_account_of_amount(self.w.wallet, self.res("FO"), dec!(1)) } else { b }
    }
    pub fn build(&self, b: B, op: &Value) -> B {
        let ex = self.w.comp["EXCHANGE"];
        let name = st(op, "op");
        let opt = |l: &ManifestNameLookup, has: bool| if has { Some(l.bucket("oath")) } else { None::<ManifestBucket> };
        let (b, oath) = self.oath(b, &op["oath"]);
        let buckets = |l: &ManifestNameLookup, n: &Vec<String>| n.iter().map(|x| l.bucket(x.as_str())).collect::<Vec<ManifestBucket>>();
        match name {
            "noop" => b,
            "call" => gate::call(self, b, st(op, "comp"), st(op, "method"), op),
            "push" => {
                let (data, sig, key) = self.px(&op["px"]).unwrap();
                let feeds: BTreeSet<String> = op["want"].as_array().into_iter().flatten().map(|x| x.as_str().unwrap().to_string()).collect();
                b.call_method(self.w.comp["ORACLE"], "push_and_get_prices", manifest_args!(feeds, data, sig, key))
            }
            "get_prices" => {
                let feeds: BTreeSet<String> = op["want"].as_array().into_iter().flatten().map(|x| x.as_str().unwrap().to_string()).collect();
                b.call_method(self.w.comp["ORACLE"], "get_prices", manifest_args!(feeds))
            }
            "add_liq" => self.take(b, op["res"].as_str().unwrap_or("BASE"), dec_of(&op["amount"]), "p")
                .call_method_with_name_lookup(ex, "add_liquidity", |l| (l.bucket("p"),)),
            "remove_liq" => self.take(b, op["res"].as_str().unwrap_or("LP"), dec_of(&op["amount"]), "p")
                .call_method_with_name_lookup(ex, "remove_liquidity", |l| (l.bucket("p"),)),
            "create_account" => {
                let (b, n) = self.take_tokens(b, &op["tokens"], "t");
                let rule = self.rule(st(op, "rule"));
                let code = op["code"].as_str().map(|s| s.to_string());
                b.call_method_with_name_lookup(ex, "create_account", |l| (opt(&l, oath), rule, buckets(&l, &n), code, None::<ManifestAddressReservation>))
            }
            "add_coll" => {
                let (b, n) = self.take_tokens(b, &op["tokens"], "t");
                let a = self.acct(&op["acct"]);
                b.call_method_with_name_lookup(ex, "add_collateral", |l| (opt(&l, oath), a, buckets(&l, &n)))
            }
            "remove_req" => {
                let a = self.acct(&op["acct"]);
                let c = self.claims(&op["claims"]);
                b.call_method_with_name_lookup(ex, "remove_collateral_request", |l| (opt(&l, oath), u(&op["expiry"]), a, self.comp(st(op, "target")), c))
            }
            "order" => {
                let a = self.acct(&op["acct"]);
                let refs = |k: &str| op[k].as_array().into_iter().flatten().map(Self::index_ref).collect::<Vec<_>>();
                let (act, can) = (refs("act"), refs("can"));
                b.call_method_with_name_lookup(ex, "margin_order_request", |l| (
                    opt(&l, oath), u(&op["delay"]), u(&op["expiry"]), a, st(op, "pair").to_string(), dec_of(&op["amt"]), op["reduce"].as_bool().unwrap_or(false),
                    Self::price_limit(&op["plim"]), Self::slippage(&op["slip"]), act, can, u(&op["status"]) as u8,
                ))
            }
            "tpsl" => {
                let a = self.acct(&op["acct"]);
                let p = |k: &str| if op[k].is_null() { None } else { Some(dec_of(&op[k])) };
                let (tp, sl) = (p("tp"), p("sl"));
                b.call_method_with_name_lookup(ex, "margin_order_tp_sl_request", |l| (
                    opt(&l, oath), u(&op["delay"]), u(&op["expiry"]), a, st(op, "pair").to_string(), dec_of(&op["amt"]), op["reduce"].as_bool().unwrap_or(false),
                    Self::price_limit(&op["plim"]), Self::slippage(&op["slip"]), tp, sl,
                ))
            }
            "cancel" => {
                let a = self.acct(&op["acct"]);
                let idx: Vec<u64> = op["indexes"].as_array().unwrap().iter().map(u).collect();
                b.call_method_with_name_lookup(ex, "cancel_requests", |l| (opt(&l, oath), a, idx))
            }
            "process" => b.call_method(ex, "process_request", manifest_args!(self.acct(&op["acct"]), u(&op["index"]), self.px(&op["px"]))),
            "swap_debt" => {
                let a = self.acct(&op["acct"]);
                let px = self.px(&op["px"]);
                let r = self.res(st(op, "res"));
                self.take(b, op["pres"].as_str().unwrap_or("BASE"), dec_of(&op["amount"]), "p")
                    .call_method_with_name_lookup(ex, "swap_debt", |l| (a, r, l.bucket("p"), px))
            }
            "liquidate" => {
                let a = self.acct(&op["acct"]);
                let px = self.px(&op["px"]);
                self.take(b, op["pres"].as_str().unwrap_or("BASE"), dec_of(&op["amount"]), "p")
                    .call_method_with_name_lookup(ex, "liquidate", |l| (a, l.bucket("p"), px))
            }
            "adl" => b.call_method(ex, "auto_deleverage", manifest_args!(self.acct(&op["acct"]), st(op, "pair").to_string(), self.px(&op["px"]))),
            "update_pairs" => {
                let pairs: Vec<String> = op["pairs"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                b.call_method(ex, "update_pairs", manifest_args!(pairs, self.px(&op["px"])))
            }
            "set_auth" => {
                let a = self.acct(&op["acct"]);
                let m = format!("set_level_{}_auth", u(&op["level"]));
                let rule = self.rule(st(op, "rule"));
                b.call_method_with_name_lookup(ex, m, |l| (opt(&l, oath), a, rule))
            }
            "add_rule" => {
                let a = self.acct(&op["acct"]);
                let node = self.node(st(op, "rule"));
                b.call_method_with_name_lookup(ex, "add_auth_rule", |l| (opt(&l, oath), a, u(&op["level"]) as u8, node))
            }
            "recovery" => {
                let a = self.acct(&op["acct"]);
                b.call_method_with_name_lookup(ex, "create_recovery_key", |l| (opt(&l, oath), a))
            }
            "ex_cfg" => b.call_method(ex, "update_exchange_config", manifest_args!(Self::exchange_config(&op["cfg"]))),
            "pair_cfg" => b.call_method(ex, "update_pair_configs", manifest_args!(op["cfgs"].as_array().unwrap().iter().map(Self::pair_config).collect::<Vec<_>>())),
            "coll_cfg" => b.call_method(ex, "update_collateral_configs", manifest_args!(
                op["cfgs"].as_array().unwrap().iter().map(|c| (self.res(st(c, "res")), Self::collateral_config(c))).collect::<Vec<_>>())),
            "faucet_amount" => self.badge(b, op).call_method(self.w.comp["FAUCET"], "update_mint_amount", manifest_args!(self.res(st(op, "res")), dec_of(&op["amount"]))),
            "faucet_mint" => self.badge(b, op).call_method(self.w.comp["FAUCET"], "admin_mint_token", manifest_args!(self.res(st(op, "res")), dec_of(&op["amount"]))),
            "faucet_user" => { let r = self.rule(st(op, "rule")); self.badge(b, op).set_main_role(self.w.comp["FAUCET"], "user", r) }
            "faucet_free" => b.call_method(self.w.comp["FAUCET"], "free_tokens", manifest_args!()),
            "env_set" => b.call_method(self.w.comp["ENV_REGISTRY"], "set_variables", manifest_args!(op["vars"].as_array().unwrap().iter().map(|x| (x[0].as_str().unwrap().to_string(), x[1].as_str().unwrap().to_string())).collect::<Vec<(String, String)>>())),
            "env_rm" => b.call_method(self.w.comp["ENV_REGISTRY"], "remove_variables", manifest_args!(op["keys"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect::<Vec<String>>())),
            "coll_rm" => b.call_method(ex, "remove_collateral_config", manifest_args!(self.res(st(op, "res")))),
            "collect_treasury" | "collect_fee_delegator" => b.call_method(ex, name, manifest_args!()),
            "swap_protocol" => self.take(b, op["res"].as_str().unwrap_or("PROT"), dec_of(&op["amount"]), "p")
                .call_method_with_name_lookup(ex, "swap_protocol_fee", |l| (l.bucket("p"),)),
            "mint_ref" => {
                let url = UncheckedUrl::of("https://surge.trade/x.png");
                let (f, r, m) = (dec_of(&op["fee_referral"]), dec_of(&op["fee_rebate"]), u(&op["max"]));
                if op["alloc"].is_null() {
                    b.call_method(ex, "mint_referral", manifest_args!("n", "d", url, f, r, m))
                } else {
                    let (b, n) = self.take_tokens(b, &op["tokens"], "t");
                    let (c, k) = (self.claims(&op["alloc"]), u(&op["count"]));
                    b.call_method_with_name_lookup(ex, "mint_referral_with_allocation", |l| ("n", "d", url, f, r, m, buckets(&l, &n), c, k))
                }
            }
            "update_ref" => {
                let p = |k: &str| if op[k].is_null() { None } else { Some(dec_of(&op[k])) };
                let m = if op["max"].is_null() { None } else { Some(u(&op["max"])) };
                b.call_method(ex, "update_referral", manifest_args!(self.ref_id(&op["ref"]), p("fee_referral"), p("fee_rebate"), m))
            }
            "add_alloc" => {
                let (b, n) = self.take_tokens(b, &op["tokens"], "t");
                let (id, c, k) = (self.ref_id(&op["ref"]), self.claims(&op["claims"]), u(&op["count"]));
                b.call_method_with_name_lookup(ex, "add_referral_allocation", |l| (id, buckets(&l, &n), c, k))
            }
            "create_codes" => {
                let (b, n) = self.take_tokens(b, &op["tokens"], "t");
                let b = self.ref_proof(b, op);
                let hashes: IndexMap<Hash, (Vec<(ResourceAddress, Decimal)>, u64)> = op["codes"].as_array().unwrap().iter()
                    .map(|c| (hash_of(c[0].as_str().unwrap()), (self.claims(&c[1]), u(&c[2])))).collect();
                b.call_method_with_name_lookup(ex, "create_referral_codes", |l| (l.proof("rp"), buckets(&l, &n), hashes))
            }
            "codes_from_alloc" => {
                let b = self.ref_proof(b, op);
                let hashes: BTreeSet<Hash> = op["codes"].as_array().unwrap().iter().map(|c| hash_of(c.as_str().unwrap())).collect();
                b.call_method_with_name_lookup(ex, "create_referral_codes_from_allocation", |l| (l.proof("rp"), u(&op["alloc"]), hashes))
            }
            "collect_ref" => self.ref_proof(b, op).call_method_with_name_lookup(ex, "collect_referral_rewards", |l| (l.proof("rp"),)),
            "fd_cfg" => {
                let fd = self.w.comp["FEE_DELEGATOR"];
                let mut b = b;
                if !op["max_lock"].is_null() { b = b.call_method(fd, "update_max_lock", manifest_args!(dec_of(&op["max_lock"]))); }
                if !op["mult"].is_null() { b = b.call_method(fd, "update_price_multiplier", manifest_args!(dec_of(&op["mult"]))); }
                if !op["cont"].is_null() { b = b.call_method(fd, "update_is_contingent", manifest_args!(op["cont"].as_bool().unwrap())); }
                b
            }
            "fd_withdraw" => b.call_method(self.w.comp["FEE_DELEGATOR"], "withdraw", manifest_args!(dec_of(&op["amount"]))),
            "fd_deposit" => self.take(b, "XRD", dec_of(&op["amount"]), "p").call_method_with_name_lookup(self.w.comp["FEE_DELEGATOR"], "deposit", |l| (l.bucket("p"),)),
            // locks a fee and tries to get rid of the obligation in a way that is not an exchange operation
            "fd_escape" => {
                let fd = self.w.comp["FEE_DELEGATOR"];
                let b = b.call_method(fd, "lock_fee", manifest_args!(dec_of(&op["amount"])));
                match st(op, "how") {
                    "burn" => b.burn_all_from_worktop(self.res("OATH")),
                    "keep" => b.take_all_from_worktop(self.res("OATH"), "o").try_deposit_or_abort(self.w.target, None, "o"),
                    "collateral" => { let a = self.acct(&op["acct"]);
                        b.take_all_from_worktop(self.res("OATH"), "o").call_method_with_name_lookup(ex, "add_collateral", |l| (None::<ManifestBucket>, a, vec![l.bucket("o")])) }
                    _ => b,
                }
            }
            "tw_input" => b.call_method(self.w.comp["TOKEN_WRAPPER"], "add_input", manifest_args!(self.res(st(op, "res")))),
            "tw_wrappable" => b.call_method(self.w.comp["TOKEN_WRAPPER"], "update_wrappable", manifest_args!(self.res(st(op, "res")), op["on"].as_bool().unwrap())),
            "wrap" => self.take(b, st(op, "res"), dec_of(&op["amount"]), "p").call_method_with_name_lookup(self.w.comp["TOKEN_WRAPPER"], "wrap", |l| (l.bucket("p"),)),
            "unwrap" => { let r = self.res(st(op, "res"));
                self.take(b, op["pres"].as_str().unwrap_or("BASE"), dec_of(&op["amount"]), "p")
                    .call_method_with_name_lookup(self.w.comp["TOKEN_WRAPPER"], "unwrap", |l| (l.bucket("p"), r)) }
            "flash" => {
                // borrow `amount`, and repay with `repay` of `rres` (the loan itself plus/minus wallet tokens)
                let tw = self.w.comp["TOKEN_WRAPPER"];
                let (amount, repay) = (dec_of(&op["amount"]), dec_of(&op["repay"]));
                let rres = self.res(op["rres"].as_str().unwrap_or("BASE"));
                let mut b = b.call_method(tw, "flash_loan", manifest_args!(amount));
                if op["use"].as_str() == Some("wrap_unwrap") {
                    // use the borrowed base tokens to drain wrapped tokens inside the transaction
                    let r = self.res(st(op, "res"));
                    b = b.take_from_worktop(self.res("BASE"), amount, "u").call_method_with_name_lookup(tw, "unwrap", |l| (l.bucket("u"), r))
                        .take_from_worktop(r, amount, "v").call_method_with_name_lookup(tw, "wrap", |l| (l.bucket("v"),));
                }
                let need = if rres == self.res("BASE") { repay.checked_sub(amount).unwrap() } else { repay };
                if need.is_positive() { b = b.withdraw_from_account(self.w.wallet, rres, need); }
                match op["how"].as_str().unwrap_or("repay") {
                    "keep" => b,
                    "burn" => b.burn_all_from_worktop(self.res("FLASH")),
                    "bank" => b.take_all_from_worktop(self.res("FLASH"), "o").try_deposit_or_abort(self.w.target, None, "o"),
                    "fake" => b.withdraw_from_account(self.w.wallet, self.res("CX"), amount).take_from_worktop(self.res("CX"), amount, "o").take_from_worktop(rres, repay, "p")
                        .call_method_with_name_lookup(tw, "repay_flash_loan", |l| (l.bucket("o"), l.bucket("p"))),
                    "partial" => { let half = amount.checked_div(dec!(2)).unwrap();
                        b.take_from_worktop(self.res("FLASH"), half, "o").take_from_worktop(rres, repay, "p")
                        .call_method_with_name_lookup(tw, "repay_flash_loan", |l| (l.bucket("o"), l.bucket("p"))) }
                    "two" => b.call_method(tw, "flash_loan", manifest_args!(amount)).take_all_from_worktop(self.res("FLASH"), "o").take_from_worktop(rres, repay, "p")
                        .call_method_with_name_lookup(tw, "repay_flash_loan", |l| (l.bucket("o"), l.bucket("p"))),
                    _ => b.take_all_from_worktop(self.res("FLASH"), "o").take_from_worktop(rres, repay, "p")
                        .call_method_with_name_lookup(tw, "repay_flash_loan", |l| (l.bucket("o"), l.bucket("p"))),
                }
            }
            "signal_upgrade" => b.call_method(self.w.comp["EXCHANGE"], "signal_upgrade", manifest_args!(self.comp(st(op, "comp")))),
            "or_add_key" => b.call_method(self.w.comp["ORACLE"], "add_key", manifest_args!(u(&op["id"]), Bls12381G1PrivateKey::from_u64(u(&op["seed"])).unwrap().public_key())),
            "or_rm_key" => b.call_method(self.w.comp["ORACLE"], "remove_key", manifest_args!(u(&op["id"]))),
            "or_rm_price" => b.call_method(self.w.comp["ORACLE"], "remove_price", manifest_args!(st(op, "feed").to_string())),
            "set_role" => b.set_role(self.comp(st(op, "comp")), ModuleId::Main, RoleKey::new(st(op, "role")), self.rule(st(op, "rule"))),
            "withdraw_authority" => b.call_method(self.comp(st(op, "comp")), "withdraw_authority", manifest_args!()),
            "deposit_authority" => self.take(b, op["res"].as_str().unwrap_or("AUTH"), dec_of(&op["amount"]), "p")
                .call_method_with_name_lookup(self.comp(st(op, "comp")), "deposit_authority", |l| (l.bucket("p"),)),
            "burn" => { let r = self.res(st(op, "res")); b.withdraw_from_account(self.w.wallet, r, dec_of(&op["amount"])).burn_all_from_worktop(r) }
            "give" => { let r = self.res(st(op, "res")); b.withdraw_from_account(self.w.wallet, r, dec_of(&op["amount"])).take_all_from_worktop(r, "g").try_deposit_or_abort(self.w.target, None, "g") }
            "mint" => b.mint_fungible(self.res(st(op, "res")), dec_of(&op["amount"])),
            x => panic!("unknown op {}", x),
        }
    }
    /// Proof "rp" for referral based operations; "fake" presents something else.
    fn ref_proof(&self, b: B, op: &Value) -> B {
        match op["fake"].as_str() {
            Some("auth") => b.create_proof_from_account_of_amount(self.w.wallet, self.res("AUTH"), dec!(1)).pop_from_auth_zone("rp"),
            Some("two") => b.create_proof_from_account_of_non_fungibles(self.w.wallet, self.res("REF"), self.refs.iter().take(2).cloned()).pop_from_auth_zone("rp"),
            _ => b.create_proof_from_account_of_non_fungibles(self.w.wallet, self.res("REF"), [self.ref_id(&op["ref"])]).pop_from_auth_zone("rp"),
        }
    }

    fn step(&mut self, s: &Value) -> Map<String, Value> {
        if let Some(t) = s["t"].as_i64() { self.set_time(t); }
        let op = &s["op"];
        if st(op, "op") == "gate" { return gate::run(self, s); }
        let mut b = ManifestBuilder::new().lock_fee_from_faucet();
        if s["auth"].as_bool() == Some(true) { b = b.create_proof_from_account_of_amount(self.w.wallet, self.res("AUTH"), dec!(1)); }
        let rk = self.rk_signers(&s["signers"]);
        if !rk.is_empty() { b = b.create_proof_from_account_of_non_fungibles(self.w.wallet, self.res("RKEY"), rk); }
        let mut names = vec![];
        if let Some(multi) = op["ops"].as_array() {
            // several operations in one transaction
            for o in multi { b = self.build(b, o); }
        } else {
            b = self.build(b, op);
            names.push(st(op, "op").to_string());
        }
        if op["nodeposit"].as_bool() != Some(true) {
            b = b.drop_all_proofs().try_deposit_entire_worktop_or_abort(self.w.wallet, None);
        }
        let signers = self.signers(&s["signers"]);
        let m = b.build();
        let instructions = m.instructions.clone();
        let r = self.run_built(m, signers);
        let mut o = Map::new();
        match &r.result {
            TransactionResult::Commit(c) => match &c.outcome {
                TransactionOutcome::Success(outs) => {
                    o.insert("ok".into(), json!(true));
                    // value returned by the operation itself
                    for (k, ins) in instructions.iter().enumerate() {
                        if let InstructionV1::CallMethod { method_name, .. } = ins {
                            if let InstructionOutput::CallReturn(bytes) = &outs[k] {
                                match method_name.as_str() {
                                    "margin_order_request" | "remove_collateral_request" => {
                                        o.insert("out".into(), scrypto_decode::<u64>(bytes).map(|x| json!([x])).unwrap_or(Value::Null));
                                    }
                                    "margin_order_tp_sl_request" => {
                                        o.insert("out".into(), scrypto_decode::<(u64, Option<u64>, Option<u64>)>(bytes).map(|x| json!([x.0, x.1, x.2])).unwrap_or(Value::Null));
                                    }
                                    "add_referral_allocation" => {
                                        o.insert("out".into(), scrypto_decode::<(Vec<Own>, u64)>(bytes).map(|x| json!([x.1])).unwrap_or(Value::Null));
                                    }
                                    "mint_referral_with_allocation" => {
                                        o.insert("out".into(), scrypto_decode::<(Own, Vec<Own>, u64)>(bytes).map(|x| json!([x.2])).unwrap_or(Value::Null));
                                    }
                                    "update_pairs" => {
                                        o.insert("out".into(), scrypto_decode::<(Own, Vec<bool>)>(bytes).map(|x| json!(x.1.iter().filter(|f| **f).count())).unwrap_or(Value::Null));
                                    }
                                    "push_and_get_prices" | "get_prices" => {
                                        let v: Map<String, Value> = scrypto_decode::<IndexMap<PairId, (Decimal, Instant)>>(bytes).unwrap().into_iter()
                                            .map(|(k, (q, t))| (k, json!([dj(q), t.seconds_since_unix_epoch]))).collect();
                                        o.insert("out".into(), Value::Object(v));
                                    }
                                    _ => {}
                                }
                            }
                        }
                    }
                    for c in c.new_component_addresses() {
                        let is_acct = self.l.substate_db();
                        let reader = SystemDatabaseReader::new(is_acct);
                        let info = reader.get_object_info(*c).map(|i| i.blueprint_info.blueprint_id.blueprint_name.clone());
                        if info.map(|n| n == "MarginAccount").unwrap_or(false) { self.accts.push(*c); }
                    }
                    let new: Vec<(ResourceAddress, Vec<NonFungibleLocalId>)> = c.state_update_summary.vault_balance_changes.values()
                        .filter_map(|(r, ch)| match ch { BalanceChange::NonFungible { added, .. } => Some((*r, added.iter().cloned().collect())), _ => None }).collect();
                    for (r, ids) in new {
                        let list = if r == self.w.res["REF"] { &mut self.refs } else if r == self.w.res["RKEY"] { &mut self.rkeys } else { continue };
                        for id in ids { if !list.contains(&id) { list.push(id); } }
                    }
                    let events = c.application_events.clone();
                    o.insert("ev".into(), crate::events::read(self, &events));
                }
                TransactionOutcome::Failure(e) => { o.insert("ok".into(), json!(false)); o.insert("auth".into(), json!(is_auth_error(e))); o.insert("err".into(), json!(short(format!("{:?}", e)))); }
            },
            TransactionResult::Reject(x) => { o.insert("ok".into(), json!(false)); o.insert("err".into(), json!(short(format!("REJECT {:?}", x)))); }
            TransactionResult::Abort(x) => { o.insert("ok".into(), json!(false)); o.insert("err".into(), json!(short(format!("ABORT {:?}", x)))); }
        }
        o
    }
    fn run_built(&mut self, m: TransactionManifestV1, signers: Vec<NonFungibleGlobalId>) -> TransactionReceipt {
        let nonce = self.l.next_transaction_nonce();
        let mut config = ExecutionConfig::for_test_transaction();
        config.enable_cost_breakdown = false;
        config.system_overrides = Some(SystemOverrides {
            network_definition: Some(NetworkDefinition::simulator()),
            costing_parameters: Some(CostingParameters { execution_cost_unit_limit: 2_000_000_000, ..CostingParameters::babylon_genesis() }),
            ..Default::default()
        });
        self.l.execute_transaction(
            TestTransaction::new_from_nonce(m, nonce).prepare().unwrap().get_executable(signers.into_iter().collect()),
            config,
        )
    }

    /// Calls read-only methods in one system transaction (no fees); None if any of them fails.
    fn view(&mut self, calls: Vec<(ComponentAddress, &str, ManifestValue)>) -> Option<Vec<Vec<u8>>> {
        let ins = calls.into_iter().map(|(a, m, args)| InstructionV1::CallMethod { address: a.into(), method_name: m.to_string(), args }).collect();
        let r = self.l.execute_system_transaction(ins, btreeset![], vec![]);
        match r.result {
            TransactionResult::Commit(c) => match c.outcome {
                TransactionOutcome::Success(o) => Some(o.into_iter().map(|x| match x { InstructionOutput::CallReturn(b) => b, _ => vec![] }).collect()),
                TransactionOutcome::Failure(e) => { if std::env::var("HARNESS_DEBUG").is_ok() { eprintln!("view: {:?}", e); } None }
            },
            x => { if std::env::var("HARNESS_DEBUG").is_ok() { eprintln!("view: {:?}", x); } None }
        }
    }

    pub fn observe(&mut self) -> Value {
        let c = self.w.comp.clone();
        let ex = c["EXCHANGE"];
        let pairs: BTreeSet<String> = PAIRS.iter().map(|s| s.to_string()).collect();
        let mut calls: Vec<(ComponentAddress, &str, ManifestValue)> = vec![
            (c["POOL"], "get_info", v(&(pairs.clone(),))),
            (c["FEE_DISTRIBUTOR"], "get_protocol_virtual_balance", v(&())),
            (c["FEE_DISTRIBUTOR"], "get_treasury_virtual_balance", v(&())),
            (c["FEE_DELEGATOR"], "get_info", v(&())),
            (ex, "get_exchange_config", v(&())),
            (ex, "get_pair_configs", v(&(100u64, None::<u64>))),
            (ex, "get_collateral_configs", v(&())),
            (c["TOKEN_WRAPPER"], "get_inputs", v(&(100u64, None::<u64>))),
            (ex, "get_pairs", v(&(100u64, None::<u64>))),
            (ex, "get_protocol_balance", v(&())),
            (ex, "get_treasury_balance", v(&())),
            (ex, "get_pair_configs_len", v(&())),
            (ex, "get_collaterals", v(&())),
        ];
        let fixed = calls.len();
        let refs = self.refs.clone();
        let codes = self.codes.clone();
        let rules: Vec<(String, AccessRule)> = self.rules.clone().into_iter().filter(|r| {
            // recovery key rules are only known once the key exists
            !r.split(|c: char| !c.is_alphanumeric()).any(|x| x.strip_prefix("RK").and_then(|n| n.parse::<usize>().ok()).map(|n| n >= self.rkeys.len()).unwrap_or(false))
        }).map(|r| { let a = self.rule(&r); (r, a) }).collect();
        for a in self.accts.iter() {
            calls.push((*a, "get_info", v(&())));
            calls.push((*a, "get_requests", v(&(1000u64, None::<u64>))));
            calls.push((*a, "get_active_requests", v(&())));
        }
        for r in refs.iter() { calls.push((ex, "get_referral_details", v(&(r.clone(),)))); }
        for k in codes.iter() { calls.push((c["REFERRAL_GENERATOR"], "get_referral_code", v(&(hash_of(k),)))); }
        for (_, r) in rules.iter() { calls.push((ex, "get_permissions", v(&(r.clone(),)))); }
        let outs = match self.view(calls) { Some(o) => o, None => return Value::Null };
        let mut obs = Map::new();
        let pool: MarginPoolInfo = scrypto_decode(&outs[0]).unwrap();
        obs.insert("pool".into(), json!({
            "tokens": dj(pool.base_tokens_amount), "vb": dj(pool.virtual_balance), "unreal": dj(pool.unrealized_pool_funding),
            "skew": dj(pool.skew_abs_snap), "pnl": dj(pool.pnl_snap),
            "vault": dj(self.l.get_component_balance(c["POOL"], self.w.res["BASE"])),
            "pairs": pool.positions.iter().map(|(k, p)| (k.clone(), pool_pos(p))).collect::<Map<_, _>>(),
        }));
        let d = |n: usize| dj(scrypto_decode::<Decimal>(&outs[n]).unwrap());
        obs.insert("prot".into(), d(1));
        obs.insert("treas".into(), d(2));
        obs.insert("views".into(), json!([d(9), d(10)]));
        let fd: (Decimal, Decimal, Decimal, Decimal, bool) = scrypto_decode(&outs[3]).unwrap();
        obs.insert("fd".into(), json!({"xrd": dj(fd.0), "vb": dj(fd.1), "max_lock": dj(fd.2), "mult": dj(fd.3), "cont": fd.4}));
        let xc: ExchangeConfig = scrypto_decode(&outs[4]).unwrap();
        let pc: Vec<PairConfig> = scrypto_decode(&outs[5]).unwrap();
        let cc: IndexMap<ResourceAddress, CollateralConfig> = scrypto_decode(&outs[6]).unwrap();
        obs.insert("cfg".into(), exchange_config_json(&xc));
        obs.insert("pcfg".into(), Value::Array(pc.iter().map(pair_config_json).collect()));
        obs.insert("ccfg".into(), Value::Object(cc.iter().map(|(r, k)| (self.res_name(r), json!({
            "pair_id": k.pair_id, "price_age_max": k.price_age_max, "discount": dj(k.discount), "margin": dj(k.margin)}))).collect()));
        let inputs: Vec<(ResourceAddress, bool, Decimal)> = scrypto_decode(&outs[7]).unwrap();
        obs.insert("wrapper".into(), Value::Array(inputs.iter().map(|(r, w, a)| json!([self.res_name(r), w, dj(*a)])).collect()));
        self.pair_list = scrypto_decode::<Vec<String>>(&outs[8]).unwrap();
        obs.insert("pair_list".into(), json!(self.pair_list));
        obs.insert("pair_len".into(), json!(scrypto_decode::<u64>(&outs[11]).unwrap()));
        let mut cl: Vec<String> = scrypto_decode::<Vec<ResourceAddress>>(&outs[12]).unwrap().iter().map(|r| self.res_name(r)).collect();
        cl.sort();
        obs.insert("coll_list".into(), json!(cl));
        let mut n = fixed;
        let mut accts = vec![];
        self.req_lens.clear();
        for a in self.accts.clone() {
            let info: MarginAccountInfo = scrypto_decode(&outs[n]).unwrap();
            self.req_lens.push(info.requests_len);
            let reqs: Vec<(u64, KeeperRequest)> = scrypto_decode(&outs[n + 1]).unwrap();
            let active: IndexMap<u64, KeeperRequest> = scrypto_decode(&outs[n + 2]).unwrap();
            n += 3;
            let mut act: Vec<u64> = active.keys().cloned().collect();
            act.sort();
            let roles: Vec<Value> = ["level_1", "level_2", "level_3"].iter().map(|k| self.role(a, k)).collect();
            let vaults: Map<String, Value> = RESOURCES.iter().map(|r| (r.to_string(), self.l.get_component_balance(a, self.w.res[*r])))
                .filter(|(_, b)| !b.is_zero()).map(|(r, b)| (r, dj(b))).collect();
            accts.push(json!({
                "vb": dj(info.virtual_balance),
                "pos": info.positions.iter().map(|(k, p)| (k.clone(), json!([dj(p.amount), dj(p.cost), dj(p.funding_index)]))).collect::<Map<_, _>>(),
                "coll": info.collateral_balances.iter().map(|(k, b)| (self.res_name(k), dj(*b))).collect::<Map<_, _>>(),
                "vault": vaults,
                "reqs": reqs.iter().map(|(_, r)| self.stored_request(r)).collect::<Vec<_>>(),
                "rlen": info.requests_len, "alen": info.active_requests_len, "active": act, "vrs": info.valid_requests_start,
                "ref": info.referral_id.map(|r| self.refs.iter().position(|x| *x == r)),
                "roles": roles,
            }));
        }
        obs.insert("accts".into(), Value::Array(accts));
        let mut rv = vec![];
        for _ in refs.iter() {
            let r: ::exchange::ReferralDetails = scrypto_decode(&outs[n]).unwrap();
            n += 1;
            rv.push(json!({"fee_referral": dj(r.referral.fee_referral), "fee_rebate": dj(r.referral.fee_rebate), "n": r.referral.referrals, "max": r.referral.max_referrals,
                "balance": dj(r.referral.balance), "total": dj(r.referral.total_rewarded),
                "allocs": r.allocations.iter().map(|a| json!({"claims": self.claims_json(&a.claims), "n": a.count, "max": a.max_count})).collect::<Vec<_>>()}));
        }
        obs.insert("refs".into(), Value::Array(rv));
        let mut cv = Map::new();
        for k in codes.iter() {
            let r: Option<ReferralCode> = scrypto_decode(&outs[n]).unwrap();
            n += 1;
            cv.insert(k.clone(), r.map(|r| json!({"ref": self.refs.iter().position(|x| *x == r.referral_id), "claims": self.claims_json(&r.claims), "n": r.count, "max": r.max_count})).unwrap_or(Value::Null));
        }
        obs.insert("codes".into(), Value::Object(cv));
        let mut pv = Map::new();
        for (k, _) in rules.iter() {
            let p: ::permission_registry::Permissions = scrypto_decode(&outs[n]).unwrap();
            n += 1;
            let ix = |s: &IndexSet<ComponentAddress>| { let mut v: Vec<i64> = s.iter().map(|a| self.accts.iter().position(|x| x == a).map(|x| x as i64).unwrap_or(-1)).collect(); v.sort(); v };
            pv.insert(k.clone(), json!([ix(&p.level_1), ix(&p.level_2), ix(&p.level_3)]));
        }
        obs.insert("perms".into(), Value::Object(pv));
        let (wallet, target) = (self.w.wallet, self.w.target);
        let bal = |s: &mut Self, a: ComponentAddress| -> Map<String, Value> {
            RESOURCES.iter().chain(if a == wallet { DISPENSED.iter() } else { [].iter() }).filter(|r| **r != "XRD" || a != wallet).map(|r| (r.to_string(), s.l.get_component_balance(a, s.w.res[*r]))).filter(|(_, b)| !b.is_zero()).map(|(r, b)| (r, dj(b))).collect()
        };
        let (bw, bt, br) = (bal(self, wallet), bal(self, target), bal(self, c["REFERRAL_GENERATOR"]));
        let rej = self.w.rejecting;
        let bj = bal(self, rej);
        let btw = bal(self, c["TOKEN_WRAPPER"]);
        obs.insert("wallet".into(), Value::Object(bw));
        obs.insert("target".into(), Value::Object(bt));
        obs.insert("reject".into(), Value::Object(bj));
        obs.insert("refvault".into(), Value::Object(br));
        obs.insert("twvault".into(), Value::Object(btw));
        obs.insert("exauth".into(), dj(self.l.get_component_balance(ex, self.w.res["AUTH"])));
        obs.insert("fdxrd".into(), dj(self.l.get_component_balance(c["FEE_DELEGATOR"], XRD)));
        obs.insert("supply".into(), Value::Object(["BASE", "LP", "KEEP", "PROT", "OATH", "FLASH"].iter().chain(DISPENSED.iter()).map(|r| (r.to_string(), dj(self.l.get_fungible_resource_total_supply(self.w.res[*r])))).collect()));
        // Prices: read each feed separately because a missing one panics.
        let px = self.oracle_prices();
        obs.insert("oracle".into(), Value::Object(px));
        obs.insert("details".into(), self.details());
        Value::Object(obs)
    }
    fn oracle_prices(&mut self) -> Map<String, Value> {
        let or = self.w.comp["ORACLE"];
        let read = |s: &mut Self, f: BTreeSet<String>| s.view(vec![(or, "get_prices", v(&(f,)))]).map(|o| {
            scrypto_decode::<IndexMap<PairId, (Decimal, Instant)>>(&o[0]).unwrap().into_iter().map(|(k, (q, t))| (k, json!([dj(q), t.seconds_since_unix_epoch]))).collect::<Vec<_>>()
        });
        let feeds = self.feeds.clone();
        if let Some(all) = read(self, feeds.iter().cloned().collect()) { return all.into_iter().collect(); }
        let mut px = Map::new();
        for f in feeds { if let Some(o) = read(self, btreeset![f]) { px.extend(o); } }
        px
    }
    fn details(&mut self) -> Value {
        let ex = self.w.comp["EXCHANGE"];
        let mut calls: Vec<(ComponentAddress, &str, ManifestValue)> = vec![(ex, "get_pool_details", v(&()))];
        let pairs = self.pair_list.clone();
        calls.push((ex, "get_pair_details", v(&(pairs.clone(),))));
        for (n, start) in PAIR_PAGES { calls.push((ex, "get_pairs", v(&(n, start)))); }
        for (n, start) in PAIR_PAGES { calls.push((self.w.comp["TOKEN_WRAPPER"], "get_inputs", v(&(n, start)))); }
        for (n, start) in PAIR_PAGES { calls.push((ex, "get_pair_configs", v(&(n, start)))); }
        let first = calls.len();
        for (k, a) in self.accts.iter().enumerate() {
            // the first page, and one other in turn
            let other = 1 + (self.req_lens[k] % (REQUEST_PAGES.len() as u64 - 1)) as usize;
            for (n, end) in [REQUEST_PAGES[0], REQUEST_PAGES[other]] { calls.push((ex, "get_account_details", v(&(*a, n, end)))); }
        }
        // one call that fails must not hide the others
        let outs: Vec<Option<Vec<u8>>> = match self.view(calls.clone()) {
            Some(o) => o.into_iter().map(Some).collect(),
            None => calls.into_iter().map(|c| self.view(vec![c]).map(|mut o| o.remove(0))).collect(),
        };
        let p: ::exchange::PoolDetails = match &outs[0] { Some(o) => scrypto_decode(o).unwrap(), None => return Value::Null };
        let pd = match &outs[1] { Some(o) => Value::Array(scrypto_decode::<Vec<::exchange::PairDetails>>(o).unwrap().iter().map(|d| json!([d.pair_id, pool_pos(&d.pool_position), pair_config_json(&d.pair_config)])).collect()), None => Value::Null };
        let pages: Vec<Value> = (0..PAIR_PAGES.len()).map(|k| match &outs[2 + k] { Some(o) => json!(scrypto_decode::<Vec<String>>(o).unwrap()), None => Value::Null }).collect();
        let inputs: Vec<Value> = (0..PAIR_PAGES.len()).map(|k| match &outs[2 + PAIR_PAGES.len() + k] {
            Some(o) => Value::Array(scrypto_decode::<Vec<(ResourceAddress, bool, Decimal)>>(o).unwrap().iter().map(|(r, _, _)| json!(self.res_name(r))).collect()), None => Value::Null }).collect();
        let cfgs: Vec<Value> = (0..PAIR_PAGES.len()).map(|k| match &outs[2 + 2 * PAIR_PAGES.len() + k] {
            Some(o) => Value::Array(scrypto_decode::<Vec<PairConfig>>(o).unwrap().iter().map(pair_config_json).collect()), None => Value::Null }).collect();
        let one = |r: &::exchange::RequestDetails| json!([r.index, self.request(Some(&r.request), r.submission, r.expiry, r.status)]);
        let accts: Vec<Value> = outs[first..].chunks(2).map(|os| {
            if os.iter().any(|o| o.is_none()) { return Value::Null }
            let ds: Vec<::exchange::AccountDetails> = os.iter().map(|o| scrypto_decode(o.as_ref().unwrap()).unwrap()).collect();
            let a = &ds[0];
            json!({"vb": dj(a.virtual_balance), "vrs": a.valid_requests_start, "rlen": a.requests_len, "active": a.active_requests.iter().map(one).collect::<Vec<_>>(),
                "pages": ds.iter().map(|d| d.requests_history.iter().map(one).collect::<Vec<_>>()).collect::<Vec<_>>(),
                "pos": a.positions.iter().map(|p| (p.pair_id.clone(), json!([dj(p.amount), dj(p.cost), dj(p.funding), dj(p.margin_initial), dj(p.margin_maintenance)]))).collect::<Map<_, _>>(),
                "coll": a.collaterals.iter().map(|c| (self.res_name(&c.resource), json!([dj(c.amount), dj(c.discount), dj(c.margin), c.pair_id]))).collect::<Map<_, _>>(),
                "ref": a.referral.as_ref().map(|(g, d)| json!([self.refs.iter().position(|x| x == g.local_id()), dj(d.fee_referral), dj(d.fee_rebate), d.referrals, d.max_referrals, dj(d.balance), dj(d.total_rewarded)])),
            })
        }).collect();
        let own = self.own();
        json!({"pool": {"tokens": dj(p.base_tokens_amount), "vb": dj(p.virtual_balance), "unreal": dj(p.unrealized_pool_funding), "pnl": dj(p.pnl_snap),
            "ratio": dj(p.skew_ratio), "cap": dj(p.skew_ratio_cap), "supply": dj(p.lp_supply), "lp_price": dj(p.lp_price)}, "pairs": pd, "pages": pages, "cfgs": cfgs, "inputs": inputs, "accts": accts, "own": own})
    }
    // What the components themselves answer when asked directly.
    fn own(&mut self) -> Value {
        let c = self.w.comp.clone();
        let (cf, po) = (c["CONFIG"], c["POOL"]);
        let known: Vec<String> = PAIRS.iter().map(|s| s.to_string()).chain(["PX".to_string()]).collect();
        let ids: BTreeSet<String> = known.iter().cloned().collect();
        let mut calls: Vec<(ComponentAddress, &str, ManifestValue)> = vec![
            (c["ENV_REGISTRY"], "get_variables", v(&(VARIABLES.iter().map(|s| s.to_string()).collect::<Vec<String>>(),))),
            (cf, "get_pair_configs_by_ids", v(&(ids.clone(),))),
            (cf, "get_pair_configs_len", v(&())),
            (po, "get_position", v(&("PX".to_string(),))),
            (po, "get_positions", v(&(btreeset!["PX".to_string()],))),
            (cf, "get_info", v(&(ids,))),
        ];
        let fixed = calls.len();
        for (n, start) in PAIR_PAGES { calls.push((cf, "get_pair_configs", v(&(n, start)))); }
        for r in self.refs.iter() { calls.push((c["REFERRAL_GENERATOR"], "get_allocations", v(&(r.clone(),)))); }
        let first = calls.len();
        let probes = |len: u64| vec![0, len.max(1) - 1, len, len + 3];
        for (k, a) in self.accts.iter().enumerate() {
            let len = self.req_lens[k];
            let (n, start) = FORWARD_PAGES[(len % 5) as usize];
            calls.push((*a, "get_requests_len", v(&())));
            calls.push((*a, "get_requests", v(&(n, start))));
            calls.push((*a, "get_requests_by_indexes", v(&(probes(len),))));
            for i in probes(len) { calls.push((*a, "get_request", v(&(i,)))); }
        }
        let outs: Vec<Option<Vec<u8>>> = match self.view(calls.clone()) {
            Some(o) => o.into_iter().map(Some).collect(),
            None => calls.into_iter().map(|c| self.view(vec![c]).map(|mut o| o.remove(0))).collect(),
        };
        let env = outs[0].as_ref().map(|o| { let m: IndexMap<String, String> = scrypto_decode(o).unwrap(); VARIABLES.iter().map(|k| json!(m.get(*k))).collect::<Vec<_>>() });
        let cj = |x: &Option<PairConfigCompressed>| x.as_ref().map(|x| pair_config_json(&x.decompress())).unwrap_or(Value::Null);
        let list = |m: &IndexMap<PairId, Option<PairConfigCompressed>>| known.iter().map(|k| json!([k, m.get(k).map(|x| cj(x))])).collect::<Vec<_>>();
        let by = outs[1].as_ref().map(|o| list(&scrypto_decode(o).unwrap()));
        let info = outs[5].as_ref().map(|o| { let i: ConfigInfoCompressed = scrypto_decode(o).unwrap(); list(&i.pair_configs.into_iter().collect()) });
        let plen = outs[2].as_ref().map(|o| scrypto_decode::<u64>(o).unwrap());
        let zero_as = |x: Value| x.as_object().unwrap().iter().all(|(k, q)| k == "last" || *q == json!(if k == "price" { "1000000000000000000" } else { "0" }));
        let blank = match (&outs[3], &outs[4]) {
            (Some(a), Some(b)) => zero_as(pool_pos(&scrypto_decode::<PoolPosition>(a).unwrap()))
                && scrypto_decode::<IndexMap<PairId, PoolPosition>>(b).unwrap().values().all(|p| zero_as(pool_pos(p))),
            _ => false,
        };
        let cfgs: Vec<Value> = (0..PAIR_PAGES.len()).map(|k| match &outs[fixed + k] {
            Some(o) => Value::Array(scrypto_decode::<Vec<PairConfigCompressed>>(o).unwrap().iter().map(|x| pair_config_json(&x.decompress())).collect()), None => Value::Null }).collect();
        let allocs: Vec<Value> = outs[fixed + PAIR_PAGES.len()..first].iter().map(|o| match o {
            Some(o) => Value::Array(scrypto_decode::<Vec<ReferralAllocation>>(o).unwrap().iter().map(|a| json!([self.claims_json(&a.claims), a.count, a.max_count])).collect()), None => Value::Null }).collect();
        let accts: Vec<Value> = outs[first..].chunks(7).enumerate().map(|(k, os)| {
            if os.iter().any(|o| o.is_none()) { return Value::Null }
            let o: Vec<&Vec<u8>> = os.iter().map(|o| o.as_ref().unwrap()).collect();
            let p = probes(self.req_lens[k]);
            let fwd: Vec<(u64, KeeperRequest)> = scrypto_decode(o[1]).unwrap();
            let some: IndexMap<u64, Option<KeeperRequest>> = scrypto_decode(o[2]).unwrap();
            let one = |r: Option<&KeeperRequest>| r.map(|r| self.stored_request(r)).unwrap_or(Value::Null);
            json!({"rlen": scrypto_decode::<u64>(o[0]).unwrap(), "fwd": fwd.iter().map(|(n, r)| json!([n, self.stored_request(r)])).collect::<Vec<_>>(), "probes": p,
                "some": p.iter().map(|n| one(some.get(n).and_then(|r| r.as_ref()))).collect::<Vec<_>>(),
                "one": o[3..].iter().map(|x| one(scrypto_decode::<Option<KeeperRequest>>(x).unwrap().as_ref())).collect::<Vec<_>>()})
        }).collect();
        json!({"env": env, "known": if by == info { json!(by) } else { json!([["disagree", 0]]) }, "plen": plen, "blank": blank, "cfgs": cfgs, "allocs": allocs, "accts": accts})
    }
    fn role(&mut self, a: ComponentAddress, k: &str) -> Value {
        let reader = SystemDatabaseReader::new(self.l.substate_db());
        let r: Option<RoleAssignmentAccessRuleEntryPayload> = reader.read_object_collection_entry(
            a.as_node_id(), ModuleId::RoleAssignment,
            ObjectCollectionKey::KeyValue(RoleAssignmentCollection::AccessRuleKeyValue.collection_index(), &ModuleRoleKey::new(ModuleId::Main, k)),
        ).unwrap();
        r.map(|r| json!(self.rule_str(&r.fully_update_and_into_latest_version()))).unwrap_or(Value::Null)
    }
    fn claims_json(&self, c: &Vec<(ResourceAddress, Decimal)>) -> Value {
        Value::Array(c.iter().map(|(r, a)| json!([self.res_name(r), dj(*a)])).collect())
    }
    pub fn target_name(&self, a: &ComponentAddress) -> String {
        if *a == self.w.target { "TARGET".into() } else if *a == self.w.wallet { "WALLET".into() } else if *a == self.w.rejecting { "REJECT".into() }
        else { self.w.comp.iter().find(|(_, c)| *c == a).map(|(n, _)| n.to_string()).unwrap_or("?".into()) }
    }
    pub fn stored_request(&self, r: &KeeperRequest) -> Value {
        let mut q = self.request(scrypto_decode::<Request>(&r.request).ok().as_ref(), r.submission, r.expiry, r.status);
        // which components and tokens a keeper must expect to be touched
        q["eff"] = json!([r.effected_components.iter().map(|a| self.target_name(a)).collect::<Vec<_>>(), r.effected_resources.iter().map(|a| self.res_name(a)).collect::<Vec<_>>()]);
        q
    }
    fn request(&self, r: Option<&Request>, submission: Instant, expiry: Instant, status: u8) -> Value {
        let body = match r {
            Some(Request::RemoveCollateral(x)) => json!({"kind": "remove", "claims": self.claims_json(&x.claims),
                "target": self.target_name(&x.target_account)}),
            Some(Request::MarginOrder(x)) => json!({"kind": "order", "pair": x.pair_id, "amt": dj(x.amount), "reduce": x.reduce_only,
                "plim": match x.price_limit { PriceLimit::None => json!(["none", "0"]), PriceLimit::Gte(p) => json!(["gte", dj(p)]), PriceLimit::Lte(p) => json!(["lte", dj(p)]) },
                "slip": match x.slippage_limit { SlippageLimit::None => json!(["none", "0"]), SlippageLimit::Percent(p) => json!(["pct", dj(p)]), SlippageLimit::Absolute(p) => json!(["abs", dj(p)]) },
                "act": x.activate_requests, "can": x.cancel_requests}),
            None => json!({"kind": "undecodable"}),
        };
        let mut m = body.as_object().unwrap().clone();
        m.insert("sub".into(), json!(submission.seconds_since_unix_epoch));
        m.insert("exp".into(), json!(expiry.seconds_since_unix_epoch.to_string()));
        m.insert("status".into(), json!(status));
        Value::Object(m)
    }
}

pub fn v<T: ManifestEncode>(t: &T) -> ManifestValue { to_manifest_value_and_unwrap!(t) }
pub fn short(s: String) -> String { s.chars().take(400).collect() }
fn pool_pos(p: &PoolPosition) -> Value {
    json!({"oiL": dj(p.oi_long), "oiS": dj(p.oi_short), "cost": dj(p.cost), "skew": dj(p.skew_abs_snap), "pnl": dj(p.pnl_snap), "f2": dj(p.funding_2_rate),
        "fl": dj(p.funding_long_index), "fs": dj(p.funding_short_index), "last": p.last_update.seconds_since_unix_epoch, "price": dj(p.last_price)})
}
fn exchange_config_json(c: &ExchangeConfig) -> Value {
    json!({"positions_max": c.positions_max, "collaterals_max": c.collaterals_max, "active_requests_max": c.active_requests_max,
        "skew_ratio_cap": dj(c.skew_ratio_cap), "adl_offset": dj(c.adl_offset), "adl_a": dj(c.adl_a), "adl_b": dj(c.adl_b),
        "fee_liquidity_add": dj(c.fee_liquidity_add), "fee_liquidity_remove": dj(c.fee_liquidity_remove), "fee_share_protocol": dj(c.fee_share_protocol),
        "fee_share_treasury": dj(c.fee_share_treasury), "fee_share_referral": dj(c.fee_share_referral), "fee_max": dj(c.fee_max),
        "protocol_burn_amount": dj(c.protocol_burn_amount), "reward_keeper": dj(c.reward_keeper)})
}
fn pair_config_json(c: &PairConfig) -> Value {
    json!({"pair_id": c.pair_id, "price_age_max": c.price_age_max, "oi_max": dj(c.oi_max), "trade_size_min": dj(c.trade_size_min),
        "update_price_delta_ratio": dj(c.update_price_delta_ratio), "update_period_seconds": c.update_period_seconds,
        "margin_initial": dj(c.margin_initial), "margin_maintenance": dj(c.margin_maintenance), "funding_1": dj(c.funding_1), "funding_2": dj(c.funding_2),
        "funding_2_delta": dj(c.funding_2_delta), "funding_2_decay": dj(c.funding_2_decay), "funding_pool_0": dj(c.funding_pool_0), "funding_pool_1": dj(c.funding_pool_1),
        "funding_share": dj(c.funding_share), "fee_0": dj(c.fee_0), "fee_1": dj(c.fee_1)})
}
#[allow(dead_code)]
type _Vm = SurgeVm;
