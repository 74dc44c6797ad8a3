//! Deploys the whole system the way the repository's own scenario tests do, but with owner and
//! admin roles held by a key (`D`) instead of allow-all, and natively executed packages.
use crate::native;
use scrypto_test::prelude::*;

pub type Ledger = LedgerSimulator<native::SurgeVm, InMemorySubstateDatabase>;

#[derive(Clone)]
pub struct World {
    pub keys: IndexMap<String, NonFungibleGlobalId>,
    pub wallet: ComponentAddress,
    pub target: ComponentAddress,
    pub rejecting: ComponentAddress,
    pub res: IndexMap<String, ResourceAddress>,
    pub comp: IndexMap<String, ComponentAddress>,
    pub pkg: IndexMap<String, PackageAddress>,
}

pub fn key(n: u64) -> Secp256k1PublicKey {
    Secp256k1PrivateKey::from_u64(n).unwrap().public_key()
}

fn fungible(ledger: &mut Ledger, owner: &OwnerRole, roles: FungibleResourceRoles, div: u8, supply: Option<Decimal>, account: ComponentAddress) -> ResourceAddress {
    let mut b = ManifestBuilder::new().lock_fee_from_faucet()
        .create_fungible_resource(owner.clone(), true, div, roles, metadata!(), supply);
    if supply.is_some() {
        b = b.try_deposit_entire_worktop_or_abort(account, None);
    }
    ledger.execute_manifest(b.build(), vec![]).expect_commit_success().new_resource_addresses()[0]
}

fn nft<T: ManifestEncode>(ledger: &mut Ledger, owner: &OwnerRole, auth: ResourceAddress, soulbound: bool) -> ResourceAddress
where T: scrypto::prelude::NonFungibleData {
    let roles = NonFungibleResourceRoles {
        mint_roles: mint_roles! { minter => rule!(require(auth)); minter_updater => rule!(deny_all); },
        burn_roles: burn_roles! { burner => rule!(deny_all); burner_updater => OWNER; },
        withdraw_roles: if soulbound { withdraw_roles! { withdrawer => rule!(deny_all); withdrawer_updater => OWNER; } } else { None },
        non_fungible_data_update_roles: non_fungible_data_update_roles! {
            non_fungible_data_updater => rule!(require(auth));
            non_fungible_data_updater_updater => rule!(deny_all);
        },
        ..Default::default()
    };
    let m = ManifestBuilder::new().lock_fee_from_faucet()
        .create_non_fungible_resource(owner.clone(), NonFungibleIdType::RUID, true, roles, metadata!(), None::<Vec<(NonFungibleLocalId, T)>>)
        .build();
    ledger.execute_manifest(m, vec![]).expect_commit_success().new_resource_addresses()[0]
}

pub fn deploy(ledger: &mut Ledger) -> World {
    let mut keys = IndexMap::new();
    for (i, n) in ["W", "D", "K1", "K2", "K3", "K4"].iter().enumerate() {
        keys.insert(n.to_string(), NonFungibleGlobalId::from_public_key(&key(1001 + i as u64)));
    }
    let owner = OwnerRole::Fixed(rule!(require(keys["D"].clone())));
    let wk = key(1001);
    let wallet = ComponentAddress::virtual_account_from_public_key(&wk);
    let target = ComponentAddress::virtual_account_from_public_key(&key(2001));
    let rejecting = ComponentAddress::virtual_account_from_public_key(&key(2002));
    ledger.load_account_from_faucet(wallet);
    let m = ManifestBuilder::new().lock_fee_from_faucet()
        .call_method(rejecting, "set_default_deposit_rule", manifest_args!(DefaultDepositRule::Reject)).build();
    ledger.execute_manifest(m, vec![NonFungibleGlobalId::from_public_key(&key(2002))]).expect_commit_success();

    let mut res: IndexMap<String, ResourceAddress> = IndexMap::new();
    let mut comp: IndexMap<String, ComponentAddress> = IndexMap::new();
    let mut pkg: IndexMap<String, PackageAddress> = IndexMap::new();

    res.insert("AUTH".into(), ledger.create_fungible_resource(dec!(2), 18, wallet));
    res.insert("BAUTH".into(), ledger.create_fungible_resource(dec!(2), 18, wallet));
    let auth = res["AUTH"];
    let bauth = res["BAUTH"];
    let burn_all = || burn_roles! { burner => rule!(allow_all); burner_updater => rule!(deny_all); };
    let mint = |a: ResourceAddress| mint_roles! { minter => rule!(require(a)); minter_updater => rule!(deny_all); };
    let r = fungible(ledger, &owner, FungibleResourceRoles { mint_roles: mint(bauth), burn_roles: burn_all(), ..Default::default() }, 18, Some(dec!(100000000000)), wallet);
    res.insert("BASE".into(), r);
    let r = fungible(ledger, &owner, FungibleResourceRoles {
        mint_roles: mint(auth),
        burn_roles: burn_roles! { burner => rule!(require(auth)); burner_updater => rule!(deny_all); },
        ..Default::default() }, 18, None, wallet);
    res.insert("LP".into(), r);
    let r = fungible(ledger, &owner, FungibleResourceRoles { burn_roles: burn_all(), ..Default::default() }, 18, Some(dec!(100000000)), wallet);
    res.insert("PROT".into(), r);
    let r = nft::<::referral_generator::ReferralData>(ledger, &owner, auth, true);
    res.insert("REF".into(), r);
    let r = nft::<::exchange::RecoveryKeyData>(ledger, &owner, auth, false);
    res.insert("RKEY".into(), r);
    let r = fungible(ledger, &owner, FungibleResourceRoles { mint_roles: mint(auth), burn_roles: burn_all(), ..Default::default() }, 18, None, wallet);
    res.insert("KEEP".into(), r);
    // Collateral tokens C1 (18 digits), C2 (6 digits), C3 (2 digits) and CX (never configured by default)
    for (n, d) in [("C1", 18u8), ("C2", 6), ("C3", 2), ("CX", 18)] {
        let r = fungible(ledger, &owner, FungibleResourceRoles { burn_roles: burn_all(), ..Default::default() }, d, Some(dec!(100000000000)), wallet);
        res.insert(n.into(), r);
    }
    res.insert("XRD".into(), XRD);

    let d = vec![keys["D"].clone(), keys["W"].clone()];
    for (i, (name, bp)) in [
        ("TOKEN_WRAPPER", "TokenWrapper"), ("ORACLE", "Oracle"), ("CONFIG", "Config"), ("ACCOUNT", "MarginAccount"),
        ("POOL", "MarginPool"), ("REFERRAL_GENERATOR", "ReferralGenerator"), ("FEE_DISTRIBUTOR", "FeeDistributor"),
        ("FEE_DELEGATOR", "FeeDelegator"), ("PERMISSION_REGISTRY", "PermissionRegistry"), ("ENV_REGISTRY", "EnvRegistry"),
        ("EXCHANGE", "Exchange"),
    ].iter().enumerate() {
        // Fails while the addresses of what the package depends on are not compiled in yet.
        let p = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ledger.publish_native_package(native::CODE_BASE + i as u64, native::definition(&[bp])))) {
            Ok(p) => p,
            Err(_) => return World { keys, wallet, target, rejecting, res, comp, pkg },
        };
        pkg.insert(name.to_string(), p);
        if *name == "ACCOUNT" {
            continue;
        }
        let mut b = ManifestBuilder::new().lock_fee_from_faucet();
        b = match *name {
            "TOKEN_WRAPPER" => b.withdraw_from_account(wallet, bauth, dec!(1)).take_all_from_worktop(bauth, "a")
                .call_function_with_name_lookup(p, *bp, "new", |l| (owner.clone(), l.bucket("a"))),
            "EXCHANGE" => b.withdraw_from_account(wallet, auth, dec!(1)).take_all_from_worktop(auth, "a")
                .call_function_with_name_lookup(p, *bp, "new", |l| (owner.clone(), l.bucket("a"), None::<ManifestAddressReservation>)),
            "ORACLE" => {
                let keys: HashMap<u64, Bls12381G1PublicKey> = hashmap! { 0u64 => Bls12381G1PrivateKey::from_u64(1).unwrap().public_key() };
                b.call_function(p, *bp, "new", manifest_args!(owner.clone(), keys))
            }
            _ => b.call_function(p, *bp, "new", manifest_args!(owner.clone())),
        };
        let r = ledger.execute_manifest(b.build(), d.clone());
        let c = match &r.result {
            TransactionResult::Commit(c) if c.outcome.is_success() => c,
            x => {
                eprintln!("deploy: {} not instantiated: {:?}", name, match x { TransactionResult::Commit(c) => format!("{:?}", c.outcome), _ => "rejected".into() });
                return World { keys, wallet, target, rejecting, res, comp, pkg };
            }
        };
        comp.insert(name.to_string(), c.new_component_addresses()[0]);
        if *name == "FEE_DELEGATOR" {
            res.insert("OATH".into(), c.new_resource_addresses()[0]);
        }
        if *name == "TOKEN_WRAPPER" {
            res.insert("FLASH".into(), c.new_resource_addresses()[0]);
        }
    }
    let dapp = ledger.new_account_advanced(OwnerRole::Updatable(rule!(allow_all)));
    let m = ManifestBuilder::new().lock_fee_from_faucet()
        .set_metadata(comp["EXCHANGE"], "dapp_definition", MetadataValue::GlobalAddress(dapp.into()))
        .withdraw_from_account(wallet, XRD, dec!(5000)).take_all_from_worktop(XRD, "x")
        .with_name_lookup(|b, l| b.call_method(comp["FEE_DELEGATOR"], "deposit", manifest_args!(l.bucket("x"))))
        .build();
    ledger.execute_manifest(m, d.clone()).expect_commit_success();
    let m = ManifestBuilder::new().lock_fee_from_faucet()
        .call_method(target, "set_default_deposit_rule", manifest_args!(DefaultDepositRule::Accept)).build();
    ledger.execute_manifest(m, vec![NonFungibleGlobalId::from_public_key(&key(2001))]).expect_commit_success();
    let p = ledger.publish_native_package(native::CODE_BASE + 11, native::definition(&["Faucet"]));
    let m = ManifestBuilder::new().lock_fee_from_faucet().call_function(p, "Faucet", "new", manifest_args!())
        .try_deposit_entire_worktop_or_abort(wallet, None).build();
    let r = ledger.execute_manifest(m, d.clone());
    let c = r.expect_commit_success();
    comp.insert("FAUCET".into(), c.new_component_addresses()[0]);
    for (n, r) in ["FO", "FBTC", "FETH", "FUSDC", "FUSDT"].iter().zip(c.new_resource_addresses().iter()) { res.insert(n.to_string(), *r); }
    pkg.insert("FAUCET".into(), p);
    World { keys, wallet, target, rejecting, res, comp, pkg }
}

/// The addresses baked into the blueprints at compile time, with the environment variables they come from.
pub fn baked(w: &World) -> Vec<(&'static str, NodeId, NodeId, String)> {
    use ::common::*;
    let e = AddressBech32Encoder::for_simulator();
    let mut v = vec![];
    for (var, c, n) in [
        ("AUTHORITY_RESOURCE", _AUTHORITY_RESOURCE, "AUTH"), ("BASE_AUTHORITY_RESOURCE", _BASE_AUTHORITY_RESOURCE, "BAUTH"),
        ("BASE_RESOURCE", _BASE_RESOURCE, "BASE"), ("LP_RESOURCE", _LP_RESOURCE, "LP"), ("REFERRAL_RESOURCE", _REFERRAL_RESOURCE, "REF"),
        ("RECOVERY_KEY_RESOURCE", _RECOVERY_KEY_RESOURCE, "RKEY"), ("PROTOCOL_RESOURCE", _PROTOCOL_RESOURCE, "PROT"),
        ("KEEPER_REWARD_RESOURCE", _KEEPER_REWARD_RESOURCE, "KEEP"), ("FEE_OATH_RESOURCE", _FEE_OATH_RESOURCE, "OATH"),
    ] { if w.res.contains_key(n) { v.push((var, c.into_node_id(), w.res[n].into_node_id(), e.encode(w.res[n].as_ref()).unwrap())); } }
    for (var, c, n) in [
        ("ORACLE_PACKAGE", ORACLE_PACKAGE, "ORACLE"), ("CONFIG_PACKAGE", CONFIG_PACKAGE, "CONFIG"), ("ACCOUNT_PACKAGE", MARGIN_ACCOUNT_PACKAGE, "ACCOUNT"),
        ("POOL_PACKAGE", MARGIN_POOL_PACKAGE, "POOL"), ("REFERRAL_GENERATOR_PACKAGE", REFERRAL_GENERATOR_PACKAGE, "REFERRAL_GENERATOR"),
        ("FEE_DISTRIBUTOR_PACKAGE", FEE_DISTRIBUTOR_PACKAGE, "FEE_DISTRIBUTOR"), ("FEE_DELEGATOR_PACKAGE", FEE_DELEGATOR_PACKAGE, "FEE_DELEGATOR"),
        ("PERMISSION_REGISTRY_PACKAGE", PERMISSION_REGISTRY_PACKAGE, "PERMISSION_REGISTRY"),
    ] { if w.pkg.contains_key(n) { v.push((var, c.into_node_id(), w.pkg[n].into_node_id(), e.encode(w.pkg[n].as_ref()).unwrap())); } }
    for (var, c, n) in [
        ("ORACLE_COMPONENT", _ORACLE_COMPONENT, "ORACLE"), ("CONFIG_COMPONENT", _CONFIG_COMPONENT, "CONFIG"), ("POOL_COMPONENT", _POOL_COMPONENT, "POOL"),
        ("REFERRAL_GENERATOR_COMPONENT", _REFERRAL_GENERATOR_COMPONENT, "REFERRAL_GENERATOR"), ("FEE_DISTRIBUTOR_COMPONENT", _FEE_DISTRIBUTOR_COMPONENT, "FEE_DISTRIBUTOR"),
        ("FEE_DELEGATOR_COMPONENT", _FEE_DELEGATOR_COMPONENT, "FEE_DELEGATOR"), ("PERMISSION_REGISTRY_COMPONENT", _PERMISSION_REGISTRY_COMPONENT, "PERMISSION_REGISTRY"),
    ] { if w.comp.contains_key(n) { v.push((var, c.into_node_id(), w.comp[n].into_node_id(), e.encode(w.comp[n].as_ref()).unwrap())); } }
    v
}

