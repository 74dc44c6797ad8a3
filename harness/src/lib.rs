mod deploy;
mod events;
mod exec;
mod gate;
mod native;
use scrypto_test::prelude::*;
use {::account as _, ::common as _, ::config as _, ::env_registry as _, ::exchange as _, ::faucet as _, ::fee_delegator as _, ::fee_distributor as _, ::oracle as _, ::permission_registry as _, ::pool as _, ::referral_generator as _, ::token_wrapper as _};

/// `addresses`: print VAR=address for the deployment and exit 4 if the compiled-in ones differ.
/// `run`: read one JSON trace per line from stdin, write one JSON result per line to stdout.
#[no_mangle]
pub extern "C" fn harness_main() -> i32 {
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(|| {
        native::install();
        let mut ledger = LedgerSimulatorBuilder::new().with_custom_extension(native::SurgeVm).without_kernel_trace().build();
        let world = deploy::deploy(&mut ledger);
        let baked = deploy::baked(&world);
        let stale = !world.comp.contains_key("EXCHANGE") || baked.iter().any(|(_, a, b, _)| a != b);
        match std::env::args().nth(1).as_deref() {
            Some("addresses") => {
                for (var, _, _, s) in &baked { println!("{}={}", var, s); }
                if stale { 4 } else { 0 }
            }
            _ if stale => { eprintln!("STALE-ADDRESSES"); 4 }
            _ => { exec::serve(ledger, world); 0 }
        }
    }).unwrap();
    h.join().unwrap_or(2)
}
