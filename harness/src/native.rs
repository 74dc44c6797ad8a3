//! Runs the repository's blueprints as host code inside the real Radix engine.
//!
//! Every Scrypto host call made by a blueprint is routed to the engine's own `ScryptoRuntime`
//! (the object that serves the same calls for WASM code), so authorisation, vaults, buckets,
//! proofs, key-value stores, events and transaction atomicity are the engine's.

use radix_engine::errors::*;
use radix_engine::kernel::kernel_api::{KernelNodeApi, KernelSubstateApi};
use radix_engine::system::system_callback::SystemLockData;
use radix_engine::vm::wasm::{WasmRuntime, WasmRuntimeError};
use radix_engine::vm::wasm_runtime::ScryptoRuntime;
use radix_engine::vm::*;
use radix_engine_interface::api::actor_api::EventFlags;
use radix_engine_interface::api::ClientApi;
use scrypto::engine::wasm_api;
use scrypto::engine::wasm_api::{Buffer, BufferId, Slice};
use scrypto_test::prelude::*;
use std::cell::RefCell;
use std::ffi::CString;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// Code ids of the packages executed natively: `CODE_BASE + n`.
pub const CODE_BASE: u64 = 0x5355_5247_4500;

#[derive(Clone)]
pub struct SurgeVm;

#[derive(Clone)]
pub struct SurgeInstance;

impl NativeVmExtension for SurgeVm {
    type Instance = SurgeInstance;
    fn try_create_instance(&self, code: &[u8]) -> Option<SurgeInstance> {
        let code: [u8; 8] = code.try_into().ok()?;
        (u64::from_be_bytes(code) & !0xff == CODE_BASE).then_some(SurgeInstance)
    }
}

/// Payload of the unwind that carries an engine error out of blueprint code.
struct HostError(InvokeError<WasmRuntimeError>);

thread_local! {
    static RUNTIMES: RefCell<Vec<*mut (dyn WasmRuntime + 'static)>> = RefCell::new(Vec::new());
    static PANIC_AT: RefCell<String> = RefCell::new(String::new());
}

extern "C" {
    fn dlsym(handle: *mut std::ffi::c_void, symbol: *const std::ffi::c_char) -> *mut std::ffi::c_void;
    fn dlopen(f: *const std::ffi::c_char, flags: i32) -> *mut std::ffi::c_void;
}

pub fn symbol(name: &str) -> *mut std::ffi::c_void {
    let c = CString::new(name).unwrap();
    let h = LIB.with(|l| *l);
    unsafe { dlsym(h, c.as_ptr()) }
}

thread_local! {
    static LIB: *mut std::ffi::c_void = unsafe {
        let p = std::env::var("SURGE_HARNESS_SO").expect("SURGE_HARNESS_SO");
        let c = CString::new(p).unwrap();
        let h = dlopen(c.as_ptr(), 2);
        assert!(!h.is_null());
        h
    };
}

fn rt() -> &'static mut dyn WasmRuntime {
    RUNTIMES.with(|r| unsafe { &mut **r.borrow().last().expect("host call outside of an invocation") })
}

fn fail(e: InvokeError<WasmRuntimeError>) -> ! {
    resume_unwind(Box::new(HostError(e)))
}

/// While a blueprint panic unwinds, drops must not reach the engine (WASM would have trapped).
fn unwinding() -> bool {
    std::thread::panicking()
}

fn buf(f: impl FnOnce(&mut dyn WasmRuntime) -> Result<Buffer, InvokeError<WasmRuntimeError>>) -> Buffer {
    if unwinding() {
        return Buffer::new(u32::MAX, 0);
    }
    f(rt()).unwrap_or_else(|e| fail(e))
}

fn num(f: impl FnOnce(&mut dyn WasmRuntime) -> Result<u32, InvokeError<WasmRuntimeError>>) -> u32 {
    if unwinding() {
        return 0;
    }
    f(rt()).unwrap_or_else(|e| fail(e))
}

fn unit(f: impl FnOnce(&mut dyn WasmRuntime) -> Result<(), InvokeError<WasmRuntimeError>>) {
    if unwinding() {
        return;
    }
    f(rt()).unwrap_or_else(|e| fail(e))
}

unsafe fn mem(p: *const u8, n: usize) -> Vec<u8> {
    if n == 0 {
        return vec![];
    }
    std::slice::from_raw_parts(p, n).to_vec()
}

type P = *const u8;
type N = usize;

unsafe fn blueprint_call(a: P, al: N, b: P, bl: N, c: P, cl: N, d: P, dl: N) -> Buffer {
    buf(|r| r.blueprint_call(mem(a, al), mem(b, bl), mem(c, cl), mem(d, dl)))
}
unsafe fn address_allocate(a: P, al: N, b: P, bl: N) -> Buffer {
    buf(|r| r.address_allocate(mem(a, al), mem(b, bl)))
}
unsafe fn address_get_reservation_address(a: P, al: N) -> Buffer {
    buf(|r| r.address_get_reservation_address(mem(a, al)))
}
unsafe fn object_new(a: P, al: N, b: P, bl: N) -> Buffer {
    buf(|r| r.object_new(mem(a, al), mem(b, bl)))
}
unsafe fn object_globalize(a: P, al: N, b: P, bl: N, c: P, cl: N) -> Buffer {
    buf(|r| r.globalize_object(mem(a, al), mem(b, bl), mem(c, cl)))
}
unsafe fn object_instance_of(a: P, al: N, b: P, bl: N, c: P, cl: N) -> u32 {
    num(|r| r.instance_of(mem(a, al), mem(b, bl), mem(c, cl)))
}
unsafe fn object_get_blueprint_id(a: P, al: N) -> Buffer {
    buf(|r| r.blueprint_id(mem(a, al)))
}
unsafe fn object_get_outer_object(a: P, al: N) -> Buffer {
    buf(|r| r.get_outer_object(mem(a, al)))
}
unsafe fn object_call(a: P, al: N, b: P, bl: N, c: P, cl: N) -> Buffer {
    buf(|r| r.object_call(mem(a, al), mem(b, bl), mem(c, cl)))
}
unsafe fn object_call_direct(a: P, al: N, b: P, bl: N, c: P, cl: N) -> Buffer {
    buf(|r| r.object_call_direct(mem(a, al), mem(b, bl), mem(c, cl)))
}
unsafe fn object_call_module(a: P, al: N, m: u32, b: P, bl: N, c: P, cl: N) -> Buffer {
    buf(|r| r.object_call_module(mem(a, al), m, mem(b, bl), mem(c, cl)))
}
unsafe fn actor_get_package_address() -> Buffer {
    buf(|r| r.actor_get_package_address())
}
unsafe fn actor_get_blueprint_name() -> Buffer {
    buf(|r| r.actor_get_blueprint_name())
}
unsafe fn actor_get_object_id(h: u32) -> Buffer {
    buf(|r| r.actor_get_node_id(h))
}
unsafe fn actor_open_field(h: u32, f: u32, flags: u32) -> u32 {
    num(|r| r.actor_open_field(h, f as u8, flags))
}
unsafe fn actor_emit_event(a: P, al: N, b: P, bl: N, flags: u32) {
    unit(|r| r.actor_emit_event(mem(a, al), mem(b, bl), EventFlags::from_bits(flags).unwrap()))
}
unsafe fn kv_store_new(a: P, al: N) -> Buffer {
    buf(|r| r.key_value_store_new(mem(a, al)))
}
unsafe fn kv_store_open_entry(a: P, al: N, b: P, bl: N, flags: u32) -> u32 {
    num(|r| r.key_value_store_open_entry(mem(a, al), mem(b, bl), flags))
}
unsafe fn kv_store_remove_entry(a: P, al: N, b: P, bl: N) -> Buffer {
    buf(|r| r.key_value_store_remove_entry(mem(a, al), mem(b, bl)))
}
unsafe fn kv_entry_read(h: u32) -> Buffer {
    buf(|r| r.key_value_entry_get(h))
}
unsafe fn kv_entry_write(h: u32, b: P, bl: N) {
    unit(|r| r.key_value_entry_set(h, mem(b, bl)))
}
unsafe fn kv_entry_remove(h: u32) -> Buffer {
    buf(|r| r.key_value_entry_remove(h))
}
unsafe fn kv_entry_close(h: u32) {
    unit(|r| r.key_value_entry_close(h))
}
unsafe fn field_entry_read(h: u32) -> Buffer {
    buf(|r| r.field_entry_read(h))
}
unsafe fn field_entry_write(h: u32, b: P, bl: N) {
    unit(|r| r.field_entry_write(h, mem(b, bl)))
}
unsafe fn field_entry_close(h: u32) {
    unit(|r| r.field_entry_close(h))
}
unsafe fn costing_get_execution_cost_unit_limit() -> u32 {
    num(|r| r.costing_get_execution_cost_unit_limit())
}
unsafe fn costing_get_finalization_cost_unit_limit() -> u32 {
    num(|r| r.costing_get_finalization_cost_unit_limit())
}
unsafe fn costing_get_tip_percentage() -> u32 {
    num(|r| r.costing_get_tip_percentage())
}
unsafe fn costing_get_execution_cost_unit_price() -> Buffer {
    buf(|r| r.costing_get_execution_cost_unit_price())
}
unsafe fn costing_get_finalization_cost_unit_price() -> Buffer {
    buf(|r| r.costing_get_finalization_cost_unit_price())
}
unsafe fn costing_get_usd_price() -> Buffer {
    buf(|r| r.costing_get_usd_price())
}
unsafe fn costing_get_fee_balance() -> Buffer {
    buf(|r| r.costing_get_fee_balance())
}
unsafe fn sys_log(a: P, al: N, b: P, bl: N) {
    unit(|r| r.sys_log(mem(a, al), mem(b, bl)))
}
unsafe fn sys_bech32_encode_address(a: P, al: N) -> Buffer {
    buf(|r| r.sys_bech32_encode_address(mem(a, al)))
}
unsafe fn sys_get_transaction_hash() -> Buffer {
    buf(|r| r.sys_get_transaction_hash())
}
unsafe fn sys_generate_ruid() -> Buffer {
    buf(|r| r.sys_generate_ruid())
}
unsafe fn sys_panic(a: P, al: N) {
    unit(|r| r.sys_panic(mem(a, al)))
}
unsafe fn bls_verify(a: P, al: N, b: P, bl: N, c: P, cl: N) -> u32 {
    num(|r| r.crypto_utils_bls12381_v1_verify(mem(a, al), mem(b, bl), mem(c, cl)))
}
unsafe fn bls_aggregate_verify(a: P, al: N, b: P, bl: N) -> u32 {
    num(|r| r.crypto_utils_bls12381_v1_aggregate_verify(mem(a, al), mem(b, bl)))
}
unsafe fn bls_fast_aggregate_verify(a: P, al: N, b: P, bl: N, c: P, cl: N) -> u32 {
    num(|r| r.crypto_utils_bls12381_v1_fast_aggregate_verify(mem(a, al), mem(b, bl), mem(c, cl)))
}
unsafe fn bls_signature_aggregate(a: P, al: N) -> Buffer {
    buf(|r| r.crypto_utils_bls12381_g2_signature_aggregate(mem(a, al)))
}
unsafe fn keccak256_hash(a: P, al: N) -> Buffer {
    buf(|r| r.crypto_utils_keccak256_hash(mem(a, al)))
}
unsafe fn buffer_consume(id: BufferId, dst: *mut u8) {
    if unwinding() {
        return;
    }
    let v = rt().buffer_consume(id).unwrap_or_else(|e| fail(e));
    std::ptr::copy_nonoverlapping(v.as_ptr(), dst, v.len());
}

macro_rules! hook {
    ($m:ident :: $f:ident = $g:ident) => {
        wasm_api::$m::hooks::$f.store($g as *mut (), std::sync::atomic::Ordering::SeqCst)
    };
}

pub fn install() {
    hook!(blueprint::blueprint_call = blueprint_call);
    hook!(addr::address_allocate = address_allocate);
    hook!(addr::address_get_reservation_address = address_get_reservation_address);
    hook!(object::object_new = object_new);
    hook!(object::object_globalize = object_globalize);
    hook!(object::object_instance_of = object_instance_of);
    hook!(object::object_get_blueprint_id = object_get_blueprint_id);
    hook!(object::object_get_outer_object = object_get_outer_object);
    hook!(object::object_call = object_call);
    hook!(object::object_call_direct = object_call_direct);
    hook!(object::object_call_module = object_call_module);
    hook!(actor::actor_get_package_address = actor_get_package_address);
    hook!(actor::actor_get_blueprint_name = actor_get_blueprint_name);
    hook!(actor::actor_get_object_id = actor_get_object_id);
    hook!(actor::actor_open_field = actor_open_field);
    hook!(actor::actor_emit_event = actor_emit_event);
    hook!(kv_store::kv_store_new = kv_store_new);
    hook!(kv_store::kv_store_open_entry = kv_store_open_entry);
    hook!(kv_store::kv_store_remove_entry = kv_store_remove_entry);
    hook!(kv_entry::kv_entry_read = kv_entry_read);
    hook!(kv_entry::kv_entry_write = kv_entry_write);
    hook!(kv_entry::kv_entry_remove = kv_entry_remove);
    hook!(kv_entry::kv_entry_close = kv_entry_close);
    hook!(field_entry::field_entry_read = field_entry_read);
    hook!(field_entry::field_entry_write = field_entry_write);
    hook!(field_entry::field_entry_close = field_entry_close);
    hook!(costing::costing_get_execution_cost_unit_limit = costing_get_execution_cost_unit_limit);
    hook!(costing::costing_get_execution_cost_unit_price = costing_get_execution_cost_unit_price);
    hook!(costing::costing_get_finalization_cost_unit_limit = costing_get_finalization_cost_unit_limit);
    hook!(costing::costing_get_finalization_cost_unit_price = costing_get_finalization_cost_unit_price);
    hook!(costing::costing_get_usd_price = costing_get_usd_price);
    hook!(costing::costing_get_tip_percentage = costing_get_tip_percentage);
    hook!(costing::costing_get_fee_balance = costing_get_fee_balance);
    hook!(system::sys_log = sys_log);
    hook!(system::sys_bech32_encode_address = sys_bech32_encode_address);
    hook!(system::sys_get_transaction_hash = sys_get_transaction_hash);
    hook!(system::sys_generate_ruid = sys_generate_ruid);
    hook!(system::sys_panic = sys_panic);
    hook!(crypto_utils::crypto_utils_bls12381_v1_verify = bls_verify);
    hook!(crypto_utils::crypto_utils_bls12381_v1_aggregate_verify = bls_aggregate_verify);
    hook!(crypto_utils::crypto_utils_bls12381_v1_fast_aggregate_verify = bls_fast_aggregate_verify);
    hook!(crypto_utils::crypto_utils_bls12381_g2_signature_aggregate = bls_signature_aggregate);
    hook!(crypto_utils::crypto_utils_keccak256_hash = keccak256_hash);
    hook!(buffer::buffer_consume = buffer_consume);

    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let inside = RUNTIMES.with(|r| r.try_borrow().map(|r| !r.is_empty()).unwrap_or(true));
        if !inside {
            return default(info);
        }
        let at = info
            .location()
            .map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column()))
            .unwrap_or_default();
        PANIC_AT.with(|p| *p.borrow_mut() = at);
    }));
}

type Export = unsafe extern "C-unwind" fn(Buffer) -> Slice;

impl VmInvoke for SurgeInstance {
    fn invoke<Y, V>(
        &mut self,
        export_name: &str,
        input: &IndexedScryptoValue,
        api: &mut Y,
        _vm_api: &V,
    ) -> Result<IndexedScryptoValue, RuntimeError>
    where
        Y: ClientApi<RuntimeError> + KernelNodeApi + KernelSubstateApi<SystemLockData>,
        V: VmApi,
    {
        let f = symbol(export_name);
        if f.is_null() {
            return Err(RuntimeError::ApplicationError(ApplicationError::PanicMessage(
                format!("HARNESS: no such export {}", export_name),
            )));
        }
        let f: Export = unsafe { std::mem::transmute(f) };
        let mut runtime = ScryptoRuntime::new(api, PACKAGE_PACKAGE, export_name.to_string());
        let arg = runtime.allocate_buffer(input.as_slice().to_vec())?;
        let p: *mut (dyn WasmRuntime + '_) = &mut runtime;
        let p: *mut (dyn WasmRuntime + 'static) = unsafe { std::mem::transmute(p) };
        let depth = RUNTIMES.with(|r| {
            r.borrow_mut().push(p);
            r.borrow().len()
        });
        let out = catch_unwind(AssertUnwindSafe(|| unsafe { f(arg) }));
        RUNTIMES.with(|r| {
            let mut r = r.borrow_mut();
            assert_eq!(r.len(), depth);
            r.pop();
        });
        match out {
            Ok(_) => {
                let v = wasm_api::native::RETURNED
                    .with(|r| r.borrow_mut().pop())
                    .expect("no returned value");
                IndexedScryptoValue::from_vec(v).map_err(|e| {
                    RuntimeError::SystemUpstreamError(SystemUpstreamError::OutputDecodeError(e))
                })
            }
            Err(cause) => {
                let cause = match cause.downcast::<HostError>() {
                    Ok(e) => return Err((*e).0.into()),
                    Err(c) => c,
                };
                let msg = cause
                    .downcast_ref::<&'static str>()
                    .map(|s| s.to_string())
                    .or_else(|| cause.downcast_ref::<String>().cloned())
                    .unwrap_or_else(|| "Panic".to_string());
                let at = PANIC_AT.with(|p| p.borrow().clone());
                Err(RuntimeError::ApplicationError(ApplicationError::PanicMessage(
                    format!("{} @ {}", msg, at),
                )))
            }
        }
    }
}

/// The definition a package would publish, obtained by running its `<Blueprint>_schema` exports.
pub fn definition(blueprints: &[&str]) -> PackageDefinition {
    let mut def = PackageDefinition::default();
    for b in blueprints {
        let f = symbol(&format!("{}_schema", b));
        assert!(!f.is_null(), "missing schema export of {}", b);
        let f: unsafe extern "C-unwind" fn() -> Slice = unsafe { std::mem::transmute(f) };
        unsafe { f() };
        let v = wasm_api::native::RETURNED.with(|r| r.borrow_mut().pop()).unwrap();
        def.blueprints
            .insert(b.to_string(), scrypto_decode(&v).expect("schema"));
    }
    def
}
