use std::ffi::{c_char, c_void, CString};
extern "C" {
    fn dlopen(f: *const c_char, flags: i32) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}
/// Loads the harness library next to this executable and runs it.
fn main() {
    let so = std::env::current_exe().unwrap().parent().unwrap().join("libsurge_harness.so");
    std::env::set_var("SURGE_HARNESS_SO", &so);
    let path = CString::new(so.to_str().unwrap()).unwrap();
    let code = unsafe {
        let h = dlopen(path.as_ptr(), 2);
        if h.is_null() {
            eprintln!("{:?}", std::ffi::CStr::from_ptr(dlerror()));
            std::process::exit(3);
        }
        let name = CString::new("harness_main").unwrap();
        let f = dlsym(h, name.as_ptr());
        let f: extern "C" fn() -> i32 = std::mem::transmute(f);
        f()
    };
    std::process::exit(code);
}
