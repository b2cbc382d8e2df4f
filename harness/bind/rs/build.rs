// What bindgen would do: declarations for watcher-c.h, from watcher-c.h.
use std::{env, fs, path::Path};

fn rust_type(c: &str) -> String {
    let c = c.replace("const", " ").split_whitespace().collect::<Vec<_>>().join(" ");
    match c.as_str() {
        "int64_t" => "i64".into(),
        "int32_t" => "i32".into(),
        "int16_t" => "i16".into(),
        "int8_t" => "i8".into(),
        "uint64_t" => "u64".into(),
        "uint8_t" => "u8".into(),
        "bool" => "bool".into(),
        "void *" | "void*" => "*mut ::core::ffi::c_void".into(),
        "char *" | "char*" => "*const ::core::ffi::c_char".into(),
        other => panic!("type {other}"),
    }
}

fn main() {
    let header = env::var("WVERIF_HEADER").unwrap();
    println!("cargo:rerun-if-changed={header}");
    println!("cargo:rerun-if-env-changed=WVERIF_HEADER");
    let mut text = fs::read_to_string(&header).unwrap();
    while let Some(a) = text.find("/*") {
        let b = text[a..].find("*/").unwrap() + a + 2;
        text.replace_range(a..b, " ");
    }
    let mut o = String::new();
    for s in text.split(';') {
        if let Some(at) = s.find("static const int8_t") {
            let d = &s[at + "static const int8_t".len()..];
            let (n, v) = d.split_once('=').unwrap();
            o += &format!("pub const {}: i8 = {};\n", n.trim(), v.trim());
        }
    }
    let a = text.find("struct wtr_watcher_event {").unwrap();
    let body = &text[a..][text[a..].find('{').unwrap() + 1..];
    let body = &body[..body.find('}').unwrap()];
    o += "#[repr(C)]\n#[derive(Debug, Copy, Clone)]\npub struct wtr_watcher_event {\n";
    for f in body.split(';').map(str::trim).filter(|f| !f.is_empty()) {
        let at = f.rfind(|c: char| !(c.is_alphanumeric() || c == '_')).unwrap() + 1;
        o += &format!("    pub {}: {},\n", &f[at..], rust_type(&f[..at]));
    }
    o += "}\npub type wtr_watcher_callback = ::core::option::Option<unsafe extern \"C\" fn(event: wtr_watcher_event, context: *mut ::core::ffi::c_void)>;\n";
    o += "extern \"C\" {\n    pub fn wtr_watcher_open(path: *const ::core::ffi::c_char, callback: wtr_watcher_callback, context: *mut ::core::ffi::c_void) -> *mut ::core::ffi::c_void;\n";
    o += "    pub fn wtr_watcher_close(watcher: *mut ::core::ffi::c_void) -> bool;\n}\n";
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("watcher_c.rs"), o).unwrap();
    println!("cargo:rerun-if-env-changed=WVERIF_LIB");
    println!("cargo:rustc-link-search=native={}", env::var("WVERIF_LIB").unwrap());
    println!("cargo:rustc-link-lib=dylib=watcher-c");
}
