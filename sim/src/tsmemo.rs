//! Compiling a tree-sitter query takes milliseconds and is a pure function of
//! the grammar and the query text; the server compiles seven of them on every
//! start and rescan.  The result is immutable, so it is shared between runs.
use std::collections::HashMap;
use std::ffi::c_void;
use std::sync::Mutex;

extern "C" {
    fn __real_ts_query_new(
        language: *const c_void,
        source: *const u8,
        len: u32,
        error_offset: *mut u32,
        error_type: *mut u32,
    ) -> *mut c_void;
}

static CACHE: Mutex<Option<HashMap<(usize, Vec<u8>), usize>>> = Mutex::new(None);

#[no_mangle]
unsafe extern "C" fn __wrap_ts_query_new(
    language: *const c_void,
    source: *const u8,
    len: u32,
    error_offset: *mut u32,
    error_type: *mut u32,
) -> *mut c_void {
    let src = std::slice::from_raw_parts(source, len as usize).to_vec();
    let key = (language as usize, src);
    let mut g = CACHE.lock().unwrap();
    let map = g.get_or_insert_with(HashMap::new);
    if let Some(q) = map.get(&key) {
        *error_type = 0;
        return *q as *mut c_void;
    }
    let q = __real_ts_query_new(language, source, len, error_offset, error_type);
    if !q.is_null() {
        map.insert(key, q as usize);
    }
    q
}

#[no_mangle]
unsafe extern "C" fn __wrap_ts_query_delete(_q: *mut c_void) {}
