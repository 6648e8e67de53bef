//! Interface between harnesses and the symbolic engine. Built with `--cfg sym` the functions are
//! external symbols the engine provides; otherwise they replay recorded inputs natively.

#[cfg(sym)]
mod imp {
    extern "C" {
        pub fn sym_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize);
        pub fn sym_below(n: u64, name: *const u8, nl: usize) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_check(c: bool, m: *const u8, ml: usize);
        pub fn sym_cover(m: *const u8, ml: usize);
        pub fn sym_observe(m: *const u8, ml: usize, v: u64);
        pub fn sym_concretize(v: u64) -> u64;
        pub fn sym_param(m: *const u8, ml: usize, d: u64) -> u64;
        pub fn sym_panic_ok(b: bool);
        pub fn sym_ite64(c: bool, a: u64, b: u64) -> u64;
        pub fn sym_implies(a: bool, b: bool) -> bool;
        pub fn sym_and(a: bool, b: bool) -> bool;
        pub fn sym_or(a: bool, b: bool) -> bool;
        pub fn sym_bytes_eq(a: *const u8, b: *const u8, n: usize) -> bool;
        pub fn sym_peek(a: *const u8, i: usize) -> u8;
        pub fn sym_peek8(a: *const u8, i: usize) -> u64;
        pub fn sym_engine() -> bool;
        pub fn sym_file_write(p: *const u8, pl: usize, d: *const u8, dl: usize);
        pub fn sym_file_len(p: *const u8, pl: usize) -> u64;
        pub fn sym_file_read(p: *const u8, pl: usize, d: *mut u8, dl: usize);
        pub fn sym_file_count() -> u64;
        pub fn sym_proc(e: extern "C" fn() -> i32, argv: *const (*const u8, usize), argc: usize, sin: *const u8, sl: usize) -> i32;
        pub fn sym_proc_len(which: u64) -> u64;
        pub fn sym_proc_read(which: u64, d: *mut u8, dl: usize);
    }
}

#[cfg(not(sym))]
mod imp {
    //! Native replay.
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::io::Write;
    use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
    use std::sync::Mutex;

    struct Lim;
    static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
    unsafe impl GlobalAlloc for Lim {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if l.size() > LIMIT.load(Ordering::Relaxed) {
                return std::ptr::null_mut();
            }
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            System.dealloc(p, l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            if l.size() > LIMIT.load(Ordering::Relaxed) {
                return std::ptr::null_mut();
            }
            System.alloc_zeroed(l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            if n > LIMIT.load(Ordering::Relaxed) {
                return std::ptr::null_mut();
            }
            System.realloc(p, l, n)
        }
    }
    #[global_allocator]
    static A: Lim = Lim;

    static PANIC_OK: AtomicBool = AtomicBool::new(false);
    static INPUTS: Mutex<Option<std::collections::VecDeque<(String, Vec<u8>)>>> = Mutex::new(None);
    static OUT: Mutex<(Vec<u8>, Vec<u8>)> = Mutex::new((Vec::new(), Vec::new()));

    fn s(p: *const u8, n: usize) -> &'static str {
        unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) }
    }
    fn finish(code: i32, msg: &str) -> ! {
        println!("{}", msg);
        let _ = std::io::stdout().flush();
        std::process::exit(code)
    }

    pub fn run(f: fn()) -> ! {
        if let Ok(l) = std::env::var("SYM_ALLOC_LIMIT") {
            LIMIT.store(l.parse().unwrap(), Ordering::Relaxed);
        }
        let p = std::env::var("SYM_REPLAY").expect("SYM_REPLAY");
        let txt = std::fs::read_to_string(&p).expect("replay file");
        let mut q = std::collections::VecDeque::new();
        for l in txt.lines() {
            if let Some((n, h)) = l.split_once('\t') {
                let h = h.trim();
                let b = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                q.push_back((n.to_string(), b));
            }
        }
        *INPUTS.lock().unwrap() = Some(q);
        let r = std::panic::catch_unwind(f);
        match r {
            Ok(()) => finish(0, "RESULT done"),
            Err(_) if PANIC_OK.load(Ordering::Relaxed) => finish(0, "RESULT allowed panic"),
            Err(_) => finish(43, "RESULT panic"),
        }
    }

    pub unsafe fn sym_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize) {
        let mut g = INPUTS.lock().unwrap();
        let q = g.as_mut().unwrap();
        let (want, b) = match q.pop_front() {
            Some(x) => x,
            None => (s(name, nl).to_string(), vec![0; n]),
        };
        if want != s(name, nl) || b.len() != n {
            finish(97, &format!("RESULT diverged: wants {} recorded {}", s(name, nl), want));
        }
        std::ptr::copy_nonoverlapping(b.as_ptr(), p, n);
    }
    pub unsafe fn sym_below(n: u64, name: *const u8, nl: usize) -> u64 {
        let mut b = [0u8; 8];
        sym_bytes(b.as_mut_ptr(), 8, name, nl);
        let v = u64::from_le_bytes(b);
        if v >= n {
            finish(42, "RESULT assumption false");
        }
        v
    }
    pub unsafe fn sym_assume(c: bool) {
        if !c {
            finish(42, "RESULT assumption false");
        }
    }
    pub unsafe fn sym_check(c: bool, m: *const u8, ml: usize) {
        if !c {
            finish(41, &format!("RESULT check failed: {}", s(m, ml)));
        }
    }
    pub unsafe fn sym_cover(m: *const u8, ml: usize) {
        println!("COVER {}", s(m, ml));
    }
    pub unsafe fn sym_observe(m: *const u8, ml: usize, v: u64) {
        println!("OBS {} {}", s(m, ml), v);
    }
    pub unsafe fn sym_concretize(v: u64) -> u64 {
        v
    }
    pub unsafe fn sym_param(m: *const u8, ml: usize, d: u64) -> u64 {
        std::env::var(format!("SYM_PARAM_{}", s(m, ml))).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
    }
    pub unsafe fn sym_panic_ok(b: bool) {
        PANIC_OK.store(b, Ordering::Relaxed);
    }
    pub unsafe fn sym_ite64(c: bool, a: u64, b: u64) -> u64 {
        if c {
            a
        } else {
            b
        }
    }
    pub unsafe fn sym_implies(a: bool, b: bool) -> bool {
        !a | b
    }
    pub unsafe fn sym_and(a: bool, b: bool) -> bool {
        a & b
    }
    pub unsafe fn sym_or(a: bool, b: bool) -> bool {
        a | b
    }
    pub unsafe fn sym_bytes_eq(a: *const u8, b: *const u8, n: usize) -> bool {
        std::slice::from_raw_parts(a, n) == std::slice::from_raw_parts(b, n)
    }
    pub unsafe fn sym_peek(a: *const u8, i: usize) -> u8 {
        *a.add(i)
    }
    pub unsafe fn sym_peek8(a: *const u8, i: usize) -> u64 {
        (a.add(i) as *const u64).read_unaligned()
    }
    pub unsafe fn sym_engine() -> bool {
        false
    }
    // files live in the current directory, which the driver makes a scratch directory
    pub unsafe fn sym_file_write(p: *const u8, pl: usize, d: *const u8, dl: usize) {
        std::fs::write(s(p, pl), std::slice::from_raw_parts(d, dl)).unwrap();
    }
    pub unsafe fn sym_file_len(p: *const u8, pl: usize) -> u64 {
        std::fs::metadata(s(p, pl)).map(|m| m.len()).unwrap_or(u64::MAX)
    }
    pub unsafe fn sym_file_read(p: *const u8, pl: usize, d: *mut u8, dl: usize) {
        if let Ok(b) = std::fs::read(s(p, pl)) {
            let k = dl.min(b.len());
            std::ptr::copy_nonoverlapping(b.as_ptr(), d, k);
        }
    }
    pub unsafe fn sym_file_count() -> u64 {
        std::fs::read_dir(".").unwrap().count() as u64
    }
    pub unsafe fn sym_proc(_e: extern "C" fn() -> i32, argv: *const (*const u8, usize), argc: usize, sin: *const u8, sl: usize) -> i32 {
        use std::os::unix::ffi::OsStrExt;
        use std::process::{Command, Stdio};
        let av = std::slice::from_raw_parts(argv, argc);
        let bin = std::env::var("SYM_BIN").expect("SYM_BIN");
        let mut c = Command::new(bin);
        for (p, n) in &av[1..] {
            c.arg(std::ffi::OsStr::from_bytes(std::slice::from_raw_parts(*p, *n)));
        }
        let mut ch = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
        let inp = std::slice::from_raw_parts(sin, sl).to_vec();
        let mut si = ch.stdin.take().unwrap();
        let w = std::thread::spawn(move || {
            let _ = si.write_all(&inp);
        });
        let o = ch.wait_with_output().unwrap();
        let _ = w.join();
        *OUT.lock().unwrap() = (o.stdout, o.stderr);
        o.status.code().unwrap_or(255)
    }
    pub unsafe fn sym_proc_len(which: u64) -> u64 {
        let g = OUT.lock().unwrap();
        (if which == 0 { g.0.len() } else { g.1.len() }) as u64
    }
    pub unsafe fn sym_proc_read(which: u64, d: *mut u8, dl: usize) {
        let g = OUT.lock().unwrap();
        let b = if which == 0 { &g.0 } else { &g.1 };
        let k = dl.min(b.len());
        std::ptr::copy_nonoverlapping(b.as_ptr(), d, k);
    }
}

#[cfg(not(sym))]
pub use imp::run;

#[inline(always)]
pub fn fill(b: &mut [u8], name: &'static str) {
    unsafe { imp::sym_bytes(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) }
}
#[inline(always)]
pub fn bytes<const N: usize>(name: &'static str) -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b, name);
    b
}
#[inline(always)]
pub fn u64_(name: &'static str) -> u64 {
    u64::from_le_bytes(bytes::<8>(name))
}
#[inline(always)]
pub fn u8_(name: &'static str) -> u8 {
    bytes::<1>(name)[0]
}
#[inline(always)]
pub fn usize_(name: &'static str) -> usize {
    u64_(name) as usize
}
#[inline(always)]
pub fn f64_(name: &'static str) -> f64 {
    f64::from_bits(u64_(name))
}
/// an arbitrary value below n
#[inline(always)]
pub fn below(n: u64, name: &'static str) -> u64 {
    unsafe { imp::sym_below(n, name.as_ptr(), name.len()) }
}
/// an arbitrary choice below n, explored case by case
#[inline(always)]
pub fn choose(n: u64, name: &'static str) -> u64 {
    concretize(below(n, name))
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { imp::sym_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, m: &'static str) {
    unsafe { imp::sym_check(c, m.as_ptr(), m.len()) }
}
#[inline(always)]
pub fn cover(m: &'static str) {
    unsafe { imp::sym_cover(m.as_ptr(), m.len()) }
}
#[inline(always)]
pub fn observe(m: &'static str, v: u64) {
    unsafe { imp::sym_observe(m.as_ptr(), m.len(), v) }
}
#[inline(always)]
pub fn concretize(v: u64) -> u64 {
    unsafe { imp::sym_concretize(v) }
}
#[inline(always)]
pub fn param(m: &'static str, d: u64) -> u64 {
    unsafe { imp::sym_param(m.as_ptr(), m.len(), d) }
}
#[inline(always)]
pub fn panic_ok(b: bool) {
    unsafe { imp::sym_panic_ok(b) }
}
#[inline(always)]
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { imp::sym_ite64(c, a, b) }
}
#[inline(always)]
pub fn implies(a: bool, b: bool) -> bool {
    unsafe { imp::sym_implies(a, b) }
}
#[inline(always)]
pub fn and(a: bool, b: bool) -> bool {
    unsafe { imp::sym_and(a, b) }
}
#[inline(always)]
pub fn or(a: bool, b: bool) -> bool {
    unsafe { imp::sym_or(a, b) }
}
#[inline(always)]
pub fn bytes_eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && unsafe { imp::sym_bytes_eq(a.as_ptr(), b.as_ptr(), a.len()) }
}
/// a[i] with the bound check made by the caller
#[inline(always)]
pub fn peek(a: &[u8], i: usize) -> u8 {
    unsafe { imp::sym_peek(a.as_ptr(), i) }
}
/// the eight bytes at a[i]
#[inline(always)]
pub fn peek8(a: &[u8], i: usize) -> u64 {
    unsafe { imp::sym_peek8(a.as_ptr(), i) }
}
#[inline(always)]
pub fn in_engine() -> bool {
    unsafe { imp::sym_engine() }
}
pub fn file_write(p: &str, d: &[u8]) {
    unsafe { imp::sym_file_write(p.as_ptr(), p.len(), d.as_ptr(), d.len()) }
}
pub fn file_read(p: &str) -> Option<Vec<u8>> {
    let n = unsafe { imp::sym_file_len(p.as_ptr(), p.len()) };
    if n == u64::MAX {
        return None;
    }
    let mut v = vec![0u8; n as usize];
    unsafe { imp::sym_file_read(p.as_ptr(), p.len(), v.as_mut_ptr(), v.len()) };
    Some(v)
}
pub fn file_count() -> u64 {
    unsafe { imp::sym_file_count() }
}
/// run a command line; returns the exit status
pub fn run_proc(e: extern "C" fn() -> i32, args: &[&[u8]], stdin: &[u8]) -> i32 {
    let av: Vec<(*const u8, usize)> = args.iter().map(|a| (a.as_ptr(), a.len())).collect();
    unsafe { imp::sym_proc(e, av.as_ptr(), av.len(), stdin.as_ptr(), stdin.len()) }
}
pub fn proc_out(which: u64) -> Vec<u8> {
    let n = unsafe { imp::sym_proc_len(which) };
    let mut v = vec![0u8; n as usize];
    unsafe { imp::sym_proc_read(which, v.as_mut_ptr(), v.len()) };
    v
}

/// Declares the harness entry points and `main`.
#[macro_export]
macro_rules! harnesses {
    ($($n:ident),* $(,)?) => {
        pub mod entries {
            $(#[no_mangle] #[inline(never)] pub extern "C" fn $n() { super::$n() })*
        }
        #[cfg(sym)]
        fn main() {
            static T: &[extern "C" fn()] = &[$(entries::$n),*];
            for f in T { std::hint::black_box(*f)(); }
        }
        #[cfg(not(sym))]
        fn main() {
            let a = std::env::args().nth(1).expect("harness name");
            $(if a == stringify!($n) { $crate::run($n); })*
            println!("RESULT unknown harness {}", a);
            std::process::exit(96);
        }
    };
}
