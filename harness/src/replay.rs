//! Native side: runs a scenario of the same source on given bytes against the real library.
//!   replay --list               name, tier and bounds of each scenario
//!   replay --batch < LINES      "scenario hex" per line; prints emits and reached marks
//!   replay SCENARIO HEX         exit 0 held, 3 check failed, 4 assumption not met; a panic aborts
use std::cell::RefCell;
use std::io::BufRead;

struct St {
    scenario: &'static str,
    input: Vec<u8>,
    pos: usize,
    short: bool,
    failed: Vec<u32>,
    discarded: bool,
    emits: Vec<u64>,
    reach: Vec<u32>,
}
thread_local! {
    static ST: RefCell<St> = const { RefCell::new(St { scenario: "", input: Vec::new(), pos: 0, short: false, failed: Vec::new(), discarded: false, emits: Vec::new(), reach: Vec::new() }) };
}
fn next(st: &mut St) -> u8 {
    if st.pos < st.input.len() {
        st.pos += 1;
        st.input[st.pos - 1]
    } else {
        st.short = true;
        0
    }
}
#[unsafe(no_mangle)]
extern "C" fn __rsym_bytes(p: *mut u8, n: usize) {
    ST.with_borrow_mut(|st| {
        for i in 0..n {
            unsafe { *p.add(i) = next(st) };
        }
    })
}
#[unsafe(no_mangle)]
extern "C" fn __rsym_choice(n: usize) -> usize {
    if n <= 1 { 0 } else { ST.with_borrow_mut(|st| next(st) as usize % n) }
}
fn finish(code: i32) -> ! {
    ST.with_borrow(|st| println!("emits {:?} reach {:?} failed {:?}", st.emits, st.reach, st.failed));
    std::process::exit(code)
}
#[unsafe(no_mangle)]
extern "C" fn __rsym_assume(c: bool) {
    if !c {
        let single = ST.with_borrow_mut(|st| {
            st.discarded = true;
            st.failed.is_empty()
        });
        println!("assumption not met");
        finish(if single { 4 } else { 3 })
    }
}
#[unsafe(no_mangle)]
extern "C" fn __rsym_check(c: bool, id: u32) {
    if !c {
        ST.with_borrow_mut(|st| st.failed.push(id));
        println!("CHECK-FAILED {id}");
        finish(3)
    }
}
#[unsafe(no_mangle)]
extern "C" fn __rsym_reach(id: u32) {
    ST.with_borrow_mut(|st| st.reach.push(id))
}
#[unsafe(no_mangle)]
extern "C" fn __rsym_emit(v: u64) {
    ST.with_borrow_mut(|st| st.emits.push(v))
}

#[unsafe(no_mangle)]
extern "C" fn __rsym_note(p: *const u8, n: usize) {
    if std::env::var_os("REPLAY_VERBOSE").is_none() {
        return;
    }
    if p.is_null() {
        eprintln!();
    } else {
        use std::os::unix::ffi::OsStrExt;
        eprint!(" {:?}", std::ffi::OsStr::from_bytes(unsafe { std::slice::from_raw_parts(p, n) }));
    }
}

/// A process of its own, which runs the scenario again, but as the program.
#[unsafe(no_mangle)]
extern "C" fn __rsym_spawn(argv: *const Vec<std::ffi::OsString>, main: fn() -> String, end: *mut harness::sym::Ended) -> bool {
    use std::os::unix::process::CommandExt;
    if std::env::var_os("REPLAY_PROGRAM").is_some() {
        use std::io::Write;
        let v = main();
        let mut o = std::io::stdout();
        o.write_all(MARK).and(o.write_all(v.as_bytes())).and(o.flush()).expect("no stdout");
        std::process::exit(0);
    }
    let argv = unsafe { &*argv };
    let (scenario, input) = ST.with_borrow(|st| (st.scenario, hex(&st.input)));
    let o = std::process::Command::new("/proc/self/exe")
        .arg0(&argv[0])
        .args(&argv[1..])
        .env("REPLAY_PROGRAM", format!("{scenario} {input}"))
        .env_remove("REPLAY_VERBOSE")
        .stdin(std::process::Stdio::null())
        .output()
        .expect("no process");
    let end = unsafe { &mut *end };
    // The program's own last words are after the mark.
    let (out, value) = match o.stdout.windows(MARK.len()).position(|w| w == MARK) {
        Some(k) => (&o.stdout[..k], Some(&o.stdout[k + MARK.len()..])),
        None => (&o.stdout[..], None),
    };
    end.status = if value.is_some() { None } else { Some(o.status.code().unwrap_or(-1)) };
    end.out = out.to_vec();
    end.err = o.stderr;
    end.value = String::from_utf8_lossy(value.unwrap_or_default()).into_owned();
    true
}
const MARK: &[u8] = b"\0\0replay: the value is\0\0";
#[unsafe(no_mangle)]
extern "C" fn __rsym_done() -> ! {
    unreachable!()
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(h: &str) -> Vec<u8> {
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn run(e: &harness::Entry, bytes: Vec<u8>) {
    ST.with_borrow_mut(|st| {
        *st = St { scenario: e.name, input: bytes, pos: 0, short: false, failed: vec![], discarded: false, emits: vec![], reach: vec![] }
    });
    (e.run)();
}
fn main() {
    if let Ok(v) = std::env::var("REPLAY_PROGRAM") {
        let (n, h) = v.split_once(' ').unwrap();
        run(harness::table().iter().find(|e| e.name == n).unwrap(), unhex(h));
        unreachable!()
    }
    let a: Vec<String> = std::env::args().collect();
    let t = harness::table();
    let find = |n: &str| *t.iter().find(|e| e.name == n).expect("no such scenario");
    if a[1] == "--list" {
        for e in &t {
            println!("{}\t{}\t{}", e.name, e.tier, e.bounds);
        }
    } else if a[1] == "--batch" {
        for l in std::io::stdin().lock().lines() {
            let l = l.unwrap();
            let (n, h) = l.split_once(' ').unwrap();
            println!("run {n} {h}");
            run(&find(n), unhex(h));
            ST.with_borrow(|st| {
                println!("ok {:?} {:?} {}", st.emits, st.reach, st.pos == st.input.len() && !st.short)
            });
        }
    } else {
        run(&find(&a[1]), unhex(a.get(2).map_or("", |s| s)));
        finish(0)
    }
}
