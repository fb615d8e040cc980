//! The symbolic executor: path forking over LLVM IR, with Z3 deciding feasibility and assertions.
use crate::expr::*;
use crate::ll::*;
use crate::z3::{Res, Z3};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const UNDEF: u32 = u32::MAX;
const NONE: u32 = u32::MAX;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Global,
    Stack,
    Heap,
}
#[derive(Clone)]
pub struct Obj {
    bytes: Vec<u8>,
    sym: Option<Vec<u32>>,
    kind: Kind,
    ro: bool,
}
#[derive(Clone)]
pub struct Frame {
    func: u32,
    block: u32,
    ip: u32,
    regs: Vec<Val>,
    allocas: Vec<u32>,
    ret_dst: u32,
    ret_normal: u32,
}
#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    mem: Vec<(u32, Rc<Obj>)>,
    next_id: u32,
    pc: Vec<E>,
    wit: Vec<u8>,
    nvars: usize,
    depth: u32,
    emits: Vec<Val>,
    reach: Vec<u32>,
    checks: u32,
    steps: u64,
    scen: u32,
    /// pending re-execution of an instruction under a constraint that a witness alone does not
    /// convey: such a state is not handed to another worker
    reexec: bool,
}
pub struct Unit {
    scen: u32,
    wit: Vec<u8>,
    depth: u32,
}

enum End {
    Return,
    Discard,
    Panic(String),
    Mem(String),
    Limit,
    Unsupported(String),
    CheckFail,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub scen: u32,
    pub kind: String,
    pub detail: String,
    pub wit: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct Sample {
    pub scen: u32,
    pub wit: Vec<u8>,
    pub emits: Vec<u64>,
    pub reach: Vec<u32>,
}
#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub ret: u64,
    pub discards: u64,
    pub forks: u64,
    pub decisions: u64,
    pub steps: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub z3_us: u64,
    pub checks: u64,
    pub checks_symbolic: u64,
    pub check_queries: u64,
    pub limits: u64,
    pub max_vars: u64,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.paths += o.paths;
        self.ret += o.ret;
        self.discards += o.discards;
        self.forks += o.forks;
        self.decisions += o.decisions;
        self.steps += o.steps;
        self.queries += o.queries;
        self.sat += o.sat;
        self.unsat += o.unsat;
        self.unknown += o.unknown;
        self.cache_hits += o.cache_hits;
        self.z3_us += o.z3_us;
        self.checks += o.checks;
        self.checks_symbolic += o.checks_symbolic;
        self.check_queries += o.check_queries;
        self.limits += o.limits;
        self.max_vars = self.max_vars.max(o.max_vars);
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ext {
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Memcmp,
    Bcmp,
    Strlen,
    Memchr,
    Memrchr,
    Memcpy,
    Memmove,
    Memset,
    Abort,
    Bytes,
    Choice,
    Assume,
    Check,
    Reach,
    Emit,
    Note,
    Spawn,
    Done,
    Llvm,
    Unknown,
}

pub struct Shared {
    pub prog: Prog,
    ext: Vec<Ext>,
    panic_fn: Vec<bool>,
    base_mem: Mutex<Vec<(u32, ObjInit)>>,
    pub entries: Vec<(String, u32)>,
    queue: Mutex<Vec<Unit>>,
    idle: AtomicUsize,
    hungry: AtomicUsize,
    nthreads: usize,
    pub stop: AtomicBool,
    pub deadline: Instant,
    pub max_steps: u64,
    pub max_viol: usize,
    pub dump: bool,
    pub slow: bool,
    pub sample_max: usize,
    pub out: Mutex<Out>,
    pub viol_count: Vec<AtomicUsize>,
    /// solver verdicts shared between workers, by structural hash of the query
    shared_cache: Vec<Mutex<FxMap<u128, CacheVal>>>,
}
type ObjInit = (Vec<u8>, Vec<(usize, usize)>);

#[derive(Default)]
pub struct Out {
    pub stats: Vec<Stats>,
    pub violations: Vec<Violation>,
    pub unsupported: std::collections::BTreeMap<String, (u64, u32, Vec<u8>)>,
    pub samples: Vec<Sample>,
    pub reach: std::collections::BTreeMap<(u32, u32), u64>,
    pub funcs: std::collections::BTreeSet<u32>,
    pub incomplete: Vec<u64>,
}

impl Shared {
    pub fn new(prog: Prog, entries: Vec<(String, u32)>, nthreads: usize, secs: u64) -> Self {
        let ext = prog
            .exts
            .iter()
            .map(|n| match n.as_str() {
                "memcmp" => Ext::Memcmp,
                "bcmp" => Ext::Bcmp,
                "strlen" => Ext::Strlen,
                "memchr" => Ext::Memchr,
                "memrchr" => Ext::Memrchr,
                "memcpy" => Ext::Memcpy,
                "memmove" => Ext::Memmove,
                "memset" => Ext::Memset,
                "abort" | "llvm.trap" | "llvm.ubsantrap" | "_exit" | "exit" => Ext::Abort,
                "__rsym_bytes" => Ext::Bytes,
                "__rsym_choice" => Ext::Choice,
                "__rsym_assume" => Ext::Assume,
                "__rsym_check" => Ext::Check,
                "__rsym_reach" => Ext::Reach,
                "__rsym_emit" => Ext::Emit,
                "__rsym_note" => Ext::Note,
                "__rsym_spawn" => Ext::Spawn,
                "__rsym_done" => Ext::Done,
                _ if n.ends_with("___rust_alloc_zeroed") => Ext::AllocZ,
                _ if n.ends_with("___rust_alloc") => Ext::Alloc,
                _ if n.ends_with("___rust_dealloc") => Ext::Dealloc,
                _ if n.ends_with("___rust_realloc") => Ext::Realloc,
                _ if n.starts_with("llvm.") => Ext::Llvm,
                _ => Ext::Unknown,
            })
            .collect();
        let panic_fn = prog
            .funcs
            .iter()
            .map(|f| {
                let n = &f.name;
                n.contains("4core9panicking")
                    || n.contains("3std9panicking")
                    || n.contains("18handle_alloc_error")
                    || n.contains("rust_begin_unwind")
                    || n.contains("rust_panic")
            })
            .collect();
        let ns = entries.len();
        let mut base = vec![];
        for (i, g) in prog.globals.iter().enumerate() {
            base.push((i as u32 + 1, (g.data.clone(), g.undef.clone())));
        }
        Shared {
            prog,
            ext,
            panic_fn,
            base_mem: Mutex::new(base),
            queue: Mutex::new(
                (0..ns as u32).rev().map(|s| Unit { scen: s, wit: vec![], depth: 0 }).collect(),
            ),
            entries,
            idle: AtomicUsize::new(0),
            hungry: AtomicUsize::new(0),
            nthreads,
            stop: AtomicBool::new(false),
            deadline: Instant::now() + Duration::from_secs(secs),
            max_steps: 4_000_000,
            max_viol: 4,
            dump: std::env::var("RSYM_DUMP").is_ok(),
            slow: std::env::var("RSYM_SLOW").is_ok(),
            sample_max: 60,
            out: Mutex::new(Out {
                stats: vec![Stats::default(); ns],
                incomplete: vec![0; ns],
                ..Default::default()
            }),
            shared_cache: (0..64).map(|_| Mutex::new(FxMap::default())).collect(),
            viol_count: (0..ns).map(|_| AtomicUsize::new(0)).collect(),
        }
    }
}

/// Model over the slice's variables in increasing order of index, or None when unsatisfiable.
type CacheVal = Option<Arc<[u8]>>;

pub struct Worker<'a> {
    sh: &'a Shared,
    ar: Arena,
    z3: Z3,
    cache: FxMap<u128, CacheVal>,
    stack: Vec<State>,
    consts: Vec<Option<Rc<Obj>>>, // constant globals, by id
    init: Vec<(u32, Rc<Obj>)>,    // writable globals
    follow: u32,
    instr_depth: u32,
    st: Vec<Stats>,
    seen_funcs: Vec<bool>,
    reach: std::collections::BTreeMap<(u32, u32), u64>,
    samples: Vec<(u64, Sample)>,
    sample_n: Vec<u64>,
    unsupported: std::collections::BTreeMap<String, (u64, u32, Vec<u8>)>,
}

enum Stop {
    End(End),
}
type X<T> = Result<T, Stop>;
fn end<T>(e: End) -> X<T> {
    Err(Stop::End(e))
}
fn unsup<T>(s: impl Into<String>) -> X<T> {
    end(End::Unsupported(s.into()))
}

impl<'a> Worker<'a> {
    pub fn new(sh: &'a Shared) -> Self {
        let ng = sh.prog.globals.len();
        let mut consts: Vec<Option<Rc<Obj>>> = vec![None; ng + 1];
        let mut init = vec![];
        for (id, (data, und)) in sh.base_mem.lock().unwrap().iter() {
            let g = &sh.prog.globals[*id as usize - 1];
            let sym = if und.is_empty() {
                None
            } else {
                let mut s = vec![0u32; data.len()];
                for (o, n) in und {
                    s[*o..*o + *n].iter_mut().for_each(|x| *x = UNDEF);
                }
                Some(s)
            };
            let o = Rc::new(Obj { bytes: data.clone(), sym, kind: Kind::Global, ro: g.constant });
            if g.constant {
                consts[*id as usize] = Some(o);
            } else {
                init.push((*id, o));
            }
        }
        let ns = sh.entries.len();
        Worker {
            sh,
            ar: Arena::new(),
            z3: Z3::new(),
            cache: FxMap::default(),
            stack: vec![],
            consts,
            init,
            follow: 0,
            instr_depth: 0,
            st: vec![Stats::default(); ns],
            seen_funcs: vec![false; sh.prog.funcs.len()],
            reach: Default::default(),
            samples: vec![],
            sample_n: vec![0; ns],
            unsupported: Default::default(),
        }
    }

    pub fn run(&mut self) {
        loop {
            let unit = {
                let mut q = self.sh.queue.lock().unwrap();
                q.pop()
            };
            match unit {
                Some(u) => {
                    self.run_unit(u);
                }
                None => {
                    self.sh.hungry.fetch_add(1, SeqCst);
                    self.sh.idle.fetch_add(1, SeqCst);
                    loop {
                        if !self.sh.queue.lock().unwrap().is_empty() {
                            self.sh.idle.fetch_sub(1, SeqCst);
                            self.sh.hungry.fetch_sub(1, SeqCst);
                            break;
                        }
                        if self.sh.idle.load(SeqCst) == self.sh.nthreads {
                            self.finish();
                            return;
                        }
                        std::thread::sleep(Duration::from_micros(300));
                    }
                }
            }
        }
    }
    fn finish(&mut self) {
        let mut o = self.sh.out.lock().unwrap();
        for (i, s) in self.st.iter().enumerate() {
            o.stats[i].add(s);
        }
        for (k, v) in &self.reach {
            *o.reach.entry(*k).or_default() += v;
        }
        for (f, s) in self.seen_funcs.iter().enumerate() {
            if *s {
                o.funcs.insert(f as u32);
            }
        }
        for (k, v) in std::mem::take(&mut self.unsupported) {
            let e = o.unsupported.entry(k).or_insert((0, v.1, v.2));
            e.0 += v.0;
        }
        for (_, s) in self.samples.drain(..) {
            o.samples.push(s);
        }
    }

    fn run_unit(&mut self, u: Unit) {
        let (_, f) = self.sh.entries[u.scen as usize];
        let nregs = self.sh.prog.funcs[f as usize].nregs as usize;
        let st = State {
            frames: vec![Rc::new(Frame {
                func: f,
                block: 0,
                ip: 0,
                regs: vec![Val::U; nregs],
                allocas: vec![],
                ret_dst: NONE,
                ret_normal: NONE,
            })],
            mem: self.init.clone(),
            next_id: self.sh.prog.globals.len() as u32 + 1,
            pc: vec![],
            wit: u.wit,
            nvars: 0,
            depth: 0,
            emits: vec![],
            reach: vec![],
            checks: 0,
            steps: 0,
            scen: u.scen,
            reexec: false,
        };
        self.follow = u.depth;
        self.stack.push(st);
        while let Some(mut st) = self.stack.pop() {
            if self.sh.stop.load(SeqCst)
                || self.sh.viol_count[st.scen as usize].load(SeqCst) >= self.sh.max_viol
            {
                self.sh.out.lock().unwrap().incomplete[st.scen as usize] += 1;
                continue;
            }
            if Instant::now() > self.sh.deadline {
                self.sh.stop.store(true, SeqCst);
            }
            // share the oldest pending states with idle workers
            if self.sh.hungry.load(SeqCst) > 0 && self.stack.len() > 1 {
                let n = (self.stack.len() / 2).min(self.sh.hungry.load(SeqCst) + 1);
                let mut q = self.sh.queue.lock().unwrap();
                if q.len() < self.sh.nthreads {
                    let mut left = n;
                    let mut i = 0;
                    while left > 0 && i < self.stack.len() {
                        if self.stack[i].reexec {
                            i += 1;
                            continue;
                        }
                        let s = self.stack.remove(i);
                        q.push(Unit { scen: s.scen, wit: s.wit, depth: s.depth });
                        left -= 1;
                    }
                }
            }
            st.reexec = false;
            self.run_path(st);
        }
    }

    fn run_path(&mut self, mut st: State) {
        let sc = st.scen as usize;
        let r = loop {
            if st.steps > self.sh.max_steps {
                break Stop::End(End::Limit);
            }
            if let Err(s) = self.step(&mut st) {
                break s;
            }
        };
        let Stop::End(e) = r;
        self.follow = 0;
        let s = &mut self.st[sc];
        s.paths += 1;
        s.decisions += st.depth as u64;
        s.max_vars = s.max_vars.max(st.nvars as u64);
        let trace = |st: &State| -> String {
            st.frames
                .iter()
                .rev()
                .take(8)
                .map(|f| short(&self.sh.prog.funcs[f.func as usize].name))
                .collect::<Vec<_>>()
                .join(" < ")
        };
        match e {
            End::Return => {
                s.ret += 1;
                for r in &st.reach {
                    *self.reach.entry((st.scen, *r)).or_default() += 1;
                }
                // reservoir of completed paths for the concrete replay
                self.sample_n[sc] += 1;
                let n = self.sample_n[sc];
                let mut h = Fx::default();
                use std::hash::Hasher;
                h.write_u64(n ^ 0x9e37_79b9_7f4a_7c15);
                h.write(&st.wit);
                let key = h.finish();
                let have = self.samples.iter().filter(|x| x.1.scen == st.scen).count();
                let take = if have < self.sh.sample_max {
                    None
                } else {
                    let k = (key >> 8) % n;
                    if (k as usize) < self.sh.sample_max {
                        self.samples
                            .iter()
                            .enumerate()
                            .filter(|(_, x)| x.1.scen == st.scen)
                            .nth(k as usize)
                            .map(|x| x.0)
                    } else {
                        Some(usize::MAX)
                    }
                };
                if take != Some(usize::MAX) {
                    let mut ev = vec![];
                    for e in st.emits.clone() {
                        ev.push(match e {
                            Val::C(x) => x as u64,
                            Val::S(e) => self.ar.eval(e, &st.wit) as u64,
                            _ => 0,
                        });
                    }
                    for &c in &st.pc {
                        assert!(self.ar.eval(c, &st.wit) == 1, "witness violates the path condition");
                    }
                    let smp = Sample { scen: st.scen, wit: st.wit[..st.nvars].to_vec(), emits: ev, reach: st.reach.clone() };
                    match take {
                        None => self.samples.push((key, smp)),
                        Some(i) => self.samples[i] = (key, smp),
                    }
                }
            }
            End::Discard => s.discards += 1,
            End::CheckFail => {}
            End::Panic(m) => {
                let d = format!("{m}; {}", trace(&st));
                self.violation(&st, "panic", d, st.wit.clone());
            }
            End::Mem(m) => {
                let d = format!("{m}; {}", trace(&st));
                self.violation(&st, "memory", d, st.wit.clone());
            }
            End::Limit => {
                s.limits += 1;
                let d = format!("step limit; {}", trace(&st));
                self.violation(&st, "nontermination", d, st.wit.clone());
            }
            End::Unsupported(m) => {
                let d = format!("{m}; {}", trace(&st));
                let e = self.unsupported.entry(d).or_insert((0, st.scen, st.wit[..st.nvars.min(st.wit.len())].to_vec()));
                e.0 += 1;
            }
        }
        self.st[sc].steps += st.steps;
    }
    fn violation(&mut self, st: &State, kind: &str, detail: String, mut wit: Vec<u8>) {
        wit.truncate(st.nvars);
        let n = self.sh.viol_count[st.scen as usize].fetch_add(1, SeqCst);
        if n < self.sh.max_viol {
            self.sh.out.lock().unwrap().violations.push(Violation {
                scen: st.scen,
                kind: kind.into(),
                detail,
                wit,
            });
        }
    }

    // ---- solver -------------------------------------------------------------------------------
    fn slice(&self, st: &State, cond: E) -> (Vec<E>, u128) {
        let mut m = self.ar.vars[cond as usize];
        let mut inc = vec![false; st.pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, &c) in st.pc.iter().enumerate() {
                if !inc[i] {
                    let v = self.ar.vars[c as usize];
                    if v & m != 0 {
                        inc[i] = true;
                        out.push(c);
                        if v & !m != 0 {
                            m |= v;
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out.sort_unstable();
        out.dedup();
        out.push(cond);
        (out, m)
    }
    /// Is `pc && cond` satisfiable? Returns a witness extending the state's.
    fn feasible(&mut self, st: &State, cond: E) -> X<Option<Vec<u8>>> {
        if cond == 0 {
            return Ok(None);
        }
        let sc = st.scen as usize;
        let (cs, m) = self.slice(st, cond);
        // key: structural; for one-variable queries up to renaming of that variable
        let single = m.count_ones() == 1;
        let mut hs: Vec<u128> =
            cs.iter().map(|&c| if single { self.ar.ha[c as usize] } else { self.ar.hv[c as usize] }).collect();
        hs.sort_unstable();
        hs.dedup();
        let mut key = single as u128;
        for h in hs {
            key = mix(key, h);
        }
        let shard = (key >> 100) as usize % 64;
        let mut hit = self.cache.get(&key).cloned();
        if hit.is_none() {
            hit = self.sh.shared_cache[shard].lock().unwrap().get(&key).cloned();
            if let Some(h) = &hit {
                self.cache.insert(key, h.clone());
            }
        }
        let r: CacheVal = match hit {
            Some(r) => {
                self.st[sc].cache_hits += 1;
                r
            }
            None => {
                if self.sh.dump {
                    eprintln!("Q {}", cs.iter().map(|c| self.ar.show(*c)).collect::<Vec<_>>().join("  &&  "));
                }
                let t = Instant::now();
                let r = self.z3.check(&self.ar, &cs, m);
                self.st[sc].z3_us += t.elapsed().as_micros() as u64;
                if self.sh.slow && t.elapsed().as_millis() > 50 {
                    eprintln!("SLOW {} {}", t.elapsed().as_millis(), self.ar.show_dag(&cs));
                }
                self.st[sc].queries += 1;
                let r: CacheVal = match r {
                    Res::Sat(v) => {
                        self.st[sc].sat += 1;
                        Some(v.iter().map(|x| x.1).collect())
                    }
                    Res::Unsat => {
                        self.st[sc].unsat += 1;
                        None
                    }
                    Res::Unknown => {
                        self.st[sc].unknown += 1;
                        return unsup("solver gave no answer");
                    }
                };
                self.cache.insert(key, r.clone());
                self.sh.shared_cache[shard].lock().unwrap().insert(key, r.clone());
                r
            }
        };
        Ok(r.map(|v| {
            let mut w = st.wit.clone();
            let mut k = 0;
            for i in 0..MAXVARS {
                if m >> i & 1 == 1 {
                    if w.len() <= i {
                        w.resize(i + 1, 0);
                    }
                    w[i] = v[k];
                    k += 1;
                }
            }
            w
        }))
    }
    fn add_pc(&mut self, st: &mut State, c: E) {
        let n = self.ar.n(c);
        if c == 1 {
            return;
        }
        if n.op == Op::And {
            self.add_pc(st, n.a);
            self.add_pc(st, n.b);
        } else if n.op == Op::Not {
            let i = self.ar.n(n.a);
            if i.op == Op::Or {
                let (x, y) = (self.ar.not(i.a), self.ar.not(i.b));
                self.add_pc(st, x);
                self.add_pc(st, y);
                return;
            }
            if !st.pc.contains(&c) {
                st.pc.push(c);
            }
        } else if !st.pc.contains(&c) {
            st.pc.push(c);
        }
    }
    /// Decide a symbolic condition. The second result is the state for the other outcome, if any.
    fn decide(&mut self, st: &mut State, c: E) -> X<(bool, Option<State>)> {
        debug_assert!(c > 1);
        let v = self.ar.eval(c, &st.wit) != 0;
        st.depth += 1;
        let nc = self.ar.not(c);
        let (taken, other) = if v { (c, nc) } else { (nc, c) };
        if self.follow > 0 && st.depth <= self.follow {
            self.add_pc(st, taken);
            return Ok((v, None));
        }
        if st.pc.contains(&taken) {
            return Ok((v, None));
        }
        match self.feasible(st, other)? {
            None => Ok((v, None)),
            Some(w) => {
                let mut o = st.clone();
                o.wit = w;
                self.add_pc(&mut o, other);
                self.add_pc(st, taken);
                self.st[st.scen as usize].forks += 1;
                Ok((v, Some(o)))
            }
        }
    }
    /// Like `decide`, but the other outcome re-executes the current instruction.
    fn decide_reexec(&mut self, st: &mut State, c: E) -> X<bool> {
        if c <= 1 {
            return Ok(c == 1);
        }
        let (v, o) = self.decide(st, c)?;
        if let Some(mut o) = o {
            o.depth = self.instr_depth;
            o.reexec = true;
            self.stack.push(o);
        }
        Ok(v)
    }
    fn concretize(&mut self, st: &mut State, v: &Val, w: u8) -> X<u128> {
        match v {
            Val::C(x) => Ok(*x),
            Val::U => unsup("undefined value used as an address, size or callee"),
            Val::Agg(_) => unsup("aggregate where a scalar was expected"),
            Val::S(e) => {
                let x = self.ar.eval(*e, &st.wit);
                let k = self.ar.cst(w, x);
                let c = self.ar.eq(*e, k);
                if c > 1 {
                    let t = self.decide_reexec(st, c)?;
                    debug_assert!(t);
                }
                Ok(x)
            }
        }
    }

    // ---- values -------------------------------------------------------------------------------
    fn val(&self, e: E) -> Val {
        match self.ar.as_const(e) {
            Some(k) => Val::C(k),
            None => Val::S(e),
        }
    }
    fn ex(&mut self, v: &Val, w: u8) -> E {
        match v {
            Val::C(k) => self.ar.cst(w, *k),
            Val::S(e) => *e,
            _ => self.ar.cst(w, 0),
        }
    }
    fn bin(&mut self, op: Op, w: u8, a: &Val, b: &Val) -> X<Val> {
        match (a, b) {
            (Val::C(x), Val::C(y)) => Ok(Val::C(fold(op, w, *x, *y))),
            (Val::Agg(_), _) | (_, Val::Agg(_)) => unsup("aggregate in scalar operation"),
            // whatever the undefined operand is
            (Val::U, Val::C(0)) | (Val::C(0), Val::U) if matches!(op, Op::And | Op::Mul) => Ok(Val::C(0)),
            (Val::U, Val::C(x)) | (Val::C(x), Val::U) if op == Op::Or && *x == mask(w) => Ok(Val::C(*x)),
            (Val::U, _) | (_, Val::U) => Ok(Val::U),
            _ => {
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let r = self.ar.bin(op, x, y);
                Ok(self.val(r))
            }
        }
    }
    fn icmp(&mut self, p: Pred, w: u8, a: &Val, b: &Val) -> X<Val> {
        let (op, sw, neg) = match p {
            Pred::Eq => (Op::Eq, false, false),
            Pred::Ne => (Op::Eq, false, true),
            Pred::Ult => (Op::Ult, false, false),
            Pred::Ule => (Op::Ule, false, false),
            Pred::Ugt => (Op::Ult, true, false),
            Pred::Uge => (Op::Ule, true, false),
            Pred::Slt => (Op::Slt, false, false),
            Pred::Sle => (Op::Sle, false, false),
            Pred::Sgt => (Op::Slt, true, false),
            Pred::Sge => (Op::Sle, true, false),
        };
        let r = if sw { self.bin(op, w, b, a)? } else { self.bin(op, w, a, b)? };
        if neg {
            return Ok(match r {
                Val::C(x) => Val::C(1 - x),
                Val::S(e) => {
                    let n = self.ar.not(e);
                    self.val(n)
                }
                o => o,
            });
        }
        Ok(r)
    }
    fn ite(&mut self, c: E, w: u8, a: &Val, b: &Val) -> X<Val> {
        match (a, b) {
            (Val::Agg(x), Val::Agg(y)) => {
                // widths of fields are unknown here: only scalars with an expression carry them
                let mut v = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    let w = match (p, q) {
                        (Val::S(e), _) | (_, Val::S(e)) => self.ar.w(*e),
                        (Val::C(x), Val::C(y)) if x == y => {
                            v.push(p.clone());
                            continue;
                        }
                        _ => return unsup("select over aggregates"),
                    };
                    v.push(self.ite(c, w, p, q)?);
                }
                Ok(Val::Agg(Arc::new(v)))
            }
            (Val::U, o) | (o, Val::U) => Ok(o.clone()),
            (Val::Agg(_), _) | (_, Val::Agg(_)) => unsup("select over aggregates"),
            _ => {
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let r = self.ar.ite(c, x, y);
                Ok(self.val(r))
            }
        }
    }

    // ---- memory -------------------------------------------------------------------------------
    fn alloc(&mut self, st: &mut State, n: u64, kind: Kind, zero: bool) -> u64 {
        let id = st.next_id;
        st.next_id += 1;
        let n = n as usize;
        let o = Obj {
            bytes: vec![0; n],
            sym: if zero || n == 0 { None } else { Some(vec![UNDEF; n]) },
            kind,
            ro: false,
        };
        st.mem.push((id, Rc::new(o)));
        addr_of(id as u64)
    }
    fn find(st: &State, id: u32) -> Option<usize> {
        // recently created objects are at the end
        let m = &st.mem;
        if let Some(l) = m.last() {
            if l.0 == id {
                return Some(m.len() - 1);
            }
        }
        m.binary_search_by_key(&id, |x| x.0).ok()
    }
    fn obj<'s>(&'s self, st: &'s State, a: u64) -> X<(&'s Rc<Obj>, u64)> {
        let id = a >> 32;
        let off = (a & 0xffff_ffff).wrapping_sub(BASE);
        if id < self.consts.len() as u64 {
            if let Some(o) = &self.consts[id as usize] {
                return Ok((o, off));
            }
        }
        if id <= u32::MAX as u64 {
            if let Some(i) = Self::find(st, id as u32) {
                return Ok((&st.mem[i].1, off));
            }
        }
        end(End::Mem(format!("access to invalid or freed address {a:#x}")))
    }
    fn obj_mut<'s>(&self, st: &'s mut State, a: u64, n: u64) -> X<(&'s mut Obj, usize)> {
        let id = a >> 32;
        let off = (a & 0xffff_ffff).wrapping_sub(BASE);
        if id > u32::MAX as u64 {
            return end(End::Mem(format!("write to invalid address {a:#x}")));
        }
        match Self::find(st, id as u32) {
            Some(i) => {
                let o = Rc::make_mut(&mut st.mem[i].1);
                if o.ro {
                    return end(End::Mem("write to constant".into()));
                }
                if off.checked_add(n).map_or(true, |e| e > o.bytes.len() as u64) {
                    return end(End::Mem(format!("out-of-bounds write of {n} at offset {} of {}", off as i64, o.bytes.len())));
                }
                Ok((o, off as usize))
            }
            None => end(End::Mem(format!("write to invalid or freed address {a:#x}"))),
        }
    }
    /// Raw bytes: (concrete, sym) pairs.
    fn read(&self, st: &State, a: u64, n: u64) -> X<(Vec<u8>, Option<Vec<u32>>)> {
        let (o, off) = self.obj(st, a)?;
        if off.checked_add(n).map_or(true, |e| e > o.bytes.len() as u64) {
            return end(End::Mem(format!("out-of-bounds read of {n} at offset {} of {}", off as i64, o.bytes.len())));
        }
        let r = off as usize..(off + n) as usize;
        Ok((o.bytes[r.clone()].to_vec(), o.sym.as_ref().map(|s| s[r].to_vec())))
    }
    fn write(&mut self, st: &mut State, a: u64, b: &[u8], s: Option<&[u32]>) -> X<()> {
        if b.is_empty() {
            return Ok(());
        }
        let (o, off) = self.obj_mut(st, a, b.len() as u64)?;
        o.bytes[off..off + b.len()].copy_from_slice(b);
        match s {
            Some(s) => {
                let len = o.bytes.len();
                let sy = o.sym.get_or_insert_with(|| vec![0; len]);
                sy[off..off + b.len()].copy_from_slice(s);
            }
            None => {
                if let Some(sy) = &mut o.sym {
                    sy[off..off + b.len()].iter_mut().for_each(|x| *x = 0);
                }
            }
        }
        Ok(())
    }
    fn load_scalar(&mut self, st: &State, a: u64, w: u8) -> X<Val> {
        let n = (w as u64 + 7) / 8;
        let (o, off) = self.obj(st, a)?;
        if off.checked_add(n).map_or(true, |e| e > o.bytes.len() as u64) {
            return end(End::Mem(format!("out-of-bounds read of {n} at offset {} of {}", off as i64, o.bytes.len())));
        }
        let r = off as usize..(off + n) as usize;
        let mut all_u = false;
        if let Some(sy) = &o.sym {
            let s = &sy[r.clone()];
            if s.iter().any(|x| *x != 0) {
                all_u = s.iter().all(|x| *x == UNDEF);
                if !all_u {
                    let (b, s) = (o.bytes[r].to_vec(), s.to_vec());
                    let mut e: Option<E> = None;
                    for i in 0..n as usize {
                        let x = match s[i] {
                            0 => self.ar.cst(8, b[i] as u128),
                            UNDEF => self.ar.cst(8, 0),
                            e => e,
                        };
                        e = Some(match e {
                            None => x,
                            Some(lo) => self.ar.concat(x, lo),
                        });
                    }
                    let mut e = e.unwrap();
                    if w % 8 != 0 {
                        e = self.ar.extract(e, 0, w);
                    }
                    return Ok(self.val(e));
                }
            }
        }
        if all_u {
            return Ok(Val::U);
        }
        let mut x = 0u128;
        for (i, b) in o.bytes[r].iter().enumerate() {
            x |= (*b as u128) << (8 * i);
        }
        Ok(Val::C(x & mask(w)))
    }
    fn load_ty(&mut self, st: &State, a: u64, t: &Ty) -> X<Val> {
        match t {
            Ty::Struct(f, p) => {
                let mut v = vec![];
                for (i, ft) in f.iter().enumerate() {
                    v.push(self.load_ty(st, a + field_off(f, *p, i), ft)?);
                }
                Ok(Val::Agg(Arc::new(v)))
            }
            Ty::Arr(n, e) => {
                let s = size_align(e).0;
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_ty(st, a + s * i, e)?);
                }
                Ok(Val::Agg(Arc::new(v)))
            }
            Ty::Vec(n, e) => {
                let w = width(e);
                if w % 8 != 0 {
                    return unsup("load of a sub-byte vector");
                }
                let mut v = vec![];
                for i in 0..*n as u64 {
                    v.push(self.load_ty(st, a + w as u64 / 8 * i, e)?);
                }
                Ok(Val::Agg(Arc::new(v)))
            }
            _ => self.load_scalar(st, a, width(t)),
        }
    }
    fn store_ty(&mut self, st: &mut State, a: u64, t: &Ty, v: &Val) -> X<()> {
        match t {
            Ty::Struct(f, p) => {
                for (i, ft) in f.iter().enumerate() {
                    let x = match v {
                        Val::Agg(x) => x[i].clone(),
                        _ => Val::U,
                    };
                    self.store_ty(st, a + field_off(f, *p, i), ft, &x)?;
                }
                Ok(())
            }
            Ty::Arr(n, e) => {
                let s = size_align(e).0;
                for i in 0..*n {
                    let x = match v {
                        Val::Agg(x) => x[i as usize].clone(),
                        _ => Val::U,
                    };
                    self.store_ty(st, a + s * i, e, &x)?;
                }
                Ok(())
            }
            Ty::Vec(n, e) => {
                let w = width(e);
                if w % 8 != 0 {
                    return unsup("store of a sub-byte vector");
                }
                for i in 0..*n as u64 {
                    let x = match v {
                        Val::Agg(x) => x[i as usize].clone(),
                        _ => Val::U,
                    };
                    self.store_ty(st, a + w as u64 / 8 * i, e, &x)?;
                }
                Ok(())
            }
            _ => {
                let w = width(t);
                let n = (w as usize + 7) / 8;
                match v {
                    Val::C(x) => {
                        let b = x.to_le_bytes();
                        self.write(st, a, &b[..n], None)
                    }
                    Val::U => {
                        let b = [0u8; 16];
                        let s = [UNDEF; 16];
                        self.write(st, a, &b[..n], Some(&s[..n]))
                    }
                    Val::S(e) => {
                        let e = if w % 8 != 0 { self.ar.zext(*e, (n * 8) as u8) } else { *e };
                        let mut b = vec![0u8; n];
                        let mut s = vec![0u32; n];
                        for i in 0..n {
                            let x = self.ar.extract(e, (8 * i) as u8, 8);
                            match self.ar.as_const(x) {
                                Some(k) => b[i] = k as u8,
                                None => s[i] = x,
                            }
                        }
                        self.write(st, a, &b, Some(&s))
                    }
                    Val::Agg(_) => unsup("aggregate stored as scalar"),
                }
            }
        }
    }
    /// Load through a symbolic address.
    fn load_sym(&mut self, st: &mut State, p: E, t: &Ty) -> X<Val> {
        let n = size_align(t).0;
        let a0 = self.ar.eval(p, &st.wit) as u64;
        let (o, _) = self.obj(st, a0)?;
        let (len, plain) = (o.bytes.len() as u64, o.sym.is_none() || o.sym.as_ref().unwrap().iter().all(|x| *x == 0));
        if !matches!(t, Ty::Int(_) | Ty::Ptr) || n == 0 || len < n {
            let a = self.concretize(st, &Val::S(p), 64)? as u64;
            return self.load_ty(st, a, t);
        }
        let base = (a0 >> 32 << 32) + BASE;
        let (bk, sz) = (self.ar.cst(64, base as u128), self.ar.cst(64, (len - n) as u128));
        let off = self.ar.bin(Op::Sub, p, bk);
        let inr = self.ar.bin(Op::Ule, off, sz);
        if inr == 0 || (inr > 1 && self.ar.eval(inr, &st.wit) == 0) {
            // the witness itself is out of bounds: report it on its concrete address
            let a = self.concretize(st, &Val::S(p), 64)? as u64;
            return self.load_ty(st, a, t);
        }
        if inr > 1 {
            self.decide_reexec(st, inr)?;
        }
        // stride: number of constant low bits
        let mut k = 0u8;
        while k < 6 {
            let l = self.ar.extract(off, 0, k + 1);
            if self.ar.as_const(l).is_some() {
                k += 1;
            } else {
                break;
            }
        }
        let low = if k == 0 { 0 } else {
            let l = self.ar.extract(off, 0, k);
            self.ar.as_const(l).unwrap() as u64
        };
        let stride = 1u64 << k;
        let cnt = (len - n - low.min(len - n)) / stride + 1;
        if plain && cnt <= 4096 && len <= 1 << 16 {
            let w = width(t);
            let mut runs: Vec<(u64, Val)> = vec![]; // (first offset, value)
            let mut i = low;
            while i + n <= len {
                let v = self.load_scalar(st, base + i, w)?;
                let same = matches!((&v, runs.last()), (Val::C(x), Some((_, Val::C(y)))) if x == y);
                if !same {
                    runs.push((i, v));
                }
                i += stride;
            }
            if runs.len() <= 96 {
                let mut r = self.ex(&runs.last().unwrap().1.clone(), w);
                for j in (0..runs.len() - 1).rev() {
                    let b = self.ar.cst(64, runs[j + 1].0 as u128);
                    let c = self.ar.bin(Op::Ult, off, b);
                    let x = self.ex(&runs[j].1.clone(), w);
                    r = self.ar.ite(c, x, r);
                }
                return Ok(self.val(r));
            }
        }
        let a = self.concretize(st, &Val::S(p), 64)? as u64;
        self.load_ty(st, a, t)
    }

    // ---- stepping -----------------------------------------------------------------------------
    fn get(&self, f: &Frame, o: &Opd) -> Val {
        match o {
            Opd::R(r) => f.regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        let fun = &self.sh.prog.funcs[f.func as usize];
        let from = f.block;
        let b = &fun.blocks[to as usize];
        if b.phis.len() == 1 {
            let (d, v) = &b.phis[0];
            if let Some((_, o)) = v.iter().find(|x| x.0 == from) {
                let x = match o {
                    Opd::R(r) => f.regs[*r as usize].clone(),
                    Opd::K(v) => v.clone(),
                };
                f.regs[*d as usize] = x;
            }
        } else if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, v) in &b.phis {
                if let Some((_, o)) = v.iter().find(|x| x.0 == from) {
                    let x = match o {
                        Opd::R(r) => f.regs[*r as usize].clone(),
                        Opd::K(v) => v.clone(),
                    };
                    vals.push((*d, x));
                }
            }
            for (d, x) in vals {
                f.regs[d as usize] = x;
            }
        }
        f.block = to;
        f.ip = 0;
    }
    fn set(&mut self, st: &mut State, d: u32, v: Val) {
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        if d != NONE {
            f.regs[d as usize] = v;
        }
        f.ip += 1;
    }

    fn step(&mut self, st: &mut State) -> X<()> {
        st.steps += 1;
        let sh: &'a Shared = self.sh;
        let f: Rc<Frame> = st.frames.last().unwrap().clone();
        // Drop the extra reference early so that make_mut does not copy: operands are read through
        // `fr`, a raw borrow valid until the frame is modified.
        let fr: *const Frame = Rc::as_ptr(&f);
        drop(f);
        // SAFETY: the frame stays in `st.frames`; every mutation goes through `set`/`jump` after
        // the operands were read.
        let fr: &Frame = unsafe { &*fr };
        let fun = &sh.prog.funcs[fr.func as usize];
        let ins = &fun.blocks[fr.block as usize].ins[fr.ip as usize];
        let dst = ins.dst;
        self.instr_depth = st.depth;
        match &ins.i {
            I::Bin { op, ty, a, b } => {
                let (a, b) = (self.get(fr, a), self.get(fr, b));
                let v = match ty {
                    Ty::Vec(n, e) => {
                        let w = width(e);
                        let (x, y) = (lanes(&a, *n), lanes(&b, *n));
                        let mut v = vec![];
                        for i in 0..*n as usize {
                            v.push(self.bin(*op, w, &x[i], &y[i])?);
                        }
                        Val::Agg(Arc::new(v))
                    }
                    _ => {
                        let w = width(ty);
                        if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
                            if let Val::C(0) = b {
                                return end(End::Mem("division by zero".into()));
                            }
                            if let Val::S(e) = b {
                                let z = self.ar.cst(w, 0);
                                let c = self.ar.eq(e, z);
                                if self.decide_reexec(st, c)? {
                                    return end(End::Mem("division by zero".into()));
                                }
                            }
                        }
                        match (op, &a, &b) {
                            // an undefined operand does not matter if the other one decides
                            (Op::And | Op::Or, Val::U, Val::S(e)) | (Op::And | Op::Or, Val::S(e), Val::U) => {
                                let k = if *op == Op::And { 0 } else { mask(w) };
                                let z = self.ar.cst(w, k);
                                let c = self.ar.eq(*e, z);
                                if self.decide_reexec(st, c)? { Val::C(k) } else { Val::U }
                            }
                            _ => self.bin(*op, w, &a, &b)?,
                        }
                    }
                };
                self.set(st, dst, v);
            }
            I::ICmp { pred, ty, a, b } => {
                let (a, b) = (self.get(fr, a), self.get(fr, b));
                let v = match ty {
                    Ty::Vec(n, e) => {
                        let w = width(e);
                        let (x, y) = (lanes(&a, *n), lanes(&b, *n));
                        let mut v = vec![];
                        for i in 0..*n as usize {
                            v.push(self.icmp(*pred, w, &x[i], &y[i])?);
                        }
                        Val::Agg(Arc::new(v))
                    }
                    _ => self.icmp(*pred, width(ty), &a, &b)?,
                };
                self.set(st, dst, v);
            }
            I::Cast { k, from, to, a } => {
                let a = self.get(fr, a);
                let v = self.cast(*k, from, to, &a)?;
                self.set(st, dst, v);
            }
            I::Load { ty, p } => {
                let p = self.get(fr, p);
                let v = match p {
                    Val::C(a) => self.load_ty(st, a as u64, ty)?,
                    Val::S(e) => self.load_sym(st, e, ty)?,
                    _ => return unsup("load through undefined pointer"),
                };
                self.set(st, dst, v);
            }
            I::Store { ty, v, p } => {
                let (v, p) = (self.get(fr, v), self.get(fr, p));
                let a = self.concretize(st, &p, 64)? as u64;
                self.store_ty(st, a, ty, &v)?;
                self.set(st, NONE, Val::U);
            }
            I::Gep { base, off, idx } => {
                let mut v = self.get(fr, base);
                if *off != 0 {
                    v = self.bin(Op::Add, 64, &v, &Val::C(*off as u128))?;
                }
                for (o, s, w) in idx {
                    let i = self.get(fr, o);
                    let i = if *w < 64 { self.cast(CastK::SExt, &Ty::Int(*w), &Ty::Int(64), &i)? } else { i };
                    let m = if *s == 1 { i } else { self.bin(Op::Mul, 64, &i, &Val::C(*s as u128))? };
                    v = self.bin(Op::Add, 64, &v, &m)?;
                }
                self.set(st, dst, v);
            }
            I::Alloca { size, n } => {
                let sz = match n {
                    None => *size,
                    Some((o, s)) => {
                        let o = self.get(fr, o);
                        self.concretize(st, &o, 64)? as u64 * s
                    }
                };
                let a = self.alloc(st, sz, Kind::Stack, false);
                let id = (a >> 32) as u32;
                let f = Rc::make_mut(st.frames.last_mut().unwrap());
                f.allocas.push(id);
                self.set(st, dst, Val::C(a as u128));
            }
            I::Select { ty, c, cty, a, b } => {
                let (c, a, b) = (self.get(fr, c), self.get(fr, a), self.get(fr, b));
                let v = if let Ty::Vec(n, _) = cty {
                    let w = match ty {
                        Ty::Vec(_, e) => width(e),
                        _ => return unsup("vector select"),
                    };
                    let (c, x, y) = (lanes(&c, *n), lanes(&a, *n), lanes(&b, *n));
                    let mut v = vec![];
                    for i in 0..*n as usize {
                        v.push(match &c[i] {
                            Val::C(1) => x[i].clone(),
                            Val::C(_) => y[i].clone(),
                            Val::S(e) => self.ite(*e, w, &x[i], &y[i])?,
                            _ => Val::U,
                        });
                    }
                    Val::Agg(Arc::new(v))
                } else {
                    match c {
                        Val::C(1) => a,
                        Val::C(_) => b,
                        Val::S(e) => {
                            // pointers and aggregates: fork, which keeps addresses concrete
                            let agg = matches!((&a, &b), (Val::Agg(_), _) | (_, Val::Agg(_)));
                            if *ty == Ty::Ptr || agg {
                                let (v, o) = self.decide(st, e)?;
                                if let Some(mut o) = o {
                                    self.set(&mut o, dst, if v { b.clone() } else { a.clone() });
                                    self.stack.push(o);
                                }
                                if v { a } else { b }
                            } else {
                                self.ite(e, width(ty), &a, &b)?
                            }
                        }
                        _ => Val::U,
                    }
                };
                self.set(st, dst, v);
            }
            I::ExtractValue { a, idx } => {
                let mut v = self.get(fr, a);
                for i in idx {
                    v = match &v {
                        Val::Agg(x) => x[*i as usize].clone(),
                        _ => Val::U,
                    };
                }
                self.set(st, dst, v);
            }
            I::InsertValue { ty, a, v, idx } => {
                let (a, v) = (self.get(fr, a), self.get(fr, v));
                let r = insert(ty, &a, &v, idx);
                self.set(st, dst, r);
            }
            I::ExtractElem { ty, a, i } => {
                let (a, i) = (self.get(fr, a), self.get(fr, i));
                let n = if let Ty::Vec(n, _) = ty { *n } else { return unsup("extractelement") };
                let i = self.concretize(st, &i, 64)? as usize;
                let v = lanes(&a, n).get(i).cloned().unwrap_or(Val::U);
                self.set(st, dst, v);
            }
            I::InsertElem { ty, a, v, i } => {
                let (a, v, i) = (self.get(fr, a), self.get(fr, v), self.get(fr, i));
                let n = if let Ty::Vec(n, _) = ty { *n } else { return unsup("insertelement") };
                let i = self.concretize(st, &i, 64)? as usize;
                let mut l = lanes(&a, n);
                if i < l.len() {
                    l[i] = v;
                }
                self.set(st, dst, Val::Agg(Arc::new(l)));
            }
            I::Shuffle { n, a, b, m } => {
                let (a, b) = (self.get(fr, a), self.get(fr, b));
                let (x, y) = (lanes(&a, *n), lanes(&b, *n));
                let v = m
                    .iter()
                    .map(|k| match k {
                        None => Val::U,
                        Some(k) if *k < *n => x[*k as usize].clone(),
                        Some(k) => y[(*k - *n) as usize].clone(),
                    })
                    .collect();
                self.set(st, dst, Val::Agg(Arc::new(v)));
            }
            I::Br(t) => self.jump(st, *t),
            I::CondBr(c, t, e) => {
                let (t, e) = (*t, *e);
                match self.get(fr, c) {
                    Val::C(x) => self.jump(st, if x != 0 { t } else { e }),
                    Val::S(c) => {
                        let (v, o) = self.decide(st, c)?;
                        if let Some(mut o) = o {
                            self.jump(&mut o, if v { e } else { t });
                            self.stack.push(o);
                        }
                        self.jump(st, if v { t } else { e });
                    }
                    _ => return unsup("branch on an undefined value"),
                }
            }
            I::Switch { ty, v, def, cases } => match self.get(fr, v) {
                Val::C(x) => {
                    let t = cases.iter().find(|c| c.0 == x).map_or(*def, |c| c.1);
                    self.jump(st, t);
                }
                Val::S(e) => {
                    let w = width(ty);
                    // one condition per distinct target
                    let mut targets: Vec<(u32, E)> = vec![];
                    let mut any = 0;
                    for (k, t) in cases {
                        let kk = self.ar.cst(w, *k);
                        let c = self.ar.eq(e, kk);
                        any = self.ar.or(any, c);
                        match targets.iter_mut().find(|x| x.0 == *t) {
                            Some(x) => x.1 = self.ar.or(x.1, c),
                            None => targets.push((*t, c)),
                        }
                    }
                    let nd = self.ar.not(any);
                    match targets.iter_mut().find(|x| x.0 == *def) {
                        Some(x) => x.1 = self.ar.or(x.1, nd),
                        None => targets.push((*def, nd)),
                    }
                    // take the witness's target; one sibling per other feasible target
                    st.depth += 1;
                    let follow = self.follow > 0 && st.depth <= self.follow;
                    let mut mine = None;
                    let mut others = vec![];
                    for (t, c) in targets {
                        let holds = if c <= 1 { c == 1 } else { self.ar.eval(c, &st.wit) == 1 };
                        if holds {
                            mine = Some((t, c));
                        } else if !follow && c != 0 {
                            others.push((t, c));
                        }
                    }
                    let (t, c) = mine.expect("switch target");
                    for (ot, oc) in others {
                        if let Some(w) = self.feasible(st, oc)? {
                            let mut o = st.clone();
                            o.wit = w;
                            self.add_pc(&mut o, oc);
                            self.jump(&mut o, ot);
                            self.stack.push(o);
                            self.st[st.scen as usize].forks += 1;
                        }
                    }
                    self.add_pc(st, c);
                    self.jump(st, t);
                }
                _ => return unsup("switch on an undefined value"),
            },
            I::Ret(v) => {
                let v = v.as_ref().map(|o| self.get(fr, o)).unwrap_or(Val::U);
                let f = st.frames.pop().unwrap();
                // stack objects die
                if !f.allocas.is_empty() {
                    let lo = f.allocas[0];
                    let start = st.mem.partition_point(|x| x.0 < lo);
                    let mut k = start;
                    let al = &f.allocas;
                    for i in start..st.mem.len() {
                        let dead = al.binary_search(&st.mem[i].0).is_ok();
                        if !dead {
                            if k != i {
                                st.mem.swap(k, i);
                            }
                            k += 1;
                        }
                    }
                    st.mem.truncate(k);
                }
                if st.frames.is_empty() {
                    return end(End::Return);
                }
                self.set(st, f.ret_dst, v);
                if f.ret_normal != NONE {
                    self.jump(st, f.ret_normal);
                }
            }
            I::Unreachable => return end(End::Mem("unreachable instruction executed".into())),
            I::Rmw { op, ty, p, v } => {
                let (p, v) = (self.get(fr, p), self.get(fr, v));
                let a = self.concretize(st, &p, 64)? as u64;
                let old = self.load_ty(st, a, ty)?;
                let w = width(ty);
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin(Op::Add, w, &old, &v)?,
                    "sub" => self.bin(Op::Sub, w, &old, &v)?,
                    "and" => self.bin(Op::And, w, &old, &v)?,
                    "or" => self.bin(Op::Or, w, &old, &v)?,
                    "xor" => self.bin(Op::Xor, w, &old, &v)?,
                    o => return unsup(format!("atomicrmw {o}")),
                };
                self.store_ty(st, a, ty, &new)?;
                self.set(st, dst, old);
            }
            I::CmpXchg { ty, p, c, n } => {
                let (p, c, n) = (self.get(fr, p), self.get(fr, c), self.get(fr, n));
                let a = self.concretize(st, &p, 64)? as u64;
                let old = self.load_ty(st, a, ty)?;
                let eq = self.icmp(Pred::Eq, width(ty), &old, &c)?;
                let eq = self.concretize(st, &eq, 1)?;
                if eq == 1 {
                    self.store_ty(st, a, ty, &n)?;
                }
                self.set(st, dst, Val::Agg(Arc::new(vec![old, Val::C(eq)])));
            }
            I::Nop => self.set(st, NONE, Val::U),
            I::Unsupported(m) => return unsup(m.clone()),
            I::Call { callee, args, ret, normal } => {
                let nb = normal.unwrap_or(NONE);
                let mut av = Vec::with_capacity(args.len());
                for (o, _) in args {
                    av.push(self.get(fr, o));
                }
                let target = match callee {
                    Callee::Nop => {
                        self.set(st, NONE, Val::U);
                        if nb != NONE {
                            self.jump(st, nb);
                        }
                        return Ok(());
                    }
                    Callee::Func(i) => *i as u64,
                    Callee::Ext(i) => sh.prog.funcs.len() as u64 + *i as u64,
                    Callee::Ind(o) => {
                        let p = self.get(fr, o);
                        let a = self.concretize(st, &p, 64)? as u64;
                        let id = a >> 32;
                        if id < FN_ID || id - FN_ID >= (sh.prog.funcs.len() + sh.prog.exts.len()) as u64 || a & 0xffff_ffff != 0 {
                            return end(End::Mem(format!("call of a non-function address {a:#x}")));
                        }
                        id - FN_ID
                    }
                };
                let nf = sh.prog.funcs.len() as u64;
                if target < nf {
                    let i = target as u32;
                    let g = &sh.prog.funcs[i as usize];
                    if sh.panic_fn[i as usize] {
                        return end(End::Panic(short(&g.name)));
                    }
                    if let Some(e) = &g.err {
                        return unsup(format!("function {}: {e}", short(&g.name)));
                    }
                    if st.frames.len() > 400 {
                        return unsup("call depth");
                    }
                    self.seen_funcs[i as usize] = true;
                    let mut regs = vec![Val::U; g.nregs as usize];
                    for (k, r) in g.params.iter().enumerate() {
                        if let Some(v) = av.get(k) {
                            regs[*r as usize] = v.clone();
                        }
                    }
                    st.frames.push(Rc::new(Frame {
                        func: i,
                        block: 0,
                        ip: 0,
                        regs,
                        allocas: vec![],
                        ret_dst: dst,
                        ret_normal: nb,
                    }));
                } else {
                    let i = (target - nf) as usize;
                    let v = self.external(st, i, &av, args, ret, dst)?;
                    self.set(st, dst, v);
                    if nb != NONE {
                        self.jump(st, nb);
                    }
                }
            }
        }
        Ok(())
    }

    fn cast(&mut self, k: CastK, from: &Ty, to: &Ty, a: &Val) -> X<Val> {
        if let (Ty::Vec(n, f), Ty::Vec(m, t)) = (from, to) {
            if n == m && (k != CastK::Bit || width(f) == width(t)) {
                let l = lanes(a, *n);
                let mut v = vec![];
                for x in &l {
                    v.push(self.cast(k, f, t, x)?);
                }
                return Ok(Val::Agg(Arc::new(v)));
            }
        }
        if let (Ty::Vec(n, f), CastK::Bit) = (from, k) {
            // to a scalar: lane 0 is least significant
            let fw = width(f);
            let l = lanes(a, *n);
            if (*n as usize) * fw as usize > 128 {
                return unsup("wide vector bitcast");
            }
            let mut e: Option<E> = None;
            for x in &l {
                let x = self.ex(x, fw);
                e = Some(match e {
                    None => x,
                    Some(lo) => self.ar.concat(x, lo),
                });
            }
            let r = self.val(e.unwrap());
            if let Ty::Vec(m, t) = to {
                let tw = width(t);
                let e = self.ex(&r, (*n as usize * fw as usize) as u8);
                let mut v = vec![];
                for i in 0..*m {
                    let x = self.ar.extract(e, (i * tw as u32) as u8, tw);
                    v.push(self.val(x));
                }
                return Ok(Val::Agg(Arc::new(v)));
            }
            return Ok(r);
        }
        if let (Ty::Vec(m, t), CastK::Bit) = (to, k) {
            let tw = width(t);
            let e = self.ex(a, width(from));
            let mut v = vec![];
            for i in 0..*m {
                let x = self.ar.extract(e, (i * tw as u32) as u8, tw);
                v.push(self.val(x));
            }
            return Ok(Val::Agg(Arc::new(v)));
        }
        let (fw, tw) = (width(from), width(to));
        Ok(match (k, a) {
            (CastK::Bit, v) => v.clone(),
            (_, Val::U) => Val::U,
            (CastK::Trunc, Val::C(x)) => Val::C(x & mask(tw)),
            (CastK::ZExt, Val::C(x)) => Val::C(*x),
            (CastK::SExt, Val::C(x)) => Val::C(sext_to(*x, fw) as u128 & mask(tw)),
            (CastK::Trunc, Val::S(e)) => {
                let r = self.ar.extract(*e, 0, tw);
                self.val(r)
            }
            (CastK::ZExt, Val::S(e)) => {
                let r = self.ar.zext(*e, tw);
                self.val(r)
            }
            (CastK::SExt, Val::S(e)) => {
                let r = self.ar.sext(*e, tw);
                self.val(r)
            }
            (_, Val::Agg(_)) => return unsup("cast of aggregate"),
        })
    }

    fn byte_at(&mut self, b: &[u8], s: &Option<Vec<u32>>, i: usize) -> E {
        match s {
            Some(s) if s[i] != 0 && s[i] != UNDEF => s[i],
            _ => self.ar.cst(8, b[i] as u128),
        }
    }

    fn external(&mut self, st: &mut State, i: usize, a: &[Val], args: &[(Opd, Ty)], ret: &Ty, dst: u32) -> X<Val> {
        let sh = self.sh;
        let name = &sh.prog.exts[i];
        match sh.ext[i] {
            Ext::Unknown => unsup(format!("external function {name}")),
            Ext::Abort => end(End::Panic(format!("{name}"))),
            Ext::Alloc | Ext::AllocZ => {
                let n = self.concretize(st, &a[0], 64)? as u64;
                if n > 1 << 24 {
                    return unsup("huge allocation");
                }
                Ok(Val::C(self.alloc(st, n, Kind::Heap, sh.ext[i] == Ext::AllocZ) as u128))
            }
            Ext::Dealloc | Ext::Realloc => {
                let p = self.concretize(st, &a[0], 64)? as u64;
                let old = self.concretize(st, &a[1], 64)? as u64;
                let new = if sh.ext[i] == Ext::Realloc { self.concretize(st, &a[3], 64)? as u64 } else { 0 };
                if new > 1 << 24 {
                    return unsup("huge allocation");
                }
                let idx = match Self::find(st, (p >> 32) as u32) {
                    Some(k) if p >> 48 == 0 || (p >> 32) <= u32::MAX as u64 => k,
                    _ => return end(End::Mem("free of an invalid or freed pointer".into())),
                };
                let o = st.mem[idx].1.clone();
                if o.kind != Kind::Heap || p & 0xffff_ffff != BASE || o.bytes.len() as u64 != old {
                    return end(End::Mem("free of a wrong pointer or with a wrong size".into()));
                }
                if sh.ext[i] == Ext::Dealloc {
                    st.mem.remove(idx);
                    return Ok(Val::U);
                }
                let q = self.alloc(st, new, Kind::Heap, false);
                let n = old.min(new) as usize;
                let b = o.bytes[..n].to_vec();
                let s = o.sym.as_ref().map(|s| s[..n].to_vec());
                self.write(st, q, &b, s.as_deref())?;
                let idx = Self::find(st, (p >> 32) as u32).unwrap();
                st.mem.remove(idx);
                Ok(Val::C(q as u128))
            }
            Ext::Memcmp | Ext::Bcmp => {
                let n = self.concretize(st, &a[2], 64)? as u64;
                if n == 0 {
                    return Ok(Val::C(0));
                }
                let p = self.concretize(st, &a[0], 64)? as u64;
                let q = self.concretize(st, &a[1], 64)? as u64;
                let (pb, ps) = self.read(st, p, n)?;
                let (qb, qs) = self.read(st, q, n)?;
                let n = n as usize;
                if sh.ext[i] == Ext::Bcmp {
                    let mut all = 1;
                    for k in 0..n {
                        let x = self.byte_at(&pb, &ps, k);
                        let y = self.byte_at(&qb, &qs, k);
                        let e = self.ar.eq(x, y);
                        all = self.ar.and(all, e);
                        if all == 0 {
                            break;
                        }
                    }
                    let (z, o) = (self.ar.cst(32, 0), self.ar.cst(32, 1));
                    let r = self.ar.ite(all, z, o);
                    return Ok(self.val(r));
                }
                // result of the first differing byte, built from the end
                let (m1, z, p1) = (self.ar.cst(32, u32::MAX as u128), self.ar.cst(32, 0), self.ar.cst(32, 1));
                // group bytes in chunks compared as big-endian numbers
                let mut r = z;
                let mut k = n;
                while k > 0 {
                    let lo = k.saturating_sub(8);
                    let (mut x, mut y): (Option<E>, Option<E>) = (None, None);
                    for j in lo..k {
                        let bx = self.byte_at(&pb, &ps, j);
                        let by = self.byte_at(&qb, &qs, j);
                        x = Some(x.map_or(bx, |h| self.ar.concat(h, bx)));
                        y = Some(y.map_or(by, |h| self.ar.concat(h, by)));
                    }
                    let (x, y) = (x.unwrap(), y.unwrap());
                    let eq = self.ar.eq(x, y);
                    let lt = self.ar.bin(Op::Ult, x, y);
                    let d = self.ar.ite(lt, m1, p1);
                    r = self.ar.ite(eq, r, d);
                    k = lo;
                }
                Ok(self.val(r))
            }
            Ext::Strlen => {
                let p = self.concretize(st, &a[0], 64)? as u64;
                for k in 0..1u64 << 20 {
                    let v = self.load_scalar(st, p + k, 8)?;
                    let e = self.ex(&v, 8);
                    let z = self.ar.cst(8, 0);
                    let c = self.ar.eq(e, z);
                    if self.decide_reexec(st, c)? {
                        return Ok(Val::C(k as u128));
                    }
                }
                unsup("strlen")
            }
            Ext::Memchr | Ext::Memrchr => {
                let n = self.concretize(st, &a[2], 64)? as u64;
                if n == 0 {
                    return Ok(Val::C(0));
                }
                let p = self.concretize(st, &a[0], 64)? as u64;
                let ch = self.ex(&a[1], 32);
                let ch = self.ar.extract(ch, 0, 8);
                let (b, s) = self.read(st, p, n)?;
                for j in 0..n as usize {
                    let k = if sh.ext[i] == Ext::Memchr { j } else { n as usize - 1 - j };
                    let x = self.byte_at(&b, &s, k);
                    let c = self.ar.eq(x, ch);
                    if self.decide_reexec(st, c)? {
                        return Ok(Val::C((p + k as u64) as u128));
                    }
                }
                Ok(Val::C(0))
            }
            Ext::Memcpy | Ext::Memmove => self.copy(st, a),
            Ext::Memset => self.fill(st, a),
            Ext::Bytes => {
                let p = self.concretize(st, &a[0], 64)? as u64;
                let n = self.concretize(st, &a[1], 64)? as usize;
                if n == 0 {
                    return Ok(Val::U);
                }
                let mut s = vec![];
                for _ in 0..n {
                    if st.nvars >= MAXVARS {
                        return unsup("too many symbolic bytes");
                    }
                    s.push(self.ar.var(st.nvars));
                    if st.wit.len() <= st.nvars {
                        st.wit.push(0);
                    }
                    st.nvars += 1;
                }
                self.write(st, p, &vec![0; n], Some(&s))?;
                Ok(Val::U)
            }
            Ext::Choice => {
                let n = self.concretize(st, &a[0], 64)? as u64;
                if n == 0 {
                    return end(End::Discard);
                }
                if n > 256 {
                    return unsup("choice > 256");
                }
                if n == 1 {
                    return Ok(Val::C(0));
                }
                if st.nvars >= MAXVARS {
                    return unsup("too many symbolic bytes");
                }
                let v = st.nvars;
                st.nvars += 1;
                st.depth += 1;
                let fresh = st.wit.len() <= v;
                if fresh {
                    st.wit.push(0);
                }
                if self.follow > 0 && st.depth <= self.follow {
                    return Ok(Val::C(st.wit[v] as u128));
                }
                for k in (1..n).rev() {
                    let mut o = st.clone();
                    o.wit[v] = k as u8;
                    self.set(&mut o, dst, Val::C(k as u128));
                    self.stack.push(o);
                    self.st[st.scen as usize].forks += 1;
                }
                st.wit[v] = 0;
                Ok(Val::C(0))
            }
            Ext::Assume => {
                match &a[0] {
                    Val::C(x) => {
                        if *x & 1 == 0 {
                            return end(End::Discard);
                        }
                    }
                    Val::S(e) => {
                        let e = *e;
                        if self.ar.eval(e, &st.wit) == 0 {
                            // only possible outside replay of a prefix
                            match self.feasible(st, e)? {
                                None => return end(End::Discard),
                                Some(w) => st.wit = w,
                            }
                        }
                        self.add_pc(st, e);
                    }
                    _ => return unsup("assume of undefined"),
                }
                Ok(Val::U)
            }
            Ext::Check => {
                let id = self.concretize(st, &a[1], 32)? as u32;
                st.checks += 1;
                self.st[st.scen as usize].checks += 1;
                match &a[0] {
                    Val::C(x) => {
                        if *x & 1 == 0 {
                            self.violation(st, "check", format!("{id}"), st.wit.clone());
                            return end(End::CheckFail);
                        }
                    }
                    Val::S(e) => {
                        let e = *e;
                        self.st[st.scen as usize].checks_symbolic += 1;
                        self.st[st.scen as usize].check_queries += 1;
                        let ne = self.ar.not(e);
                        if let Some(w) = self.feasible(st, ne)? {
                            self.violation(st, "check", format!("{id}"), w);
                            match self.feasible(st, e)? {
                                None => return end(End::CheckFail),
                                Some(w) => st.wit = w,
                            }
                            self.add_pc(st, e);
                            // a state whose witness changed can no longer be replayed by prefix
                            // with the old one, which is fine: the new witness satisfies the same
                            // decisions.
                        }
                    }
                    _ => return unsup("check of undefined"),
                }
                Ok(Val::U)
            }
            Ext::Reach => {
                let id = self.concretize(st, &a[0], 32)? as u32;
                if !st.reach.contains(&id) {
                    st.reach.push(id);
                }
                Ok(Val::U)
            }
            Ext::Emit => {
                st.emits.push(a[0].clone());
                Ok(Val::U)
            }
            // shows the command line in native replays; nothing to do here
            Ext::Note => Ok(Val::U),
            // natively, a process of its own; here the stubs of `ll::redirect`
            Ext::Spawn => Ok(Val::C(0)),
            Ext::Done => end(End::Return),
            Ext::Llvm => self.intrinsic(st, name, a, args, ret),
        }
    }
    fn copy(&mut self, st: &mut State, a: &[Val]) -> X<Val> {
        let n = self.concretize(st, &a[2], 64)? as u64;
        if n > 0 {
            let d = self.concretize(st, &a[0], 64)? as u64;
            let s = self.concretize(st, &a[1], 64)? as u64;
            let (b, sy) = self.read(st, s, n)?;
            self.write(st, d, &b, sy.as_deref())?;
        }
        Ok(a[0].clone())
    }
    fn fill(&mut self, st: &mut State, a: &[Val]) -> X<Val> {
        let n = self.concretize(st, &a[2], 64)? as u64;
        if n > 0 {
            let d = self.concretize(st, &a[0], 64)? as u64;
            match &a[1] {
                Val::C(x) => self.write(st, d, &vec![*x as u8; n as usize], None)?,
                Val::S(e) => {
                    let e = self.ar.extract(*e, 0, 8);
                    self.write(st, d, &vec![0; n as usize], Some(&vec![e; n as usize]))?
                }
                _ => self.write(st, d, &vec![0; n as usize], Some(&vec![UNDEF; n as usize]))?,
            }
        }
        Ok(a[0].clone())
    }
    fn intrinsic(&mut self, st: &mut State, name: &str, a: &[Val], args: &[(Opd, Ty)], ret: &Ty) -> X<Val> {
        let n = &name[5..];
        let base: String = n.split('.').take_while(|p| !is_ty_suffix(p)).collect::<Vec<_>>().join(".");
        match base.as_str() {
            "memcpy" | "memmove" | "memcpy.inline" => return self.copy(st, a),
            "memset" | "memset.inline" => return self.fill(st, a),
            "threadlocal.address" | "expect" | "launder.invariant.group" | "strip.invariant.group" | "expect.with.probability" => return Ok(a[0].clone()),
            "is.constant" => return Ok(Val::C(0)),
            "allow.runtime.check" | "allow.ubsan.check" => return Ok(Val::C(1)),
            "sideeffect" | "fake.use" => return Ok(Val::U),
            _ => {}
        }
        if let Some(r) = base.strip_prefix("vector.reduce.") {
            let Ty::Vec(k, e) = &args[0].1 else { return unsup(name) };
            let w = width(e);
            let l = lanes(&a[0], *k);
            let op = match r {
                "or" => Op::Or,
                "and" => Op::And,
                "xor" => Op::Xor,
                "add" => Op::Add,
                _ => return unsup(name),
            };
            let mut v = l[0].clone();
            for x in &l[1..] {
                v = self.bin(op, w, &v, x)?;
            }
            return Ok(v);
        }
        let aty = match args.first() {
            Some((_, t)) => t.clone(),
            None => return unsup(name),
        };
        if matches!(aty, Ty::Vec(..)) {
            return unsup(format!("vector {name}"));
        }
        let w = width(&aty);
        if a.iter().any(|v| matches!(v, Val::U)) {
            return Ok(match ret {
                Ty::Struct(f, _) => Val::Agg(Arc::new(vec![Val::U; f.len()])),
                _ => Val::U,
            });
        }
        let x = self.ex(&a[0], w);
        match base.as_str() {
            "umax" | "umin" | "smax" | "smin" => {
                let y = self.ex(&a[1], w);
                let op = if base.starts_with('u') { Op::Ult } else { Op::Slt };
                let c = self.ar.bin(op, x, y);
                let r = if base.ends_with("min") { self.ar.ite(c, x, y) } else { self.ar.ite(c, y, x) };
                Ok(self.val(r))
            }
            "ucmp" | "scmp" => {
                let y = self.ex(&a[1], w);
                let rw = width(ret);
                let op = if base == "ucmp" { Op::Ult } else { Op::Slt };
                let lt = self.ar.bin(op, x, y);
                let eq = self.ar.eq(x, y);
                let (m1, z, p1) = (self.ar.cst(rw, u128::MAX), self.ar.cst(rw, 0), self.ar.cst(rw, 1));
                let d = self.ar.ite(lt, m1, p1);
                let r = self.ar.ite(eq, z, d);
                Ok(self.val(r))
            }
            "usub.sat" => {
                let y = self.ex(&a[1], w);
                let c = self.ar.bin(Op::Ult, x, y);
                let d = self.ar.bin(Op::Sub, x, y);
                let z = self.ar.cst(w, 0);
                let r = self.ar.ite(c, z, d);
                Ok(self.val(r))
            }
            "uadd.sat" => {
                let y = self.ex(&a[1], w);
                let s = self.ar.bin(Op::Add, x, y);
                let c = self.ar.bin(Op::Ult, s, x);
                let m = self.ar.cst(w, u128::MAX);
                let r = self.ar.ite(c, m, s);
                Ok(self.val(r))
            }
            "abs" => {
                let z = self.ar.cst(w, 0);
                let c = self.ar.bin(Op::Slt, x, z);
                let n = self.ar.bin(Op::Sub, z, x);
                let r = self.ar.ite(c, n, x);
                Ok(self.val(r))
            }
            "uadd.with.overflow" | "usub.with.overflow" | "umul.with.overflow" | "sadd.with.overflow" | "ssub.with.overflow" | "smul.with.overflow" => {
                if w > 64 {
                    return unsup(name);
                }
                let y = self.ex(&a[1], w);
                let sg = base.starts_with('s');
                let op = match &base[1..4] {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    _ => Op::Mul,
                };
                let ww = if op == Op::Mul { 2 * w } else { w + 1 };
                let (p, q) = if sg { (self.ar.sext(x, ww), self.ar.sext(y, ww)) } else { (self.ar.zext(x, ww), self.ar.zext(y, ww)) };
                let wide = self.ar.bin(op, p, q);
                let r = self.ar.bin(op, x, y);
                let back = if sg { self.ar.sext(r, ww) } else { self.ar.zext(r, ww) };
                let same = self.ar.eq(wide, back);
                let ov = self.ar.not(same);
                Ok(Val::Agg(Arc::new(vec![self.val(r), self.val(ov)])))
            }
            "ctpop" | "ctlz" | "cttz" => {
                if let Val::C(k) = a[0] {
                    return Ok(Val::C(match base.as_str() {
                        "ctpop" => k.count_ones() as u128,
                        "ctlz" => (k.leading_zeros() as u128) - (128 - w as u128),
                        _ => (k.trailing_zeros() as u128).min(w as u128),
                    }));
                }
                let mut r;
                if base == "ctpop" {
                    r = self.ar.cst(w, 0);
                    for j in 0..w {
                        let b = self.ar.extract(x, j, 1);
                        let b = self.ar.zext(b, w);
                        r = self.ar.bin(Op::Add, r, b);
                    }
                } else {
                    r = self.ar.cst(w, w as u128);
                    for j in 0..w {
                        let pos = if base == "cttz" { w - 1 - j } else { j };
                        let b = self.ar.extract(x, pos, 1);
                        let v = if base == "cttz" { pos } else { w - 1 - pos };
                        let k = self.ar.cst(w, v as u128);
                        r = self.ar.ite(b, k, r);
                    }
                }
                Ok(self.val(r))
            }
            "bswap" | "bitreverse" => {
                let unit = if base == "bswap" { 8 } else { 1 };
                let mut r: Option<E> = None;
                for j in 0..w / unit {
                    let b = self.ar.extract(x, j * unit, unit);
                    r = Some(match r {
                        None => b,
                        Some(h) => self.ar.concat(h, b),
                    });
                }
                Ok(self.val(r.unwrap()))
            }
            "fshl" | "fshr" => {
                let y = self.ex(&a[1], w);
                let Val::C(s) = a[2] else { return unsup(name) };
                let s = (s % w as u128) as u8;
                let r = if s == 0 {
                    if base == "fshl" { x } else { y }
                } else {
                    let sh = if base == "fshl" { w - s } else { s };
                    let lo = self.ar.extract(y, sh, w - sh);
                    let hi = self.ar.extract(x, 0, sh);
                    self.ar.concat(hi, lo)
                };
                Ok(self.val(r))
            }
            "ptrmask" => self.bin(Op::And, 64, &a[0], &a[1]),
            _ => unsup(format!("intrinsic {name}")),
        }
    }
}

fn is_ty_suffix(p: &str) -> bool {
    (p.starts_with('i') || p.starts_with('p') || p.starts_with('v')) && p[1..].starts_with(|c: char| c.is_ascii_digit())
}
fn lanes(v: &Val, n: u32) -> Vec<Val> {
    match v {
        Val::Agg(x) => x.to_vec(),
        _ => vec![Val::U; n as usize],
    }
}
fn insert(ty: &Ty, a: &Val, v: &Val, idx: &[u32]) -> Val {
    if idx.is_empty() {
        return v.clone();
    }
    let n = match ty {
        Ty::Struct(f, _) => f.len(),
        Ty::Arr(n, _) => *n as usize,
        _ => 0,
    };
    let mut x = match a {
        Val::Agg(x) => x.to_vec(),
        _ => vec![Val::U; n],
    };
    let et = match ty {
        Ty::Struct(f, _) => f[idx[0] as usize].clone(),
        Ty::Arr(_, e) => (**e).clone(),
        _ => Ty::Void,
    };
    let i = idx[0] as usize;
    x[i] = insert(&et, &x[i], v, &idx[1..]);
    Val::Agg(Arc::new(x))
}

/// A rough demangling: the identifiers of a v0 symbol.
pub fn short(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let l: usize = n[st..i].parse().unwrap_or(0);
            if l == 0 || i + l > b.len() {
                break;
            }
            let mut s = i;
            if b[s] == b'_' {
                s += 1;
            }
            if s + l <= b.len() {
                out.push(n[s..s + l].to_string());
                i = s + l;
            }
        } else if b[i] == b'C' && i + 1 < b.len() && b[i + 1] == b's' {
            // crate disambiguator: Cs<base62>_
            i += 2;
            while i < b.len() && b[i] != b'_' {
                i += 1;
            }
            i += 1;
        } else {
            i += 1;
        }
    }
    out.join("::")
}

pub fn run(sh: &Shared) {
    std::thread::scope(|s| {
        for _ in 0..sh.nthreads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || {
                    let mut w = Worker::new(sh);
                    w.run();
                })
                .unwrap();
        }
    });
}
