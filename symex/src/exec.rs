//! Path-forking symbolic execution of the decoded IR.
use crate::order::Order;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::par::*;
use crate::z3::{Answer, Solver};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Val {
    C(u64),
    S(Eid),
}

#[derive(Clone)]
struct Frame {
    f: Rc<Func>,
    regs: Vec<Val>,
    ip: u32,
    stack_base: u32,
    is_try: bool,
}

/// a thread that is not running
#[derive(Clone)]
struct Thread {
    cur: Frame,
    frames: Vec<Rc<Frame>>,
    unwinding: bool,
    /// it may take its next step without another choice
    go: bool,
}

#[derive(Clone)]
struct Par {
    /// the thread that runs: 0 or 1
    tid: usize,
    other: Option<Thread>,
    main: Thread,
    clocks: Clocks,
    /// preemptions left
    left: u32,
    /// the running thread has been scheduled for its next access
    go: bool,
    /// objects below these were there before the threads
    heap0: usize,
    stack0: usize,
}

#[derive(Clone)]
pub struct State {
    cur: Frame,
    frames: Vec<Rc<Frame>>,
    heap: Vec<Option<ObjRef>>,
    stack: Vec<ObjRef>,
    globals: Vec<Option<ObjRef>>,
    pub pc: Vec<Eid>,
    ord: Rc<Order>,
    model: Rc<Vec<u64>>,
    inputs: Vec<Val>,
    nsym: u32,
    trace: Vec<(Val, u8)>,
    steps: u64,
    live: u32,
    unwinding: bool,
    par: Option<Box<Par>>,
    /// stack of the second thread
    stack2: Vec<ObjRef>,
    /// scheduling choice being made
    sched: Option<bool>,
    /// choices recorded so far (for job splitting)
    decisions: u32,
}

pub enum Stop {
    /// path finished
    Done,
    /// path infeasible / assumption false
    Pruned,
    Violation(String, String),
    Unsupported(String),
}

type X<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Special {
    Body,
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    Nop,
    Panic,
    Abort,
    Sym(u8),
    Choice,
    Fork,
    Assume,
    Assert,
    Trace,
    Cover,
    Try,
    Throw,
    Live,
    Par,
    IsSym,
    Missing,
}

pub struct PathOut {
    pub inputs: Vec<u64>,
    pub trace: u64,
    pub ntrace: u32,
}

pub struct ViolOut {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<u64>,
    pub stack: Vec<String>,
}

#[derive(Default)]
pub struct JobStats {
    pub paths: u64,
    pub pruned: u64,
    pub forks: u64,
    pub choice_forks: u64,
    pub steps: u64,
    pub asserts_solver: u64,
    pub asserts_concrete: u64,
    pub max_steps: u64,
    pub max_pc: usize,
    pub max_inputs: usize,
    pub by_order: u64,
    pub schedules: u64,
    pub syncs: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub solver_s: f64,
    pub wall_s: f64,
    pub covers: BTreeMap<String, u64>,
    pub paths_out: Vec<PathOut>,
    pub violations: Vec<ViolOut>,
    pub errors: Vec<String>,
    pub funcs: HashSet<u32>,
}

/// set when another job has found a violation and the rest is moot
pub static STOP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub struct Limits {
    pub max_steps: u64,
    pub deadline: Instant,
    /// seconds one job may take
    pub job_time: f64,
    /// confirm with the solver what the order graph decides
    pub check_order: bool,
    pub max_depth: usize,
    pub max_viol: usize,
    pub keep_paths: usize,
    pub verbose: bool,
}

pub struct Exec<'p, 'm> {
    p: &'p Program<'m>,
    pub ar: Arena,
    solver: Solver,
    work: Vec<State>,
    special: Vec<Option<Special>>,
    symids: HashMap<(u32, u8), u32>,
    pub st: JobStats,
    lim: &'p Limits,
    start: Instant,
}

fn viol<T>(k: &str, m: impl Into<String>) -> X<T> {
    Err(Stop::Violation(k.to_string(), m.into()))
}
fn unsup<T>(m: impl Into<String>) -> X<T> {
    Err(Stop::Unsupported(m.into()))
}

fn fnv(h: u64, v: u64) -> u64 {
    let mut h = h;
    for b in v.to_le_bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl<'p, 'm> Exec<'p, 'm> {
    pub fn new(p: &'p Program<'m>, lim: &'p Limits) -> Self {
        Exec {
            p,
            ar: Arena::new(),
            solver: Solver::new(60_000),
            work: vec![],
            special: vec![],
            symids: HashMap::new(),
            st: JobStats::default(),
            lim,
            start: Instant::now(),
        }
    }

    pub fn run_job(mut self, harness: &str, params: &[u64]) -> JobStats {
        self.start = Instant::now();
        match self.init(harness, params) {
            Ok(s) => self.work.push(s),
            Err(e) => {
                self.st.errors.push(e);
                return self.st;
            }
        }
        while let Some(mut s) = self.work.pop() {
            let r = self.run(&mut s);
            self.st.max_steps = self.st.max_steps.max(s.steps);
            self.st.max_pc = self.st.max_pc.max(s.pc.len());
            self.st.max_inputs = self.st.max_inputs.max(s.inputs.len());
            match r {
                Stop::Done => {
                    let ok = self.path_done(&mut s);
                    if !ok {
                        break;
                    }
                }
                Stop::Pruned => self.st.pruned += 1,
                Stop::Violation(k, m) => {
                    let inputs = self.inputs_of(&s);
                    let stack = self.backtrace(&s);
                    self.st.violations.push(ViolOut { kind: k, msg: m, inputs, stack });
                    if self.st.violations.len() >= self.lim.max_viol {
                        break;
                    }
                }
                Stop::Unsupported(m) => {
                    let bt = self.backtrace(&s);
                    self.st.errors.push(format!("{} at {:?}", m, bt.iter().take(6).collect::<Vec<_>>()));
                    break;
                }
            }
            if self.late() {
                if !self.work.is_empty() {
                    self.st.errors.push("time limit reached before all paths were explored".into());
                }
                break;
            }
        }
        self.st.queries = self.solver.queries;
        self.st.sat = self.solver.sat;
        self.st.unsat = self.solver.unsat;
        self.st.solver_s = self.solver.time;
        self.st.wall_s = self.start.elapsed().as_secs_f64();
        self.st
    }

    fn backtrace(&self, s: &State) -> Vec<String> {
        let mut v = vec![s.cur.f.name.clone()];
        for f in s.frames.iter().rev().take(20) {
            v.push(f.f.name.clone());
        }
        v
    }

    fn inputs_of(&mut self, s: &State) -> Vec<u64> {
        let m = s.model.clone();
        s.inputs
            .iter()
            .map(|v| match v {
                Val::C(c) => *c,
                Val::S(e) => self.ar.eval(*e, &m),
            })
            .collect()
    }

    fn path_done(&mut self, s: &mut State) -> bool {
        self.st.paths += 1;
        let m = s.model.clone();
        for i in 0..s.pc.len() {
            if self.ar.eval(s.pc[i], &m) != 1 {
                self.st.errors.push("internal: model does not satisfy the path condition".into());
                return false;
            }
        }
        if self.st.paths_out.len() < self.lim.keep_paths {
            let inputs = self.inputs_of(s);
            let mut h = 0xcbf29ce484222325;
            for i in 0..s.trace.len() {
                let v = match s.trace[i].0 {
                    Val::C(c) => c,
                    Val::S(e) => self.ar.eval(e, &m),
                };
                h = fnv(h, v);
            }
            let n = s.trace.len() as u32;
            self.st.paths_out.push(PathOut { inputs, trace: h, ntrace: n });
        }
        true
    }

    fn init(&mut self, harness: &str, params: &[u64]) -> Result<State, String> {
        if !self.p.is_defined(harness) {
            return Err(format!("harness {} not found in the IR", harness));
        }
        let f = self.p.func(self.p.fn_id(harness))?;
        let mut regs = vec![Val::C(0); f.nslots as usize];
        if params.len() < f.params.len() {
            return Err(format!("{} needs {} parameters", harness, f.params.len()));
        }
        for (k, s) in f.params.iter().enumerate() {
            regs[*s as usize] = Val::C(params[k]);
        }
        self.st.funcs.insert(f.idx);
        Ok(State {
            cur: Frame { f, regs, ip: 0, stack_base: 0, is_try: false },
            frames: vec![],
            heap: vec![],
            stack: vec![],
            globals: vec![],
            pc: vec![],
            ord: Rc::new(Order::default()),
            model: Rc::new(vec![]),
            inputs: vec![],
            nsym: 0,
            trace: vec![],
            steps: 0,
            live: 0,
            unwinding: false,
            par: None,
            stack2: vec![],
            sched: None,
            decisions: 0,
        })
    }

    // ------------------------------------------------------------ values

    #[inline]
    fn get(&mut self, s: &State, o: Opd) -> Val {
        match o {
            Opd::R(r) => s.cur.regs[r as usize],
            Opd::C(c) => Val::C(c),
            Opd::U(w) => Val::S(self.ar.undef(w)),
        }
    }
    fn expr(&mut self, v: Val, w: u8) -> Eid {
        match v {
            Val::C(c) => self.ar.konst(c, w),
            Val::S(e) => {
                debug_assert_eq!(self.ar.w(e), w);
                e
            }
        }
    }
    #[inline]
    fn val(&self, e: Eid) -> Val {
        match self.ar.cval(e) {
            Some(c) => Val::C(c),
            None => Val::S(e),
        }
    }

    // ------------------------------------------------------------ branching

    /// Is the condition already decided by syntactic facts on the path?
    fn known(&mut self, s: &State, c: Eid) -> Option<bool> {
        let n = self.ar.not1(c);
        for &e in s.pc.iter().rev() {
            if e == c {
                return Some(true);
            }
            if e == n {
                return Some(false);
            }
        }
        None
    }

    /// As known, and by what follows from the order of the terms.
    fn entailed(&mut self, s: &mut State, c: Eid) -> X<Option<bool>> {
        if let Some(v) = self.known(s, c) {
            return Ok(Some(v));
        }
        if s.ord.behind(&s.pc) {
            Rc::make_mut(&mut s.ord).sync(&self.ar, &s.pc);
        }
        let v = s.ord.decide(&self.ar, c);
        if let Some(v) = v {
            self.st.by_order += 1;
            if self.lim.check_order {
                let no = if v { self.ar.not1(c) } else { c };
                if !matches!(self.solver.check(&self.ar, &s.pc, Some(no)), Answer::Unsat) {
                    return unsup("internal: the order graph and the solver disagree");
                }
            }
        }
        Ok(v)
    }

    /// A comparison of values that are built from comparisons, in terms of those.
    fn reduce(&mut self, s: &mut State, c: Eid) -> X<Eid> {
        let (x, y) = match self.ar.node(c) {
            Node::Bin(op, a, b) => {
                let (x, y) = (self.reduce(s, a)?, self.reduce(s, b)?);
                return Ok(if (x, y) == (a, b) { c } else { self.ar.bin(op, x, y) });
            }
            Node::Eq(a, b) | Node::Ult(a, b) | Node::Slt(a, b) if self.ar.w(a) > 1 => (a, b),
            _ => return Ok(c),
        };
        let mut conds = self.ar.conditions(x);
        conds.extend(self.ar.conditions(y));
        let mut r = c;
        let mut open = None;
        for a in conds {
            match self.entailed(s, a)? {
                Some(v) => r = self.ar.subst_in(r, a, v),
                None if open.is_none() || open == Some(a) => open = Some(a),
                None => return Ok(r),
            }
        }
        if let Some(a) = open {
            let (p, q) = (self.ar.subst_in(r, a, true), self.ar.subst_in(r, a, false));
            if self.ar.cval(p).is_some() && self.ar.cval(q).is_some() {
                r = self.ar.ite(a, p, q);
            }
        }
        Ok(r)
    }

    /// Decide a boolean for this state; forks the other outcome if feasible.
    /// Must be called before the instruction has any effect.
    fn branch(&mut self, s: &mut State, c: Eid) -> X<bool> {
        if let Some(v) = self.ar.cval(c) {
            return Ok(v != 0);
        }
        if self.ar.has_undef(c) {
            return viol("uninit", "control flow depends on an uninitialised value");
        }
        if let Some(v) = self.entailed(s, c)? {
            return Ok(v);
        }
        let r = self.reduce(s, c)?;
        if r != c {
            if self.lim.check_order {
                let d = self.ar.bin(Op::Xor, c, r);
                if !matches!(self.solver.check(&self.ar, &s.pc, Some(d)), Answer::Unsat) {
                    return unsup("internal: a reduced comparison and the solver disagree");
                }
            }
            return self.branch(s, r);
        }
        let m = s.model.clone();
        let v = self.ar.eval(c, &m) != 0;
        let n = self.ar.not1(c);
        let (taken, other) = if v { (c, n) } else { (n, c) };
        match self.solver.check(&self.ar, &s.pc, Some(other)) {
            Answer::Sat(model) => {
                let mut t = s.clone();
                t.pc.push(other);
                t.model = Rc::new(model);
                self.work.push(t);
                self.st.forks += 1;
                s.pc.push(taken);
            }
            Answer::Unsat => {}
            Answer::Unknown => return unsup("solver returned unknown"),
        }
        Ok(v)
    }

    fn branch_val(&mut self, s: &mut State, v: Val) -> X<bool> {
        match v {
            Val::C(c) => Ok(c & 1 != 0),
            Val::S(e) => self.branch(s, e),
        }
    }

    /// Force a value to be concrete, forking over its feasible values.
    fn fresh(&mut self, s: &mut State, w: u8) -> Eid {
        let key = (s.nsym, w);
        let id = match self.symids.get(&key) {
            Some(i) => *i,
            None => {
                let i = self.ar.nsyms;
                self.symids.insert(key, i);
                i
            }
        };
        s.nsym += 1;
        self.ar.sym(id, w)
    }

    /// Continues only where e holds.
    fn assume(&mut self, s: &mut State, e: Eid) -> X<()> {
        match self.entailed(s, e)? {
            Some(true) => {}
            Some(false) => return Err(Stop::Pruned),
            None => {
                let m = s.model.clone();
                if self.ar.eval(e, &m) == 0 {
                    match self.solver.check(&self.ar, &s.pc, Some(e)) {
                        Answer::Sat(m) => s.model = Rc::new(m),
                        Answer::Unsat => return Err(Stop::Pruned),
                        Answer::Unknown => return unsup("solver returned unknown"),
                    }
                }
                s.pc.push(e);
            }
        }
        Ok(())
    }

    fn concretize(&mut self, s: &mut State, v: Val) -> X<u64> {
        match v {
            Val::C(c) => Ok(c),
            Val::S(e) => {
                if self.ar.has_undef(e) {
                    return viol("uninit", "an uninitialised value is used as an address, size or switch value");
                }
                // a value that hangs on one comparison is that comparison's two values
                let mut e = e;
                let mut open = None;
                let mut several = false;
                for a in self.ar.conditions(e) {
                    match self.entailed(s, a)? {
                        Some(v) => e = self.ar.subst(e, a, v),
                        None if open.is_none() => open = Some(a),
                        None => several = true,
                    }
                }
                if let (Some(a), false) = (open, several) {
                    let v = self.branch(s, a)?;
                    e = self.ar.subst(e, a, v);
                }
                if let Some(c) = self.ar.cval(e) {
                    return Ok(c);
                }
                let m = s.model.clone();
                let c = self.ar.eval(e, &m);
                if self.lim.verbose {
                    eprintln!("concretised to {} in {}", c, short(&s.cur.f.name));
                }
                let k = self.ar.konst(c, self.ar.w(e));
                let q = self.ar.eq(e, k);
                if !self.branch(s, q)? {
                    return unsup("internal: concretisation");
                }
                Ok(c)
            }
        }
    }

    // ------------------------------------------------------------ memory

    fn locate(&mut self, s: &mut State, addr: u64, n: u64, write: bool) -> X<(u8, usize, usize)> {
        self.locate_as(s, addr, n, if write { Acc::Write } else { Acc::Read })
    }

    fn locate_as(&mut self, s: &mut State, addr: u64, n: u64, acc: Acc) -> X<(u8, usize, usize)> {
        let write = matches!(acc, Acc::Write | Acc::AtomicWrite);
        let region = (addr >> 44) as u8;
        let idx = ((addr & ((1 << 44) - 1)) >> OBJ_SHIFT) as usize;
        let off = (addr & ((1 << OBJ_SHIFT) - 1)) as usize;
        let what = if write { "write" } else { "read" };
        let size = match region {
            1 => match s.heap.get(idx) {
                Some(Some(o)) => o.size as u64,
                Some(None) => return viol("memory", format!("{} of freed memory", what)),
                None => return viol("memory", format!("wild {} (heap)", what)),
            },
            2 => match s.stack.get(idx) {
                Some(o) => o.size as u64,
                None => return viol("memory", format!("{} of a dead stack slot", what)),
            },
            5 => match s.stack2.get(idx) {
                Some(o) => o.size as u64,
                None => return viol("memory", format!("{} of a dead stack slot", what)),
            },
            3 => {
                if s.globals.len() <= idx {
                    s.globals.resize(idx + 1, None);
                }
                if s.globals[idx].is_none() {
                    let g = match self.p.global(idx as u32) {
                        Ok(g) => g,
                        Err(e) => return unsup(e),
                    };
                    match &g.bytes {
                        Some(b) => s.globals[idx] = Some(Rc::new(Obj::from_bytes(b, g.constant))),
                        None => return unsup(format!("access to external global {}", g.name)),
                    }
                }
                let o = s.globals[idx].as_ref().unwrap();
                if write && o.ro {
                    return viol("memory", "write to constant memory");
                }
                o.size as u64
            }
            _ => return viol("memory", format!("{} through an invalid pointer {:#x}", what, addr)),
        };
        if off as u64 + n > size {
            return viol("memory", format!("out-of-bounds {}: {} bytes at offset {} of an object of {} bytes", what, n, off as i64, size));
        }
        if let Some(p) = &mut s.par {
            let shared = match region {
                1 => idx < p.heap0,
                2 => idx < p.stack0,
                3 => !s.globals[idx].as_ref().unwrap().ro,
                _ => false,
            };
            if shared {
                let t = p.tid;
                if p.clocks.access(t, (addr >> OBJ_SHIFT) << 1, size as usize, off, n as usize, acc) {
                    return viol("race", format!("data race: {:?} of {} bytes at offset {} of an object of {} bytes", acc, n, off, size));
                }
            }
        }
        Ok((region, idx, off))
    }

    /// The next access of the running thread is one the other may observe
    /// (an atomic access to an object both reach).  True if the other thread
    /// has been switched to instead.
    fn sched_point(&mut self, s: &mut State, addr: u64) -> X<bool> {
        let p = match &s.par {
            None => return Ok(false),
            Some(p) => p,
        };
        let (region, idx) = ((addr >> 44) as u8, ((addr & ((1 << 44) - 1)) >> OBJ_SHIFT) as usize);
        let shared = match region {
            1 => idx < p.heap0,
            2 => idx < p.stack0,
            3 => true,
            _ => false,
        };
        if !shared {
            return Ok(false);
        }
        self.st.syncs += 1;
        if p.other.is_none() || p.left == 0 || p.go {
            return Ok(false);
        }
        let v = self.sched_choice(s)?;
        let p = s.par.as_mut().unwrap();
        // the choice is made until the access is
        p.go = true;
        if v {
            p.left -= 1;
            self.st.schedules += 1;
            self.switch(s);
        }
        Ok(v)
    }
    /// the access has been made
    #[inline]
    fn synced(&mut self, s: &mut State) {
        if let Some(p) = &mut s.par {
            p.go = false;
        }
    }
    /// A fresh symbolic bit of the schedule, decided both ways.  Nothing on
    /// the path mentions it yet, so both are possible.
    fn sched_choice(&mut self, s: &mut State) -> X<bool> {
        if let Some(v) = s.sched.take() {
            return Ok(v);
        }
        let e = self.fresh(s, 1);
        let id = match self.ar.node(e) {
            Node::Sym(i) => i as usize,
            _ => return unsup("internal: schedule"),
        };
        let mut t = s.clone();
        let m = Rc::make_mut(&mut t.model);
        if m.len() <= id {
            m.resize(id + 1, 0);
        }
        m[id] = 1;
        t.pc.push(e);
        t.sched = Some(true);
        self.work.push(t);
        self.st.forks += 1;
        let m = Rc::make_mut(&mut s.model);
        if m.len() > id {
            m[id] = 0;
        }
        let n = self.ar.not1(e);
        s.pc.push(n);
        Ok(false)
    }
    /// The other thread runs on, this one waits.
    fn switch(&mut self, s: &mut State) {
        let p = s.par.as_mut().unwrap();
        let o = p.other.as_mut().unwrap();
        std::mem::swap(&mut s.cur, &mut o.cur);
        std::mem::swap(&mut s.frames, &mut o.frames);
        std::mem::swap(&mut s.unwinding, &mut o.unwinding);
        std::mem::swap(&mut p.go, &mut o.go);
        p.tid = 1 - p.tid;
    }
    /// The running thread has come to its end.
    fn thread_done(&mut self, s: &mut State) -> X<()> {
        let p = s.par.as_mut().unwrap();
        if p.tid == 0 {
            s.stack.truncate(s.cur.stack_base as usize);
        } else {
            s.stack2.clear();
        }
        match p.other.take() {
            Some(t) => {
                s.cur = t.cur;
                s.frames = t.frames;
                s.unwinding = t.unwinding;
                p.go = t.go;
                p.tid = 1 - p.tid;
                Ok(())
            }
            None => {
                let p = s.par.take().unwrap();
                s.cur = p.main.cur;
                s.frames = p.main.frames;
                s.unwinding = p.main.unwinding;
                self.finish_call(s, &[])
            }
        }
    }
    fn par_start(&mut self, s: &mut State, av: &[Val]) -> X<()> {
        if s.par.is_some() {
            return unsup("nested threads");
        }
        let mut fr = vec![];
        for k in 0..2 {
            let a = self.concretize(s, av[2 * k])?;
            if a >> 44 != 4 {
                return unsup("sx_par of a non-function");
            }
            let f = match self.p.func(((a - FUNC) >> 4) as u32) {
                Ok(f) => f,
                Err(e) => return unsup(e),
            };
            if f.params.len() != 1 {
                return unsup("sx_par of a function of several parameters");
            }
            self.st.funcs.insert(f.idx);
            let mut regs = vec![Val::C(0); f.nslots as usize];
            regs[f.params[0] as usize] = av[2 * k + 1];
            let base = if k == 0 { s.stack.len() } else { 0 };
            fr.push(Frame { f, regs, ip: 0, stack_base: base as u32, is_try: false });
        }
        let left = self.concretize(s, av[4])?;
        // which of them is first
        let second = self.sched_choice(s)?;
        let f1 = fr.pop().unwrap();
        let f0 = fr.pop().unwrap();
        let main = Thread {
            cur: std::mem::replace(&mut s.cur, f0),
            frames: std::mem::take(&mut s.frames),
            unwinding: std::mem::replace(&mut s.unwinding, false),
            go: false,
        };
        let other = Thread { cur: f1, frames: vec![], unwinding: false, go: false };
        s.stack2.clear();
        s.par = Some(Box::new(Par {
            tid: 0,
            other: Some(other),
            main,
            clocks: Clocks::new(),
            left: left as u32,
            go: false,
            heap0: s.heap.len(),
            stack0: s.stack.len(),
        }));
        if second {
            self.switch(s);
        }
        Ok(())
    }

    fn obj<'s>(&self, s: &'s State, r: u8, i: usize) -> &'s ObjRef {
        match r {
            1 => s.heap[i].as_ref().unwrap(),
            2 => &s.stack[i],
            5 => &s.stack2[i],
            _ => s.globals[i].as_ref().unwrap(),
        }
    }
    fn obj_mut<'s>(&self, s: &'s mut State, r: u8, i: usize) -> &'s mut Obj {
        Rc::make_mut(match r {
            1 => s.heap[i].as_mut().unwrap(),
            2 => &mut s.stack[i],
            5 => &mut s.stack2[i],
            _ => s.globals[i].as_mut().unwrap(),
        })
    }

    fn byte(&mut self, o: &Obj, off: usize) -> Eid {
        match o.tag(off) {
            CONC => self.ar.konst(o.data(off) as u64, 8),
            UNDEF => self.ar.undef(8),
            _ => o.sym_at(off),
        }
    }

    fn load(&mut self, s: &mut State, addr: u64, w: u8) -> X<Val> {
        self.load_as(s, addr, w, Acc::Read)
    }
    fn load_as(&mut self, s: &mut State, addr: u64, w: u8, acc: Acc) -> X<Val> {
        let n = (w as usize + 7) / 8;
        let (r, i, off) = self.locate_as(s, addr, n as u64, acc)?;
        let o = self.obj(s, r, i);
        if o.all_conc(off, n) {
            return Ok(Val::C(o.read(off, n) & mask(w)));
        }
        let o = o.clone();
        let mut e = self.byte(&o, off);
        for k in 1..n {
            let b = self.byte(&o, off + k);
            e = self.ar.concat(b, e);
        }
        if (n * 8) as u8 != w {
            e = self.ar.extract(e, 0, w);
        }
        Ok(self.val(e))
    }

    fn store(&mut self, s: &mut State, addr: u64, w: u8, v: Val) -> X<()> {
        self.store_as(s, addr, w, v, Acc::Write)
    }
    fn store_as(&mut self, s: &mut State, addr: u64, w: u8, v: Val, acc: Acc) -> X<()> {
        let n = (w as usize + 7) / 8;
        let (r, i, off) = self.locate_as(s, addr, n as u64, acc)?;
        match v {
            Val::C(c) => self.obj_mut(s, r, i).write(off, n, c & mask(w)),
            Val::S(e) => {
                let e = if (n * 8) as u8 != w { self.ar.zext(e, (n * 8) as u8) } else { e };
                for k in 0..n {
                    let b = self.ar.extract(e, (k * 8) as u8, 8);
                    let node = self.ar.node(b);
                    let o = self.obj_mut(s, r, i);
                    match node {
                        Node::Const(c) => o.write(off + k, 1, c),
                        Node::Undef => o.write_undef(off + k),
                        _ => o.write_sym(off + k, b),
                    }
                }
            }
        }
        Ok(())
    }

    fn new_heap(&mut self, s: &mut State, size: u64, align: u64, zero: bool) -> X<u64> {
        if size >= 1 << (OBJ_SHIFT - 1) {
            return unsup(format!("allocation of {} bytes exceeds the modelled object size", size));
        }
        let id = s.heap.len() as u64;
        let o = if zero { Obj::zeroed(size, align) } else { Obj::uninit(size, align) };
        s.heap.push(Some(Rc::new(o)));
        s.live += 1;
        Ok(HEAP + (id << OBJ_SHIFT))
    }

    fn free(&mut self, s: &mut State, addr: u64, size: Option<u64>, align: u64) -> X<()> {
        let region = addr >> 44;
        let idx = ((addr & ((1 << 44) - 1)) >> OBJ_SHIFT) as usize;
        let off = addr & ((1 << OBJ_SHIFT) - 1);
        if region != 1 || off != 0 {
            return viol("memory", "free of a pointer that was not allocated");
        }
        match s.heap.get(idx) {
            Some(Some(o)) => {
                if let Some(sz) = size {
                    if o.size as u64 != sz || o.align as u64 != align {
                        return viol("memory", format!("deallocation with layout {}/{} of an allocation of {}/{}", sz, align, o.size, o.align));
                    }
                }
            }
            Some(None) => return viol("memory", "double free"),
            None => return viol("memory", "free of a wild pointer"),
        }
        if let Some(p) = &mut s.par {
            if (idx as usize) < p.heap0 {
                let n = s.heap[idx as usize].as_ref().unwrap().size as usize;
                let t = p.tid;
                if p.clocks.access(t, (addr >> OBJ_SHIFT) << 1, n, 0, n, Acc::Write) {
                    return viol("race", format!("data race: an object of {} bytes is freed", n));
                }
            }
        }
        s.heap[idx] = None;
        s.live -= 1;
        Ok(())
    }

    fn memcpy(&mut self, s: &mut State, dst: u64, src: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (sr, si, so) = self.locate(s, src, n, false)?;
        let (dr, di, d_o) = self.locate(s, dst, n, true)?;
        let src = self.obj(s, sr, si).clone();
        self.obj_mut(s, dr, di).copy_from(d_o, &src, so, n as usize);
        Ok(())
    }

    fn cstr(&mut self, s: &mut State, addr: u64, n: u64) -> String {
        let mut out = String::new();
        for k in 0..n {
            match self.load(s, addr + k, 8) {
                Ok(Val::C(c)) => out.push(c as u8 as char),
                _ => break,
            }
        }
        out
    }

    // ------------------------------------------------------------ control

    #[inline]
    fn goto(&mut self, s: &mut State, e: u32) {
        let f = s.cur.f.clone();
        let ed = &f.edges[e as usize];
        match ed.moves.len() {
            0 => {}
            1 => {
                let (d, o, _) = ed.moves[0];
                let v = self.get(s, o);
                s.cur.regs[d as usize] = v;
            }
            n => {
                let mut tmp = Vec::with_capacity(n);
                for (_, o, _) in ed.moves.iter() {
                    tmp.push(self.get(s, *o));
                }
                for (k, (d, _, _)) in ed.moves.iter().enumerate() {
                    s.cur.regs[*d as usize] = tmp[k];
                }
            }
        }
        s.cur.ip = ed.target;
    }

    fn enter(&mut self, s: &mut State, f: Rc<Func>, args: &[Val], is_try: bool) -> X<()> {
        if s.frames.len() > self.lim.max_depth {
            return viol("stack", "call depth limit exceeded (runaway recursion)");
        }
        if args.len() != f.params.len() {
            return unsup(format!("call of {} with {} args, expects {}", f.name, args.len(), f.params.len()));
        }
        self.st.funcs.insert(f.idx);
        let mut regs = vec![Val::C(0); f.nslots as usize];
        for (k, p) in f.params.iter().enumerate() {
            regs[*p as usize] = args[k];
        }
        let base = match &s.par {
            Some(p) if p.tid == 1 => s.stack2.len(),
            _ => s.stack.len(),
        };
        let fr = Frame { f, regs, ip: 0, stack_base: base as u32, is_try };
        let old = std::mem::replace(&mut s.cur, fr);
        s.frames.push(Rc::new(old));
        Ok(())
    }

    fn pop_frame(&mut self, s: &mut State) {
        match &s.par {
            Some(p) if p.tid == 1 => s.stack2.truncate(s.cur.stack_base as usize),
            _ => s.stack.truncate(s.cur.stack_base as usize),
        }
        let f = s.frames.pop().unwrap();
        s.cur = match Rc::try_unwrap(f) {
            Ok(f) => f,
            Err(f) => (*f).clone(),
        };
    }

    /// Finish the call instruction the current frame is stopped at.
    fn finish_call(&mut self, s: &mut State, rv: &[Val]) -> X<()> {
        let f = s.cur.f.clone();
        match &f.code[s.cur.ip as usize] {
            Inst::Call { d, nret, inv, .. } => {
                if *d != u32::MAX {
                    if rv.len() != *nret as usize {
                        return unsup("return arity mismatch");
                    }
                    for k in 0..rv.len() {
                        s.cur.regs[*d as usize + k] = rv[k];
                    }
                }
                match inv {
                    Some((n, _)) => self.goto(s, *n),
                    None => s.cur.ip += 1,
                }
                Ok(())
            }
            _ => unsup("internal: return to a non-call"),
        }
    }

    /// Unwind from the current frame's current instruction.
    fn unwind(&mut self, s: &mut State) -> X<()> {
        s.unwinding = true;
        loop {
            let f = s.cur.f.clone();
            if let Inst::Call { inv: Some((_, u)), .. } = &f.code[s.cur.ip as usize] {
                self.goto(s, *u);
                return Ok(());
            }
            if s.frames.is_empty() {
                return viol("panic", "a panic escaped the harness");
            }
            let was_try = s.cur.is_try;
            self.pop_frame(s);
            if was_try {
                s.unwinding = false;
                return self.finish_call(s, &[Val::C(1)]);
            }
        }
    }

    fn in_try(&self, s: &State) -> bool {
        s.cur.is_try || s.frames.iter().any(|f| f.is_try)
    }

    fn classify(&mut self, i: u32) -> Special {
        let n = self.p.fn_name(i);
        let sp = match n.as_str() {
            "sx_u8" => Special::Sym(8),
            "sx_u16" => Special::Sym(16),
            "sx_u32" => Special::Sym(32),
            "sx_u64" => Special::Sym(64),
            "sx_choice" => Special::Choice,
            "sx_fork" => Special::Fork,
            "sx_assume" => Special::Assume,
            "sx_assert" => Special::Assert,
            "sx_trace" => Special::Trace,
            "sx_cover" => Special::Cover,
            "sx_try" => Special::Try,
            "sx_throw" => Special::Throw,
            "sx_par" => Special::Par,
            "sx_live" => Special::Live,
            "sx_is_symbolic" => Special::IsSym,
            "abort" | "_exit" | "exit" => Special::Abort,
            n if n.contains("___rustc12___rust_alloc") => Special::Alloc,
            n if n.contains("___rustc19___rust_alloc_zeroed") => Special::AllocZeroed,
            n if n.contains("___rustc14___rust_dealloc") => Special::Dealloc,
            n if n.contains("___rustc14___rust_realloc") => Special::Realloc,
            n if n.contains("___rust_no_alloc_shim") => Special::Nop,
            n if n.contains("panic_nounwind")
                || n.contains("panic_cannot_unwind")
                || n.contains("panic_in_cleanup")
                || n.contains("___rust_abort")
                || n.contains("abort_internal")
                || n.contains("12handle_alloc_error")
                || n.contains("alloc_error_handler")
                || n.contains("rust_foreign_exception")
                || n.contains("rust_drop_panic") =>
            {
                Special::Abort
            }
            n if n.contains("4core9panicking") || n.contains("3std9panicking") || n.contains("rust_begin_unwind") => {
                Special::Panic
            }
            n => {
                if self.p.is_defined(n) {
                    Special::Body
                } else {
                    Special::Missing
                }
            }
        };
        while self.special.len() <= i as usize {
            self.special.push(None);
        }
        self.special[i as usize] = Some(sp);
        sp
    }

    fn do_panic(&mut self, s: &mut State, what: &str) -> X<()> {
        if s.unwinding {
            return viol("abort", format!("panic while unwinding: {}", what));
        }
        if !self.in_try(s) {
            return viol("panic", format!("unexpected panic: {}", what));
        }
        self.unwind(s)
    }

    fn call(&mut self, s: &mut State, fi: u32, args: &[(Opd, u8)], nret: u32) -> X<()> {
        let sp = match self.special.get(fi as usize) {
            Some(Some(x)) => *x,
            _ => self.classify(fi),
        };
        if sp == Special::Body {
            let f = match self.p.func(fi) {
                Ok(f) => f,
                Err(e) => return unsup(e),
            };
            let mut av = Vec::with_capacity(args.len());
            for (o, _) in args {
                av.push(self.get(s, *o));
            }
            return self.enter(s, f, &av, false);
        }
        let mut av = Vec::with_capacity(args.len());
        for (o, _) in args {
            av.push(self.get(s, *o));
        }
        let rv: Option<Val> = match sp {
            Special::Body => unreachable!(),
            Special::Missing => return unsup(format!("call of external function {}", self.p.fn_name(fi))),
            Special::Nop => None,
            Special::Alloc | Special::AllocZeroed => {
                let n = self.concretize(s, av[0])?;
                let al = self.concretize(s, av[1])?;
                Some(Val::C(self.new_heap(s, n, al, sp == Special::AllocZeroed)?))
            }
            Special::Dealloc => {
                let p = self.concretize(s, av[0])?;
                let n = self.concretize(s, av[1])?;
                let al = self.concretize(s, av[2])?;
                self.free(s, p, Some(n), al)?;
                None
            }
            Special::Realloc => {
                let p = self.concretize(s, av[0])?;
                let old = self.concretize(s, av[1])?;
                let al = self.concretize(s, av[2])?;
                let new = self.concretize(s, av[3])?;
                let q = self.new_heap(s, new, al, false)?;
                self.memcpy(s, q, p, old.min(new))?;
                self.free(s, p, Some(old), al)?;
                Some(Val::C(q))
            }
            Special::Panic => {
                let mut what = short(&self.p.fn_name(fi));
                let mut fr = short(&s.cur.f.name);
                what.push_str(" in ");
                fr.truncate(120);
                what.push_str(&fr);
                return self.do_panic(s, &what);
            }
            Special::Abort => {
                return viol("abort", format!("abort: {} in {}", short(&self.p.fn_name(fi)), short(&s.cur.f.name)))
            }
            Special::Sym(w) => {
                let e = self.fresh(s, w);
                s.inputs.push(Val::S(e));
                Some(Val::S(e))
            }
            Special::Choice => {
                let n = self.concretize(s, av[0])?;
                if n == 0 {
                    return Err(Stop::Pruned);
                }
                if n == 1 {
                    s.inputs.push(Val::C(0));
                    return self.finish_call(s, &[Val::C(0)]);
                }
                // a fresh symbolic input below n
                let w = if n <= 256 { 8 } else { 64 };
                let b = self.fresh(s, w);
                let e = self.ar.zext(b, 64);
                s.inputs.push(Val::S(e));
                if n != 256 {
                    let k = self.ar.konst(n, w);
                    let c = self.ar.ult(b, k);
                    self.assume(s, c)?;
                }
                Some(Val::S(e))
            }
            // one path for each value
            Special::Fork => Some(Val::C(self.concretize(s, av[0])?)),
            Special::Assume => {
                match av[0] {
                    Val::C(c) => {
                        if c & 1 == 0 {
                            return Err(Stop::Pruned);
                        }
                    }
                    Val::S(e) => {
                        if self.ar.has_undef(e) {
                            return unsup("assume of an uninitialised value");
                        }
                        self.assume(s, e)?;
                    }
                }
                None
            }
            Special::Assert => {
                let mut msg = None;
                match av[0] {
                    Val::C(c) => {
                        self.st.asserts_concrete += 1;
                        if c & 1 == 0 {
                            msg = Some(());
                        }
                    }
                    Val::S(e) => {
                        self.st.asserts_solver += 1;
                        if self.ar.has_undef(e) {
                            return viol("uninit", "an assertion depends on an uninitialised value");
                        }
                        if self.known(s, e) != Some(true) {
                            let n = self.ar.not1(e);
                            match self.solver.check(&self.ar, &s.pc, Some(n)) {
                                Answer::Sat(m) => {
                                    s.model = Rc::new(m);
                                    msg = Some(());
                                }
                                Answer::Unsat => {}
                                Answer::Unknown => return unsup("solver returned unknown"),
                            }
                        }
                    }
                }
                if msg.is_some() {
                    let p = self.concretize(s, av[1])?;
                    let n = self.concretize(s, av[2])?;
                    let t = self.cstr(s, p, n.min(200));
                    return viol("assert", t);
                }
                None
            }
            Special::Trace => {
                let w = args[0].1;
                if let Val::S(e) = av[0] {
                    if self.ar.has_undef(e) {
                        return viol("uninit", "an observed result is uninitialised");
                    }
                }
                s.trace.push((av[0], w));
                None
            }
            Special::Cover => {
                let p = self.concretize(s, av[0])?;
                let n = self.concretize(s, av[1])?;
                let t = self.cstr(s, p, n.min(100));
                *self.st.covers.entry(t).or_insert(0) += 1;
                None
            }
            Special::Try => {
                let f = self.concretize(s, av[0])?;
                if f >> 44 != 4 {
                    return unsup("sx_try of a non-function");
                }
                let idx = ((f - FUNC) >> 4) as u32;
                let f = match self.p.func(idx) {
                    Ok(f) => f,
                    Err(e) => return unsup(e),
                };
                return self.enter(s, f, &[av[1]], true);
            }
            Special::Par => return self.par_start(s, &av),
            Special::Throw => return self.do_panic(s, "sx_throw"),
            Special::Live => Some(Val::C(s.live as u64)),
            Special::IsSym => Some(Val::C(1)),
        };
        match rv {
            Some(v) => self.finish_call(s, &[v]),
            None => {
                if nret != 0 && sp != Special::Nop {
                    return unsup("missing return value");
                }
                self.finish_call(s, &[])
            }
        }
    }

    // ------------------------------------------------------------ main loop

    fn late(&self) -> bool {
        let now = Instant::now();
        now > self.lim.deadline || (now - self.start).as_secs_f64() > self.lim.job_time || STOP.load(std::sync::atomic::Ordering::Relaxed)
    }

    fn run(&mut self, s: &mut State) -> Stop {
        let mut n = 0u64;
        loop {
            n += 1;
            if n & 0xffff == 0 && self.late() {
                return Stop::Unsupported("time limit reached inside a path".into());
            }
            s.steps += 1;
            self.st.steps += 1;
            if s.steps > self.lim.max_steps {
                return Stop::Violation("nontermination".into(), format!("more than {} steps on one path", self.lim.max_steps));
            }
            if let Err(e) = self.step(s) {
                return e;
            }
        }
    }

    fn step(&mut self, s: &mut State) -> X<()> {
        let f: *const Func = Rc::as_ptr(&s.cur.f);
        // the frame's Rc keeps the function alive; programs also cache every decoded function
        let inst = unsafe { &(&(*f).code)[s.cur.ip as usize] };
        match inst {
            Inst::Bin { op, w, d, a, b } => {
                let (x, y) = (self.get(s, *a), self.get(s, *b));
                let v = match (x, y) {
                    (Val::C(x), Val::C(y)) => match eval_bin(*op, *w, x, y) {
                        Some(v) => Val::C(v),
                        None => return viol("ub", "division by zero"),
                    },
                    _ => {
                        let (ex, ey) = (self.expr(x, *w), self.expr(y, *w));
                        if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
                            let z = self.ar.konst(0, *w);
                            let q = self.ar.eq(ey, z);
                            if self.branch(s, q)? {
                                return viol("ub", "division by zero");
                            }
                        }
                        let e = self.ar.bin(*op, ex, ey);
                        self.val(e)
                    }
                };
                s.cur.regs[*d as usize] = v;
            }
            Inst::Icmp { p, w, d, a, b } => {
                let (x, y) = (self.get(s, *a), self.get(s, *b));
                let v = match (x, y) {
                    (Val::C(x), Val::C(y)) => {
                        let (sx, sy) = (sext64(x, *w), sext64(y, *w));
                        Val::C(match p {
                            Pred::Eq => x == y,
                            Pred::Ne => x != y,
                            Pred::Ult => x < y,
                            Pred::Ule => x <= y,
                            Pred::Ugt => x > y,
                            Pred::Uge => x >= y,
                            Pred::Slt => sx < sy,
                            Pred::Sle => sx <= sy,
                            Pred::Sgt => sx > sy,
                            Pred::Sge => sx >= sy,
                        } as u64)
                    }
                    _ => {
                        let (x, y) = (self.expr(x, *w), self.expr(y, *w));
                        let a = &mut self.ar;
                        let e = match p {
                            Pred::Eq => a.eq(x, y),
                            Pred::Ne => {
                                let e = a.eq(x, y);
                                a.not1(e)
                            }
                            Pred::Ult => a.ult(x, y),
                            Pred::Ugt => a.ult(y, x),
                            Pred::Ule => {
                                let e = a.ult(y, x);
                                a.not1(e)
                            }
                            Pred::Uge => {
                                let e = a.ult(x, y);
                                a.not1(e)
                            }
                            Pred::Slt => a.slt(x, y),
                            Pred::Sgt => a.slt(y, x),
                            Pred::Sle => {
                                let e = a.slt(y, x);
                                a.not1(e)
                            }
                            Pred::Sge => {
                                let e = a.slt(x, y);
                                a.not1(e)
                            }
                        };
                        self.val(e)
                    }
                };
                s.cur.regs[*d as usize] = v;
            }
            Inst::Select { d, c, a, b, w, ptr } => {
                let cv = self.get(s, *c);
                let v = match cv {
                    Val::C(c) => {
                        let o = if c & 1 != 0 { *a } else { *b };
                        self.get(s, o)
                    }
                    Val::S(ce) => {
                        let (x, y) = (self.get(s, *a), self.get(s, *b));
                        if x == y {
                            x
                        } else if (*ptr || *w >= 32) && !self.ar.has_undef(ce) {
                            if self.branch(s, ce)? {
                                x
                            } else {
                                y
                            }
                        } else {
                            let (x, y) = (self.expr(x, *w), self.expr(y, *w));
                            let e = self.ar.ite(ce, x, y);
                            self.val(e)
                        }
                    }
                };
                s.cur.regs[*d as usize] = v;
            }
            Inst::ZExt { d, a, from: _, to } => {
                let v = match self.get(s, *a) {
                    Val::C(c) => Val::C(c),
                    Val::S(e) => {
                        let e = self.ar.zext(e, *to);
                        self.val(e)
                    }
                };
                s.cur.regs[*d as usize] = v;
            }
            Inst::SExt { d, a, from, to } => {
                let v = match self.get(s, *a) {
                    Val::C(c) => Val::C(sext64(c, *from) as u64 & mask(*to)),
                    Val::S(e) => {
                        let e = self.ar.sext(e, *to);
                        self.val(e)
                    }
                };
                s.cur.regs[*d as usize] = v;
            }
            Inst::Trunc { d, a, to, .. } => {
                let v = match self.get(s, *a) {
                    Val::C(c) => Val::C(c & mask(*to)),
                    Val::S(e) => {
                        let e = self.ar.extract(e, 0, *to);
                        self.val(e)
                    }
                };
                s.cur.regs[*d as usize] = v;
            }
            Inst::Mov { d, a, .. } => {
                let v = self.get(s, *a);
                s.cur.regs[*d as usize] = v;
            }
            Inst::Pack { d, parts } => {
                let (o, w) = parts[0];
                let v = self.get(s, o);
                let mut e = self.expr(v, w);
                for (o, w) in parts[1..].iter() {
                    let v = self.get(s, *o);
                    let h = self.expr(v, *w);
                    e = self.ar.concat(h, e);
                }
                s.cur.regs[*d as usize] = self.val(e);
            }
            Inst::Unpack { d, a, aw, lo, w } => {
                let v = self.get(s, *a);
                let e = self.expr(v, *aw);
                let e = self.ar.extract(e, *lo, *w);
                s.cur.regs[*d as usize] = self.val(e);
            }
            Inst::Load { d, p, off, w, ord } => {
                let pv = self.get(s, *p);
                let addr = self.concretize(s, pv)?.wrapping_add(*off);
                let v = if *ord == Mo::Plain {
                    self.load(s, addr, *w)?
                } else {
                    if self.sched_point(s, addr)? {
                        return Ok(());
                    }
                    let v = self.load_as(s, addr, *w, Acc::AtomicRead)?;
                    if let Some(p) = &mut s.par {
                        p.clocks.load(p.tid, addr, *ord);
                    }
                    self.synced(s);
                    v
                };
                s.cur.regs[*d as usize] = v;
            }
            Inst::Store { v, p, off, w, ord } => {
                let pv = self.get(s, *p);
                let addr = self.concretize(s, pv)?.wrapping_add(*off);
                let v = self.get(s, *v);
                if *ord == Mo::Plain {
                    self.store(s, addr, *w, v)?;
                } else {
                    if self.sched_point(s, addr)? {
                        return Ok(());
                    }
                    self.store_as(s, addr, *w, v, Acc::AtomicWrite)?;
                    if let Some(p) = &mut s.par {
                        p.clocks.store(p.tid, addr, *ord, false);
                    }
                    self.synced(s);
                }
            }
            Inst::Gep { d, base, off, terms } => {
                let b = self.get(s, *base);
                let mut acc = match b {
                    Val::C(c) => Val::C(c.wrapping_add(*off)),
                    Val::S(e) => {
                        let k = self.ar.konst(*off, 64);
                        let e = self.ar.bin(Op::Add, e, k);
                        self.val(e)
                    }
                };
                for (o, scale, iw) in terms.iter() {
                    let v = self.get(s, *o);
                    acc = match (acc, v) {
                        (Val::C(a), Val::C(i)) => {
                            Val::C(a.wrapping_add((sext64(i, *iw) as u64).wrapping_mul(*scale)))
                        }
                        (a, i) => {
                            let a = self.expr(a, 64);
                            let i = self.expr(i, *iw);
                            let i = self.ar.sext(i, 64);
                            let k = self.ar.konst(*scale, 64);
                            let t = self.ar.bin(Op::Mul, i, k);
                            let e = self.ar.bin(Op::Add, a, t);
                            self.val(e)
                        }
                    };
                }
                s.cur.regs[*d as usize] = acc;
            }
            Inst::Alloca { d, size } => {
                if *size >= 1 << (OBJ_SHIFT - 1) {
                    return unsup("stack object too large");
                }
                let (st, base) = match &s.par {
                    Some(p) if p.tid == 1 => (&mut s.stack2, 5 << 44),
                    _ => (&mut s.stack, STACK),
                };
                let id = st.len() as u64;
                st.push(Rc::new(Obj::uninit(*size, 16)));
                s.cur.regs[*d as usize] = Val::C(base + (id << OBJ_SHIFT));
            }
            Inst::Call { callee, args, nret, .. } => {
                let fi = match callee {
                    Callee::Fn(i) => *i,
                    Callee::Ind(o) => {
                        let v = self.get(s, *o);
                        let a = self.concretize(s, v)?;
                        if a >> 44 != 4 {
                            return viol("memory", format!("indirect call of a non-function {:#x}", a));
                        }
                        ((a - FUNC) >> 4) as u32
                    }
                };
                return self.call(s, fi, args, *nret);
            }
            Inst::Intr { k, args, d, w, rw } => {
                self.intrinsic(s, *k, args, *d, *w, *rw)?;
            }
            Inst::Rmw { op, w, d, p, v, ord } => {
                let pv = self.get(s, *p);
                let addr = self.concretize(s, pv)?;
                if self.sched_point(s, addr)? {
                    return Ok(());
                }
                let old = self.load_as(s, addr, *w, Acc::AtomicRead)?;
                let v = self.get(s, *v);
                let new = match (op, old, v) {
                    (RmwOp::Xchg, _, v) => v,
                    (_, Val::C(a), Val::C(b)) => Val::C(
                        match op {
                            RmwOp::Add => a.wrapping_add(b),
                            RmwOp::Sub => a.wrapping_sub(b),
                            RmwOp::And => a & b,
                            RmwOp::Or => a | b,
                            RmwOp::Xor => a ^ b,
                            RmwOp::UMax => a.max(b),
                            RmwOp::UMin => a.min(b),
                            RmwOp::Xchg => b,
                        } & mask(*w),
                    ),
                    _ => {
                        if let Val::S(e) = old {
                            if self.ar.has_undef(e) {
                                return viol("uninit", "atomic update of an uninitialised value");
                            }
                        }
                        return unsup("symbolic atomic update");
                    }
                };
                self.store_as(s, addr, *w, new, Acc::AtomicWrite)?;
                if let Some(p) = &mut s.par {
                    p.clocks.load(p.tid, addr, *ord);
                    p.clocks.store(p.tid, addr, *ord, true);
                }
                self.synced(s);
                s.cur.regs[*d as usize] = old;
            }
            Inst::CmpXchg { w, d, p, old, new, ord, fail } => {
                let pv = self.get(s, *p);
                let addr = self.concretize(s, pv)?;
                if self.sched_point(s, addr)? {
                    return Ok(());
                }
                let cur = self.load_as(s, addr, *w, Acc::AtomicRead)?;
                let o = self.get(s, *old);
                let eq = match (cur, o) {
                    (Val::C(a), Val::C(b)) => a == b,
                    (a, b) => {
                        let (a, b) = (self.expr(a, *w), self.expr(b, *w));
                        let e = self.ar.eq(a, b);
                        self.branch(s, e)?
                    }
                };
                if eq {
                    let v = self.get(s, *new);
                    self.store_as(s, addr, *w, v, Acc::AtomicWrite)?;
                }
                if let Some(p) = &mut s.par {
                    p.clocks.load(p.tid, addr, if eq { *ord } else { *fail });
                    if eq {
                        p.clocks.store(p.tid, addr, *ord, true);
                    }
                }
                self.synced(s);
                s.cur.regs[*d as usize] = cur;
                s.cur.regs[*d as usize + 1] = Val::C(eq as u64);
            }
            Inst::Fence { ord } => {
                if let Some(p) = &mut s.par {
                    p.clocks.fence(p.tid, *ord);
                }
            }
            Inst::Br(e) => {
                self.goto(s, *e);
                return Ok(());
            }
            Inst::CBr { c, t, f } => {
                let v = self.get(s, *c);
                let b = self.branch_val(s, v)?;
                self.goto(s, if b { *t } else { *f });
                return Ok(());
            }
            Inst::Switch { v, w, cases, def } => {
                let x = self.get(s, *v);
                let e = match x {
                    Val::C(c) => cases.iter().find(|k| k.0 == c).map(|k| k.1).unwrap_or(*def),
                    Val::S(x) => {
                        let mut hit = None;
                        for (c, e) in cases.iter() {
                            let k = self.ar.konst(*c, *w);
                            let q = self.ar.eq(x, k);
                            if self.branch(s, q)? {
                                hit = Some(*e);
                                break;
                            }
                        }
                        hit.unwrap_or(*def)
                    }
                };
                self.goto(s, e);
                return Ok(());
            }
            Inst::Ret { vals } => {
                let mut rv = Vec::with_capacity(vals.len());
                for o in vals.iter() {
                    rv.push(self.get(s, *o));
                }
                if s.frames.is_empty() {
                    if s.par.is_some() {
                        return self.thread_done(s);
                    }
                    return Err(Stop::Done);
                }
                let was_try = s.cur.is_try;
                self.pop_frame(s);
                if was_try {
                    return self.finish_call(s, &[Val::C(0)]);
                }
                return self.finish_call(s, &rv);
            }
            Inst::Unreachable => {
                return viol("ub", format!("reached code the compiler proved unreachable (undefined behaviour) in {}", short(unsafe { &(*f).name })));
            }
            Inst::LandingPad { d } => {
                s.cur.regs[*d as usize] = Val::C(0);
                s.cur.regs[*d as usize + 1] = Val::C(0);
            }
            Inst::Resume => {
                // continue unwinding in the caller
                if s.frames.is_empty() {
                    return viol("panic", "a panic escaped the harness");
                }
                let was_try = s.cur.is_try;
                self.pop_frame(s);
                if was_try {
                    s.unwinding = false;
                    return self.finish_call(s, &[Val::C(1)]);
                }
                return self.unwind(s);
            }
            Inst::Nop => {}
            Inst::Unsup(m) => return unsup(format!("IR not supported: {}", m)),
        }
        s.cur.ip += 1;
        Ok(())
    }

    fn intrinsic(&mut self, s: &mut State, k: Intr, args: &[(Opd, u8)], d: u32, w: u8, rw: u8) -> X<()> {
        let mut av = [Val::C(0); 5];
        for (i, (o, _)) in args.iter().enumerate().take(5) {
            av[i] = self.get(s, *o);
        }
        let two = |av: &[Val; 5]| match (av[0], av[1]) {
            (Val::C(a), Val::C(b)) => Some((a, b)),
            _ => None,
        };
        let r: Val = match k {
            Intr::Nop | Intr::Assume => return Ok(()),
            Intr::Trap => return viol("abort", "trap"),
            Intr::MemCpy => {
                let a = self.concretize(s, av[0])?;
                let b = self.concretize(s, av[1])?;
                let n = self.concretize(s, av[2])?;
                return self.memcpy(s, a, b, n);
            }
            Intr::MemSet => {
                let a = self.concretize(s, av[0])?;
                let n = self.concretize(s, av[2])?;
                if n == 0 {
                    return Ok(());
                }
                match av[1] {
                    Val::C(v) => {
                        let (r, i, off) = self.locate(s, a, n, true)?;
                        self.obj_mut(s, r, i).fill(off, n as usize, v as u8);
                    }
                    v => {
                        for j in 0..n {
                            self.store(s, a + j, 8, v)?;
                        }
                    }
                }
                return Ok(());
            }
            Intr::MemCmp => {
                let a = self.concretize(s, av[0])?;
                let b = self.concretize(s, av[1])?;
                let n = self.concretize(s, av[2])?;
                let mut res = Val::C(0);
                for j in 0..n {
                    let x = self.load(s, a + j, 8)?;
                    let y = self.load(s, b + j, 8)?;
                    let (x, y) = (self.expr(x, 8), self.expr(y, 8));
                    let e = self.ar.eq(x, y);
                    if !self.branch(s, e)? {
                        let l = self.ar.ult(x, y);
                        res = if self.branch(s, l)? { Val::C(mask(rw)) } else { Val::C(1) };
                        break;
                    }
                }
                res
            }
            Intr::StrLen => {
                let a = self.concretize(s, av[0])?;
                let mut n = 0;
                loop {
                    match self.load(s, a + n, 8)? {
                        Val::C(0) => break,
                        Val::C(_) => n += 1,
                        _ => return unsup("strlen of symbolic data"),
                    }
                }
                Val::C(n)
            }
            Intr::ThreadLocal | Intr::Expect => av[0],
            Intr::IsConst => Val::C(0),
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => {
                let (x, y) = (self.expr(av[0], w), self.expr(av[1], w));
                let c = match k {
                    Intr::UMax => self.ar.ult(y, x),
                    Intr::UMin => self.ar.ult(x, y),
                    Intr::SMax => self.ar.slt(y, x),
                    _ => self.ar.slt(x, y),
                };
                let e = self.ar.ite(c, x, y);
                self.val(e)
            }
            Intr::UCmp | Intr::SCmp => {
                let (x, y) = (self.expr(av[0], w), self.expr(av[1], w));
                let lt = if k == Intr::UCmp { self.ar.ult(x, y) } else { self.ar.slt(x, y) };
                if self.branch(s, lt)? {
                    Val::C(mask(rw))
                } else {
                    let e = self.ar.eq(x, y);
                    Val::C(!self.branch(s, e)? as u64)
                }
            }
            Intr::UAddO | Intr::USubO | Intr::UMulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                let (r, o) = match two(&av) {
                    Some((a, b)) => {
                        let (sa, sb) = (sext64(a, w) as i128, sext64(b, w) as i128);
                        let (ua, ub) = (a as i128, b as i128);
                        let (r, signed) = match k {
                            Intr::UAddO => (ua + ub, false),
                            Intr::USubO => (ua - ub, false),
                            Intr::UMulO => (((a as u128) * (b as u128)) as i128, false),
                            Intr::SAddO => (sa + sb, true),
                            Intr::SSubO => (sa - sb, true),
                            _ => (sa * sb, true),
                        };
                        let t = r as u64 & mask(w);
                        let o = if signed {
                            sext64(t, w) as i128 != r
                        } else if k == Intr::UMulO {
                            (a as u128) * (b as u128) > mask(w) as u128
                        } else {
                            r < 0 || r > mask(w) as i128
                        };
                        (Val::C(t), Val::C(o as u64))
                    }
                    None => {
                        let (x, y) = (self.expr(av[0], w), self.expr(av[1], w));
                        let ar = &mut self.ar;
                        match k {
                            Intr::UAddO => {
                                let r = ar.bin(Op::Add, x, y);
                                let o = ar.ult(r, x);
                                (self.val(r), self.val(o))
                            }
                            Intr::USubO => {
                                let r = ar.bin(Op::Sub, x, y);
                                let o = ar.ult(x, y);
                                (self.val(r), self.val(o))
                            }
                            Intr::SAddO | Intr::SSubO => {
                                let (op, yy) = if k == Intr::SAddO { (Op::Add, y) } else { (Op::Sub, y) };
                                let r = ar.bin(op, x, yy);
                                let z = ar.konst(0, w);
                                let xn = ar.slt(x, z);
                                let yn = ar.slt(y, z);
                                let rn = ar.slt(r, z);
                                let same = ar.eq(xn, yn);
                                let same = if k == Intr::SAddO { same } else { ar.not1(same) };
                                let diff = ar.eq(xn, rn);
                                let diff = ar.not1(diff);
                                let o = ar.bin(Op::And, same, diff);
                                (self.val(r), self.val(o))
                            }
                            Intr::UMulO if w <= 32 => {
                                let (a2, b2) = (ar.zext(x, 2 * w), ar.zext(y, 2 * w));
                                let p = ar.bin(Op::Mul, a2, b2);
                                let r = ar.extract(p, 0, w);
                                let h = ar.extract(p, w, w);
                                let z = ar.konst(0, w);
                                let o = ar.eq(h, z);
                                let o = ar.not1(o);
                                (self.val(r), self.val(o))
                            }
                            _ => {
                                let a = self.concretize(s, av[0])?;
                                let b = self.concretize(s, av[1])?;
                                if k == Intr::UMulO {
                                    let (r, o) = a.overflowing_mul(b);
                                    (Val::C(r), Val::C(o as u64))
                                } else {
                                    return unsup("symbolic signed multiplication");
                                }
                            }
                        }
                    }
                };
                if d != u32::MAX {
                    s.cur.regs[d as usize] = r;
                    s.cur.regs[d as usize + 1] = o;
                }
                return Ok(());
            }
            Intr::UAddSat | Intr::USubSat => {
                let (x, y) = (self.expr(av[0], w), self.expr(av[1], w));
                let e = if k == Intr::UAddSat {
                    let r = self.ar.bin(Op::Add, x, y);
                    let o = self.ar.ult(r, x);
                    let m = self.ar.konst(mask(w), w);
                    self.ar.ite(o, m, r)
                } else {
                    let r = self.ar.bin(Op::Sub, x, y);
                    let o = self.ar.ult(x, y);
                    let z = self.ar.konst(0, w);
                    self.ar.ite(o, z, r)
                };
                self.val(e)
            }
            Intr::CtPop => {
                let x = self.expr(av[0], w);
                let mut sum = self.ar.konst(0, w);
                for i in 0..w {
                    let b = self.ar.extract(x, i, 1);
                    let b = self.ar.zext(b, w);
                    sum = self.ar.bin(Op::Add, sum, b);
                }
                self.val(sum)
            }
            Intr::CtLz | Intr::CtTz => {
                // the outermost test is that of the bit that counts first
                let x = self.expr(av[0], w);
                let mut e = self.ar.konst(w as u64, w);
                for i in 0..w {
                    let (bit, n) = if k == Intr::CtLz { (i, w - 1 - i) } else { (w - 1 - i, w - 1 - i) };
                    let b = self.ar.extract(x, bit, 1);
                    let n = self.ar.konst(n as u64, w);
                    e = self.ar.ite(b, n, e);
                }
                self.val(e)
            }
            Intr::BSwap => {
                let x = self.expr(av[0], w);
                let mut e = self.ar.extract(x, 0, 8);
                for i in 1..w / 8 {
                    let b = self.ar.extract(x, i * 8, 8);
                    e = self.ar.concat(e, b);
                }
                self.val(e)
            }
            Intr::BitReverse => {
                let x = self.expr(av[0], w);
                let mut e = self.ar.extract(x, 0, 1);
                for i in 1..w {
                    let b = self.ar.extract(x, i, 1);
                    e = self.ar.concat(e, b);
                }
                self.val(e)
            }
            Intr::Abs => {
                let x = self.concretize(s, av[0])?;
                Val::C((sext64(x, w).wrapping_abs() as u64) & mask(w))
            }
            Intr::FShl | Intr::FShr => {
                let n = (self.concretize(s, av[2])? % w as u64) as u8;
                let (a, b) = (self.expr(av[0], w), self.expr(av[1], w));
                // the lowest bit taken of a:b
                let at = if k == Intr::FShl { w - n } else { n };
                let e = if at == 0 {
                    b
                } else if at == w {
                    a
                } else {
                    let lo = self.ar.extract(b, at, w - at);
                    let hi = self.ar.extract(a, 0, at);
                    self.ar.concat(hi, lo)
                };
                self.val(e)
            }
        };
        if d != u32::MAX {
            s.cur.regs[d as usize] = r;
        }
        Ok(())
    }
}

pub fn short(n: &str) -> String {
    // readable fragment of a v0-mangled name: the identifiers it contains
    let b = n.as_bytes();
    let mut out: Vec<&str> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let len: usize = n[i..j].parse().unwrap_or(0);
            let st = if j < b.len() && b[j] == b'_' { j + 1 } else { j };
            if len >= 2 && st + len <= n.len() && n[st..st + len].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && !n[st..].as_bytes()[0].is_ascii_digit() {
                out.push(&n[st..st + len]);
                i = st + len;
                continue;
            }
            i = j;
            continue;
        }
        i += 1;
    }
    if out.is_empty() {
        n.to_string()
    } else {
        out.join("::")
    }
}
