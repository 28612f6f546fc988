//! LLVM textual IR: lazy parser and decoder into a flat register form.
//! Aggregates and vectors are flattened into consecutive scalar slots.
use crate::expr::Op;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Opd {
    R(u32),
    C(u64),
    U(u8),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    MemCpy,
    MemSet,
    MemCmp,
    StrLen,
    UMax,
    UMin,
    SMax,
    SMin,
    UCmp,
    SCmp,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UAddSat,
    USubSat,
    CtPop,
    CtLz,
    CtTz,
    Abs,
    FShl,
    FShr,
    BSwap,
    BitReverse,
    Expect,
    Assume,
    IsConst,
    Trap,
    Nop,
    ThreadLocal,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opd),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mo {
    /// not atomic
    Plain,
    Relaxed,
    Acquire,
    Release,
    AcqRel,
    SeqCst,
}
impl Mo {
    pub fn acquires(self) -> bool {
        matches!(self, Mo::Acquire | Mo::AcqRel | Mo::SeqCst)
    }
    pub fn releases(self) -> bool {
        matches!(self, Mo::Release | Mo::AcqRel | Mo::SeqCst)
    }
}
fn mo(w: &str) -> Option<Mo> {
    Some(match w {
        "unordered" | "monotonic" => Mo::Relaxed,
        "acquire" => Mo::Acquire,
        "release" => Mo::Release,
        "acq_rel" => Mo::AcqRel,
        "seq_cst" => Mo::SeqCst,
        _ => return None,
    })
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    UMax,
    UMin,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: Op, w: u8, d: u32, a: Opd, b: Opd },
    Icmp { p: Pred, w: u8, d: u32, a: Opd, b: Opd },
    Select { d: u32, c: Opd, a: Opd, b: Opd, w: u8, ptr: bool },
    ZExt { d: u32, a: Opd, from: u8, to: u8 },
    SExt { d: u32, a: Opd, from: u8, to: u8 },
    Trunc { d: u32, a: Opd, from: u8, to: u8 },
    Mov { d: u32, a: Opd, w: u8 },
    /// d = concat of parts (low first)
    Pack { d: u32, parts: Box<[(Opd, u8)]> },
    /// d = bits [lo, lo+w) of a (width aw)
    Unpack { d: u32, a: Opd, aw: u8, lo: u8, w: u8 },
    Load { d: u32, p: Opd, off: u64, w: u8, ord: Mo },
    Store { v: Opd, p: Opd, off: u64, w: u8, ord: Mo },
    Gep { d: u32, base: Opd, off: u64, terms: Box<[(Opd, u64, u8)]> },
    Alloca { d: u32, size: u64 },
    Call { callee: Callee, args: Box<[(Opd, u8)]>, d: u32, nret: u32, rw: u8, inv: Option<(u32, u32)> },
    Intr { k: Intr, args: Box<[(Opd, u8)]>, d: u32, w: u8, rw: u8 },
    Rmw { op: RmwOp, w: u8, d: u32, p: Opd, v: Opd, ord: Mo },
    CmpXchg { w: u8, d: u32, p: Opd, old: Opd, new: Opd, ord: Mo, fail: Mo },
    Fence { ord: Mo },
    Br(u32),
    CBr { c: Opd, t: u32, f: u32 },
    Switch { v: Opd, w: u8, cases: Box<[(u64, u32)]>, def: u32 },
    Ret { vals: Box<[Opd]> },
    Unreachable,
    LandingPad { d: u32 },
    Resume,
    Nop,
    Unsup(Box<str>),
}

#[derive(Debug)]
pub struct Edge {
    pub target: u32,
    pub moves: Box<[(u32, Opd, u8)]>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub idx: u32,
    pub nslots: u32,
    pub params: Vec<u32>,
    pub code: Vec<Inst>,
    pub edges: Vec<Edge>,
}

// ---------------------------------------------------------------- lexer

#[derive(Clone, Copy, Debug, PartialEq)]
enum T<'a> {
    Loc(&'a str),
    Glob(&'a str),
    Word(&'a str),
    Num(&'a str),
    Str(&'a str),
    Meta,
    Attr,
    Lab(&'a str),
    P(char),
    End,
}

#[derive(Clone, Copy, Debug)]
struct Tok<'a> {
    t: T<'a>,
    indent: i32, // >=0: first token of a line at this indentation
}

fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn lex(src: &str) -> Result<Vec<Tok<'_>>, String> {
    let b = src.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let mut bol = true;
    let mut col = 0;
    while i < b.len() {
        let c = b[i];
        if c == b'\n' {
            bol = true;
            col = 0;
            i += 1;
            continue;
        }
        if c == b' ' || c == b'\t' || c == b'\r' {
            if bol {
                col += 1;
            }
            i += 1;
            continue;
        }
        if c == b';' {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        let indent = if bol { col } else { -1 };
        let was_bol = bol;
        bol = false;
        let t = match c {
            b'%' | b'@' => {
                i += 1;
                let s;
                if b[i] == b'"' {
                    let st = i + 1;
                    i += 1;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    s = &src[st..i];
                    i += 1;
                } else {
                    let st = i;
                    while i < b.len() && idch(b[i]) {
                        i += 1;
                    }
                    s = &src[st..i];
                }
                if c == b'%' {
                    T::Loc(s)
                } else {
                    T::Glob(s)
                }
            }
            b'!' => {
                i += 1;
                if i < b.len() && b[i] == b'{' {
                    let mut depth = 0;
                    while i < b.len() {
                        match b[i] {
                            b'{' => depth += 1,
                            b'}' => {
                                depth -= 1;
                                if depth == 0 {
                                    i += 1;
                                    break;
                                }
                            }
                            _ => {}
                        }
                        i += 1;
                    }
                } else {
                    while i < b.len() && idch(b[i]) {
                        i += 1;
                    }
                    // !DIExpression(...) style
                    if i < b.len() && b[i] == b'(' {
                        let mut depth = 0;
                        while i < b.len() {
                            match b[i] {
                                b'(' => depth += 1,
                                b')' => {
                                    depth -= 1;
                                    if depth == 0 {
                                        i += 1;
                                        break;
                                    }
                                }
                                _ => {}
                            }
                            i += 1;
                        }
                    }
                }
                T::Meta
            }
            b'#' => {
                i += 1;
                let st = i;
                while i < b.len() && idch(b[i]) {
                    i += 1;
                }
                if src[st..i].starts_with("dbg") {
                    while i < b.len() && b[i] != b'\n' {
                        i += 1;
                    }
                    continue;
                }
                T::Attr
            }
            b'"' => {
                let st = i + 1;
                i += 1;
                while b[i] != b'"' {
                    i += 1;
                }
                let s = &src[st..i];
                i += 1;
                if was_bol && i < b.len() && b[i] == b':' {
                    i += 1;
                    T::Lab(s)
                } else {
                    T::Str(s)
                }
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                i += 2;
                while b[i] != b'"' {
                    i += 1;
                }
                let s = &src[st..i];
                i += 1;
                T::Str(s)
            }
            b'.' if i + 2 < b.len() && b[i + 1] == b'.' && b[i + 2] == b'.' => {
                i += 3;
                T::Word("...")
            }
            _ if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) => {
                let st = i;
                i += 1;
                while i < b.len() && (idch(b[i]) || b[i] == b'+') {
                    i += 1;
                }
                let s = &src[st..i];
                if was_bol && i < b.len() && b[i] == b':' {
                    i += 1;
                    T::Lab(s)
                } else {
                    T::Num(s)
                }
            }
            _ if idch(c) => {
                let st = i;
                while i < b.len() && idch(b[i]) {
                    i += 1;
                }
                let s = &src[st..i];
                if was_bol && i < b.len() && b[i] == b':' {
                    i += 1;
                    T::Lab(s)
                } else {
                    T::Word(s)
                }
            }
            _ => {
                i += 1;
                T::P(c as char)
            }
        };
        out.push(Tok { t, indent });
    }
    out.push(Tok { t: T::End, indent: 0 });
    Ok(out)
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                out.push(b'\\');
                i += 2;
            } else {
                out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

// ---------------------------------------------------------------- module

/// The raw module text with an index of its functions and globals (shared by all threads).
pub struct ModuleText {
    pub text: String,
    pub funcs: HashMap<String, (usize, usize)>,
    pub globals: HashMap<String, (usize, usize)>,
    pub types: HashMap<String, (usize, usize)>,
}

fn sym_at(s: &str) -> Option<(&str, usize)> {
    // s starts just after '@' or '%'
    if let Some(r) = s.strip_prefix('"') {
        let e = r.find('"')?;
        Some((&r[..e], e + 2))
    } else {
        let e = s.bytes().position(|c| !idch(c)).unwrap_or(s.len());
        Some((&s[..e], e))
    }
}

impl ModuleText {
    pub fn load(path: &str) -> Result<Self, String> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
        let mut funcs = HashMap::new();
        let mut globals = HashMap::new();
        let mut types = HashMap::new();
        let mut pos = 0;
        let mut cur: Option<(String, usize)> = None;
        for line in text.split_inclusive('\n') {
            let start = pos;
            pos += line.len();
            if let Some((n, s)) = &cur {
                if line.starts_with('}') {
                    funcs.insert(n.clone(), (*s, pos));
                    cur = None;
                }
                continue;
            }
            if line.starts_with("define ") {
                let at = line.find('@').ok_or("define without name")?;
                let (n, _) = sym_at(&line[at + 1..]).ok_or("bad name")?;
                cur = Some((n.to_string(), start));
            } else if line.starts_with('@') {
                let (n, _) = sym_at(&line[1..]).ok_or("bad global")?;
                globals.insert(n.to_string(), (start, pos));
            } else if line.starts_with('%') {
                let (n, _) = sym_at(&line[1..]).ok_or("bad type")?;
                types.insert(n.to_string(), (start, pos));
            }
        }
        Ok(ModuleText { text, funcs, globals, types })
    }
}

pub const HEAP: u64 = 1 << 44;
pub const STACK: u64 = 2 << 44;
pub const GLOBAL: u64 = 3 << 44;
pub const FUNC: u64 = 4 << 44;
pub const OBJ_SHIFT: u32 = 24;

pub struct GlobalInit {
    pub name: String,
    pub size: u64,
    pub bytes: Option<Rc<Vec<u8>>>,
    pub constant: bool,
}

/// Per-thread decoded view of the module.
pub struct Program<'m> {
    pub m: &'m ModuleText,
    fn_idx: RefCell<HashMap<String, u32>>,
    fn_names: RefCell<Vec<String>>,
    fns: RefCell<Vec<Option<Rc<Func>>>>,
    gl_idx: RefCell<HashMap<String, u32>>,
    gl_names: RefCell<Vec<String>>,
    gls: RefCell<Vec<Option<Rc<GlobalInit>>>>,
}

impl<'m> Program<'m> {
    pub fn new(m: &'m ModuleText) -> Self {
        Program {
            m,
            fn_idx: Default::default(),
            fn_names: Default::default(),
            fns: Default::default(),
            gl_idx: Default::default(),
            gl_names: Default::default(),
            gls: Default::default(),
        }
    }

    pub fn fn_id(&self, name: &str) -> u32 {
        if let Some(&i) = self.fn_idx.borrow().get(name) {
            return i;
        }
        let mut v = self.fn_names.borrow_mut();
        let i = v.len() as u32;
        v.push(name.to_string());
        self.fns.borrow_mut().push(None);
        self.fn_idx.borrow_mut().insert(name.to_string(), i);
        i
    }
    pub fn fn_name(&self, i: u32) -> String {
        self.fn_names.borrow()[i as usize].clone()
    }
    pub fn fn_count(&self) -> usize {
        self.fn_names.borrow().len()
    }
    pub fn is_defined(&self, name: &str) -> bool {
        self.m.funcs.contains_key(name)
    }

    pub fn func(&self, i: u32) -> Result<Rc<Func>, String> {
        if let Some(f) = &self.fns.borrow()[i as usize] {
            return Ok(f.clone());
        }
        let name = self.fn_name(i);
        let &(s, e) = self
            .m
            .funcs
            .get(&name)
            .ok_or_else(|| format!("no body for function {}", name))?;
        let f = Dec::function(self, &self.m.text[s..e], &name, i)?;
        let f = Rc::new(f);
        self.fns.borrow_mut()[i as usize] = Some(f.clone());
        Ok(f)
    }

    fn gl_id(&self, name: &str) -> u32 {
        if let Some(&i) = self.gl_idx.borrow().get(name) {
            return i;
        }
        let mut v = self.gl_names.borrow_mut();
        let i = v.len() as u32;
        v.push(name.to_string());
        self.gls.borrow_mut().push(None);
        self.gl_idx.borrow_mut().insert(name.to_string(), i);
        i
    }

    /// The address of a global or function.
    pub fn addr_of(&self, name: &str) -> u64 {
        if self.m.globals.contains_key(name) {
            // alias?
            GLOBAL + ((self.gl_id(name) as u64) << OBJ_SHIFT)
        } else {
            FUNC + ((self.fn_id(name) as u64) << 4)
        }
    }

    pub fn global(&self, i: u32) -> Result<Rc<GlobalInit>, String> {
        if let Some(g) = self.gls.borrow().get(i as usize).and_then(|x| x.clone()) {
            return Ok(g);
        }
        let name = self
            .gl_names
            .borrow()
            .get(i as usize)
            .cloned()
            .ok_or("access to an unknown global")?;
        let (s, e) = self.m.globals[&name];
        let g = Rc::new(Dec::global(self, &self.m.text[s..e], &name)?);
        self.gls.borrow_mut()[i as usize] = Some(g.clone());
        Ok(g)
    }
}

// ---------------------------------------------------------------- types

fn align_of(t: &Ty) -> u64 {
    match t {
        Ty::Int(w) => {
            let b = ((*w as u64) + 7) / 8;
            b.next_power_of_two().min(16)
        }
        Ty::Ptr => 8,
        Ty::Arr(_, e) => align_of(e),
        Ty::Vec(n, e) => (n * size_of(e)).next_power_of_two(),
        Ty::Struct(v, packed) => {
            if *packed {
                1
            } else {
                v.iter().map(align_of).max().unwrap_or(1)
            }
        }
        _ => 1,
    }
}

fn up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

pub fn size_of(t: &Ty) -> u64 {
    match t {
        Ty::Int(w) => up(((*w as u64) + 7) / 8, align_of(t)),
        Ty::Ptr => 8,
        Ty::Arr(n, e) => n * size_of(e),
        Ty::Vec(n, e) => match **e {
            Ty::Int(w) if w < 8 => (n * w as u64 + 7) / 8,
            _ => n * size_of(e),
        },
        Ty::Struct(v, packed) => {
            let mut o = 0;
            for f in v {
                if !packed {
                    o = up(o, align_of(f));
                }
                o += size_of(f);
            }
            up(o, align_of(t))
        }
        _ => 0,
    }
}

fn field_off(v: &[Ty], packed: bool, k: usize) -> u64 {
    let mut o = 0;
    for (i, f) in v.iter().enumerate() {
        if !packed {
            o = up(o, align_of(f));
        }
        if i == k {
            return o;
        }
        o += size_of(f);
    }
    o
}

/// (offset, width, is pointer) of each scalar
fn flat(t: &Ty, off: u64, out: &mut Vec<(u64, u8, bool)>) -> Result<(), String> {
    match t {
        Ty::Void => {}
        Ty::Int(w) if *w <= 64 => out.push((off, *w as u8, false)),
        Ty::Int(128) => {
            out.push((off, 64, false));
            out.push((off + 8, 64, false));
        }
        Ty::Ptr => out.push((off, 64, true)),
        Ty::Arr(n, e) => {
            if *n > 256 {
                return Err("large array value".into());
            }
            for i in 0..*n {
                flat(e, off + i * size_of(e), out)?;
            }
        }
        Ty::Vec(n, e) => {
            for i in 0..*n {
                flat(e, off + i * size_of(e), out)?;
            }
        }
        Ty::Struct(v, p) => {
            for (k, f) in v.iter().enumerate() {
                flat(f, off + field_off(v, *p, k), out)?;
            }
        }
        t => return Err(format!("unsupported type {:?}", t)),
    }
    Ok(())
}

fn slots(t: &Ty) -> Result<Vec<(u64, u8, bool)>, String> {
    let mut v = vec![];
    flat(t, 0, &mut v)?;
    Ok(v)
}

// ---------------------------------------------------------------- decoder

struct Dec<'p, 'm, 'a> {
    p: &'p Program<'m>,
    t: Vec<Tok<'a>>,
    i: usize,
    slot: HashMap<&'a str, (u32, u32)>,
    nslots: u32,
    code: Vec<Inst>,
    labels: HashMap<&'a str, u32>,
    edges: Vec<(&'a str, &'a str)>, // (pred label, target label)
    phis: HashMap<&'a str, Vec<(u32, Vec<u8>, Vec<(&'a str, Vec<Opd>)>)>>,
    cur: &'a str,
}

type R<X> = Result<X, String>;

fn is_type_word(w: &str) -> bool {
    matches!(
        w,
        "void" | "ptr" | "half" | "float" | "double" | "metadata" | "label" | "token" | "opaque" | "bfloat" | "fp128" | "x86_fp80"
    ) || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

fn parse_num(s: &str, w: u32) -> R<u64> {
    let v: i128 = s.parse::<i128>().map_err(|_| format!("bad number {}", s))?;
    let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
    Ok(v as u64 & m)
}

impl<'p, 'm, 'a> Dec<'p, 'm, 'a> {
    fn new(p: &'p Program<'m>, src: &'a str) -> R<Self> {
        Ok(Dec {
            p,
            t: lex(src)?,
            i: 0,
            slot: HashMap::new(),
            nslots: 0,
            code: vec![],
            labels: HashMap::new(),
            edges: vec![],
            phis: HashMap::new(),
            cur: "",
        })
    }

    fn pk(&self) -> T<'a> {
        self.t[self.i].t
    }
    fn pk2(&self) -> T<'a> {
        self.t.get(self.i + 1).map(|x| x.t).unwrap_or(T::End)
    }
    fn nx(&mut self) -> T<'a> {
        let t = self.t[self.i].t;
        if self.i + 1 < self.t.len() {
            self.i += 1;
        }
        t
    }
    fn eat(&mut self, c: char) -> bool {
        if self.pk() == T::P(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?}, got {:?}", c, self.pk()))
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.pk() == T::Word(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn needw(&mut self, w: &str) -> R<()> {
        if self.eatw(w) {
            Ok(())
        } else {
            Err(format!("expected {}, got {:?}", w, self.pk()))
        }
    }
    /// the orderings that follow an atomic access
    fn orderings(&mut self) -> (Mo, Mo) {
        let mut v = vec![];
        while let T::Word(w) = self.pk() {
            if let Some(o) = mo(w) {
                v.push(o);
            }
            self.i += 1;
            if self.pk() == T::P('(') {
                self.skip_bal();
            }
        }
        let a = v.first().copied().unwrap_or(Mo::Plain);
        (a, v.get(1).copied().unwrap_or(a))
    }
    fn skip_bal(&mut self) {
        // at '(' : skip to the matching ')'
        let mut d = 0;
        loop {
            match self.nx() {
                T::P('(') => d += 1,
                T::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::End => return,
                _ => {}
            }
        }
    }

    fn ty(&mut self) -> R<Ty> {
        let t = match self.nx() {
            T::Word("void") => Ty::Void,
            T::Word("ptr") => {
                if self.eatw("addrspace") {
                    self.skip_bal();
                }
                Ty::Ptr
            }
            T::Word(w) if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) => {
                Ty::Int(w[1..].parse().map_err(|_| "int width")?)
            }
            T::Word(w) if is_type_word(w) => Ty::Other,
            T::P('[') => {
                let n = match self.nx() {
                    T::Num(s) => s.parse::<u64>().map_err(|_| "array len")?,
                    x => return Err(format!("array length {:?}", x)),
                };
                self.needw("x")?;
                let e = self.ty()?;
                self.need(']')?;
                Ty::Arr(n, Box::new(e))
            }
            T::P('{') => {
                let mut v = vec![];
                if !self.eat('}') {
                    loop {
                        v.push(self.ty()?);
                        if !self.eat(',') {
                            break;
                        }
                    }
                    self.need('}')?;
                }
                Ty::Struct(v, false)
            }
            T::P('<') => {
                if self.eat('{') {
                    let mut v = vec![];
                    if !self.eat('}') {
                        loop {
                            v.push(self.ty()?);
                            if !self.eat(',') {
                                break;
                            }
                        }
                        self.need('}')?;
                    }
                    self.need('>')?;
                    Ty::Struct(v, true)
                } else {
                    let n = match self.nx() {
                        T::Num(s) => s.parse::<u64>().map_err(|_| "vec len")?,
                        x => return Err(format!("vector length {:?}", x)),
                    };
                    self.needw("x")?;
                    let e = self.ty()?;
                    self.need('>')?;
                    Ty::Vec(n, Box::new(e))
                }
            }
            T::Loc(n) => {
                let &(s, e) = self.p.m.types.get(n).ok_or_else(|| format!("type {}", n))?;
                let src = &self.p.m.text[s..e];
                let mut d = Dec::new(self.p, src)?;
                d.nx();
                d.need('=')?;
                d.needw("type")?;
                d.ty()?
            }
            x => return Err(format!("type expected, got {:?}", x)),
        };
        Ok(t)
    }

    /// Skip parameter/return attributes up to a type or an operand.
    fn attrs(&mut self, stop_at_type: bool) {
        loop {
            match self.pk() {
                T::Word(w) => {
                    if stop_at_type && is_type_word(w) {
                        return;
                    }
                    if !stop_at_type
                        && matches!(
                            w,
                            "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none"
                                | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "splat"
                                | "sub" | "add" | "trunc" | "blockaddress" | "ptrtoaddr" | "xor"
                        )
                    {
                        return;
                    }
                    if !stop_at_type && w == "asm" {
                        return;
                    }
                    self.i += 1;
                    if w == "align" {
                        if let T::Num(_) = self.pk() {
                            self.i += 1;
                        }
                    }
                    if self.pk() == T::P('(') {
                        self.skip_bal();
                    }
                }
                T::Attr => {
                    self.i += 1;
                }
                T::Str(_) if !stop_at_type => return,
                T::Str(_) => {
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }

    fn reg(&mut self, name: &'a str, n: u32) -> R<u32> {
        if let Some(&(s, k)) = self.slot.get(name) {
            if k != n {
                return Err(format!("slot count mismatch for %{}: {} vs {}", name, k, n));
            }
            return Ok(s);
        }
        let s = self.nslots;
        self.nslots += n;
        self.slot.insert(name, (s, n));
        Ok(s)
    }

    fn cexpr_addr(&mut self) -> R<u64> {
        // constant expression after its keyword has been seen (still at keyword)
        match self.nx() {
            T::Word("getelementptr") => {
                while let T::Word(w) = self.pk() {
                    let _ = w;
                    self.i += 1;
                    if self.pk() == T::P('(') && w == "inrange" {
                        self.skip_bal();
                    }
                }
                self.need('(')?;
                let et = self.ty()?;
                self.need(',')?;
                let bt = self.ty()?;
                let base = self.cscalar(&bt)?;
                let mut off = 0u64;
                let mut cur = et;
                let mut first = true;
                while self.eat(',') {
                    let it = self.ty()?;
                    let v = self.cscalar(&it)?;
                    let v = match it {
                        Ty::Int(w) => crate::expr::sext64(v, w as u8) as u64,
                        _ => v,
                    };
                    if first {
                        off = off.wrapping_add(v.wrapping_mul(size_of(&cur)));
                        first = false;
                    } else {
                        match cur.clone() {
                            Ty::Struct(f, p) => {
                                off = off.wrapping_add(field_off(&f, p, v as usize));
                                cur = f[v as usize].clone();
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                off = off.wrapping_add(v.wrapping_mul(size_of(&e)));
                                cur = *e;
                            }
                            _ => return Err("gep into scalar".into()),
                        }
                    }
                }
                self.need(')')?;
                Ok(base.wrapping_add(off))
            }
            T::Word("inttoptr" | "ptrtoint" | "bitcast" | "ptrtoaddr" | "trunc") => {
                self.need('(')?;
                let t = self.ty()?;
                let v = self.cscalar(&t)?;
                self.needw("to")?;
                let t2 = self.ty()?;
                self.need(')')?;
                Ok(match t2 {
                    Ty::Int(w) if w < 64 => v & ((1 << w) - 1),
                    _ => v,
                })
            }
            T::Word(op @ ("add" | "sub" | "xor")) => {
                while let T::Word(_) = self.pk() {
                    self.i += 1;
                }
                self.need('(')?;
                let t = self.ty()?;
                let a = self.cscalar(&t)?;
                self.need(',')?;
                let t2 = self.ty()?;
                let b = self.cscalar(&t2)?;
                self.need(')')?;
                Ok(match op {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    _ => a ^ b,
                })
            }
            x => Err(format!("constant expression {:?}", x)),
        }
    }

    fn cscalar(&mut self, t: &Ty) -> R<u64> {
        match self.pk() {
            T::Num(s) => {
                self.i += 1;
                match t {
                    Ty::Int(w) => parse_num(s, *w),
                    _ => Err("non-integer number".into()),
                }
            }
            T::Word("true") => {
                self.i += 1;
                Ok(1)
            }
            T::Word("false" | "null" | "none" | "zeroinitializer") => {
                self.i += 1;
                Ok(0)
            }
            T::Word("undef" | "poison") => {
                self.i += 1;
                Ok(0)
            }
            T::Glob(n) => {
                self.i += 1;
                Ok(self.p.addr_of(n))
            }
            T::Word(_) => self.cexpr_addr(),
            x => Err(format!("constant expected, got {:?}", x)),
        }
    }

    /// Operand of type `t`, flattened.
    fn opd(&mut self, t: &Ty) -> R<Vec<Opd>> {
        let sl = slots(t)?;
        match self.pk() {
            T::Loc(n) => {
                self.i += 1;
                let s = self.reg(n, sl.len() as u32)?;
                Ok((0..sl.len() as u32).map(|k| Opd::R(s + k)).collect())
            }
            T::Word("undef" | "poison") => {
                self.i += 1;
                Ok(sl.iter().map(|x| Opd::U(x.1)).collect())
            }
            T::Word("zeroinitializer") => {
                self.i += 1;
                Ok(sl.iter().map(|_| Opd::C(0)).collect())
            }
            T::Word("splat") => {
                self.i += 1;
                self.need('(')?;
                let et = self.ty()?;
                let v = self.cscalar(&et)?;
                self.need(')')?;
                Ok(sl.iter().map(|_| Opd::C(v)).collect())
            }
            T::P('{') | T::P('[') => {
                let close = if self.pk() == T::P('{') { '}' } else { ']' };
                self.i += 1;
                let mut v = vec![];
                if !self.eat(close) {
                    loop {
                        let et = self.ty()?;
                        v.extend(self.opd(&et)?);
                        if !self.eat(',') {
                            break;
                        }
                    }
                    self.need(close)?;
                }
                Ok(v)
            }
            T::P('<') => {
                self.i += 1;
                let br = self.eat('{');
                let mut v = vec![];
                loop {
                    let et = self.ty()?;
                    v.extend(self.opd(&et)?);
                    if !self.eat(',') {
                        break;
                    }
                }
                if br {
                    self.need('}')?;
                }
                self.need('>')?;
                Ok(v)
            }
            T::Str(s) => {
                self.i += 1;
                Ok(unescape(s).into_iter().map(|b| Opd::C(b as u64)).collect())
            }
            T::Num(s) if *t == Ty::Int(128) => {
                self.i += 1;
                let v = s.parse::<i128>().map_err(|_| "bad i128")? as u128;
                Ok(vec![Opd::C(v as u64), Opd::C((v >> 64) as u64)])
            }
            _ => {
                if sl.len() != 1 {
                    return Err(format!("unsupported aggregate operand {:?}", self.pk()));
                }
                Ok(vec![Opd::C(self.cscalar(t)?)])
            }
        }
    }

    fn opd1(&mut self, t: &Ty) -> R<Opd> {
        let v = self.opd(t)?;
        if v.len() != 1 {
            return Err("scalar operand expected".into());
        }
        Ok(v[0])
    }

    fn tail(&mut self) {
        // trailing ", !meta !n" and attribute groups
        loop {
            match self.pk() {
                T::Attr => {
                    self.i += 1;
                }
                T::P(',') => match self.pk2() {
                    T::Meta => {
                        self.i += 1;
                        while self.pk() == T::Meta {
                            self.i += 1;
                        }
                    }
                    T::Word("align") => {
                        self.i += 3;
                    }
                    _ => return,
                },
                _ => return,
            }
        }
    }

    fn edge(&mut self, target: &'a str) -> u32 {
        self.edges.push((self.cur, target));
        (self.edges.len() - 1) as u32
    }
    fn label(&mut self) -> R<u32> {
        self.needw("label")?;
        match self.nx() {
            T::Loc(n) => Ok(self.edge(n)),
            x => Err(format!("label expected, got {:?}", x)),
        }
    }

    fn global(p: &'p Program<'m>, src: &'a str, name: &str) -> R<GlobalInit> {
        let mut d = Dec::new(p, src)?;
        d.nx();
        d.need('=')?;
        let mut constant = false;
        let mut external = false;
        loop {
            match d.pk() {
                T::Word("constant") => {
                    constant = true;
                    d.i += 1;
                    break;
                }
                T::Word("global") => {
                    d.i += 1;
                    break;
                }
                T::Word("alias") => return Err(format!("alias {} unsupported", name)),
                T::Word(w) => {
                    if w == "external" || w == "extern_weak" {
                        external = true;
                    }
                    d.i += 1;
                    if d.pk() == T::P('(') {
                        d.skip_bal();
                    }
                }
                x => return Err(format!("global {}: {:?}", name, x)),
            }
        }
        let t = d.ty()?;
        let size = size_of(&t);
        if external {
            return Ok(GlobalInit { name: name.into(), size, bytes: None, constant });
        }
        let mut bytes = vec![0u8; size as usize];
        d.init(&t, 0, &mut bytes)?;
        Ok(GlobalInit { name: name.into(), size, bytes: Some(Rc::new(bytes)), constant })
    }

    fn init(&mut self, t: &Ty, off: u64, out: &mut [u8]) -> R<()> {
        match self.pk() {
            T::Word("zeroinitializer" | "undef" | "poison") => {
                self.i += 1;
                return Ok(());
            }
            T::Str(s) => {
                self.i += 1;
                let b = unescape(s);
                out[off as usize..off as usize + b.len()].copy_from_slice(&b);
                return Ok(());
            }
            _ => {}
        }
        match t {
            Ty::Struct(f, p) => {
                if *p {
                    self.need('<')?;
                }
                self.need('{')?;
                for k in 0..f.len() {
                    if k > 0 {
                        self.need(',')?;
                    }
                    let ft = self.ty()?;
                    self.init(&ft, off + field_off(f, *p, k), out)?;
                }
                self.need('}')?;
                if *p {
                    self.need('>')?;
                }
            }
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let (o, c) = if matches!(t, Ty::Arr(..)) { ('[', ']') } else { ('<', '>') };
                self.need(o)?;
                for k in 0..*n {
                    if k > 0 {
                        self.need(',')?;
                    }
                    let et = self.ty()?;
                    self.init(&et, off + k * size_of(e), out)?;
                }
                self.need(c)?;
            }
            Ty::Int(128) => {
                if let T::Num(s) = self.nx() {
                    let v = s.parse::<i128>().map_err(|_| "i128")?;
                    out[off as usize..off as usize + 16].copy_from_slice(&v.to_le_bytes());
                }
            }
            _ => {
                let v = if let (Ty::Other, T::Num(_)) = (t, self.pk()) {
                    self.i += 1;
                    0
                } else {
                    self.cscalar(t)?
                };
                let n = size_of(t) as usize;
                out[off as usize..off as usize + n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
        Ok(())
    }

    fn function(p: &'p Program<'m>, src: &'a str, name: &str, idx: u32) -> R<Func> {
        let mut d = Dec::new(p, src)?;
        d.needw("define")?;
        d.attrs(true);
        // linkage words before the type may include a type-like attribute only inside parens
        d.ty()?;
        match d.nx() {
            T::Glob(_) => {}
            x => return Err(format!("function name expected, got {:?}", x)),
        }
        d.need('(')?;
        let mut params = vec![];
        let mut unnamed = 0usize;
        if !d.eat(')') {
            loop {
                if d.eatw("...") {
                    break;
                }
                let t = d.ty()?;
                d.attrs(false);
                let n = slots(&t).map(|v| v.len() as u32).unwrap_or(1);
                match d.nx() {
                    T::Loc(nm) => {
                        let s = d.reg(nm, n)?;
                        if nm.parse::<u32>().is_ok() {
                            unnamed += 1;
                        }
                        for k in 0..n {
                            params.push(s + k);
                        }
                    }
                    x => return Err(format!("parameter name, got {:?} in {}", x, name)),
                }
                if !d.eat(',') {
                    break;
                }
            }
            d.need(')')?;
        }
        while d.pk() != T::P('{') && d.pk() != T::End {
            d.i += 1;
        }
        d.need('{')?;
        if !matches!(d.pk(), T::Lab(_)) {
            // an entry block without a label is numbered after the parameters
            const NUMS: [&str; 32] = [
                "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "16", "17", "18", "19",
                "20", "21", "22", "23", "24", "25", "26", "27", "28", "29", "30", "31",
            ];
            let n = NUMS.get(unnamed).ok_or_else(|| format!("{} parameters", unnamed))?;
            d.cur = n;
            d.labels.insert(n, 0);
        }
        loop {
            match d.pk() {
                T::P('}') if d.t[d.i].indent == 0 => break,
                T::End => break,
                T::Lab(l) => {
                    d.i += 1;
                    d.cur = l;
                    d.labels.insert(l, d.code.len() as u32);
                    continue;
                }
                _ => {}
            }
            let start = d.i;
            let nc = d.code.len();
            if let Err(e) = d.inst() {
                // resynchronise at the next instruction line
                d.code.truncate(nc);
                d.i = start + 1;
                while !(d.pk() == T::End
                    || matches!(d.pk(), T::Lab(_))
                    || (d.t[d.i].indent == 0)
                    || (d.t[d.i].indent == 2 && d.pk() != T::P(']')))
                {
                    d.i += 1;
                }
                d.code.push(Inst::Unsup(e.into_boxed_str()));
            } else {
                d.tail();
                let k = d.t[d.i].indent;
                if !(k == 2 || k == 0 || d.pk() == T::End) {
                    // trailing junk: report rather than misparse
                    let e = format!("trailing tokens {:?} after {:?}", d.pk(), d.t[start].t);
                    d.code.truncate(nc);
                    while !(d.pk() == T::End || d.t[d.i].indent == 0 || d.t[d.i].indent == 2) {
                        d.i += 1;
                    }
                    d.code.push(Inst::Unsup(e.into_boxed_str()));
                }
            }
        }
        // edges
        let mut edges = Vec::with_capacity(d.edges.len());
        for &(pred, tgt) in &d.edges {
            let target = *d.labels.get(tgt).ok_or_else(|| format!("label {} in {}", tgt, name))?;
            let mut moves = vec![];
            if let Some(ps) = d.phis.get(tgt) {
                for (dst, ws, inc) in ps {
                    if let Some((_, vals)) = inc.iter().find(|x| x.0 == pred) {
                        for (k, v) in vals.iter().enumerate() {
                            moves.push((dst + k as u32, *v, ws[k]));
                        }
                    } else {
                        return Err(format!("phi in {} lacks pred {} ({})", tgt, pred, name));
                    }
                }
            }
            edges.push(Edge { target, moves: moves.into_boxed_slice() });
        }
        Ok(Func { name: name.into(), idx, nslots: d.nslots, params, code: d.code, edges })
    }

    fn inst(&mut self) -> R<()> {
        let mut dst: Option<&'a str> = None;
        if let T::Loc(n) = self.pk() {
            if self.pk2() == T::P('=') {
                dst = Some(n);
                self.i += 2;
            }
        }
        let w = match self.nx() {
            T::Word(w) => w,
            x => return Err(format!("opcode expected, got {:?}", x)),
        };
        match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while let T::Word(f) = self.pk() {
                    if is_type_word(f) {
                        break;
                    }
                    self.i += 1;
                }
                let t = self.ty()?;
                let a = self.opd(&t)?;
                self.need(',')?;
                let b = self.opd(&t)?;
                let sl = slots(&t)?;
                if t == Ty::Int(128) && !matches!(w, "and" | "or" | "xor") {
                    return Err("i128 arithmetic".into());
                }
                let d = self.reg(dst.ok_or("dst")?, sl.len() as u32)?;
                let op = match w {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "udiv" => Op::UDiv,
                    "sdiv" => Op::SDiv,
                    "urem" => Op::URem,
                    "srem" => Op::SRem,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    "ashr" => Op::AShr,
                    "and" => Op::And,
                    "or" => Op::Or,
                    _ => Op::Xor,
                };
                for k in 0..sl.len() {
                    self.code.push(Inst::Bin { op, w: sl[k].1, d: d + k as u32, a: a[k], b: b[k] });
                }
            }
            "icmp" => {
                self.eatw("samesign");
                let p = match self.nx() {
                    T::Word("eq") => Pred::Eq,
                    T::Word("ne") => Pred::Ne,
                    T::Word("ult") => Pred::Ult,
                    T::Word("ule") => Pred::Ule,
                    T::Word("ugt") => Pred::Ugt,
                    T::Word("uge") => Pred::Uge,
                    T::Word("slt") => Pred::Slt,
                    T::Word("sle") => Pred::Sle,
                    T::Word("sgt") => Pred::Sgt,
                    T::Word("sge") => Pred::Sge,
                    x => return Err(format!("icmp {:?}", x)),
                };
                let t = self.ty()?;
                let a = self.opd(&t)?;
                self.need(',')?;
                let b = self.opd(&t)?;
                if t == Ty::Int(128) {
                    // discriminants of over-aligned enums, TypeIds
                    if !matches!(p, Pred::Eq | Pred::Ne) {
                        return Err("i128 compare".into());
                    }
                    let x = self.nslots;
                    self.nslots += 3;
                    for k in 0..2 {
                        self.code.push(Inst::Bin { op: Op::Xor, w: 64, d: x + k as u32, a: a[k], b: b[k] });
                    }
                    self.code.push(Inst::Bin { op: Op::Or, w: 64, d: x + 2, a: Opd::R(x), b: Opd::R(x + 1) });
                    let d = self.reg(dst.ok_or("dst")?, 1)?;
                    self.code.push(Inst::Icmp { p, w: 64, d, a: Opd::R(x + 2), b: Opd::C(0) });
                    return Ok(());
                }
                let sl = slots(&t)?;
                let d = self.reg(dst.ok_or("dst")?, sl.len() as u32)?;
                for k in 0..sl.len() {
                    self.code.push(Inst::Icmp { p, w: sl[k].1, d: d + k as u32, a: a[k], b: b[k] });
                }
            }
            "select" => {
                let ct = self.ty()?;
                let c = self.opd(&ct)?;
                self.need(',')?;
                let t = self.ty()?;
                let a = self.opd(&t)?;
                self.need(',')?;
                let _ = self.ty()?;
                let b = self.opd(&t)?;
                let sl = slots(&t)?;
                let d = self.reg(dst.ok_or("dst")?, sl.len() as u32)?;
                for k in 0..sl.len() {
                    let cc = if c.len() == 1 { c[0] } else { c[k] };
                    self.code.push(Inst::Select { d: d + k as u32, c: cc, a: a[k], b: b[k], w: sl[k].1, ptr: sl[k].2 });
                }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                while let T::Word(f) = self.pk() {
                    if is_type_word(f) {
                        break;
                    }
                    self.i += 1;
                }
                let t = self.ty()?;
                let a = self.opd(&t)?;
                self.needw("to")?;
                let t2 = self.ty()?;
                let (s1, s2) = (slots(&t)?, slots(&t2)?);
                let d = self.reg(dst.ok_or("dst")?, s2.len() as u32)?;
                if w == "zext" && t2 == Ty::Int(128) && s1.len() == 1 {
                    self.code.push(Inst::ZExt { d, a: a[0], from: s1[0].1, to: 64 });
                    self.code.push(Inst::Mov { d: d + 1, a: Opd::C(0), w: 64 });
                    return Ok(());
                }
                if w == "trunc" && t == Ty::Int(128) && s2.len() == 1 {
                    self.code.push(Inst::Trunc { d, a: a[0], from: 64, to: s2[0].1 });
                    return Ok(());
                }
                if w == "bitcast" && s1.len() != s2.len() {
                    if s2.len() == 1 {
                        let parts: Vec<_> = a.iter().zip(&s1).map(|(o, s)| (*o, s.1)).collect();
                        self.code.push(Inst::Pack { d, parts: parts.into() });
                        return Ok(());
                    }
                    if s1.len() == 1 {
                        let mut lo = 0;
                        for k in 0..s2.len() {
                            self.code.push(Inst::Unpack { d: d + k as u32, a: a[0], aw: s1[0].1, lo, w: s2[k].1 });
                            lo += s2[k].1;
                        }
                        return Ok(());
                    }
                    return Err("bitcast between aggregates".into());
                }
                if s1.len() != s2.len() {
                    return Err("cast shape".into());
                }
                for k in 0..s1.len() {
                    let (from, to) = (s1[k].1, s2[k].1);
                    let dk = d + k as u32;
                    let i = if w == "sext" {
                        Inst::SExt { d: dk, a: a[k], from, to }
                    } else if from < to {
                        Inst::ZExt { d: dk, a: a[k], from, to }
                    } else if from > to {
                        Inst::Trunc { d: dk, a: a[k], from, to }
                    } else {
                        Inst::Mov { d: dk, a: a[k], w: to }
                    };
                    self.code.push(i);
                }
            }
            "freeze" => {
                let t = self.ty()?;
                let a = self.opd(&t)?;
                let sl = slots(&t)?;
                let d = self.reg(dst.ok_or("dst")?, sl.len() as u32)?;
                for k in 0..sl.len() {
                    self.code.push(Inst::Mov { d: d + k as u32, a: a[k], w: sl[k].1 });
                }
            }
            "phi" => {
                let t = self.ty()?;
                let sl = slots(&t)?;
                let d = self.reg(dst.ok_or("dst")?, sl.len() as u32)?;
                let mut inc = vec![];
                loop {
                    self.need('[')?;
                    let v = self.opd(&t)?;
                    self.need(',')?;
                    match self.nx() {
                        T::Loc(l) => inc.push((l, v)),
                        x => return Err(format!("phi label {:?}", x)),
                    }
                    self.need(']')?;
                    if self.pk() == T::P(',') && self.pk2() == T::P('[') {
                        self.i += 1;
                        continue;
                    }
                    break;
                }
                let cur = self.cur;
                self.phis.entry(cur).or_default().push((d, sl.iter().map(|x| x.1).collect(), inc));
            }
            "load" => {
                self.eatw("atomic");
                self.eatw("volatile");
                let t = self.ty()?;
                self.need(',')?;
                let pt = self.ty()?;
                let p = self.opd1(&pt)?;
                let (ord, _) = self.orderings();
                if let Ty::Vec(_, e) = &t {
                    if let Ty::Int(x) = **e {
                        if x % 8 != 0 {
                            return Err("odd vector load".into());
                        }
                    }
                }
                let sl = slots(&t)?;
                let d = self.reg(dst.ok_or("dst")?, sl.len() as u32)?;
                // the destination may equal no operand of this instruction, so order is irrelevant
                for k in 0..sl.len() {
                    self.code.push(Inst::Load { d: d + k as u32, p, off: sl[k].0, w: sl[k].1, ord });
                }
            }
            "store" => {
                self.eatw("atomic");
                self.eatw("volatile");
                let t = self.ty()?;
                let v = self.opd(&t)?;
                self.need(',')?;
                let pt = self.ty()?;
                let p = self.opd1(&pt)?;
                let (ord, _) = self.orderings();
                let sl = slots(&t)?;
                for k in 0..sl.len() {
                    self.code.push(Inst::Store { v: v[k], p, off: sl[k].0, w: sl[k].1, ord });
                }
            }
            "getelementptr" => {
                while let T::Word(f) = self.pk() {
                    if is_type_word(f) {
                        break;
                    }
                    self.i += 1;
                    if self.pk() == T::P('(') {
                        self.skip_bal();
                    }
                }
                let et = self.ty()?;
                self.need(',')?;
                let bt = self.ty()?;
                let base = self.opd1(&bt)?;
                let mut off = 0u64;
                let mut terms = vec![];
                let mut cur = et;
                let mut first = true;
                while self.pk() == T::P(',') && self.pk2() != T::Meta {
                    self.i += 1;
                    let it = self.ty()?;
                    let v = self.opd1(&it)?;
                    let iw = match it {
                        Ty::Int(w) => w as u8,
                        _ => return Err("gep index".into()),
                    };
                    let scale;
                    if first {
                        scale = size_of(&cur);
                        first = false;
                    } else {
                        match cur.clone() {
                            Ty::Struct(f, p) => {
                                let k = match v {
                                    Opd::C(k) => k as usize,
                                    _ => return Err("gep struct index".into()),
                                };
                                off = off.wrapping_add(field_off(&f, p, k));
                                cur = f[k].clone();
                                continue;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                scale = size_of(&e);
                                cur = *e;
                            }
                            _ => return Err("gep into scalar".into()),
                        }
                    }
                    match v {
                        Opd::C(c) => {
                            off = off.wrapping_add((crate::expr::sext64(c, iw) as u64).wrapping_mul(scale))
                        }
                        v => terms.push((v, scale, iw)),
                    }
                }
                let d = self.reg(dst.ok_or("dst")?, 1)?;
                self.code.push(Inst::Gep { d, base, off, terms: terms.into() });
            }
            "alloca" => {
                let t = self.ty()?;
                let mut n = 1;
                if self.pk() == T::P(',') && self.pk2() != T::Meta && self.pk2() != T::Word("align") {
                    self.i += 1;
                    let it = self.ty()?;
                    n = match self.opd1(&it)? {
                        Opd::C(k) => k,
                        _ => return Err("dynamic alloca".into()),
                    };
                }
                let d = self.reg(dst.ok_or("dst")?, 1)?;
                self.code.push(Inst::Alloca { d, size: size_of(&t) * n });
            }
            "extractvalue" | "extractelement" => {
                let t = self.ty()?;
                let a = self.opd(&t)?;
                let (off, n, et);
                if w == "extractvalue" {
                    let mut cur = t;
                    let mut o = 0usize;
                    while self.pk() == T::P(',') {
                        let k = match self.pk2() {
                            T::Num(s) => s.parse::<usize>().map_err(|_| "idx")?,
                            _ => break,
                        };
                        self.i += 2;
                        let (s, c) = sub_slot(&cur, k)?;
                        o += s;
                        cur = c;
                    }
                    off = o;
                    n = slots(&cur)?.len();
                    et = cur;
                } else {
                    self.need(',')?;
                    let it = self.ty()?;
                    let k = match self.opd1(&it)? {
                        Opd::C(k) => k as usize,
                        _ => return Err("dynamic extractelement".into()),
                    };
                    let (s, c) = sub_slot(&t, k)?;
                    off = s;
                    n = 1;
                    et = c;
                }
                let ws = slots(&et)?;
                let d = self.reg(dst.ok_or("dst")?, n as u32)?;
                for k in 0..n {
                    self.code.push(Inst::Mov { d: d + k as u32, a: a[off + k], w: ws[k].1 });
                }
            }
            "insertvalue" | "insertelement" => {
                let t = self.ty()?;
                let a = self.opd(&t)?;
                self.need(',')?;
                let vt = self.ty()?;
                let v = self.opd(&vt)?;
                let off;
                if w == "insertvalue" {
                    let mut cur = t.clone();
                    let mut o = 0usize;
                    while self.pk() == T::P(',') {
                        let k = match self.pk2() {
                            T::Num(s) => s.parse::<usize>().map_err(|_| "idx")?,
                            _ => break,
                        };
                        self.i += 2;
                        let (s, c) = sub_slot(&cur, k)?;
                        o += s;
                        cur = c;
                    }
                    off = o;
                } else {
                    self.need(',')?;
                    let it = self.ty()?;
                    let k = match self.opd1(&it)? {
                        Opd::C(k) => k as usize,
                        _ => return Err("dynamic insertelement".into()),
                    };
                    off = sub_slot(&t, k)?.0;
                }
                let ws = slots(&t)?;
                let d = self.reg(dst.ok_or("dst")?, ws.len() as u32)?;
                for k in 0..ws.len() {
                    let src = if k >= off && k < off + v.len() { v[k - off] } else { a[k] };
                    self.code.push(Inst::Mov { d: d + k as u32, a: src, w: ws[k].1 });
                }
            }
            "shufflevector" => {
                let t = self.ty()?;
                let mut a = self.opd(&t)?;
                self.need(',')?;
                let t2 = self.ty()?;
                a.extend(self.opd(&t2)?);
                self.need(',')?;
                let mt = self.ty()?;
                let m = self.opd(&mt)?;
                let ew = slots(&t)?[0].1;
                let d = self.reg(dst.ok_or("dst")?, m.len() as u32)?;
                for (k, x) in m.iter().enumerate() {
                    let src = match x {
                        Opd::C(j) => a[*j as usize],
                        _ => Opd::U(ew),
                    };
                    self.code.push(Inst::Mov { d: d + k as u32, a: src, w: ew });
                }
            }
            "tail" | "musttail" | "notail" | "call" => {
                if w != "call" {
                    self.needw("call")?;
                }
                self.call(dst, false)?;
            }
            "invoke" => self.call(dst, true)?,
            "landingpad" => {
                let t = self.ty()?;
                let n = slots(&t)?.len() as u32;
                let d = self.reg(dst.ok_or("dst")?, n)?;
                loop {
                    match self.pk() {
                        T::Word("cleanup") => {
                            self.i += 1;
                        }
                        T::Word("catch") => {
                            self.i += 1;
                            let t = self.ty()?;
                            self.opd(&t)?;
                        }
                        T::Word("filter") => {
                            self.i += 1;
                            self.ty()?;
                            match self.nx() {
                                T::P('[') => {
                                    while self.nx() != T::P(']') {}
                                }
                                _ => {}
                            }
                        }
                        _ => break,
                    }
                }
                self.code.push(Inst::LandingPad { d });
            }
            "resume" => {
                let t = self.ty()?;
                self.opd(&t)?;
                self.code.push(Inst::Resume);
            }
            "atomicrmw" => {
                self.eatw("volatile");
                let op = match self.nx() {
                    T::Word("xchg") => RmwOp::Xchg,
                    T::Word("add") => RmwOp::Add,
                    T::Word("sub") => RmwOp::Sub,
                    T::Word("and") => RmwOp::And,
                    T::Word("or") => RmwOp::Or,
                    T::Word("xor") => RmwOp::Xor,
                    T::Word("umax") => RmwOp::UMax,
                    T::Word("umin") => RmwOp::UMin,
                    x => return Err(format!("atomicrmw {:?}", x)),
                };
                let pt = self.ty()?;
                let p = self.opd1(&pt)?;
                self.need(',')?;
                let t = self.ty()?;
                let v = self.opd1(&t)?;
                let (ord, _) = self.orderings();
                let d = self.reg(dst.ok_or("dst")?, 1)?;
                self.code.push(Inst::Rmw { op, w: slots(&t)?[0].1, d, p, v, ord });
            }
            "cmpxchg" => {
                self.eatw("weak");
                self.eatw("volatile");
                let pt = self.ty()?;
                let p = self.opd1(&pt)?;
                self.need(',')?;
                let t = self.ty()?;
                let old = self.opd1(&t)?;
                self.need(',')?;
                let t2 = self.ty()?;
                let new = self.opd1(&t2)?;
                let (ord, fail) = self.orderings();
                let d = self.reg(dst.ok_or("dst")?, 2)?;
                self.code.push(Inst::CmpXchg { w: slots(&t)?[0].1, d, p, old, new, ord, fail });
            }
            "fence" => {
                let mut ord = Mo::Plain;
                while let T::Word(w) = self.pk() {
                    if !matches!(w, "syncscope" | "acquire" | "release" | "acq_rel" | "seq_cst") {
                        break;
                    }
                    if let Some(o) = mo(w) {
                        ord = o;
                    }
                    self.i += 1;
                    if self.pk() == T::P('(') {
                        self.skip_bal();
                    }
                }
                self.code.push(Inst::Fence { ord });
            }
            "br" => {
                if self.pk() == T::Word("label") {
                    let e = self.label()?;
                    self.code.push(Inst::Br(e));
                } else {
                    let t = self.ty()?;
                    let c = self.opd1(&t)?;
                    self.need(',')?;
                    let a = self.label()?;
                    self.need(',')?;
                    let b = self.label()?;
                    self.code.push(Inst::CBr { c, t: a, f: b });
                }
            }
            "switch" => {
                let t = self.ty()?;
                let v = self.opd1(&t)?;
                self.need(',')?;
                let def = self.label()?;
                self.need('[')?;
                let mut cases = vec![];
                while !self.eat(']') {
                    let ct = self.ty()?;
                    let c = self.cscalar(&ct)?;
                    self.need(',')?;
                    let e = self.label()?;
                    cases.push((c, e));
                }
                self.code.push(Inst::Switch { v, w: slots(&t)?[0].1, cases: cases.into(), def });
            }
            "ret" => {
                let t = self.ty()?;
                let vals = if t == Ty::Void { vec![] } else { self.opd(&t)? };
                self.code.push(Inst::Ret { vals: vals.into() });
            }
            "unreachable" => self.code.push(Inst::Unreachable),
            _ => return Err(format!("unsupported instruction {}", w)),
        }
        Ok(())
    }

    fn call(&mut self, dst: Option<&'a str>, invoke: bool) -> R<()> {
        self.attrs(true);
        let rt = self.ty()?;
        if self.pk() == T::P('(') {
            self.skip_bal(); // explicit function type
        }
        let callee = self.nx();
        let callee = match callee {
            T::Glob(n) => Ok(n),
            T::Loc(n) => {
                let s = self.reg(n, 1)?;
                Err(Opd::R(s))
            }
            T::Word("asm") => {
                // only empty barriers are expected
                while self.pk() != T::P('(') {
                    self.i += 1;
                }
                Ok("llvm.asm")
            }
            T::Word(_) => {
                self.i -= 1;
                Err(Opd::C(self.cexpr_addr()?))
            }
            x => return Err(format!("callee {:?}", x)),
        };
        self.need('(')?;
        let meta_intr = matches!(callee, Ok(n) if n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.lifetime") || n.starts_with("llvm.dbg") || n.starts_with("llvm.assume") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.donothing") || n.starts_with("llvm.asm"));
        let mut args: Vec<(Opd, u8)> = vec![];
        if meta_intr {
            self.i -= 1;
            self.skip_bal();
        } else if !self.eat(')') {
            loop {
                let t = self.ty()?;
                self.attrs(false);
                let v = self.opd(&t)?;
                let sl = slots(&t)?;
                for k in 0..v.len() {
                    args.push((v[k], sl[k].1));
                }
                if !self.eat(',') {
                    break;
                }
            }
            self.need(')')?;
        }
        while self.pk() == T::Attr {
            self.i += 1;
        }
        // operand bundles
        if self.pk() == T::P('[') && !invoke {
            let mut d = 0;
            loop {
                match self.nx() {
                    T::P('[') => d += 1,
                    T::P(']') => {
                        d -= 1;
                        if d == 0 {
                            break;
                        }
                    }
                    T::End => break,
                    _ => {}
                }
            }
        }
        let mut inv = None;
        if invoke {
            self.needw("to")?;
            let n = self.label()?;
            self.needw("unwind")?;
            let u = self.label()?;
            inv = Some((n, u));
        }
        let rs = slots(&rt)?;
        let nret = rs.len() as u32;
        let rw = rs.first().map(|x| x.1).unwrap_or(0);
        let d = match dst {
            Some(n) => self.reg(n, nret)?,
            None => u32::MAX,
        };
        let name = match callee {
            Err(o) => {
                self.code.push(Inst::Call { callee: Callee::Ind(o), args: args.into(), d, nret, rw, inv });
                return Ok(());
            }
            Ok(n) => n,
        };
        if meta_intr {
            self.code.push(Inst::Nop);
        } else if let Some(k) = intrinsic(name) {
            let w = args.first().map(|x| x.1).unwrap_or(0);
            if rt == Ty::Int(128) || args.len() > 4 && !matches!(k, Intr::MemCpy) {
                return Err(format!("intrinsic {} shape", name));
            }
            if let Ty::Vec(..) = rt {
                return Err(format!("vector intrinsic {}", name));
            }
            self.code.push(Inst::Intr { k, args: args.into(), d, w, rw });
        } else if name.starts_with("llvm.") {
            return Err(format!("unsupported intrinsic {}", name));
        } else {
            let f = self.p.fn_id(name);
            self.code.push(Inst::Call { callee: Callee::Fn(f), args: args.into(), d, nret, rw, inv });
            return Ok(());
        }
        if let Some((n, _)) = inv {
            self.code.push(Inst::Br(n));
        }
        Ok(())
    }
}

fn sub_slot(t: &Ty, k: usize) -> R<(usize, Ty)> {
    match t {
        Ty::Struct(v, _) => {
            let mut o = 0;
            for f in &v[..k] {
                o += slots(f)?.len();
            }
            Ok((o, v[k].clone()))
        }
        Ty::Arr(_, e) | Ty::Vec(_, e) => Ok((k * slots(e)?.len(), (**e).clone())),
        _ => Err("aggregate index".into()),
    }
}

fn intrinsic(n: &str) -> Option<Intr> {
    Some(match n {
        "memcmp" | "bcmp" => Intr::MemCmp,
        "strlen" => Intr::StrLen,
        "memcpy" | "memmove" => return None,
        _ => {
            let r = n.strip_prefix("llvm.")?;
            let base = r;
            let st = |p: &str| base.starts_with(p);
            if st("memcpy") || st("memmove") {
                Intr::MemCpy
            } else if st("memset") {
                Intr::MemSet
            } else if st("umax") {
                Intr::UMax
            } else if st("umin") {
                Intr::UMin
            } else if st("smax") {
                Intr::SMax
            } else if st("smin") {
                Intr::SMin
            } else if st("ucmp") {
                Intr::UCmp
            } else if st("scmp") {
                Intr::SCmp
            } else if st("uadd.with") {
                Intr::UAddO
            } else if st("usub.with") {
                Intr::USubO
            } else if st("umul.with") {
                Intr::UMulO
            } else if st("sadd.with") {
                Intr::SAddO
            } else if st("ssub.with") {
                Intr::SSubO
            } else if st("smul.with") {
                Intr::SMulO
            } else if st("uadd.sat") {
                Intr::UAddSat
            } else if st("usub.sat") {
                Intr::USubSat
            } else if st("ctpop") {
                Intr::CtPop
            } else if st("ctlz") {
                Intr::CtLz
            } else if st("cttz") {
                Intr::CtTz
            } else if st("abs") {
                Intr::Abs
            } else if st("fshl") {
                Intr::FShl
            } else if st("fshr") {
                Intr::FShr
            } else if st("bitreverse") {
                Intr::BitReverse
            } else if st("bswap") {
                Intr::BSwap
            } else if st("expect") {
                Intr::Expect
            } else if st("is.constant") {
                Intr::IsConst
            } else if st("trap") {
                Intr::Trap
            } else if st("threadlocal") {
                Intr::ThreadLocal
            } else if st("x86.sse2.pause") {
                Intr::Nop
            } else {
                return None;
            }
        }
    })
}
