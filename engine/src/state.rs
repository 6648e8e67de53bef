//! Path state: frames, memory, path condition, modelled operating system.
use crate::ir::*;
use crate::term::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub blk: u32,
    pub ip: usize,
    pub prev: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u32>,
    pub dest: u32,
    pub normal: Option<u32>,
    /// a marker executed when this frame returns
    pub on_ret: OnRet,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum OnRet {
    Plain,
    /// value is discarded, nothing is written to the caller
    Discard,
    /// bottom frame of a thread
    Thread,
    /// a modelled process: the i32 result is the exit status
    Proc,
}

#[derive(Clone)]
pub struct Obj {
    pub b: Vec<T>,
    /// writes at symbolic offsets on top of the bytes, oldest first
    pub log: Vec<W>,
    pub heap: bool,
}

/// A write of an aligned word at a symbolic offset; `or` entries set bits of what is there.
#[derive(Clone)]
pub struct W {
    pub off: T,
    pub lo: u64,
    pub hi: u64,
    pub n: u8,
    pub v: T,
    pub or: bool,
    /// holds when the write changes nothing (0: not known)
    pub noop: T,
}

#[derive(Clone, Default)]
pub struct Fd {
    pub path: Rc<str>,
    pub pos: usize,
    pub append: bool,
    pub kind: u8, // 0 file, 1 stdin, 2 stdout, 3 stderr, 4 null
    pub dir: bool,
}

#[derive(Clone, Default)]
pub struct Os {
    pub files: BTreeMap<Rc<str>, Rc<Vec<T>>>,
    pub unreadable: Vec<Rc<str>>,
    pub fds: Vec<Option<Fd>>,
    pub stdin: Rc<Vec<T>>,
    pub stdin_pos: usize,
    pub stdout: Vec<T>,
    pub stderr: Vec<T>,
    pub errno: u32, // object id
    pub done: Vec<u32>,
    pub thread_rets: BTreeMap<u32, u64>,
    pub next_tid: u32,
    pub keys: BTreeMap<(u32, u32), u64>,
    pub next_key: u32,
    pub proc_out: Rc<Vec<T>>,
    pub proc_err: Rc<Vec<T>>,
    pub now: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Wait {
    Ready,
    Futex(u64),
    Join(u32),
}

#[derive(Clone)]
pub struct ProcCtx {
    pub depth: usize,
    pub saved: Vec<(u32, Rc<Obj>)>,
    pub tls: BTreeMap<(u32, u32), u32>,
    pub fds: Vec<Option<Fd>>,
    pub tid: u32,
    pub stdin: Rc<Vec<T>>,
    pub stdin_pos: usize,
}

#[derive(Clone)]
pub struct Input {
    pub name: String,
    pub bytes: Vec<T>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub pc: Vec<T>,
    pub lits: FxMap<T, bool>,
    /// disjunctions among the constraints that are still open
    pub ors: Vec<T>,
    pub conc: FxMap<T, T>,
    pub ptr_obj: FxMap<T, u32>,
    pub model: Rc<Model>,
    /// the model may not satisfy pc: the solver could not say whether this path is feasible
    pub unsure: bool,
    pub inputs: Vec<Input>,
    pub obs: Vec<(String, T)>,
    pub covers: Vec<String>,
    pub panic_ok: bool,
    pub tid: u32,
    pub tls: BTreeMap<(u32, u32), u32>,
    pub os: Os,
    pub procs: Vec<ProcCtx>,
    pub alloc_limit: u64,
    pub steps: u64,
    pub forks: u64,
    /// threads that are not running
    pub parked: BTreeMap<u32, (Vec<Frame>, Wait)>,
}

pub enum End {
    Done,
    Exit(i32),
    Panic(String),
    Mem(String),
    Pruned,
    /// the engine could not decide something on this path
    Stuck(String),
}
