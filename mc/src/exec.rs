//! Runs one history of public calls on a real encoder, with a scripted sink, against the reference model:
//! the list of accepted bytes per stream, a strict decoder and the std::io::Write contract.
use crate::frame::{check_prefix, Kind, Prefix};
use crate::inflate::Limits;
use crate::sums::{adler32, crc32, hash64, mix};
use deflate::write::{DeflateEncoder, GzEncoder, ZlibEncoder};
use deflate::CompressionOptions;
use gzip_header::GzBuilder;
use std::cell::RefCell;
use std::io::{self, ErrorKind, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub const SMALL: bool = cfg!(deflate_mc_small);
pub const W: usize = if SMALL { 8 } else { 32768 };
pub const MAXM: usize = if SMALL { 5 } else { 258 };
pub const LIM: Limits = Limits { window: W, max_match: MAXM, want_toks: false };
pub const LIMT: Limits = Limits { window: W, max_match: MAXM, want_toks: true };
pub const TOO_FAR: usize = if SMALL { 4 } else { 8192 };

pub fn set_block_mode(_m: u8) {
    #[cfg(deflate_mc_small)]
    deflate::mc_hooks::set_block_mode(_m);
}

/// What the sink answers to one write call.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ans {
    All,
    One,
    Half,
    AllBut1,
    Zero,
    Intr,
    Block,
    Other,
    Panic,
    /// An error of KIND_LIST[i].
    K(u8),
    /// An error of the operating system.
    Os(i32),
}

/// The other error kinds of std.
pub const KIND_LIST: [ErrorKind; 35] = [
    ErrorKind::BrokenPipe,
    ErrorKind::WriteZero,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionReset,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidInput,
    ErrorKind::OutOfMemory,
    ErrorKind::StorageFull,
    ErrorKind::InvalidData,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::ConnectionRefused,
    ErrorKind::Unsupported,
    ErrorKind::NotFound,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::AlreadyExists,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::NetworkDown,
    ErrorKind::NotADirectory,
    ErrorKind::IsADirectory,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::NotSeekable,
    ErrorKind::QuotaExceeded,
    ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy,
    ErrorKind::ExecutableFileBusy,
    ErrorKind::Deadlock,
    ErrorKind::CrossesDevices,
    ErrorKind::TooManyLinks,
    ErrorKind::ArgumentListTooLong,
];

pub const EINTR: i32 = 4;

/// What every error of a sink carries: the number of the call it answered.
#[derive(Debug)]
pub struct Tag(pub usize);
impl std::fmt::Display for Tag {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "answer to sink call {}", self.0)
    }
}
impl std::error::Error for Tag {}

/// Is this the very error the sink gave as its i-th answer?
fn same_error(e: &io::Error, a: Ans, i: usize) -> bool {
    match a {
        // Not an error of the sink's.
        Ans::Zero => e.kind() == ErrorKind::WriteZero && e.raw_os_error().is_none(),
        Ans::Os(n) => e.raw_os_error() == Some(n),
        _ => matches!(e.get_ref().and_then(|t| t.downcast_ref::<Tag>()), Some(Tag(t)) if *t == i),
    }
}

impl Ans {
    pub fn is_error(&self) -> bool {
        matches!(self, Ans::Zero | Ans::Block | Ans::Other | Ans::Panic | Ans::K(_)) || matches!(self, Ans::Os(n) if *n != EINTR)
    }
    pub fn code(&self) -> String {
        let c = match self {
            Ans::K(i) => return format!("<{:?}>", KIND_LIST[*i as usize]),
            Ans::Os(n) => return format!("<os error {}>", n),
            Ans::All => 'A',
            Ans::One => '1',
            Ans::Half => 'h',
            Ans::AllBut1 => 'b',
            Ans::Zero => '0',
            Ans::Intr => 'I',
            Ans::Block => 'W',
            Ans::Other => 'E',
            Ans::Panic => 'P',
        };
        c.to_string()
    }
}

#[derive(Clone, Debug)]
pub struct Script {
    /// Answers to the first calls.
    pub pre: Vec<Ans>,
    /// Answers to all later calls, cyclically.
    pub then: Vec<Ans>,
    /// Total bytes the sinks accept before answering Zero forever.
    pub cap: Option<usize>,
    /// Calls with an empty buffer are answered from the script too.
    pub empties: bool,
}

impl Script {
    pub fn ok() -> Script {
        Script { pre: vec![], then: vec![Ans::All], cap: None, empties: false }
    }
    pub fn show(&self) -> String {
        let a: String = self.pre.iter().map(|a| a.code()).collect();
        let b: String = self.then.iter().map(|a| a.code()).collect();
        format!("{}({})*{}{}", a, b, if self.empties { " (calls with nothing too)" } else { "" }, self.cap.map_or(String::new(), |c| format!(" cap={}", c)))
    }
    fn at(&self, i: usize) -> Ans {
        if i < self.pre.len() {
            self.pre[i]
        } else {
            self.then[(i - self.pre.len()) % self.then.len()]
        }
    }
}

pub const LIVELOCK: &str = "MC-LIVELOCK";
pub const SINKPANIC: &str = "MC-SINK-PANIC";

pub struct Env {
    pub script: Script,
    pub calls: usize,
    /// Calls with a non-empty buffer: the decision points.
    pub idx: usize,
    pub max_calls: usize,
    pub accepted_total: usize,
    /// Answers given since the last `begin_op`, errors only.
    op_errors: Vec<Ans>,
    /// The first and the last of them, with the number of the call.
    op_first: Option<(Ans, usize)>,
    op_last: Option<(Ans, usize)>,
    op_calls: usize,
    /// Calls with data made after an error by the same write, flush or reset call.
    op_late: usize,
    /// The call in progress got an error.
    call_error: bool,
    op_last_ok: bool,
    panicked: bool,
    writes_after_panic: usize,
    pub log: Vec<(u32, Ans)>,
    /// Which sink each logged call went to.
    pub ids: Vec<u32>,
    pub keep_log: bool,
}

pub struct Sink {
    pub id: usize,
    data: Rc<RefCell<Vec<u8>>>,
    env: Rc<RefCell<Env>>,
}

/// A sink that accepts everything.
pub fn plain_sink(id: usize) -> (Sink, Rc<RefCell<Vec<u8>>>) {
    let data = Rc::new(RefCell::new(Vec::new()));
    let env = Env {
        script: Script::ok(),
        calls: 0,
        idx: 0,
        max_calls: usize::MAX,
        accepted_total: 0,
        op_errors: vec![],
        op_first: None,
        op_last: None,
        op_calls: 0,
        op_late: 0,
        call_error: false,
        op_last_ok: true,
        panicked: false,
        writes_after_panic: 0,
        log: vec![],
        ids: vec![],
        keep_log: false,
    };
    (Sink { id, data: data.clone(), env: Rc::new(RefCell::new(env)) }, data)
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut e = self.env.borrow_mut();
        if e.panicked && std::thread::panicking() {
            e.writes_after_panic += 1;
            return Ok(buf.len());
        }
        e.calls += 1;
        e.op_calls += 1;
        if e.calls > e.max_calls {
            drop(e);
            panic!("{}", LIVELOCK);
        }
        if buf.is_empty() && !e.script.empties {
            // Nothing to decide.
            return Ok(0);
        }
        e.idx += 1;
        e.op_late += e.call_error as usize;
        let mut a = e.script.at(e.idx - 1);
        if let Some(cap) = e.script.cap {
            if e.accepted_total >= cap && !buf.is_empty() {
                a = Ans::Zero;
            }
        }
        if buf.is_empty() && matches!(a, Ans::One | Ans::Half | Ans::AllBut1 | Ans::Zero) {
            a = Ans::All;
        }
        if e.keep_log {
            e.log.push((buf.len() as u32, a));
            e.ids.push(self.id as u32);
        }
        let mut n = match a {
            Ans::All => buf.len(),
            Ans::One => 1,
            Ans::Half => (buf.len() / 2).max(1),
            Ans::AllBut1 => (buf.len() - 1).max(1),
            Ans::Zero => 0,
            Ans::Intr | Ans::Block | Ans::Other | Ans::Panic | Ans::K(_) | Ans::Os(_) => usize::MAX,
        };
        e.op_last_ok = !(a.is_error() || a == Ans::Intr || a == Ans::Os(EINTR));
        if a.is_error() {
            e.op_errors.push(a);
            e.op_last = Some((a, e.idx));
            e.op_first = e.op_first.or(e.op_last);
            e.call_error = true;
        }
        if n == usize::MAX {
            let k = match a {
                Ans::Intr => ErrorKind::Interrupted,
                Ans::Block => ErrorKind::WouldBlock,
                Ans::Other => ErrorKind::Other,
                Ans::K(i) => KIND_LIST[i as usize],
                Ans::Os(n) => return Err(io::Error::from_raw_os_error(n)),
                _ => {
                    e.panicked = true;
                    drop(e);
                    panic!("{}", SINKPANIC);
                }
            };
            return Err(io::Error::new(k, Tag(e.idx)));
        }
        if let Some(cap) = e.script.cap {
            n = n.min(cap - e.accepted_total);
        }
        e.accepted_total += n;
        self.data.borrow_mut().extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut e = self.env.borrow_mut();
        if e.panicked && std::thread::panicking() {
            e.writes_after_panic += 1;
        }
        Ok(())
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    /// One write() call.
    Write(usize),
    /// A write_all() loop.
    WriteAll(usize),
    /// The encoder's own Write::write_all (not with sinks that fail: how much was accepted is not known then).
    Std(usize),
    /// A loop of Write::write_vectored calls with the data in several slices, an empty one first.
    Vec(usize),
    Flush,
    Reset,
    /// reset_with_builder (gzip), reset otherwise.
    ResetB(u8),
    Finish,
    Drop,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Policy {
    /// Retry a failed call up to n times, then go on with the next one.
    Retry(u8),
    /// Go on with the next call.
    Proceed,
    /// Drop the encoder after the first failed call.
    Drop,
}

#[derive(Clone)]
pub struct Hist<'a> {
    pub kind: Kind,
    pub opts: CompressionOptions,
    pub payload: &'a [u8],
    pub ops: &'a [Op],
    pub policy: Policy,
    /// Which gzip builder to start with (see `builder`).
    pub gz: u8,
    /// Checks after every call need the sink contents decoded; off for long payloads in byte-comparison checks.
    pub check: bool,
}

pub const N_BUILDERS: u8 = 9;
pub fn builder(i: u8) -> GzBuilder {
    let b = GzBuilder::new();
    match i {
        0 => b,
        1 => b.filename(&b"n"[..]),
        2 => b.comment(&b"a comment"[..]).mtime(0x01020304),
        3 => b.extra(&b"\x01\x02\x02\x00zz"[..]).filename(&b"file.txt"[..]).comment(&b"c"[..]),
        4 => b.xfl(gzip_header::ExtraFlags::MaximumCompression),
        5 => b.os(gzip_header::FileSystemType::Unix).filename(&b""[..]),
        6 => b.extra(&[7u8; 300][..]).mtime(u32::MAX),
        // Longer than the output buffer.
        8 => b.extra(&[9u8; 65535][..]).filename(&[b'n'; 40_000][..]),
        _ => b.filename(&b"x"[..]).os(gzip_header::FileSystemType::NTFS).mtime(1).extra(&b""[..]),
    }
}

pub enum Enc {
    D(DeflateEncoder<Sink>),
    Z(ZlibEncoder<Sink>),
    G(GzEncoder<Sink>),
}

impl Enc {
    pub fn new(kind: Kind, opts: CompressionOptions, gz: u8, s: Sink) -> Enc {
        match kind {
            Kind::Raw => Enc::D(DeflateEncoder::new(s, opts)),
            Kind::Zlib => Enc::Z(ZlibEncoder::new(s, opts)),
            Kind::Gzip if gz == 0 => Enc::G(GzEncoder::new(s, opts)),
            Kind::Gzip => Enc::G(GzEncoder::from_builder(builder(gz), s, opts)),
        }
    }
    pub fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        match self {
            Enc::D(e) => e.write(b),
            Enc::Z(e) => e.write(b),
            Enc::G(e) => e.write(b),
        }
    }
    pub fn write_all(&mut self, b: &[u8]) -> io::Result<()> {
        match self {
            Enc::D(e) => e.write_all(b),
            Enc::Z(e) => e.write_all(b),
            Enc::G(e) => e.write_all(b),
        }
    }
    /// The buffer in four slices: none, a third, one byte, the rest.
    pub fn write_vectored(&mut self, b: &[u8]) -> io::Result<usize> {
        let (x, y) = b.split_at(b.len() / 3);
        let (y, z) = y.split_at(y.len().min(1));
        let v = [io::IoSlice::new(&[]), io::IoSlice::new(x), io::IoSlice::new(y), io::IoSlice::new(z)];
        match self {
            Enc::D(e) => e.write_vectored(&v),
            Enc::Z(e) => e.write_vectored(&v),
            Enc::G(e) => e.write_vectored(&v),
        }
    }
    pub fn flush(&mut self) -> io::Result<()> {
        match self {
            Enc::D(e) => e.flush(),
            Enc::Z(e) => e.flush(),
            Enc::G(e) => e.flush(),
        }
    }
    pub fn reset(&mut self, s: Sink, b: Option<u8>) -> io::Result<Sink> {
        match self {
            Enc::D(e) => e.reset(s),
            Enc::Z(e) => e.reset(s),
            Enc::G(e) => match b {
                Some(b) => e.reset_with_builder(s, builder(b)),
                None => e.reset(s),
            },
        }
    }
    pub fn finish(self) -> io::Result<Sink> {
        match self {
            Enc::D(e) => e.finish(),
            Enc::Z(e) => e.finish(),
            Enc::G(e) => e.finish(),
        }
    }
    pub fn checksum(&self) -> Option<u32> {
        match self {
            Enc::D(_) => None,
            Enc::Z(e) => Some(e.checksum()),
            Enc::G(e) => Some(e.checksum()),
        }
    }
}

/// A violated clause of the model.
#[derive(Clone, Debug)]
pub struct Viol {
    pub clause: &'static str,
    pub msg: String,
}

pub struct Stream {
    pub data: Rc<RefCell<Vec<u8>>>,
    pub acc: std::ops::Range<usize>,
    pub gz_header: Vec<u8>,
    /// finish/reset returned Ok, or dropped without any error.
    pub complete: bool,
}

pub struct Run {
    pub streams: Vec<Stream>,
    pub viols: Vec<Viol>,
    pub sink_calls: usize,
    pub api_calls: usize,
    pub log: Vec<(u32, Ans)>,
    pub ids: Vec<u32>,
    pub state_hashes: Vec<u64>,
    /// Sink panicked and the panic propagated.
    pub sink_panic: bool,
}

impl Run {
    pub fn outcome(&self) -> u64 {
        let mut h = self.streams.len() as u64;
        for s in &self.streams {
            h = mix(h, hash64(&s.data.borrow()));
        }
        h
    }
}

fn err_allowed(e: &io::Error, op_errors: &[Ans], is_write: bool) -> bool {
    match e.kind() {
        // The documented "try again" of write().
        ErrorKind::Interrupted => is_write,
        ErrorKind::WouldBlock if op_errors.contains(&Ans::Block) => true,
        ErrorKind::Other if op_errors.contains(&Ans::Other) => true,
        ErrorKind::WriteZero if op_errors.contains(&Ans::Zero) => true,
        k => op_errors.iter().any(|a| match a {
            Ans::K(i) => KIND_LIST[*i as usize] == k,
            Ans::Os(n) => io::Error::from_raw_os_error(*n).kind() == k,
            _ => false,
        }),
    }
}

fn is_write_op(op: Op) -> bool {
    matches!(op, Op::Write(_) | Op::WriteAll(_) | Op::Std(_) | Op::Vec(_))
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Runs the history. Panics of the code under test become violations.
pub fn run(h: &Hist, script: &Script, keep_log: bool) -> Run {
    let bound = 2000 + 8 * (h.payload.len() + 400 * (h.ops.len() + 1)) + script.pre.len();
    let env = Rc::new(RefCell::new(Env {
        script: script.clone(),
        calls: 0,
        idx: 0,
        max_calls: bound,
        accepted_total: 0,
        op_errors: vec![],
        op_first: None,
        op_last: None,
        op_calls: 0,
        op_late: 0,
        call_error: false,
        op_last_ok: true,
        panicked: false,
        writes_after_panic: 0,
        log: vec![],
        ids: vec![],
        keep_log,
    }));
    let new_sink = |id: usize, data: &Rc<RefCell<Vec<u8>>>| Sink { id, data: data.clone(), env: env.clone() };
    let gzh = |b: u8| if h.kind == Kind::Gzip { builder(b).into_header() } else { vec![] };
    let mut r = Run { streams: vec![], viols: vec![], sink_calls: 0, api_calls: 0, log: vec![], ids: vec![], state_hashes: vec![], sink_panic: false };
    let d0 = Rc::new(RefCell::new(Vec::new()));
    r.streams.push(Stream { data: d0.clone(), acc: 0..0, gz_header: gzh(h.gz), complete: false });
    let mut enc = Some(Enc::new(h.kind, h.opts, h.gz, new_sink(0, &d0)));
    let mut pos = 0usize;
    // The current stream was ended (or partly ended) by a reset that failed.
    let mut closed = false;
    let seed = mix(h.kind as u64, (h.opts.max_hash_checks as u64) << 32 | (h.opts.lazy_if_less_than as u64) << 8 | h.opts.matching_type as u64);

    macro_rules! viol {
        ($c:expr, $($a:tt)*) => { r.viols.push(Viol { clause: $c, msg: format!($($a)*) }) };
    }
    let mut ops: Vec<Op> = h.ops.to_vec();
    if !matches!(ops.last(), Some(Op::Finish) | Some(Op::Drop)) {
        ops.push(Op::Drop);
    }
    let mut i = 0;
    let mut retries = 0u8;
    while i < ops.len() {
        let op = ops[i];
        {
            let mut e = env.borrow_mut();
            e.op_errors.clear();
            e.op_first = None;
            e.op_last = None;
            e.op_calls = 0;
            e.op_late = 0;
            e.call_error = false;
            e.op_last_ok = true;
        }
        r.api_calls += 1;
        let before_pos = pos;
        let cur = r.streams.len() - 1;
        // (failed with error, finished encoder)
        let mut failed: Option<io::Error> = None;
        let mut ended = false;
        let res = catch_unwind(AssertUnwindSafe(|| -> Vec<Viol> {
            let mut v: Vec<Viol> = vec![];
            match op {
                Op::Write(n) => {
                    let buf = &h.payload[pos.min(h.payload.len())..(pos + n).min(h.payload.len())];
                    match enc.as_mut().unwrap().write(buf) {
                        Ok(k) => {
                            if k > buf.len() {
                                v.push(Viol { clause: "write-count", msg: format!("write of {} bytes returned Ok({})", buf.len(), k) });
                            } else {
                                pos += k;
                            }
                            if k == 0 && !buf.is_empty() && !closed {
                                v.push(Viol { clause: "write-zero", msg: format!("write of {} bytes returned Ok(0)", buf.len()) });
                            }
                        }
                        Err(e) => failed = Some(e),
                    }
                }
                Op::Std(n) => {
                    let end = (pos + n).min(h.payload.len());
                    match enc.as_mut().unwrap().write_all(&h.payload[pos..end]) {
                        Ok(()) => pos = end,
                        Err(e) => failed = Some(e),
                    }
                }
                Op::WriteAll(n) | Op::Vec(n) => {
                    let end = (pos + n).min(h.payload.len());
                    let mut idle = 0;
                    while pos < end {
                        let c0 = env.borrow().calls;
                        env.borrow_mut().call_error = false;
                        let enc = enc.as_mut().unwrap();
                        let buf = &h.payload[pos..end];
                        match if matches!(op, Op::Vec(_)) { enc.write_vectored(buf) } else { enc.write(buf) } {
                            Ok(0) => {
                                if !closed {
                                    v.push(Viol { clause: "write-zero", msg: format!("write of {} bytes returned Ok(0)", end - pos) });
                                }
                                failed = Some(io::Error::from(ErrorKind::WriteZero));
                                break;
                            }
                            Ok(k) if k > end - pos => {
                                v.push(Viol { clause: "write-count", msg: format!("write of {} bytes returned Ok({})", end - pos, k) });
                                break;
                            }
                            Ok(k) => {
                                pos += k;
                                idle = 0;
                            }
                            Err(e) if e.kind() == ErrorKind::Interrupted => {
                                if env.borrow().calls == c0 {
                                    idle += 1;
                                    if idle > 50 {
                                        panic!("{}", LIVELOCK);
                                    }
                                }
                            }
                            Err(e) => {
                                failed = Some(e);
                                break;
                            }
                        }
                    }
                }
                Op::Flush => {
                    if let Err(e) = enc.as_mut().unwrap().flush() {
                        failed = Some(e);
                    }
                }
                Op::Reset | Op::ResetB(_) => {
                    let b = if let Op::ResetB(b) = op { Some(b) } else { None };
                    let nd = Rc::new(RefCell::new(Vec::new()));
                    match enc.as_mut().unwrap().reset(new_sink(cur + 1, &nd), b) {
                        Ok(old) => {
                            if old.id != cur {
                                v.push(Viol { clause: "returned-writer", msg: format!("reset returned writer {} instead of {}", old.id, cur) });
                            }
                            r.streams[cur].acc.end = pos;
                            r.streams.push(Stream { data: nd, acc: pos..pos, gz_header: gzh(b.unwrap_or(0)), complete: false });
                        }
                        Err(e) => failed = Some(e),
                    }
                }
                Op::Finish => {
                    ended = true;
                    match enc.take().unwrap().finish() {
                        Ok(s) => {
                            if s.id != cur {
                                v.push(Viol { clause: "returned-writer", msg: format!("finish returned writer {} instead of {}", s.id, cur) });
                            }
                        }
                        Err(e) => failed = Some(e),
                    }
                }
                Op::Drop => {
                    ended = true;
                    drop(enc.take());
                }
            }
            v
        }));
        r.streams[cur].acc.end = if r.streams.len() - 1 > cur { before_pos } else { pos };
        let (op_errors, last_ok, late) = {
            let e = env.borrow();
            (e.op_errors.clone(), e.op_last_ok, e.op_late)
        };
        // (A failed finish() drops the encoder, which tries again, and a GzEncoder holds another one to drop.)
        if late > 0 && !ended {
            viol!("after-error", "call {} ({:?}) went on calling the sink ({} times) after it answered {:?}", i, op, late, op_errors);
        }
        match res {
            Ok(v) => r.viols.extend(v),
            Err(p) => {
                let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                let e = env.borrow();
                if msg == LIVELOCK {
                    viol!("term", "call {} ({:?}) does not end: {} sink calls (bound {})", i, op, e.calls, e.max_calls);
                } else if e.panicked && msg == SINKPANIC {
                    r.sink_panic = true;
                } else {
                    viol!("panic", "call {} ({:?}) panicked: {}", i, op, LAST_PANIC.with(|l| l.borrow().clone()));
                }
                drop(e);
                // Drop the encoder as the unwinding owner would: while panicking.
                let e2 = std::mem::replace(&mut enc, None);
                let before = r.streams.iter().map(|s| s.data.borrow().len()).sum::<usize>();
                let was_sink_panic = r.sink_panic;
                let r2 = catch_unwind(AssertUnwindSafe(move || {
                    struct D(#[allow(dead_code)] Option<Enc>);
                    let _d = D(e2);
                    std::panic::resume_unwind(Box::new("unwinding owner"));
                }));
                drop(r2);
                if was_sink_panic {
                    let e = env.borrow();
                    if e.writes_after_panic > 0 || r.streams.iter().map(|s| s.data.borrow().len()).sum::<usize>() != before {
                        viol!("panic-writes", "{} calls to the sink while unwinding", e.writes_after_panic);
                    }
                    drop(e);
                    if h.check {
                        let s = &r.streams[cur];
                        // The call that panicked may have taken in all of its data.
                        let hi = match op {
                            Op::Write(n) | Op::WriteAll(n) | Op::Std(n) | Op::Vec(n) => (before_pos + n).min(h.payload.len()),
                            _ => pos,
                        };
                        let d = s.data.borrow();
                        let ok = check_prefix(h.kind, &d, &h.payload[s.acc.start..pos], &s.gz_header, &LIM).map(|_| ());
                        let ok = if ok.is_err() && hi > pos {
                            // Decoded data may run past what was acknowledged; compare with all offered data,
                            // which needs no checksum as the stream cannot be finished.
                            check_prefix(h.kind, &d, &h.payload[s.acc.start..hi], &s.gz_header, &LIM).map(|_| ())
                        } else {
                            ok
                        };
                        drop(d);
                        if let Err(e) = ok {
                            viol!("prefix", "after the sink panicked in call {} ({:?}): {}", i, op, e);
                        }
                    }
                }
                break;
            }
        }
        if let Some(e) = &failed {
            let is_write = matches!(op, Op::Write(_));
            let closed_wz = closed && matches!(op, Op::WriteAll(_) | Op::Std(_) | Op::Vec(_)) && e.kind() == ErrorKind::WriteZero;
            if !closed_wz && !err_allowed(e, &op_errors, is_write) {
                viol!("spurious-error", "call {} ({:?}) returned {:?} ({}) while the sink answered {:?}", i, op, e.kind(), e, op_errors);
            }
        }
        {
            // The error returned is the one the sink gave: the last one for the writes (a write that took data in does
            // not report it), the first one for finish() (the drop inside it tries again), the only one otherwise.
            let e = env.borrow();
            let told = if op == Op::Finish { e.op_first } else { e.op_last };
            match (&failed, told) {
                (Some(f), Some((a, i2))) if !same_error(f, a, i2) && !(closed && f.kind() == ErrorKind::WriteZero && is_write_op(op)) => {
                    viol!("error-changed", "call {} ({:?}) returned {:?} instead of the error the sink answered ({:?}, answer {})", i, op, f, a, i2)
                }
                (None, Some(_)) if matches!(op, Op::Flush | Op::Reset | Op::ResetB(_) | Op::Finish) && !r.sink_panic => {
                    viol!("error-lost", "call {} ({:?}) returned Ok although the sink answered {:?}", i, op, op_errors)
                }
                _ => {}
            }
        }
        // State of the current stream.
        let stream_reset = r.streams.len() - 1 > cur;
        if h.check {
            let s = &r.streams[cur];
            let d = s.data.borrow();
            let acc = &h.payload[s.acc.clone()];
            r.state_hashes.push(mix(mix(seed, hash64(&d)), mix(hash64(acc), closed as u64 | (ended as u64) << 1 | (failed.is_some() as u64) << 2)));
            let p: Result<Prefix, String> = check_prefix(h.kind, &d, acc, &s.gz_header, &LIM);
            let show = |d: &[u8]| -> String { d.iter().take(80).map(|b| format!("{:02x}", b)).collect::<String>() };
            match p {
                Err(e) => viol!("prefix", "after call {} ({:?} -> {:?}): {} [sink {} bytes: {}]", i, op, failed.as_ref().map(|e| e.kind()), e, d.len(), show(&d)),
                Ok(p) => {
                    let ok = failed.is_none();
                    if stream_reset && !p.complete {
                        viol!("reset-incomplete", "reset returned Ok but the old writer holds an incomplete stream ({} of {} bytes decodable) [{}]", p.dec.out.len(), acc.len(), show(&d));
                    }
                    if op == Op::Finish && ok && !p.complete {
                        viol!("finish-incomplete", "finish returned Ok but the writer holds an incomplete stream ({} of {} bytes decodable) [{}]", p.dec.out.len(), acc.len(), show(&d));
                    }
                    if op == Op::Finish && !ok && op_errors.len() == 1 && last_ok && !p.complete {
                        viol!("drop-incomplete", "finish failed once, the sink recovered, but the drop inside finish left an incomplete stream [{}]", show(&d));
                    }
                    if op == Op::Drop && op_errors.is_empty() && !p.complete {
                        viol!("drop-incomplete", "drop (no sink error) left an incomplete stream ({} of {} bytes decodable) [{}]", p.dec.out.len(), acc.len(), show(&d));
                    }
                    if op == Op::Flush && ok && !closed && !p.synced {
                        viol!("flush-incomplete", "flush returned Ok but the sink is not at a sync point with all {} accepted bytes ({} decodable) [{}]", acc.len(), p.dec.out.len(), show(&d));
                    }
                    if op == Op::Flush && ok && closed && p.dec.out.len() != acc.len() {
                        viol!("flush-incomplete", "flush after a failed reset returned Ok but only {} of {} accepted bytes are decodable", p.dec.out.len(), acc.len());
                    }
                    if !ended && !stream_reset && !closed && matches!(p.dec.end, crate::inflate::End::Final { .. }) && !matches!(op, Op::Reset | Op::ResetB(_)) {
                        viol!("prefix", "final block written by call {} ({:?})", i, op);
                    }
                }
            }
            drop(d);
            if let Some(Some(c)) = enc.as_ref().map(|e| e.checksum()) {
                let s = r.streams.last().unwrap();
                let acc = &h.payload[s.acc.clone()];
                let want = if h.kind == Kind::Zlib { adler32(acc) } else { crc32(acc) };
                if c != want {
                    viol!("checksum", "after call {} ({:?} -> {:?}): checksum() is {:08x}, expected {:08x} for the {} accepted bytes", i, op, failed.as_ref().map(|e| e.kind()), c, want, acc.len());
                }
            }
        }
        if stream_reset {
            r.streams[cur].complete = true;
            closed = false;
        }
        if ended {
            r.streams[cur].complete = failed.is_none() && op_errors.is_empty();
            break;
        }
        if failed.is_some() {
            if matches!(op, Op::Reset | Op::ResetB(_)) {
                closed = true;
            }
            match h.policy {
                Policy::Retry(n) if retries < n => {
                    retries += 1;
                    // For WriteAll: retry only what was not accepted.
                    match op {
                        Op::WriteAll(n) => ops[i] = Op::WriteAll(n - (pos - before_pos).min(n)),
                        Op::Vec(n) => ops[i] = Op::Vec(n - (pos - before_pos).min(n)),
                        _ => {}
                    }
                    continue;
                }
                Policy::Drop => {
                    ops.truncate(i + 1);
                    ops.push(Op::Drop);
                }
                _ => {}
            }
        }
        retries = 0;
        i += 1;
        if r.viols.len() > 8 {
            break;
        }
    }
    // After the end, nothing may be written any more: the encoder is gone.
    if let Some(e) = enc.take() {
        // Only after a violation: do not run more of the code under test than needed.
        std::mem::forget(e);
    }
    let e = env.borrow();
    r.sink_calls = e.calls;
    r.log = e.log.clone();
    r.ids = e.ids.clone();
    r
}

pub fn show_opts(o: &CompressionOptions) -> String {
    format!("CompressionOptions{{max_hash_checks:{},lazy_if_less_than:{},matching_type:{:?}}}", o.max_hash_checks, o.lazy_if_less_than, o.matching_type)
}

pub fn hex(d: &[u8]) -> String {
    if d.len() <= 96 {
        d.iter().map(|b| format!("{:02x}", b)).collect()
    } else {
        format!("{}.. ({} bytes, hash {:016x})", d[..64].iter().map(|b| format!("{:02x}", b)).collect::<String>(), d.len(), hash64(d))
    }
}
