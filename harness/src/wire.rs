//! A scripted transport whose far end is a specification-conforming remote peer.
//! The same script drives blocking (`SyncR`/`SyncW`) and polled (`AsyncR`/`AsyncW`) ends.
use crate::model::{Dir, Secrets};
use crate::runner::{spin, Tier};
use crate::session::{remote_ell, secret, PeerHs};
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Error, ErrorKind, Read, Result as IoResult, Write};
use std::pin::Pin;
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

/// One transport call: move at most this many bytes, or interrupt (blocking) / not ready (polled).
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    N(u32),
    Hiccup,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sched(pub Vec<Step>);
impl Sched {
    pub fn at(&self, i: usize) -> Step {
        if self.0.is_empty() {
            return Step::N(u32::MAX);
        }
        let n = self.0.len();
        // A schedule of hiccups only would never progress.
        if i % (n + 1) == n {
            return if self.0.iter().all(|s| *s == Step::Hiccup) { Step::N(u32::MAX) } else { self.0[0] };
        }
        self.0[i % (n + 1)]
    }
}
pub fn sched() -> BoxedStrategy<Sched> {
    let step = prop_oneof![
        4 => prop_oneof![Just(1u32), Just(2), Just(3), Just(4), 1u32..20, 1u32..300, Just(64), Just(256), Just(255), Just(257), Just(16), Just(15)].prop_map(Step::N),
        1 => proptest::sample::select(dict_upto(5000)).prop_map(|n| Step::N(n.max(1))),
        2 => Just(Step::Hiccup),
    ];
    prop_oneof![
        2 => Just(Sched(vec![])),
        1 => Just(Sched(vec![Step::N(1)])),
        1 => Just(Sched(vec![Step::N(1), Step::Hiccup])),
        6 => proptest::collection::vec(step, 1..10).prop_map(Sched),
    ]
    .boxed()
}

/// The remote peer's side of a connection.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Remote {
    pub rseed: u32,
    pub hs: PeerHs,
    /// Session packets: (header, contents).
    pub session: Vec<(u8, Blob)>,
}
/// What the local side is configured with.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Local {
    pub initiator: bool,
    pub magic: [u8; 4],
    pub garbage: Option<Blob>,
    pub decoys: Option<Vec<Blob>>,
}
impl Local {
    pub fn garbage_vec(&self) -> Option<Vec<u8>> {
        self.garbage.as_ref().map(|g| g.get())
    }
    pub fn decoys_vec(&self) -> Option<Vec<Vec<u8>>> {
        self.decoys.as_ref().map(|d| d.iter().map(|b| b.get()).collect())
    }
    pub fn garbage_len(&self) -> usize {
        self.garbage.as_ref().map(|g| g.len()).unwrap_or(0)
    }
}
/// Mostly a few decoys; sometimes more than fit into a byte or into one key epoch.
pub fn local_decoys() -> BoxedStrategy<Vec<Blob>> {
    prop_oneof![
        40 => proptest::collection::vec(prop_oneof![4 => blob(80), 1 => blob(2000)], 0..4),
        1 => proptest::collection::vec(blob(3), 4..320),
    ]
    .boxed()
}
pub fn remote_decoys() -> BoxedStrategy<Vec<(u8, Blob)>> {
    let h = || prop_oneof![3 => Just(0x80u8), 1 => any::<u8>()];
    prop_oneof![
        30 => proptest::collection::vec((h(), prop_oneof![4 => blob(80), 1 => blob(3000)]), 0..4),
        1 => proptest::collection::vec((h(), blob(3)), 4..320),
    ]
    .boxed()
}
/// A conforming connection with this many decoys on both sides of the handshake.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ManyCase {
    /// 0 blocking, 1 async, 2 sans-IO
    pub way: u8,
    pub initiator: bool,
    pub remote: u32,
    pub local: u32,
    pub size: u32,
}
impl ManyCase {
    pub fn list(ways: &[u8], t: Tier) -> Vec<ManyCase> {
        let mut v = vec![];
        let mut n: Vec<(u32, u32, u32)> = vec![(0, 255, 1), (255, 0, 0), (256, 256, 2), (257, 3, 0), (300, 300, 1), (700, 224, 5), (65_540, 0, 0), (3, 65_540, 0)];
        for x in dict_upto(20_000) {
            n.push((x as u32, 1, 0));
        }
        if t == Tier::Thorough {
            n.push((400_000, 70_000, 1));
        }
        for (k, (remote, local, size)) in n.into_iter().enumerate() {
            for w in ways {
                v.push(ManyCase { way: *w, initiator: k % 2 == 0, remote, local, size });
            }
        }
        v
    }
    pub fn parts(&self) -> (Local, Remote) {
        let d = |n: u32| (0..n).map(|k| Blob::R(if self.size == 0 { 0 } else { k % (self.size + 1) }, k)).collect::<Vec<_>>();
        let local = Local { initiator: self.initiator, magic: [0xF9, 0xBE, 0xB4, 0xD9], garbage: Some(Blob::R(9, 9)), decoys: Some(d(self.local)) };
        let decoys = d(self.remote).into_iter().map(|b| (0x80u8, b)).collect();
        let hs = PeerHs { garbage: Blob::R(11, 11), decoys, version_header: 0, version: Blob::empty() };
        (local, Remote { rseed: 77 + self.remote, hs, session: vec![(0, Blob::R(30, 1)), (0x80, Blob::R(3, 2)), (0, Blob::R(0, 3))] })
    }
}

pub fn local() -> BoxedStrategy<Local> {
    (any::<bool>(), magic(), proptest::option::of(blob(4095)), proptest::option::of(local_decoys()))
        .prop_map(|(initiator, magic, garbage, decoys)| Local { initiator, magic, garbage, decoys })
        .boxed()
}
pub fn peer_hs() -> BoxedStrategy<PeerHs> {
    (
        prop_oneof![3 => blob(4095), 2 => blob(40), 2 => (200u32..300, any::<u32>()).prop_map(|(l, s)| Blob::R(l, s)), 1 => (4070u32..=4095, any::<u32>()).prop_map(|(l, s)| Blob::R(l, s))],
        remote_decoys(),
        prop_oneof![4 => Just(0u8), 1 => 0u8..128],
        prop_oneof![4 => Just(Blob::empty()), 1 => blob(60)],
    )
        .prop_map(|(garbage, decoys, version_header, version)| PeerHs { garbage, decoys, version_header, version })
        .boxed()
}
pub fn session_packets(max: usize) -> BoxedStrategy<Vec<(u8, Blob)>> {
    proptest::collection::vec((prop_oneof![3 => Just(0u8), 2 => Just(0x80u8), 1 => any::<u8>()], prop_oneof![6 => blob(60), 2 => blob(800), 1 => blob(9000)]), 0..max).boxed()
}
pub fn remote(max_packets: usize) -> BoxedStrategy<Remote> {
    (any::<u32>(), peer_hs(), session_packets(max_packets)).prop_map(|(rseed, hs, session)| Remote { rseed, hs, session }).boxed()
}

/// Everything the model knows once the local key is on the wire.
#[derive(Clone)]
pub struct Known {
    pub local_key: [u8; 64],
    pub secrets: Secrets,
    /// Model cipher positioned after everything in `stream`.
    pub tx: Dir,
    /// Model cipher for packets of the local side, at its start.
    pub rx: Dir,
    /// Offsets into the stream: end of key, garbage, terminator, version; then of each session packet.
    pub marks: Vec<usize>,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    None,
    /// Clean end of stream once this many bytes were read.
    Eof(usize),
    /// This error once that many bytes were read (index into ERRORS), then end of stream.
    ReadErr(usize, u8),
    /// This error once that many bytes were written.
    WriteErr(usize, u8),
    /// Accept no more bytes after that many (Ok(0)).
    WriteZero(usize),
    /// The nth flush fails.
    FlushErr(usize, u8),
}
const ERRORS: [ErrorKind; 24] = [
    ErrorKind::ConnectionReset, ErrorKind::ConnectionAborted, ErrorKind::UnexpectedEof, ErrorKind::BrokenPipe,
    ErrorKind::TimedOut, ErrorKind::WouldBlock, ErrorKind::PermissionDenied, ErrorKind::NotConnected, ErrorKind::Other,
    ErrorKind::InvalidData,
    ErrorKind::ConnectionRefused, ErrorKind::HostUnreachable, ErrorKind::NetworkUnreachable, ErrorKind::NetworkDown,
    ErrorKind::AddrNotAvailable, ErrorKind::AddrInUse, ErrorKind::InvalidInput, ErrorKind::NotFound, ErrorKind::AlreadyExists,
    ErrorKind::WriteZero, ErrorKind::OutOfMemory, ErrorKind::Unsupported, ErrorKind::StorageFull, ErrorKind::ResourceBusy,
];
/// A number of an error: its kind, and how it is made.
pub fn error_number() -> BoxedStrategy<u8> {
    prop_oneof![1 => 0u8..10, 1 => 0u8..3 * ERRORS.len() as u8].boxed()
}
pub fn kind_of(e: u8) -> ErrorKind {
    ERRORS[e as usize % ERRORS.len()]
}
pub fn error_of(e: u8) -> Error {
    let k = kind_of(e);
    // What the system calls it (Linux).
    let os = match k {
        ErrorKind::ConnectionReset => 104,
        ErrorKind::ConnectionAborted => 103,
        ErrorKind::BrokenPipe => 32,
        ErrorKind::TimedOut => 110,
        ErrorKind::WouldBlock => 11,
        ErrorKind::PermissionDenied => 13,
        ErrorKind::NotConnected => 107,
        ErrorKind::ConnectionRefused => 111,
        ErrorKind::HostUnreachable => 113,
        ErrorKind::NetworkUnreachable => 101,
        ErrorKind::NetworkDown => 100,
        _ => 0,
    };
    match e as usize / ERRORS.len() {
        1 => Error::from(k),
        2 if os != 0 && Error::from_raw_os_error(os).kind() == k => Error::from_raw_os_error(os),
        _ => Error::new(k, "injected"),
    }
}
pub fn suggests_v1(k: ErrorKind) -> bool {
    matches!(k, ErrorKind::ConnectionReset | ErrorKind::ConnectionAborted | ErrorKind::UnexpectedEof)
}

pub struct Wire {
    pub remote: Remote,
    pub local: Local,
    /// Bytes accepted from the local side, and how many of them were flushed.
    pub written: Vec<u8>,
    pub flushed: usize,
    pub flushes: usize,
    /// The remote's bytes, computed as far as possible.
    pub stream: Vec<u8>,
    pub known: Option<Known>,
    pub pos: usize,
    /// Remote sends session packets only after the local version packet was flushed, one per `release`.
    pub strict: bool,
    pub released: usize,
    pub rsched: Sched,
    pub wsched: Sched,
    pub rcalls: usize,
    pub wcalls: usize,
    pub fault: Fault,
    /// The fault strikes once only.
    pub transient: bool,
    /// Writes make no progress while set.
    pub stall: bool,
    pub write_waker: Option<std::task::Waker>,
    pub faulted: bool,
    /// How much had been written when the fault first struck.
    pub fault_at: Option<usize>,
    /// Blocking writes take that many microseconds.
    pub slow: u32,
    /// End of stream after all bytes instead of waiting forever.
    pub eof_at_end: bool,
    /// Edits applied to the remote's bytes once computed.
    pub mutate: Option<fn(&mut Vec<u8>, &Known, &serde_json::Value)>,
    pub mutate_arg: serde_json::Value,
    /// The stream before `mutate`.
    pub honest: Vec<u8>,
    pub eofs: usize,
    pub pended: bool,
    pub blocked: bool,
    pub shutdowns: usize,
    pub dropped_writer: bool,
    pub after_write_fault: usize,
    pub read_waker: Option<std::task::Waker>,


}
pub type Shared = Arc<Mutex<Wire>>;

impl Wire {
    pub fn new(local: Local, remote: Remote, rsched: Sched, wsched: Sched) -> Shared {
        // The remote's key and garbage do not depend on the local side.
        let mut stream = remote_ell(remote.rseed).to_vec();
        stream.extend(remote.hs.garbage.get());
        Arc::new(Mutex::new(Wire {
            remote, local, written: vec![], flushed: 0, flushes: 0, stream, known: None, pos: 0, strict: false, released: 0, rsched,
            wsched, rcalls: 0, wcalls: 0, fault: Fault::None, transient: false, stall: false, write_waker: None, faulted: false, fault_at: None, slow: 0, eof_at_end: false, mutate: None,
            mutate_arg: serde_json::Value::Null, honest: vec![], eofs: 0, pended: false, blocked: false, shutdowns: 0, dropped_writer: false,
            after_write_fault: 0, read_waker: None,
        }))
    }
    /// Learn the local key once it has been flushed and compute the rest of the remote's bytes.
    pub fn learn(&mut self) {
        if self.known.is_some() || self.flushed < 64 {
            return;
        }
        crate::alloc::ours(|| self.compute())
    }
    fn compute(&mut self) {
        let local_key: [u8; 64] = self.written[..64].try_into().unwrap();
        let rkey: [u8; 64] = remote_ell(self.remote.rseed);
        let ri = !self.local.initiator;
        let (ei, er) = if ri { (&rkey, &local_key) } else { (&local_key, &rkey) };
        let secrets = Secrets::derive(ei, er, &secret(self.remote.rseed), ri, self.local.magic);
        let (mut tx, rx) = secrets.dirs(ri);
        let term = secrets.terms(ri).0;
        let mut marks = vec![64, self.stream.len(), self.stream.len() + 16];
        self.stream.extend(self.remote.hs.tail(&term, &mut tx));
        marks.push(self.stream.len());
        for (h, b) in &self.remote.session {
            self.stream.extend(tx.seal(*h, &b.get(), &[]));
            marks.push(self.stream.len());
        }
        let known = Known { local_key, secrets, tx, rx, marks };
        self.honest = self.stream.clone();
        if let Some(f) = self.mutate {
            f(&mut self.stream, &known, &self.mutate_arg);
        }
        self.known = Some(known);
    }
    /// Length of the local handshake output when complete.
    pub fn local_hs_len(&self) -> usize {
        64 + self.local.garbage_len() + 36 + self.local.decoys.iter().flatten().map(|d| d.len() + 20).sum::<usize>()
    }
    /// How many bytes of the stream the remote has sent by now.
    pub fn available(&self) -> usize {
        let n = self.stream.len();
        if !self.strict {
            // A responder needs the initiator's key first only for what follows its garbage.
            return n;
        }
        match &self.known {
            // A responding remote sends nothing before it has the initiator's key.
            None => if self.local.initiator { 0 } else { n },
            Some(k) => {
                if self.mutate.is_some() {
                    return n;
                }
                if self.flushed < self.local_hs_len() { k.marks[3] } else { k.marks[(3 + self.released).min(k.marks.len() - 1)] }
            }
        }
    }
    pub fn read_step(&mut self, want: usize, out: &mut dyn FnMut(&[u8])) -> ReadStep {
        self.learn();
        let call = self.rcalls;
        self.rcalls += 1;
        if self.rcalls > 2_000_000 {
            spin("the transport is read without end");
        }
        if want == 0 {
            return ReadStep::Done;
        }
        let step = self.rsched.at(call);
        if step == Step::Hiccup {
            self.pended = true;
            return ReadStep::Hiccup;
        }
        let mut limit = self.available();
        match self.fault {
            Fault::Eof(at) if self.pos >= at => {
                self.faulted = true;
                self.note_eof();
                return ReadStep::Done;
            }
            Fault::ReadErr(at, e) if self.pos >= at => {
                if self.faulted {
                    self.note_eof();
                    return ReadStep::Done;
                }
                self.faulted = true;
                return ReadStep::Err(error_of(e));
            }
            Fault::Eof(at) | Fault::ReadErr(at, _) => limit = limit.min(at),
            _ => {}
        }
        if self.pos >= limit {
            if self.eof_at_end && self.known.is_some() && self.pos >= self.stream.len() {
                self.note_eof();
                return ReadStep::Done;
            }
            self.blocked = true;
            return ReadStep::Block;
        }
        let Step::N(m) = step else { return ReadStep::Hiccup };
        let n = want.min(limit - self.pos).min(m.max(1) as usize);
        out(&self.stream[self.pos..self.pos + n]);
        self.pos += n;
        ReadStep::Done
    }
    fn strike(&mut self) {
        self.faulted = true;
        self.fault_at.get_or_insert(self.written.len());
        if self.transient {
            self.fault = Fault::None;
        }
    }
    fn note_eof(&mut self) {
        self.eofs += 1;
        if self.eofs > 1000 {
            spin("the transport is read over and over after its end");
        }
    }
    fn write_step(&mut self, data: &[u8]) -> Result<usize, WriteStop> {
        let call = self.wcalls;
        self.wcalls += 1;
        if self.wcalls > 20_000_000 {
            spin("the transport is written without end");
        }
        if self.wsched.at(call) == Step::Hiccup {
            self.pended = true;
            return Err(WriteStop::Hiccup);
        }
        let Step::N(m) = self.wsched.at(call) else { return Err(WriteStop::Hiccup) };
        let mut n = data.len().min(m.max(1) as usize);
        match self.fault {
            Fault::WriteErr(at, e) => {
                if self.written.len() >= at && !data.is_empty() {
                    if self.faulted {
                        self.after_write_fault += 1;
                    }
                    self.strike();
                    return Err(WriteStop::Err(error_of(e)));
                }
                n = n.min(at - self.written.len().min(at));
            }
            Fault::WriteZero(at) => {
                n = n.min(at - self.written.len().min(at));
                if n == 0 && !data.is_empty() {
                    self.strike();
                }
            }
            _ => {}
        }
        crate::alloc::ours(|| self.written.extend_from_slice(&data[..n]));
        Ok(n)
    }
    fn flush_step(&mut self) -> Result<(), WriteStop> {
        let call = self.wcalls;
        self.wcalls += 1;
        if self.wsched.at(call) == Step::Hiccup {
            self.pended = true;
            return Err(WriteStop::Hiccup);
        }
        if let Fault::FlushErr(nth, e) = self.fault {
            if self.flushes >= nth {
                self.strike();
                return Err(WriteStop::Err(error_of(e)));
            }
        }
        self.flushes += 1;
        self.flushed = self.written.len();
        self.learn();
        if let Some(w) = self.read_waker.take() {
            w.wake();
        }
        Ok(())
    }
    /// The bytes a conforming local side has produced for this handshake and these messages.
    pub fn expected_output(&self, messages: &[(bool, Vec<u8>)]) -> Option<Vec<u8>> {
        let k = self.known.as_ref()?;
        let mut rx = k.rx.clone();
        let mut out = k.local_key.to_vec();
        let g = self.local.garbage_vec().unwrap_or_default();
        out.extend(&g);
        out.extend(k.secrets.terms(self.local.initiator).0);
        let mut aad: &[u8] = &g;
        for d in self.local.decoys_vec().unwrap_or_default() {
            out.extend(rx.seal(0x80, &d, aad));
            aad = &[];
        }
        out.extend(rx.seal(0, &[], aad));
        for (decoy, m) in messages {
            out.extend(rx.seal(if *decoy { 0x80 } else { 0 }, m, &[]));
        }
        Some(out)
    }
}
pub enum ReadStep {
    Done,
    Hiccup,
    Block,
    Err(Error),
}
enum WriteStop {
    Hiccup,
    Err(Error),
}
pub fn lock(s: &Shared) -> MutexGuard<'_, Wire> {
    s.lock().unwrap_or_else(|e| e.into_inner())
}

pub struct SyncR(pub Shared);
impl Read for SyncR {
    fn read(&mut self, buf: &mut [u8]) -> IoResult<usize> {
        let mut n = 0;
        let want = buf.len();
        let step = {
            let mut w = lock(&self.0);
            w.read_step(want, &mut |d| {
                buf[..d.len()].copy_from_slice(d);
                n = d.len();
            })
        };
        match step {
            ReadStep::Done => Ok(n),
            ReadStep::Hiccup => Err(Error::new(ErrorKind::Interrupted, "interrupted")),
            ReadStep::Err(k) => Err(k),
            ReadStep::Block => {
                let w = lock(&self.0);
                let (pos, fl) = (w.pos, w.flushed);
                drop(w);
                spin(format!("deadlock: waits for remote byte {pos}, which the remote does not send before it has more than the {fl} bytes flushed so far"))
            }
        }
    }
}
pub struct SyncW(pub Shared);
impl Write for SyncW {
    fn write(&mut self, buf: &[u8]) -> IoResult<usize> {
        let slow = lock(&self.0).slow;
        if slow > 0 {
            let t = std::time::Instant::now();
            while t.elapsed() < std::time::Duration::from_micros(slow as u64) {
                std::thread::yield_now();
            }
        }
        let r = lock(&self.0).write_step(buf);
        match r {
            Ok(n) => Ok(n),
            Err(WriteStop::Hiccup) => Err(Error::new(ErrorKind::Interrupted, "interrupted")),
            Err(WriteStop::Err(k)) => Err(k),
        }
    }
    fn flush(&mut self) -> IoResult<()> {
        // Interrupted flushes are not retried by the standard library, so hiccups do not apply here.
        let mut w = lock(&self.0);
        loop {
            match w.flush_step() {
                Ok(()) => return Ok(()),
                Err(WriteStop::Hiccup) => continue,
                Err(WriteStop::Err(k)) => return Err(k),
            }
        }
    }
}
impl Drop for SyncW {
    fn drop(&mut self) {
        lock(&self.0).dropped_writer = true;
    }
}

pub struct AsyncR(pub Shared);
impl AsyncRead for AsyncR {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<IoResult<()>> {
        let want = buf.remaining();
        let mut w = lock(&self.0);
        match w.read_step(want, &mut |d| buf.put_slice(d)) {
            ReadStep::Done => Poll::Ready(Ok(())),
            ReadStep::Hiccup => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            ReadStep::Err(k) => Poll::Ready(Err(k)),
            ReadStep::Block => {
                w.read_waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
pub struct AsyncW(pub Shared);
impl AsyncWrite for AsyncW {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<IoResult<usize>> {
        let mut w = lock(&self.0);
        if w.stall {
            w.write_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        match w.write_step(buf) {
            Ok(n) => Poll::Ready(Ok(n)),
            Err(WriteStop::Hiccup) => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Err(WriteStop::Err(k)) => Poll::Ready(Err(k)),
        }
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<IoResult<()>> {
        match lock(&self.0).flush_step() {
            Ok(()) => Poll::Ready(Ok(())),
            Err(WriteStop::Hiccup) => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Err(WriteStop::Err(k)) => Poll::Ready(Err(k)),
        }
    }
    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<IoResult<()>> {
        lock(&self.0).shutdowns += 1;
        Poll::Ready(Ok(()))
    }
}
impl Drop for AsyncW {
    fn drop(&mut self) {
        lock(&self.0).dropped_writer = true;
    }
}

struct FlagWake(std::sync::atomic::AtomicBool);
impl std::task::Wake for FlagWake {
    fn wake(self: Arc<Self>) {
        self.0.store(true, std::sync::atomic::Ordering::SeqCst);
    }
}
pub enum Polled<T> {
    Ready(T),
    /// The transport has nothing more until the remote is released.
    Blocked,
    /// Dropped by the test after this many polls.
    Cancelled,
}
/// Polls a future by hand. `cancel_after`: give up after that many polls that were not ready.
pub fn drive<F: std::future::Future>(mut fut: Pin<&mut F>, sh: &Shared, cancel_after: Option<u32>) -> Polled<F::Output> {
    let flag = Arc::new(FlagWake(Default::default()));
    let waker = std::task::Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    let mut pend = 0u32;
    loop {
        {
            let mut w = lock(sh);
            w.pended = false;
            w.blocked = false;
        }
        flag.0.store(false, std::sync::atomic::Ordering::SeqCst);
        match fut.as_mut().poll(&mut cx) {
            Poll::Ready(v) => return Polled::Ready(v),
            Poll::Pending => {
                pend += 1;
                let (p, b) = {
                    let w = lock(sh);
                    (w.pended, w.blocked)
                };
                if b {
                    return Polled::Blocked;
                }
                if !p && !flag.0.load(std::sync::atomic::Ordering::SeqCst) {
                    spin("stalled: not ready although the transport was ready at every call");
                }
                if cancel_after.map(|c| pend > c).unwrap_or(false) {
                    return Polled::Cancelled;
                }
                if pend > 3_000_000 {
                    spin("a future is polled without end");
                }
            }
        }
    }
}
/// Runs a future to its end; blocking forever is a failure.
pub fn run<F: std::future::Future>(fut: F, sh: &Shared) -> F::Output {
    let fut = std::pin::pin!(fut);
    match drive(fut, sh, None) {
        Polled::Ready(v) => v,
        _ => {
            let w = lock(sh);
            let (pos, fl) = (w.pos, w.flushed);
            drop(w);
            spin(format!("deadlock: waits for remote byte {pos}, which the remote does not send before it has more than the {fl} bytes flushed so far"))
        }
    }
}
