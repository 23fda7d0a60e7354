//! C17-C21, C23: traffic shaping, observed by a model peer.
mod halves;
mod memory;
mod pairs;
mod rooms;
use super::io::{is_decoy, io_err, is_eof, payload, same_packet};
use crate::ensure;
use crate::model::Dir;
use crate::runner::{background_panics, enumerate, family, CaseResult, Outcome, Property, Tier};
use crate::session::*;
use crate::util::*;
use crate::wire::*;
use crate::clock;
use bip324::io::{Payload, ProtocolError};
use bip324_traffic::{AtomicTrafficStats, DecoyStrategy, PaddingStrategy, TrafficConfig, TrafficStats};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::pin::{pin, Pin};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::Poll;
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ the peer's view
/// Decodes what the local side has sent, incrementally.
#[derive(Default)]
struct View {
    rx: Option<Dir>,
    pos: usize,
    garbage: Option<Vec<u8>>,
    first: bool,
    hs_decoys: Vec<usize>,
    version: bool,
    /// Session packets: (decoy, contents).
    packets: Vec<(bool, Vec<u8>)>,
}
impl View {
    /// `upto`: how many of the bytes sent are looked at.
    fn feed(&mut self, w: &Wire, upto: usize) -> Result<(), String> {
        let Some(k) = &w.known else { return Ok(()) };
        let out = &w.written[..upto];
        if self.garbage.is_none() {
            let term = k.secrets.terms(w.local.initiator).0;
            let rest = &out[64.min(out.len())..];
            match super::hs::first_term(&rest[..rest.len().min(4095 + 16)], &term) {
                Some(i) => {
                    self.garbage = Some(rest[..i].to_vec());
                    self.pos = 64 + i + 16;
                    self.rx = Some(k.rx.clone());
                    self.first = true;
                }
                None => {
                    ensure!(rest.len() < 4095 + 16, "the peer finds no terminator within 4095 bytes of garbage");
                    return Ok(());
                }
            }
        }
        let rx = self.rx.as_mut().unwrap();
        loop {
            let mut next = rx.clone();
            let aad: &[u8] = if self.first { self.garbage.as_ref().unwrap() } else { &[] };
            match next.take(&out[self.pos.min(out.len())..], aad) {
                None => return Ok(()),
                Some(Err(())) => {
                    return Err(format!("the peer cannot decrypt packet {} ({} in the handshake), at byte {}", self.packets.len(), self.hs_decoys.len(), self.pos))
                }
                Some(Ok((h, m, n))) => {
                    *rx = next;
                    self.pos += n;
                    self.first = false;
                    let decoy = h & 0x80 != 0;
                    if self.version {
                        self.packets.push((decoy, m));
                    } else if decoy {
                        self.hs_decoys.push(m.len());
                    } else {
                        self.version = true;
                    }
                }
            }
        }
    }
    fn now(&mut self, sh: &Shared) -> Result<usize, String> {
        let w = lock(sh);
        let n = w.written.len();
        self.feed(&w, n)?;
        Ok(n - self.pos.min(n))
    }
    fn flushed(&mut self, sh: &Shared) -> Result<(), String> {
        let w = lock(sh);
        let n = w.flushed;
        self.feed(&w, n)
    }
    fn genuine(&self) -> Vec<&Vec<u8>> {
        self.packets.iter().filter(|p| !p.0).map(|p| &p.1).collect()
    }
}
/// A message the application asked to be written: (decoy, contents, must have arrived).
type Sent = (bool, Vec<u8>, bool);
/// The packets are the messages in order, the optional ones possibly missing, plus any decoys.
fn explains(packets: &[(bool, Vec<u8>)], sent: &[Sent]) -> Result<(), String> {
    let close = |s: &mut Vec<bool>| {
        for j in 0..sent.len() {
            if s[j] && !sent[j].2 {
                s[j + 1] = true;
            }
        }
    };
    let mut states = vec![false; sent.len() + 1];
    states[0] = true;
    close(&mut states);
    for (i, (d, m)) in packets.iter().enumerate() {
        let mut next = vec![false; sent.len() + 1];
        for j in 0..=sent.len() {
            if !states[j] {
                continue;
            }
            if *d {
                next[j] = true;
            }
            if j < sent.len() && sent[j].0 == *d && sent[j].1 == *m {
                next[j + 1] = true;
            }
        }
        close(&mut next);
        let j = states.iter().rposition(|x| *x).unwrap_or(0);
        ensure!(next.iter().any(|x| *x), "packet {i} the peer receives is genuine ({}) but not message {j} of {}", short(m), sent.len());
        states = next;
    }
    let j = states.iter().rposition(|x| *x).unwrap_or(0);
    ensure!(states[sent.len()], "message {j} of {} does not reach the peer (in order)", sent.len());
    Ok(())
}

fn config(cfg: u8) -> TrafficConfig {
    // Every way of arriving at a configuration.
    let mut c = if cfg & 4 != 0 { TrafficConfig::default() } else { TrafficConfig::new() };
    if cfg & 8 != 0 {
        c = c.with_padding_strategy(PaddingStrategy::Random).with_decoy_strategy(DecoyStrategy::Random);
    }
    let p = if cfg & 1 != 0 { PaddingStrategy::Random } else { PaddingStrategy::Disabled };
    let d = if cfg & 2 != 0 { DecoyStrategy::Random } else { DecoyStrategy::Disabled };
    if cfg & 1 != 0 || cfg & 12 != 0 {
        c = c.with_padding_strategy(p);
    }
    if cfg & 2 != 0 || cfg & 12 != 0 {
        c = c.with_decoy_strategy(d);
    }
    c
}
fn pads(c: u8) -> bool {
    c & 1 != 0
}
fn decoys(c: u8) -> bool {
    c & 2 != 0
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conn {
    asyn: bool,
    cfg: u8,
    initiator: bool,
    magic: [u8; 4],
    remote: Remote,
    rsched: Sched,
    wsched: Sched,
    split: bool,
}
fn conn(asyn: impl Strategy<Value = bool> + 'static) -> BoxedStrategy<Conn> {
    (asyn, 0u8..16, any::<bool>(), magic(), remote(6), sched(), sched(), any::<bool>())
        .prop_map(|(asyn, cfg, initiator, magic, remote, rsched, wsched, split)| Conn { asyn, cfg, initiator, magic, remote, rsched, wsched, split })
        .boxed()
}
fn wire_of(c: &Conn) -> Option<Shared> {
    if remote_ell(c.remote.rseed)[..4] == c.magic {
        return None;
    }
    let local = Local { initiator: c.initiator, magic: c.magic, garbage: None, decoys: None };
    Some(Wire::new(local, c.remote.clone(), c.rsched.clone(), c.wsched.clone()))
}

type SR = bip324_traffic::io::ShapedProtocolReader<SyncR>;
type SW = bip324_traffic::io::ShapedProtocolWriter<SyncW>;
type SP = bip324_traffic::io::ShapedProtocol<SyncR, SyncW>;
enum Blocking {
    Whole(SP),
    Split(Option<SR>, Option<SW>),
}
impl Blocking {
    fn open(c: &Conn, sh: &Shared) -> Result<Blocking, ProtocolError> {
        let p = SP::new(c.magic, role_of(c.initiator), config(c.cfg), SyncR(sh.clone()), SyncW(sh.clone()))?;
        Ok(if c.split {
            let (r, w) = p.into_split();
            Blocking::Split(Some(r), Some(w))
        } else {
            Blocking::Whole(p)
        })
    }
    fn read(&mut self) -> Result<Payload, ProtocolError> {
        match self {
            Blocking::Whole(p) => p.read(),
            Blocking::Split(r, _) => r.as_mut().unwrap().read(),
        }
    }
    fn write(&mut self, m: &Payload) -> Result<(), ProtocolError> {
        match self {
            Blocking::Whole(p) => p.write(m),
            Blocking::Split(_, w) => w.as_mut().unwrap().write(m),
        }
    }
}
type AR = bip324_traffic::futures::ShapedProtocolReader<AsyncR>;
type AW = bip324_traffic::futures::ShapedProtocolWriter;
type AP = bip324_traffic::futures::ShapedProtocol<AsyncR>;
enum Polled2 {
    Whole(AP),
    Split(Option<AR>, Option<AW>),
}
impl Polled2 {
    async fn open(c: &Conn, sh: &Shared) -> Result<Polled2, ProtocolError> {
        let p = AP::new(c.magic, role_of(c.initiator), config(c.cfg), AsyncR(sh.clone()), AsyncW(sh.clone())).await?;
        Ok(if c.split {
            let (r, w) = p.into_split();
            Polled2::Split(Some(r), Some(w))
        } else {
            Polled2::Whole(p)
        })
    }
    async fn read(&mut self) -> Result<Payload, ProtocolError> {
        match self {
            Polled2::Whole(p) => p.read().await,
            Polled2::Split(r, _) => r.as_mut().unwrap().read().await,
        }
    }
    async fn write(&mut self, m: &Payload) -> Result<(), ProtocolError> {
        match self {
            Polled2::Whole(p) => p.write(m).await,
            Polled2::Split(_, w) => w.as_mut().unwrap().write(m).await,
        }
    }
}
fn virtual_time<F: Future<Output = CaseResult>>(f: F) -> CaseResult {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().map_err(|e| format!("HARNESS:{e}"))?;
    rt.block_on(f)
}
const PATIENCE: Duration = Duration::from_secs(120);
async fn within<F: Future>(what: &str, f: F) -> Result<F::Output, String> {
    tokio::time::timeout(PATIENCE, f).await.map_err(|_| format!("{what} does not finish although the transport is ready"))
}
async fn poll_once<F: Future>(mut f: Pin<&mut F>) -> Option<F::Output> {
    std::future::poll_fn(|cx| {
        Poll::Ready(match f.as_mut().poll(cx) {
            Poll::Ready(x) => Some(x),
            Poll::Pending => None,
        })
    })
    .await
}
async fn ms(n: u64) {
    tokio::time::sleep(Duration::from_millis(n)).await
}
fn resume(sh: &Shared) {
    let mut w = lock(sh);
    w.stall = false;
    if let Some(k) = w.write_waker.take() {
        k.wake();
    }
}

fn contents() -> BoxedStrategy<Blob> {
    prop_oneof![36 => blob(60), 15 => blob(1100), 6 => blob(9000), 2 => blob(140_000), 1 => (60_000u32..70_000, any::<u32>()).prop_map(|(n, s)| Blob::R(n, s))].boxed()
}
/// A wait of real time for other threads, which does not count as sleeping.
fn wait_real(d: Duration) {
    std::thread::park_timeout(d);
}

// ------------------------------------------------------------------ C17
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SyncOp {
    Read,
    Write(bool, Blob),
    /// Sleep that many background ticks.
    Pause(u8),
    /// Write the packet read last.
    Relay,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SyncCase {
    conn: Conn,
    ops: Vec<SyncOp>,
    /// Transport writes take that many microseconds.
    slow: u16,
}
fn sync_strategy(_: Tier) -> BoxedStrategy<SyncCase> {
    let op = prop_oneof![2 => Just(SyncOp::Read), 4 => (proptest::bool::weighted(0.25), contents()).prop_map(|(d, b)| SyncOp::Write(d, b)), 2 => (0u8..12).prop_map(SyncOp::Pause), 1 => Just(SyncOp::Relay)];
    (conn(Just(false)), proptest::collection::vec(op, 0..14), prop_oneof![3 => Just(0u16), 1 => 0u16..40])
        .prop_map(|(conn, ops, slow)| SyncCase { conn, ops, slow })
        .boxed()
}
fn sync_check(c: &SyncCase) -> CaseResult {
    let Some(sh) = wire_of(&c.conn) else { return Ok(Outcome::default()) };
    let mut p = Blocking::open(&c.conn, &sh).map_err(|e| format!("handshake with a conforming peer: {e:?}"))?;
    lock(&sh).slow = c.slow as u32;
    let mut view = View::default();
    view.flushed(&sh)?;
    ensure!(view.version, "the peer does not receive a complete handshake");
    let mut sent: Vec<Sent> = vec![];
    let mut next = 0;
    let total = c.conn.remote.session.len();
    let mut last: Option<Payload> = None;
    let read = |p: &mut Blocking, next: &mut usize, last: &mut Option<Payload>| -> Result<(), String> {
        if *next < total {
            let m = p.read().map_err(|e| format!("packet {next} of the peer cannot be read: {e:?}"))?;
            let (h, b) = &c.conn.remote.session[*next];
            same_packet(&format!("packet {next}"), &m, *h, b)?;
            *next += 1;
            *last = Some(m);
        }
        Ok(())
    };
    for op in &c.ops {
        match op {
            SyncOp::Read => read(&mut p, &mut next, &mut last)?,
            SyncOp::Write(..) | SyncOp::Relay => {
                let (d, m, pl) = match (op, &last) {
                    (SyncOp::Write(d, b), _) => (*d, b.get(), payload(*d, &b.get())),
                    (_, Some(x)) => (is_decoy(x), x.contents().to_vec(), x.clone()),
                    _ => continue,
                };
                p.write(&pl).map_err(|e| format!("write: {e:?}"))?;
                sent.push((d, m, true));
                view.flushed(&sh)?;
                let missing = view.genuine().len() != sent.iter().filter(|s| !s.0).count();
                ensure!(!missing, "after a successful write the peer has {} genuine packets of {}", view.genuine().len(), sent.iter().filter(|s| !s.0).count());
            }
            SyncOp::Pause(n) => std::thread::sleep(Duration::from_millis(100 * *n as u64)),
        }
    }
    while next < total {
        read(&mut p, &mut next, &mut last)?;
    }
    drop(p);
    let tail = view.now(&sh)?;
    let w = lock(&sh);
    ensure!(tail == 0 && w.flushed == w.written.len(), "{tail} bytes of an incomplete packet, {} bytes not flushed", w.written.len() - w.flushed);
    explains(&view.packets, &sent)?;
    background_panics()?;
    let extra = view.packets.len() - sent.len();
    let mut cl = vec![];
    if !view.hs_decoys.is_empty() {
        cl.push("handshake-decoys");
    }
    if extra > if pads(c.conn.cfg) { sent.len() } else { 0 } {
        cl.push("background-decoys");
    }
    if pads(c.conn.cfg) {
        cl.push("padding");
    }
    if view.packets.len() > 224 {
        cl.push("past-rekey");
    }
    Ok(Outcome::new(!sent.is_empty() && (extra > 0 || c.conn.cfg & 3 == 0), cl))
}
/// Two threads write decoys and messages at the same time for a long while.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BusyCase {
    conn: Conn,
    writes: u16,
    size: u16,
}
fn busy_strategy(_: Tier) -> BoxedStrategy<BusyCase> {
    (conn(Just(false)), 200u16..500, 0u16..300)
        .prop_map(|(mut conn, writes, size)| {
            conn.cfg |= 2;
            conn.wsched.0.truncate(3);
            BusyCase { conn, writes, size }
        })
        .boxed()
}
fn busy_check(c: &BusyCase) -> CaseResult {
    let Some(sh) = wire_of(&c.conn) else { return Ok(Outcome::default()) };
    let p = Blocking::open(&c.conn, &sh).map_err(|e| format!("handshake with a conforming peer: {e:?}"))?;
    let mut view = View::default();
    let total = c.conn.remote.session.len();
    let run = |p: &mut Blocking| -> Result<(), String> {
        for i in 0..c.writes {
            p.write(&payload(false, &i.to_le_bytes().repeat(1 + c.size as usize / 2))).map_err(|e| format!("write {i}: {e:?}"))?;
            if i % 4 == 0 {
                std::thread::sleep(Duration::from_millis(10));
            }
        }
        Ok(())
    };
    let reads = |p: &mut Blocking| -> Result<(), String> {
        for i in 0..total {
            let (h, b) = &c.conn.remote.session[i];
            let m = p.read().map_err(|e| format!("packet {i} of the peer cannot be read: {e:?}"))?;
            same_packet(&format!("packet {i}"), &m, *h, b)?;
        }
        Ok(())
    };
    match p {
        // The halves are used by different threads.
        Blocking::Split(r, w) => {
            let mut r = Blocking::Split(r, None);
            let mut w = Blocking::Split(None, w);
            std::thread::scope(|s| {
                let a = s.spawn(|| run(&mut w));
                let b = reads(&mut r);
                a.join().map_err(|_| "writer thread panicked".to_string())?.and(b)
            })?;
            drop(r);
            drop(w);
        }
        mut p => {
            run(&mut p)?;
            reads(&mut p)?;
        }
    }
    let tail = view.now(&sh)?;
    ensure!(tail == 0, "{tail} bytes of an incomplete packet");
    let sent: Vec<Sent> = (0..c.writes).map(|i| (false, i.to_le_bytes().repeat(1 + c.size as usize / 2), true)).collect();
    explains(&view.packets, &sent)?;
    background_panics()?;
    let between = view.packets.windows(3).any(|w| w[0].0 && w[1].0 && !w[2].0);
    let mut cl = vec![if c.conn.split { "halves-in-two-threads" } else { "one-thread" }];
    if between {
        cl.push("background-decoy-between-writes");
    }
    Ok(Outcome::new(view.packets.iter().any(|p| p.0), cl))
}

// ------------------------------------------------------------------ C18
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum AsyncOp {
    Read,
    Write(bool, Blob),
    /// Read and write at the same time.
    Both(bool, Blob),
    Sleep(u16),
    /// A write that is polled this often, then dropped.
    CancelWrite(bool, Blob, u8),
    /// A read that is polled this often, then dropped.
    CancelRead(u8),
    /// The transport takes nothing for that many milliseconds.
    Stall(u16),
    /// Write the packet read last.
    Relay,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AsyncCase {
    conn: Conn,
    ops: Vec<AsyncOp>,
}
fn async_ops(max: usize, long: bool) -> BoxedStrategy<Vec<AsyncOp>> {
    let d = || proptest::bool::weighted(0.25);
    let op = prop_oneof![
        8 => Just(AsyncOp::Read),
        16 => (d(), contents()).prop_map(|(d, b)| AsyncOp::Write(d, b)),
        4 => (d(), contents()).prop_map(|(d, b)| AsyncOp::Both(d, b)),
        8 => prop_oneof![3 => 0u16..400, 1 => proptest::sample::select(vec![99u16, 100, 101, 3000])].prop_map(AsyncOp::Sleep),
        12 => (d(), contents(), prop_oneof![2 => 0u8..4, 1 => any::<u8>()]).prop_map(|(d, b, n)| AsyncOp::CancelWrite(d, b, n)),
        4 => (0u8..6).prop_map(AsyncOp::CancelRead),
        4 => (0u16..600).prop_map(AsyncOp::Stall),
        1 => (600u16..=if long { u16::MAX } else { 900 }).prop_map(AsyncOp::Stall),
        4 => Just(AsyncOp::Relay),
        1 => (3000u16..=if long { u16::MAX } else { 4000 }).prop_map(AsyncOp::Sleep),
    ];
    proptest::collection::vec(op, 0..max).boxed()
}
fn async_strategy(_: Tier) -> BoxedStrategy<AsyncCase> {
    (conn(Just(true)), async_ops(14, true)).prop_map(|(conn, ops)| AsyncCase { conn, ops }).boxed()
}
struct AsyncRun<'a> {
    c: &'a Conn,
    sh: Shared,
    view: View,
    sent: Vec<Sent>,
    next: usize,
    last: Option<Payload>,
    cancelled: u32,
    unfinished: u32,
}
impl AsyncRun<'_> {
    fn got(&mut self, r: Result<Payload, ProtocolError>) -> Result<(), String> {
        let i = self.next;
        let m = r.map_err(|e| format!("packet {i} of the peer cannot be read: {e:?}"))?;
        let (h, b) = &self.c.remote.session[i];
        same_packet(&format!("packet {i}"), &m, *h, b)?;
        self.next += 1;
        self.last = Some(m);
        Ok(())
    }
    fn wrote(&mut self, d: bool, m: Vec<u8>, r: Result<(), ProtocolError>) -> Result<(), String> {
        r.map_err(|e| format!("write: {e:?}"))?;
        self.sent.push((d, m, true));
        self.view.flushed(&self.sh)?;
        explains(&self.view.packets, &self.sent).map_err(|e| format!("after a successful write: {e}"))
    }
    fn more(&self) -> bool {
        self.next < self.c.remote.session.len()
    }
    async fn step(&mut self, p: &mut Polled2, op: &AsyncOp) -> Result<(), String> {
        match op {
            AsyncOp::Read => {
                if self.more() {
                    let r = within("a read", p.read()).await?;
                    self.got(r)?;
                }
            }
            AsyncOp::Write(d, b) => {
                let m = b.get();
                let r = within("a write", p.write(&payload(*d, &m))).await?;
                self.wrote(*d, m, r)?;
            }
            AsyncOp::Relay => {
                if let Some(x) = self.last.clone() {
                    let r = within("a write", p.write(&x)).await?;
                    self.wrote(is_decoy(&x), x.contents().to_vec(), r)?;
                }
            }
            AsyncOp::Both(d, b) => {
                let m = b.get();
                let pl = payload(*d, &m);
                if let (Polled2::Split(Some(r), Some(w)), true) = (&mut *p, self.more()) {
                    let (a, b) = within("a read and a write", async { tokio::join!(r.read(), w.write(&pl)) }).await?;
                    self.got(a)?;
                    self.wrote(*d, m, b)?;
                } else {
                    let r = within("a write", p.write(&pl)).await?;
                    self.wrote(*d, m, r)?;
                }
            }
            AsyncOp::Sleep(n) => ms(*n as u64).await,
            AsyncOp::CancelWrite(d, b, n) => {
                let m = b.get();
                let pl = payload(*d, &m);
                let mut done = None;
                {
                    let mut f = pin!(p.write(&pl));
                    for k in 0..*n {
                        if k > 0 {
                            tokio::task::yield_now().await;
                        }
                        done = poll_once(f.as_mut()).await;
                        if done.is_some() {
                            break;
                        }
                    }
                }
                match done {
                    Some(r) => self.wrote(*d, m, r)?,
                    None => {
                        self.cancelled += 1;
                        self.unfinished += 1;
                        self.sent.push((*d, m, false));
                    }
                }
            }
            AsyncOp::CancelRead(n) => {
                let mut done = None;
                {
                    let mut f = pin!(p.read());
                    for _ in 0..*n {
                        // Without a packet left a read waits, which is fine here.
                        done = poll_once(f.as_mut()).await;
                        if done.is_some() {
                            break;
                        }
                        tokio::task::yield_now().await;
                    }
                }
                if let Some(r) = done {
                    ensure!(self.more(), "a read returns although the peer sent nothing: {:?}", r.as_ref().err());
                    self.got(r)?;
                }
            }
            AsyncOp::Stall(n) => {
                lock(&self.sh).stall = true;
                let (sh, n) = (self.sh.clone(), *n as u64);
                tokio::spawn(async move {
                    ms(n).await;
                    resume(&sh);
                });
            }
        }
        Ok(())
    }
}
fn async_check(c: &AsyncCase) -> CaseResult {
    let Some(sh) = wire_of(&c.conn) else { return Ok(Outcome::default()) };
    virtual_time(async {
        let mut p = within("the handshake", Polled2::open(&c.conn, &sh)).await?.map_err(|e| format!("handshake with a conforming peer: {e:?}"))?;
        let mut r = AsyncRun { c: &c.conn, sh: sh.clone(), view: View::default(), sent: vec![], next: 0, last: None, cancelled: 0, unfinished: 0 };
        r.view.flushed(&sh)?;
        ensure!(r.view.version, "the peer does not receive a complete handshake");
        for op in &c.ops {
            r.step(&mut p, op).await?;
        }
        while r.more() {
            r.step(&mut p, &AsyncOp::Read).await?;
        }
        // Whatever was cancelled does not disturb the last message.
        r.step(&mut p, &AsyncOp::Write(false, Blob::R(9, 9))).await?;
        drop(p);
        ms(5000).await;
        let tail = r.view.now(&sh)?;
        let w = lock(&sh);
        ensure!(tail == 0 && w.flushed == w.written.len(), "{tail} bytes of an incomplete packet, {} bytes not flushed", w.written.len() - w.flushed);
        drop(w);
        explains(&r.view.packets, &r.sent)?;
        let extra = r.view.packets.len().saturating_sub(r.sent.len());
        let mut cl = vec![];
        if !r.view.hs_decoys.is_empty() {
            cl.push("handshake-decoys");
        }
        if decoys(c.conn.cfg) && extra > if pads(c.conn.cfg) { r.sent.len() } else { 0 } {
            cl.push("background-decoys");
        }
        if pads(c.conn.cfg) {
            cl.push("padding");
        }
        if r.cancelled > 0 {
            cl.push("cancelled-writes");
        }
        Ok(Outcome::new(r.sent.len() > 1 || r.cancelled > 0, cl))
    })
}

// ------------------------------------------------------------------ C17, C18: large messages
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LargeCase {
    conn: Conn,
    /// Decoy or not, size.
    writes: Vec<(bool, u32)>,
    /// Contents of a packet of the peer.
    peer: u32,
}
const MOST: u32 = (1 << 24) - 1;
fn large_size(max: u32) -> BoxedStrategy<u32> {
    let near = |v: Vec<u32>| (proptest::sample::select(v), 0u32..5).prop_map(move |(n, d)| (n + d).saturating_sub(2).min(max));
    let known: Vec<u32> = dict_upto(max as u64).into_iter().filter(|n| *n > 60_000).chain([65_536]).collect();
    let powers: Vec<u32> = (16..24).map(|k| 1 << k).filter(|n| *n <= max).collect();
    prop_oneof![2 => near(known), 2 => near(powers), 2 => 60_000..2_000_000u32.min(max), 1 => 60_000..=max, 1 => (0..30u32).prop_map(move |d| max - d), 1 => 0u32..100].boxed()
}
fn large_strategy(asyn: bool) -> BoxedStrategy<LargeCase> {
    let write = (proptest::bool::weighted(0.2), prop_oneof![7 => large_size(MOST), 1 => (1u32..40).prop_map(|n| MOST + n)]);
    (conn(Just(asyn)), proptest::collection::vec(write, 1..4), large_size(if asyn { MOST } else { 4_000_000 }))
        .prop_map(|(mut conn, writes, peer)| {
            // Large amounts byte by byte would take too long.
            conn.rsched = Sched(vec![]);
            conn.wsched = Sched(vec![]);
            conn.remote.session.truncate(2);
            conn.remote.session.push((0, Blob::R(peer, 5)));
            LargeCase { conn, writes, peer }
        })
        .boxed()
}
fn large_sync_strategy(_: Tier) -> BoxedStrategy<LargeCase> {
    large_strategy(false)
}
fn large_async_strategy(_: Tier) -> BoxedStrategy<LargeCase> {
    large_strategy(true)
}
/// A write returned: whether it should have.
fn large_result(n: u32, r: &Result<(), ProtocolError>) -> Result<(), String> {
    match r {
        Ok(()) => ensure!(n <= MOST, "contents of {n} bytes, which no packet can hold, are reported as written"),
        Err(ProtocolError::Internal(bip324::Error::PacketTooBig)) => ensure!(n > MOST, "a message of {n} bytes is refused"),
        Err(e) => return Err(format!("a message of {n} bytes: {e:?}")),
    }
    Ok(())
}
fn large_check(c: &LargeCase) -> CaseResult {
    let Some(sh) = wire_of(&c.conn) else { return Ok(Outcome::default()) };
    let mut sent: Vec<Sent> = vec![];
    let mut view = View::default();
    let writes: Vec<(bool, u32)> = c.writes.iter().copied().chain([(false, 7)]).collect();
    let wrote = |i: usize, r: Result<(), ProtocolError>, sent: &mut Vec<Sent>, view: &mut View| -> Result<(), String> {
        let (d, n) = writes[i];
        large_result(n, &r)?;
        if r.is_ok() {
            sent.push((d, prng_bytes(i as u64, n as usize), true));
        }
        view.flushed(&sh)?;
        explains(&view.packets, sent).map_err(|e| format!("after message {i} of {n} bytes: {e}"))
    };
    let got = |i: usize, r: Result<Payload, ProtocolError>| -> Result<(), String> {
        let m = r.map_err(|e| format!("packet {i} of the peer cannot be read: {e:?}"))?;
        let (h, b) = &c.conn.remote.session[i];
        same_packet(&format!("packet {i}"), &m, *h, b)
    };
    let message = |i: usize| payload(writes[i].0, &prng_bytes(i as u64, writes[i].1 as usize));
    if c.conn.asyn {
        virtual_time(async {
            let mut p = within("the handshake", Polled2::open(&c.conn, &sh)).await?.map_err(|e| format!("handshake with a conforming peer: {e:?}"))?;
            for i in 0..writes.len() {
                let r = within("a write", p.write(&message(i))).await?;
                wrote(i, r, &mut sent, &mut view)?;
            }
            for i in 0..c.conn.remote.session.len() {
                let r = within("a read", p.read()).await?;
                got(i, r)?;
            }
            Ok(Outcome::default())
        })?;
    } else {
        let mut p = Blocking::open(&c.conn, &sh).map_err(|e| format!("handshake with a conforming peer: {e:?}"))?;
        for i in 0..writes.len() {
            wrote(i, p.write(&message(i)), &mut sent, &mut view)?;
        }
        for i in 0..c.conn.remote.session.len() {
            got(i, p.read())?;
        }
    }
    background_panics()?;
    let mut cl = vec![];
    if c.writes.iter().any(|w| w.1 > MOST) {
        cl.push("refused");
    }
    if c.writes.iter().any(|w| w.1 >= 1 << 20 && w.1 <= MOST) {
        cl.push("1-MiB-or-more");
    }
    if c.peer >= 1 << 20 {
        cl.push("peer-1-MiB-or-more");
    }
    Ok(Outcome::new(c.writes.iter().any(|w| w.1 > 65_535), cl))
}

// ------------------------------------------------------------------ C19
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PolicyCase {
    conn: Conn,
    writes: Vec<(bool, Blob)>,
}
fn policy_strategy(_: Tier) -> BoxedStrategy<PolicyCase> {
    let large = large_size(MOST).prop_map(|n| Blob::R(n, 3));
    (conn(any::<bool>()), proptest::collection::vec((proptest::bool::weighted(0.3), prop_oneof![250 => contents(), 1 => large]), 0..8))
        .prop_map(|(mut conn, writes)| {
            if writes.iter().any(|w| w.1.len() > 200_000) {
                conn.wsched = Sched(vec![]);
            }
            PolicyCase { conn, writes }
        })
        .boxed()
}
fn handshake_policy(c: &Conn, v: &View) -> Result<(), String> {
    let g = v.garbage.as_ref().map(|g| g.len()).unwrap_or(0);
    ensure!(v.version, "no complete handshake was sent");
    ensure!(g <= 4095 && (pads(c.cfg) || g == 0), "{g} bytes of garbage with padding {}", if pads(c.cfg) { "enabled" } else { "disabled" });
    let d = &v.hs_decoys;
    ensure!(d.len() <= 3 && (decoys(c.cfg) || d.is_empty()), "{} handshake decoys with decoys {}", d.len(), if decoys(c.cfg) { "enabled" } else { "disabled" });
    ensure!(d.iter().all(|n| (1..=1024).contains(n)), "handshake decoys of {d:?} bytes");
    Ok(())
}
/// Sizes of the decoys between the application's messages, given at least those messages.
fn extras<'a>(packets: &'a [(bool, Vec<u8>)], sent: &[Sent]) -> Result<Vec<&'a Vec<u8>>, String> {
    explains(packets, sent)?;
    let mut rest: Vec<&Vec<u8>> = vec![];
    // Messages are matched from the end, where each is last of what its write produced.
    let mut j = sent.len();
    for (d, m) in packets.iter().rev() {
        if j > 0 && sent[j - 1].0 == *d && sent[j - 1].1 == *m {
            j -= 1;
        } else {
            rest.push(m);
        }
    }
    ensure!(j == 0, "message {j} does not reach the peer in order");
    rest.reverse();
    Ok(rest)
}
fn policy_after_write(c: &Conn, v: &View, sent: &[Sent]) -> Result<usize, String> {
    let x = extras(&v.packets, sent)?;
    ensure!(x.iter().all(|m| (1..=1024).contains(&m.len())), "a decoy of {} bytes was added", x.iter().map(|m| m.len()).find(|n| !(1..=1024).contains(n)).unwrap());
    let want = if pads(c.cfg) { sent.len() } else { 0 };
    if decoys(c.cfg) {
        ensure!(x.len() >= want, "{} decoys accompany {} messages", x.len(), sent.len());
    } else {
        ensure!(x.len() == want, "{} decoys were added to {} messages with padding {} and decoys disabled", x.len(), sent.len(), if pads(c.cfg) { "enabled" } else { "disabled" });
    }
    Ok(x.len())
}
fn policy_check(c: &PolicyCase) -> CaseResult {
    let Some(sh) = wire_of(&c.conn) else { return Ok(Outcome::default()) };
    let mut view = View::default();
    let mut sent: Vec<Sent> = vec![];
    let msgs: Vec<(bool, Vec<u8>)> = c.writes.iter().map(|(d, b)| (*d, b.get())).collect();
    let mut extra = 0;
    if c.conn.asyn {
        virtual_time(async {
            let mut p = within("the handshake", Polled2::open(&c.conn, &sh)).await?.map_err(|e| format!("handshake: {e:?}"))?;
            view.flushed(&sh)?;
            handshake_policy(&c.conn, &view)?;
            for (d, m) in &msgs {
                within("a write", p.write(&payload(*d, m))).await?.map_err(|e| format!("write: {e:?}"))?;
                sent.push((*d, m.clone(), true));
                view.flushed(&sh)?;
                extra = policy_after_write(&c.conn, &view, &sent)?;
            }
            // Silence: nothing is added unless decoys are enabled.
            ms(3000).await;
            view.now(&sh)?;
            extra = policy_after_write(&c.conn, &view, &sent)?;
            Ok(Outcome::default())
        })?;
    } else {
        let mut p = Blocking::open(&c.conn, &sh).map_err(|e| format!("handshake: {e:?}"))?;
        view.flushed(&sh)?;
        handshake_policy(&c.conn, &view)?;
        for (d, m) in &msgs {
            p.write(&payload(*d, m)).map_err(|e| format!("write: {e:?}"))?;
            sent.push((*d, m.clone(), true));
            view.flushed(&sh)?;
            extra = policy_after_write(&c.conn, &view, &sent)?;
        }
        std::thread::sleep(Duration::from_millis(1000));
        drop(p);
        view.now(&sh)?;
        extra = extra.max(policy_after_write(&c.conn, &view, &sent)?);
        background_panics()?;
    }
    let cl = vec![
        ["nothing", "padding", "decoys", "padding-and-decoys"][(c.conn.cfg & 3) as usize],
        if c.conn.asyn { "async" } else { "blocking" },
    ];
    Ok(Outcome::new(!sent.is_empty() && (extra > 0 || c.conn.cfg & 3 == 0), cl))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AggregateCase {
    asyn: bool,
    cfg: u8,
    initiator: bool,
    seed: u32,
    connections: u16,
}
fn aggregate_list(t: Tier) -> Vec<AggregateCase> {
    let mut v = vec![];
    for seed in 0..if t == Tier::Quick { 2 } else { 12 } {
        for asyn in [false, true] {
            for cfg in 1..4u8 {
                v.push(AggregateCase { asyn, cfg, initiator: seed % 2 == 0, seed, connections: 128 });
            }
        }
    }
    v
}
fn spread(what: &str, v: &[usize], low: usize, high: usize) -> Result<(), String> {
    let (min, max) = (v.iter().min().copied().unwrap_or(0), v.iter().max().copied().unwrap_or(0));
    ensure!(min < low && max > high, "{what} do not vary: {} of them between {min} and {max}", v.len());
    let mut d = v.to_vec();
    d.sort();
    d.dedup();
    ensure!(d.len() > 20, "{what} take only {} values in {} samples", d.len(), v.len());
    Ok(())
}
fn aggregate_check(c: &AggregateCase) -> CaseResult {
    let (mut garbage, mut counts, mut sizes, mut padsz): (Vec<Vec<u8>>, [u32; 4], Vec<usize>, Vec<usize>) = (vec![], [0; 4], vec![], vec![]);
    for i in 0..c.connections as u32 {
        let conn = Conn {
            asyn: c.asyn,
            cfg: c.cfg,
            initiator: c.initiator,
            magic: [0xfb, 0xc0, 0xb6, 0xdb],
            remote: Remote { rseed: c.seed * 1000 + i, hs: PeerHs::plain(), session: vec![] },
            rsched: Sched(vec![]),
            wsched: Sched(vec![]),
            split: i % 2 == 0,
        };
        let Some(sh) = wire_of(&conn) else { continue };
        let mut view = View::default();
        let m = payload(false, b"message");
        if c.asyn {
            virtual_time(async {
                let mut p = within("the handshake", Polled2::open(&conn, &sh)).await?.map_err(|e| format!("handshake: {e:?}"))?;
                for _ in 0..2 {
                    within("a write", p.write(&m)).await?.map_err(|e| format!("write: {e:?}"))?;
                }
                Ok(Outcome::default())
            })?;
        } else {
            let mut p = Blocking::open(&conn, &sh).map_err(|e| format!("handshake: {e:?}"))?;
            for _ in 0..2 {
                p.write(&m).map_err(|e| format!("write: {e:?}"))?;
            }
        }
        view.now(&sh)?;
        handshake_policy(&conn, &view)?;
        garbage.push(view.garbage.clone().unwrap_or_default());
        counts[view.hs_decoys.len().min(3)] += 1;
        sizes.extend(&view.hs_decoys);
        padsz.extend(view.packets.iter().filter(|p| p.0).map(|p| p.1.len()));
    }
    background_panics()?;
    if pads(c.cfg) {
        let lens: Vec<usize> = garbage.iter().map(|g| g.len()).collect();
        spread("lengths of garbage", &lens, 1024, 3072)?;
        for (i, g) in garbage.iter().enumerate() {
            let n = g.iter().collect::<std::collections::HashSet<_>>().len();
            ensure!(g.len() < 64 || n > 8, "garbage of {} bytes has only {n} different bytes", g.len());
            ensure!(g.len() < 32 || garbage[..i].iter().all(|h| h.len() < 32 || h[..32] != g[..32]), "two connections send the same garbage");
        }
        spread("sizes of padding decoys", &padsz, 256, 768)?;
    }
    if decoys(c.cfg) {
        ensure!(counts.iter().all(|n| *n > 0), "numbers of handshake decoys do not vary: {counts:?}");
        spread("sizes of handshake decoys", &sizes, 256, 768)?;
    }
    Ok(Outcome::new(true, vec![if c.asyn { "async" } else { "blocking" }]))
}
/// One long connection with many messages.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LongCase {
    asyn: bool,
    cfg: u8,
    initiator: bool,
    seed: u32,
    messages: u32,
    /// Contents of the messages.
    size: u32,
    split: bool,
    /// Packets are read now and then.
    reads: bool,
}
fn long_list(t: Tier) -> Vec<LongCase> {
    let mut v = vec![];
    for seed in 0..if t == Tier::Quick { 2 } else { 6 } {
        for asyn in [false, true] {
            for cfg in 0..4u8 {
                let k = seed * 8 + cfg as u32;
                v.push(LongCase { asyn, cfg, initiator: k % 3 == 0, seed: k, messages: 700, size: [0, 7, 300, 2000][(k as usize + asyn as usize) % 4], split: (k + asyn as u32) % 2 == 0, reads: k % 5 != 2 });
            }
        }
    }
    for (k, asyn) in [(1u32, false), (3, true)] {
        v.push(LongCase { asyn, cfg: k as u8, initiator: asyn, seed: 50 + k, messages: if t == Tier::Quick { 5_000 } else { 70_000 }, size: 3, split: true, reads: false });
    }
    v
}
fn long_check(c: &LongCase) -> CaseResult {
    let session: Vec<(u8, Blob)> = (0..if c.reads { 300u32 } else { 0 }).map(|k| (if k % 3 == 0 { 0x80 } else { 0 }, Blob::R(k % 50, k))).collect();
    let conn = Conn {
        asyn: c.asyn,
        cfg: c.cfg,
        initiator: c.initiator,
        magic: [0xfb, 0xc0, 0xb6, 0xdb],
        remote: Remote { rseed: c.seed + 99_000, hs: PeerHs::plain(), session: session.clone() },
        rsched: Sched(vec![]),
        wsched: Sched(vec![]),
        split: c.split,
    };
    let Some(sh) = wire_of(&conn) else { return Ok(Outcome::default()) };
    let message = |k: u32| payload(k % 7 == 3, &Blob::R(c.size, k).get());
    let mut view = View::default();
    if c.asyn {
        virtual_time(async {
            let mut p = within("the handshake", Polled2::open(&conn, &sh)).await?.map_err(|e| format!("handshake: {e:?}"))?;
            for k in 0..c.messages {
                within("a write", p.write(&message(k))).await?.map_err(|e| format!("write {k}: {e:?}"))?;
                if k % 10 == 0 {
                    ms(130).await;
                }
                if let (0, Some((h, b))) = (k % 2, session.get(k as usize / 2)) {
                    let m = within("a read", p.read()).await?.map_err(|e| format!("read {k}: {e:?}"))?;
                    same_packet("packet", &m, *h, b)?;
                }
            }
            Ok(Outcome::default())
        })?;
    } else {
        let mut p = Blocking::open(&conn, &sh).map_err(|e| format!("handshake: {e:?}"))?;
        for k in 0..c.messages {
            p.write(&message(k)).map_err(|e| format!("write {k}: {e:?}"))?;
            if let (0, Some((h, b))) = (k % 2, session.get(k as usize / 2)) {
                let m = p.read().map_err(|e| format!("read {k}: {e:?}"))?;
                same_packet("packet", &m, *h, b)?;
            }
        }
    }
    view.now(&sh)?;
    background_panics()?;
    handshake_policy(&conn, &view)?;
    // The messages in order; what is between them is decoys.
    let (mut at, mut padding) = (0u32, vec![]);
    let mut waiting = 0u32;
    let expect: Vec<(bool, Vec<u8>)> = (0..c.messages).map(|k| (k % 7 == 3, Blob::R(c.size, k).get())).collect();
    for (d, m) in &view.packets {
        let next = expect.get(at as usize);
        let written = next.is_some_and(|(nd, nm)| nd == d && nm == m);
        let needs_padding = pads(c.cfg) && waiting == 0;
        if written && !needs_padding {
            at += 1;
            waiting = 0;
        } else {
            ensure!(*d, "a genuine packet which is not message {at}");
            ensure!((1..=1024).contains(&m.len()), "a decoy of {} bytes", m.len());
            ensure!(pads(c.cfg) || decoys(c.cfg), "a decoy before message {at} although none is configured");
            waiting += 1;
            padding.push(m.len());
        }
    }
    ensure!(at == c.messages, "message {at} of {} is missing or not accompanied by a decoy", c.messages);
    if pads(c.cfg) {
        ensure!(padding.len() >= c.messages as usize, "{} decoys for {} messages", padding.len(), c.messages);
        spread("sizes of padding decoys of a connection", &padding, 256, 768)?;
        // Not the same few again and again.
        let runs = padding.windows(4).filter(|w| w.iter().all(|x| *x == w[0])).count();
        ensure!(runs == 0, "the same size of padding {runs} times in a row");
    }
    Ok(Outcome::new(!view.packets.is_empty(), vec![if c.asyn { "async" } else { "blocking" }]))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BackgroundCase {
    cfg: u8,
    initiator: bool,
    seed: u32,
    split: bool,
}
fn background_list(t: Tier) -> Vec<BackgroundCase> {
    (0..if t == Tier::Quick { 16 } else { 100 }).map(|i| BackgroundCase { cfg: 2 | (i & 1) as u8, initiator: i & 2 == 0, seed: i, split: i & 4 == 0 }).collect()
}
/// A silent async connection, watched tick by tick.
fn background_check(c: &BackgroundCase) -> CaseResult {
    let conn = Conn {
        asyn: true,
        cfg: c.cfg,
        initiator: c.initiator,
        magic: [0xfb, 0xc0, 0xb6, 0xdb],
        remote: Remote { rseed: c.seed + 77_000, hs: PeerHs::plain(), session: vec![] },
        rsched: Sched(vec![]),
        wsched: Sched(vec![]),
        split: c.split,
    };
    let Some(sh) = wire_of(&conn) else { return Ok(Outcome::default()) };
    virtual_time(async {
        let _p = within("the handshake", Polled2::open(&conn, &sh)).await?.map_err(|e| format!("handshake: {e:?}"))?;
        let mut view = View::default();
        let (mut sizes, mut gaps, mut last) = (vec![], vec![], 0usize);
        let ticks = 1000usize;
        for t in 0..ticks {
            ms(100).await;
            let before = view.packets.len();
            view.now(&sh)?;
            for (d, m) in &view.packets[before..] {
                ensure!(*d, "a genuine packet was sent that nobody wrote");
                ensure!((1..=1024).contains(&m.len()), "a background decoy of {} bytes", m.len());
                sizes.push(m.len());
                gaps.push(t - last);
                last = t;
            }
        }
        ensure!(sizes.len() > ticks / 100, "only {} background decoys in {} s", sizes.len(), ticks / 10);
        ensure!(sizes.len() < ticks, "{} background decoys in {} s", sizes.len(), ticks / 10);
        let distinct = gaps.iter().collect::<std::collections::HashSet<_>>().len();
        ensure!(distinct > 2, "background decoys come at regular intervals");
        if sizes.len() > 60 {
            spread("sizes of background decoys", &sizes, 256, 768)?;
        }
        Ok(Outcome::new(true, vec![if pads(c.cfg) { "padding-and-decoys" } else { "decoys" }]))
    })
}

// ------------------------------------------------------------------ C20
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Order {
    /// Not split, or both halves at once.
    Whole,
    ReaderFirst,
    /// The reader half stays.
    WriterOnly,
}
fn order() -> BoxedStrategy<Order> {
    prop_oneof![Just(Order::Whole), Just(Order::ReaderFirst), Just(Order::WriterOnly)].boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DropCase {
    conn: Conn,
    ops: Vec<AsyncOp>,
    order: Order,
    /// Milliseconds between the drops.
    pause: u16,
}
fn drop_async_strategy(_: Tier) -> BoxedStrategy<DropCase> {
    (conn(Just(true)), async_ops(6, false), order(), 0u16..1000)
        .prop_map(|(mut conn, ops, order, pause)| {
            if order != Order::Whole {
                conn.split = true;
            }
            DropCase { conn, ops, order, pause }
        })
        .boxed()
}
fn drop_async_check(c: &DropCase) -> CaseResult {
    let Some(sh) = wire_of(&c.conn) else { return Ok(Outcome::default()) };
    virtual_time(async {
        let mut p = within("the handshake", Polled2::open(&c.conn, &sh)).await?.map_err(|e| format!("handshake: {e:?}"))?;
        let mut r = AsyncRun { c: &c.conn, sh: sh.clone(), view: View::default(), sent: vec![], next: 0, last: None, cancelled: 0, unfinished: 0 };
        for op in &c.ops {
            r.step(&mut p, op).await?;
        }
        let mut reader = None;
        match p {
            Polled2::Split(rd, wr) => match c.order {
                Order::Whole => drop((rd, wr)),
                Order::ReaderFirst => {
                    drop(rd);
                    ms(c.pause as u64).await;
                    // The writer goes on working without the reader.
                    let mut w = wr.unwrap();
                    let x = within("a write", w.write(&payload(false, b"without reader"))).await?;
                    r.wrote(false, b"without reader".to_vec(), x)?;
                    if decoys(c.conn.cfg) {
                        let before = lock(&sh).written.len();
                        ms(60_000).await;
                        ensure!(lock(&sh).written.len() > before, "no decoy in a minute after the reader half was dropped");
                    }
                    ensure!(!lock(&sh).dropped_writer, "the transport was dropped while the writer half is alive");
                    drop(w);
                }
                Order::WriterOnly => {
                    drop(wr);
                    reader = rd;
                }
            },
            whole => drop(whole),
        }
        let stalled = lock(&sh).stall;
        ms(5000).await;
        ensure!(lock(&sh).dropped_writer, "the transport writer is still held 5 s after the drop");
        let n = lock(&sh).written.len();
        let calls = lock(&sh).wcalls;
        ms(120_000).await;
        let w = lock(&sh);
        ensure!(w.written.len() == n && w.wcalls == calls, "{} bytes were written long after the drop", w.written.len() - n);
        drop(w);
        // Everything sent by then is whole.
        let tail = r.view.now(&sh)?;
        ensure!(tail == 0, "{tail} bytes of an incomplete packet");
        explains(&r.view.packets, &r.sent)?;
        if let Some(mut rd) = reader {
            while r.more() {
                let x = within("a read", rd.read()).await?;
                r.got(x)?;
            }
        }
        let mut cl = vec![match c.order {
            Order::Whole => "whole",
            Order::ReaderFirst => "reader-first",
            Order::WriterOnly => "writer-only",
        }];
        if stalled {
            cl.push("dropped-while-transport-stalled");
        }
        if r.unfinished > 0 {
            cl.push("cancelled-writes-before");
        }
        Ok(Outcome::new(true, cl))
    })
}
/// Silence with decoys enabled.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IdleCase {
    conn: Conn,
    ops: Vec<AsyncOp>,
    /// Minutes of silence.
    #[serde(default = "three")]
    minutes: u16,
}
fn three() -> u16 {
    3
}
fn eight() -> u16 {
    8
}
fn idle_strategy(_: Tier) -> BoxedStrategy<IdleCase> {
    (conn(Just(true)), async_ops(8, false), prop_oneof![40 => Just(3u16), 3 => 3u16..30, 1 => 3u16..200])
        .prop_map(|(mut conn, ops, minutes)| {
            conn.cfg |= 2;
            if minutes > 5 {
                conn.wsched = Sched(vec![Step::N(5000), Step::N(77)]);
            }
            IdleCase { conn, ops, minutes }
        })
        .boxed()
}
fn idle_check(c: &IdleCase) -> CaseResult {
    let Some(sh) = wire_of(&c.conn) else { return Ok(Outcome::default()) };
    virtual_time(async {
        let mut p = within("the handshake", Polled2::open(&c.conn, &sh)).await?.map_err(|e| format!("handshake: {e:?}"))?;
        let mut r = AsyncRun { c: &c.conn, sh: sh.clone(), view: View::default(), sent: vec![], next: 0, last: None, cancelled: 0, unfinished: 0 };
        for op in &c.ops {
            r.step(&mut p, op).await?;
        }
        ms(2000).await;
        for k in 0..c.minutes {
            r.view.now(&sh)?;
            let before = r.view.packets.len();
            ms(60_000).await;
            r.view.now(&sh)?;
            let n = r.view.packets.len() - before;
            ensure!(n > 0, "no background decoy in minute {k} of silence");
            ensure!(r.view.packets[before..].iter().all(|x| x.0), "a genuine packet in silence");
        }
        // The connection still works.
        r.step(&mut p, &AsyncOp::Write(false, Blob::R(40, 3))).await?;
        explains(&r.view.packets, &r.sent)?;
        let mut cl = vec![if r.cancelled > 0 { "after-cancelled-writes" } else { "plain" }];
        if c.minutes > 10 {
            cl.push("more-than-10-minutes");
        }
        Ok(Outcome::new(!c.ops.is_empty(), cl))
    })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DropSyncCase {
    conn: Conn,
    ops: Vec<SyncOp>,
    order: Order,
    slow: u16,
}
fn drop_sync_strategy(_: Tier) -> BoxedStrategy<DropSyncCase> {
    let op = prop_oneof![1 => Just(SyncOp::Read), 2 => (any::<bool>(), blob(60)).prop_map(|(d, b)| SyncOp::Write(d, b)), 2 => (0u8..20).prop_map(SyncOp::Pause)];
    (conn(Just(false)), proptest::collection::vec(op, 0..6), order(), prop_oneof![2 => Just(0u16), 1 => 0u16..60])
        .prop_map(|(mut conn, ops, order, slow)| {
            if order != Order::Whole {
                conn.split = true;
            }
            DropSyncCase { conn, ops, order, slow }
        })
        .boxed()
}
fn drop_sync_check(c: &DropSyncCase) -> CaseResult {
    let Some(sh) = wire_of(&c.conn) else { return Ok(Outcome::default()) };
    let mut p = Blocking::open(&c.conn, &sh).map_err(|e| format!("handshake: {e:?}"))?;
    lock(&sh).slow = c.slow as u32;
    let mut next = 0;
    let total = c.conn.remote.session.len();
    let mut sent: Vec<Sent> = vec![];
    for op in &c.ops {
        match op {
            SyncOp::Read if next < total => {
                p.read().map_err(|e| format!("read: {e:?}"))?;
                next += 1;
            }
            SyncOp::Read | SyncOp::Relay => {}
            SyncOp::Write(d, b) => {
                let m = b.get();
                p.write(&payload(*d, &m)).map_err(|e| format!("write: {e:?}"))?;
                sent.push((*d, m, true));
            }
            SyncOp::Pause(n) => std::thread::sleep(Duration::from_millis(50 * *n as u64)),
        }
    }
    let mut reader = None;
    match p {
        Blocking::Split(r, w) => match c.order {
            Order::Whole => drop((r, w)),
            Order::ReaderFirst => {
                drop(r);
                let mut w = w.unwrap();
                w.write(&payload(false, b"without reader")).map_err(|e| format!("write without reader: {e:?}"))?;
                sent.push((false, b"without reader".to_vec(), true));
                ensure!(!lock(&sh).dropped_writer, "the transport was dropped while the writer half is alive");
                drop(w);
            }
            Order::WriterOnly => {
                drop(w);
                reader = r;
            }
        },
        whole => drop(whole),
    }
    let (n, calls) = {
        let w = lock(&sh);
        ensure!(w.dropped_writer, "the transport writer is still held when the drop returns");
        (w.written.len(), w.wcalls)
    };
    if let Some(r) = &mut reader {
        while next < total {
            let m = r.read().map_err(|e| format!("read after the writer half is dropped: {e:?}"))?;
            let (h, b) = &c.conn.remote.session[next];
            same_packet(&format!("packet {next}"), &m, *h, b)?;
            next += 1;
        }
    }
    std::thread::sleep(Duration::from_millis(300));
    let mut view = View::default();
    let tail = view.now(&sh)?;
    let w = lock(&sh);
    ensure!(w.written.len() == n && w.wcalls == calls, "bytes were written after the drop");
    ensure!(tail == 0, "{tail} bytes of an incomplete packet");
    explains(&view.packets, &sent)?;
    drop(w);
    background_panics()?;
    Ok(Outcome::new(
        true,
        vec![match c.order {
            Order::Whole => "whole",
            Order::ReaderFirst => "reader-first",
            Order::WriterOnly => "writer-only",
        }],
    ))
}
static SERIAL: Mutex<()> = Mutex::new(());
fn serial() -> MutexGuard<'static, ()> {
    SERIAL.lock().unwrap_or_else(|e| e.into_inner())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IdleSyncCase {
    conn: Conn,
    /// Writes through a slow transport first, so that decoys and messages get into each other's way.
    busy: u8,
    slow: u16,
    without_reader: bool,
    /// How many decoys are waited for.
    #[serde(default = "eight")]
    decoys: u16,
}
fn idle_sync_strategy(_: Tier) -> BoxedStrategy<IdleSyncCase> {
    (conn(Just(false)), 0u8..8, 0u16..3000, any::<bool>(), prop_oneof![20 => Just(8u16), 1 => 8u16..1500])
        .prop_map(|(mut conn, busy, slow, without_reader, decoys)| {
            conn.cfg |= 2;
            conn.wsched = Sched(vec![]);
            IdleSyncCase { conn, busy, slow, without_reader, decoys }
        })
        .boxed()
}
/// Grows while background decoys come at the pace of real time.
static REAL_TICKS: AtomicU64 = AtomicU64::new(0);
fn idle_sync_check(c: &IdleSyncCase) -> CaseResult {
    let Some(sh) = wire_of(&c.conn) else { return Ok(Outcome::default()) };
    let _one = serial();
    if REAL_TICKS.load(Ordering::Relaxed) > 100_000 {
        // Enough connections were watched at this pace.
        return Ok(Outcome::default());
    }
    let mut p = Blocking::open(&c.conn, &sh).map_err(|e| format!("handshake: {e:?}"))?;
    if let (Blocking::Split(r, _), true) = (&mut p, c.without_reader) {
        *r = None;
    }
    lock(&sh).slow = c.slow as u32;
    for i in 0..c.busy {
        p.write(&payload(i % 3 == 0, &[i; 9])).map_err(|e| format!("write: {e:?}"))?;
    }
    lock(&sh).slow = 0;
    let mut view = View::default();
    view.now(&sh)?;
    let before = view.packets.len();
    // Sleeping is accelerated 500 times. Should ticks come from something else, this takes real time.
    let (mut t0, mut seen) = (Instant::now(), 0);
    loop {
        view.now(&sh)?;
        let n = view.packets.len() - before;
        if n >= c.decoys as usize || n >= 8 && REAL_TICKS.load(Ordering::Relaxed) > 0 {
            break;
        }
        if n / 8 > seen {
            seen = n / 8;
            t0 = Instant::now();
        }
        // The pace of the first decoys tells; becoming slow later is something else.
        if n < 8 && t0.elapsed() > Duration::from_secs(2) {
            REAL_TICKS.fetch_add(1, Ordering::Relaxed);
        }
        ensure!(t0.elapsed() < Duration::from_secs(45), "only {n} background decoys in {} s of silence", t0.elapsed().as_secs());
        wait_real(Duration::from_micros(300));
    }
    drop(p);
    background_panics()?;
    Ok(Outcome::new(c.busy > 0, vec![if c.busy > 0 && c.slow > 300 { "after-contention" } else { "plain" }]))
}

// ------------------------------------------------------------------ C21
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum StatOp {
    Read(u64),
    Write(u64),
    /// The clock moves on by that many microseconds.
    Pass(u64),
    /// The system clock is set back by that many milliseconds.
    Back(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StatCase {
    /// 0 new(), 1 default()
    made: u8,
    start: u64,
    ops: Vec<StatOp>,
}
fn amount() -> BoxedStrategy<u64> {
    prop_oneof![3 => 0u64..5, 3 => 0u64..5000, 1 => proptest::sample::select(dict_upto(u32::MAX as u64)).prop_map(|x| x as u64), 1 => 0u64..1 << 45, 1 => Just(1u64 << 32)].boxed()
}
fn stat_strategy(_: Tier) -> BoxedStrategy<StatCase> {
    let op = prop_oneof![
        4 => amount().prop_map(StatOp::Read),
        4 => amount().prop_map(StatOp::Write),
        4 => prop_oneof![0u64..3000, 0u64..10_000_000, 0u64..1 << 45].prop_map(StatOp::Pass),
        1 => prop_oneof![0u32..50, 0u32..1_000_000].prop_map(StatOp::Back),
    ];
    (0u8..2, prop_oneof![Just(1_700_000_000_000_000_000u64), 1_600_000_000_000_000_000u64..2_500_000_000_000_000_000], proptest::collection::vec(op, 0..25))
        .prop_map(|(made, start, ops)| StatCase { made, start, ops })
        .boxed()
}
fn stat_check(c: &StatCase) -> CaseResult {
    let mut now = c.start;
    clock::set(Some(now));
    let s = if c.made == 0 { AtomicTrafficStats::new() } else { AtomicTrafficStats::default() };
    let (mut read, mut written, mut last, mut back) = (0u64, 0u64, now, false);
    let see = |now: u64, read: u64, written: u64, last: u64, back: bool| -> Result<(), String> {
        let since = s.time_since_last_activity();
        let expect = Duration::from_nanos(now.saturating_sub(last));
        let slack = Duration::from_millis(1);
        ensure!(since <= expect + slack, "{since:?} since the last activity, which was {expect:?} ago");
        ensure!(back || since + slack >= expect, "{since:?} since the last activity, which was {expect:?} ago");
        let r = s.write_read_ratio();
        match r {
            None => ensure!(read == 0, "no ratio although {read} bytes were read"),
            Some(x) => {
                ensure!(read > 0, "ratio {x} although nothing was read");
                let e = written as f64 / read as f64;
                ensure!((x - e).abs() <= e.abs() * 1e-12, "ratio {x} for {written} bytes written and {read} read");
            }
        }
        Ok(())
    };
    see(now, read, written, last, back)?;
    for op in &c.ops {
        match op {
            StatOp::Read(n) => {
                s.record_read(*n as usize);
                read += n;
                last = now;
                back = false;
            }
            StatOp::Write(n) => {
                s.record_write(*n as usize);
                written += n;
                last = now;
                back = false;
            }
            StatOp::Pass(us) => now += us * 1000,
            StatOp::Back(m) => {
                now = now.saturating_sub(*m as u64 * 1_000_000);
                back = true;
            }
        }
        clock::set(Some(now));
        // A clock set back before the last recording: only the upper bound of what was before holds.
        let l = if now < last { now } else { last };
        see(now, read, written, l, back || now < last)?;
    }
    clock::set(None);
    let moved = c.ops.iter().any(|o| matches!(o, StatOp::Pass(_)));
    Ok(Outcome::new(moved && read > 0, vec![if c.made == 0 { "new" } else { "default" }]))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ThreadsCase {
    threads: Vec<Vec<(bool, u32)>>,
    rounds: u16,
}
fn threads_strategy(_: Tier) -> BoxedStrategy<ThreadsCase> {
    let one = proptest::collection::vec((any::<bool>(), prop_oneof![0u32..4, 0u32..100_000, any::<u32>()]), 1..8);
    (proptest::collection::vec(one, 2..6), prop_oneof![1u16..4, 20u16..300]).prop_map(|(threads, rounds)| ThreadsCase { threads, rounds }).boxed()
}
fn threads_check(c: &ThreadsCase) -> CaseResult {
    let t0 = Instant::now();
    let s = Arc::new(AtomicTrafficStats::new());
    let go = std::sync::Barrier::new(c.threads.len() + 1);
    let seen: Result<(), String> = std::thread::scope(|sc| {
        for ops in &c.threads {
            let (s, go) = (s.clone(), &go);
            sc.spawn(move || {
                go.wait();
                for _ in 0..c.rounds {
                    for (r, n) in ops {
                        if *r {
                            s.record_read(*n as usize);
                        } else {
                            s.record_write(*n as usize);
                        }
                    }
                }
            });
        }
        go.wait();
        let mut had = false;
        for _ in 0..50 {
            let r = s.write_read_ratio();
            ensure!(!had || r.is_some(), "the ratio disappeared");
            had = r.is_some();
            let since = s.time_since_last_activity();
            let age = t0.elapsed() + Duration::from_millis(2);
            ensure!(since <= age, "{since:?} since the last activity of statistics that are {age:?} old");
        }
        Ok(())
    });
    seen?;
    let sum = |k: bool| c.threads.iter().flatten().filter(|x| x.0 == k).map(|x| x.1 as u64).sum::<u64>() * c.rounds as u64;
    let (read, written) = (sum(true), sum(false));
    match s.write_read_ratio() {
        None => ensure!(read == 0, "no ratio although {read} bytes were read"),
        Some(x) => {
            let e = written as f64 / read as f64;
            ensure!(read > 0 && (x - e).abs() <= e * 1e-12, "ratio {x} for {written} bytes written and {read} read");
        }
    }
    Ok(Outcome::new(read > 0 && c.rounds > 1, vec![if c.rounds >= 20 { "long" } else { "short" }]))
}

// ------------------------------------------------------------------ C23
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ShapedFault {
    conn: Conn,
    /// Relative to what was sent in the handshake (flush faults: number of flushes).
    fault: Fault,
    transient: bool,
    writes: Vec<(bool, Blob, u8)>,
}
fn fault_kind() -> BoxedStrategy<Fault> {
    let at = || prop_oneof![3 => 0usize..60, 3 => 0usize..1500, 2 => 0usize..6000];
    prop_oneof![
        3 => (at(), error_number()).prop_map(|(a, e)| Fault::WriteErr(a, e)),
        1 => at().prop_map(Fault::WriteZero),
        1 => (0usize..12, error_number()).prop_map(|(a, e)| Fault::FlushErr(a, e)),
    ]
    .boxed()
}
fn fault_case(asyn: bool) -> BoxedStrategy<ShapedFault> {
    let w = (proptest::bool::weighted(0.25), contents(), prop_oneof![2 => Just(0u8), 3 => any::<u8>()]);
    (conn(Just(asyn)), fault_kind(), any::<bool>(), proptest::collection::vec(w, 1..10))
        .prop_map(|(conn, fault, transient, writes)| ShapedFault { conn, fault, transient, writes })
        .boxed()
}
fn fault_sync_strategy(_: Tier) -> BoxedStrategy<ShapedFault> {
    fault_case(false)
}
fn fault_async_strategy(_: Tier) -> BoxedStrategy<ShapedFault> {
    fault_case(true)
}
fn arm(sh: &Shared, c: &ShapedFault) {
    let mut w = lock(sh);
    let (n, f) = (w.written.len(), w.flushes);
    w.transient = c.transient;
    w.fault = match c.fault {
        Fault::WriteErr(a, e) => Fault::WriteErr(n + a, e),
        Fault::WriteZero(a) => Fault::WriteZero(n + a),
        Fault::FlushErr(a, e) => Fault::FlushErr(f + a, e),
        x => x,
    };
}
struct FaultBook {
    sent: Vec<Sent>,
    in_background: bool,
    failed: bool,
}
impl FaultBook {
    /// Accounts for a write; true when the connection is finished.
    fn wrote(&mut self, sh: &Shared, struck: bool, d: bool, m: Vec<u8>, r: Result<(), ProtocolError>) -> Result<bool, String> {
        let now = lock(sh).faulted;
        match r {
            Ok(()) => {
                ensure!(!struck, "a write succeeds after the transport failed in a background decoy");
                self.sent.push((d, m, true));
                Ok(false)
            }
            Err(e) => {
                ensure!(now, "a write fails although the transport works: {e:?}");
                ensure!(io_err(&e).is_some(), "a transport failure is reported as {e:?}");
                self.in_background = struck;
                self.failed = true;
                if !struck {
                    self.sent.push((d, m, false));
                }
                Ok(true)
            }
        }
    }
    fn finish(&self, sh: &Shared) -> Result<(), String> {
        let w = lock(sh);
        let upto = w.fault_at.unwrap_or(w.written.len());
        let mut v = View::default();
        v.feed(&w, upto)?;
        explains(&v.packets, &self.sent).map_err(|e| format!("up to the failure at byte {upto}: {e}"))?;
        ensure!(w.fault_at.is_some() || v.pos == w.written.len(), "incomplete packet although the transport works");
        Ok(())
    }
    fn class(&self) -> Vec<&'static str> {
        vec![match (self.failed, self.in_background) {
            (false, _) => "not-reached",
            (true, true) => "failed-in-background",
            (true, false) => "failed-in-write",
        }]
    }
}
fn fault_sync_check(c: &ShapedFault) -> CaseResult {
    let Some(sh) = wire_of(&c.conn) else { return Ok(Outcome::default()) };
    let mut p = Blocking::open(&c.conn, &sh).map_err(|e| format!("handshake: {e:?}"))?;
    arm(&sh, c);
    let mut b = FaultBook { sent: vec![], in_background: false, failed: false };
    for (d, m, pause) in &c.writes {
        if *pause > 0 {
            std::thread::sleep(Duration::from_millis(20 * *pause as u64));
        }
        let m = m.get();
        let struck = lock(&sh).faulted;
        let r = p.write(&payload(*d, &m));
        if b.wrote(&sh, struck, *d, m, r)? {
            break;
        }
    }
    // Reading goes on.
    for (i, (h, x)) in c.conn.remote.session.iter().enumerate() {
        let m = p.read().map_err(|e| format!("read after the failure: {e:?}"))?;
        same_packet(&format!("packet {i}"), &m, *h, x)?;
    }
    drop(p);
    background_panics()?;
    b.finish(&sh)?;
    Ok(Outcome::new(b.failed, b.class()))
}
fn fault_async_check(c: &ShapedFault) -> CaseResult {
    let Some(sh) = wire_of(&c.conn) else { return Ok(Outcome::default()) };
    virtual_time(async {
        let mut p = within("the handshake", Polled2::open(&c.conn, &sh)).await?.map_err(|e| format!("handshake: {e:?}"))?;
        arm(&sh, c);
        let mut b = FaultBook { sent: vec![], in_background: false, failed: false };
        for (d, m, pause) in &c.writes {
            ms(20 * *pause as u64).await;
            let m = m.get();
            let struck = lock(&sh).faulted;
            let r = within("a write", p.write(&payload(*d, &m))).await?;
            if b.wrote(&sh, struck, *d, m, r)? {
                break;
            }
        }
        for (i, (h, x)) in c.conn.remote.session.iter().enumerate() {
            let m = within("a read", p.read()).await?.map_err(|e| format!("read after the failure: {e:?}"))?;
            same_packet(&format!("packet {i}"), &m, *h, x)?;
        }
        drop(p);
        ms(2000).await;
        ensure!(lock(&sh).dropped_writer, "the transport is still held after the failure and the drop");
        b.finish(&sh)?;
        Ok(Outcome::new(b.failed, b.class()))
    })
}
/// Writes whose futures are dropped, over a transport that fails: nobody hears of a failure in one
/// of them, so what follows must not be reported as sent unless the peer can decrypt it.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CancelFault {
    conn: Conn,
    fault: Fault,
    transient: bool,
    /// Decoy, contents, pause before it, number of polls (255: until it is done).
    writes: Vec<(bool, Blob, u8, u8)>,
}
fn cancel_fault_strategy(_: Tier) -> BoxedStrategy<CancelFault> {
    let n = prop_oneof![2 => Just(255u8), 3 => 1u8..4, 1 => 1u8..100];
    let w = (proptest::bool::weighted(0.25), contents(), prop_oneof![3 => Just(0u8), 2 => any::<u8>()], n);
    (conn(Just(true)), fault_kind(), proptest::bool::weighted(0.8), proptest::collection::vec(w, 2..10))
        .prop_map(|(conn, fault, transient, writes)| CancelFault { conn, fault, transient, writes })
        .boxed()
}
fn cancel_fault_check(c: &CancelFault) -> CaseResult {
    let Some(sh) = wire_of(&c.conn) else { return Ok(Outcome::default()) };
    virtual_time(async {
        let mut p = within("the handshake", Polled2::open(&c.conn, &sh)).await?.map_err(|e| format!("handshake: {e:?}"))?;
        arm(&sh, &ShapedFault { conn: c.conn.clone(), fault: c.fault, transient: c.transient, writes: vec![] });
        let mut b = FaultBook { sent: vec![], in_background: false, failed: false };
        let (mut lost, mut silent) = (0, false);
        for (d, m, pause, n) in &c.writes {
            ms(20 * *pause as u64).await;
            let m = m.get();
            silent |= lock(&sh).faulted;
            let pl = payload(*d, &m);
            let r = if *n == 255 {
                Some(within("a write", p.write(&pl)).await?)
            } else {
                let mut f = pin!(p.write(&pl));
                let mut done = None;
                for k in 0..*n {
                    if k > 0 {
                        tokio::task::yield_now().await;
                    }
                    done = poll_once(f.as_mut()).await;
                    if done.is_some() {
                        break;
                    }
                }
                done
            };
            match r {
                None => {
                    lost += 1;
                    b.sent.push((*d, m, false));
                }
                Some(Ok(())) => {
                    b.sent.push((*d, m, true));
                    let w = lock(&sh);
                    let mut v = View::default();
                    v.feed(&w, w.flushed).and_then(|_| explains(&v.packets, &b.sent)).map_err(|e| format!("a write is reported as successful, but the peer does not receive it: {e}"))?;
                }
                Some(Err(e)) => {
                    ensure!(lock(&sh).faulted, "a write fails although the transport works: {e:?}");
                    ensure!(io_err(&e).is_some(), "a transport failure is reported as {e:?}");
                    b.failed = true;
                    b.sent.push((*d, m, false));
                    break;
                }
            }
        }
        for (i, (h, x)) in c.conn.remote.session.iter().enumerate() {
            let m = within("a read", p.read()).await?.map_err(|e| format!("read after the failure: {e:?}"))?;
            same_packet(&format!("packet {i}"), &m, *h, x)?;
        }
        drop(p);
        ms(2000).await;
        ensure!(lock(&sh).dropped_writer, "the transport is still held after the failure and the drop");
        b.finish(&sh)?;
        Ok(Outcome::new(lost > 0 && lock(&sh).faulted, vec![if silent { "failed-unheard" } else { b.class()[0] }]))
    })
}
/// Faults during the handshake and while reading.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ShapedReadFault {
    conn: Conn,
    fault: Fault,
    write: Blob,
}
fn other_strategy(_: Tier) -> BoxedStrategy<ShapedReadFault> {
    let at = || prop_oneof![2 => 0usize..64, 3 => 0usize..400, 2 => 0usize..6000];
    let f = prop_oneof![
        2 => at().prop_map(Fault::Eof),
        2 => (at(), error_number()).prop_map(|(a, e)| Fault::ReadErr(a, e)),
        2 => (at(), error_number()).prop_map(|(a, e)| Fault::WriteErr(a, e)),
        1 => at().prop_map(Fault::WriteZero),
        1 => (0usize..3, error_number()).prop_map(|(a, e)| Fault::FlushErr(a, e)),
    ];
    (conn(any::<bool>()), f, blob(100))
        .prop_map(|(mut conn, fault, write)| {
            // Background decoys would meet the write faults too.
            conn.cfg &= !2;
            ShapedReadFault { conn, fault, write }
        })
        .boxed()
}
fn other_check(c: &ShapedReadFault) -> CaseResult {
    let Some(sh) = wire_of(&c.conn) else { return Ok(Outcome::default()) };
    {
        let mut w = lock(&sh);
        w.fault = c.fault;
        w.eof_at_end = true;
    }
    let m = c.write.get();
    let mut hs = None;
    let mut wr = None;
    let mut rd: Vec<Result<Payload, ProtocolError>> = vec![];
    let n = c.conn.remote.session.len() + 1;
    if c.conn.asyn {
        virtual_time(async {
            match within("the handshake", Polled2::open(&c.conn, &sh)).await? {
                Err(e) => hs = Some(e),
                Ok(mut p) => {
                    wr = Some(within("a write", p.write(&payload(false, &m))).await?);
                    for _ in 0..n {
                        rd.push(within("a read", p.read()).await?);
                        if rd.last().unwrap().is_err() {
                            break;
                        }
                    }
                }
            }
            Ok(Outcome::default())
        })?;
    } else {
        match Blocking::open(&c.conn, &sh) {
            Err(e) => hs = Some(e),
            Ok(mut p) => {
                wr = Some(p.write(&payload(false, &m)));
                for _ in 0..n {
                    rd.push(p.read());
                    if rd.last().unwrap().is_err() {
                        break;
                    }
                }
            }
        }
    }
    background_panics()?;
    let w = lock(&sh);
    let right = |e: &ProtocolError, what: &str| -> Result<(), String> {
        let Some((k, v1)) = io_err(e) else { return Err(format!("{what}: a transport failure is reported as {e:?}")) };
        ensure!(v1 == suggests_v1(k), "{what}: {k:?} with the wrong suggestion");
        match c.fault {
            Fault::WriteErr(..) | Fault::FlushErr(..) if what == "read" => {}
            Fault::ReadErr(_, x) | Fault::WriteErr(_, x) | Fault::FlushErr(_, x) if w.faulted => {
                let x = kind_of(x);
                ensure!(k == x || x == std::io::ErrorKind::UnexpectedEof && is_eof(e), "{what}: {k:?} instead of {x:?}")
            }
            _ => {}
        }
        Ok(())
    };
    let mut cl = "not-reached";
    if let Some(e) = &hs {
        cl = "handshake";
        ensure!(w.faulted, "the handshake fails although the transport works: {e:?}");
        right(e, "handshake")?;
    } else {
        let k = w.known.as_ref().ok_or("no key")?;
        match wr.as_ref().unwrap() {
            Ok(()) => {
                let mut v = View::default();
                v.feed(&w, w.flushed)?;
                explains(&v.packets, &[(false, m.clone(), true)])?;
            }
            Err(e) => {
                cl = "write";
                ensure!(w.faulted, "write fails although the transport works: {e:?}");
                right(e, "write")?;
            }
        }
        let end = match c.fault {
            Fault::Eof(at) | Fault::ReadErr(at, _) => at,
            _ => usize::MAX,
        };
        let whole = k.marks[4..].iter().take_while(|x| **x <= end).count();
        for (i, r) in rd.iter().enumerate() {
            match r {
                Ok(p) => {
                    ensure!(i < whole, "packet {i} was delivered of which only part was received");
                    let (h, b) = &c.conn.remote.session[i];
                    same_packet(&format!("packet {i}"), p, *h, b)?;
                }
                Err(e) => {
                    ensure!(i == whole, "only {i} of {whole} complete packets were delivered: {e:?}");
                    right(e, "read")?;
                    if i < c.conn.remote.session.len() {
                        cl = "read";
                    }
                }
            }
        }
    }
    Ok(Outcome::new(w.faulted, vec![cl]))
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C17",
            level: "exploration",
            rule: "at least one message written, and either decoys were added or shaping is off",
            assumptions: &["thread schedules are those the operating system produces; sleeping is accelerated 500 times", "entropy comes from a deterministic stand-in for getrandom"],
            families: vec![family("shaped-blocking", 12_000, 600_000, sync_strategy, sync_check).racy(), family("large-blocking", 200, 5_000, large_sync_strategy, large_check).racy(), family("concurrent-writes", 300, 12_000, busy_strategy, busy_check).racy()],
        },
        Property {
            id: "C18",
            level: "exploration",
            rule: "at least one message besides the last, or a cancelled write",
            assumptions: &["tokio's single-threaded runtime under virtual time", "tokio's choice between ready branches is random"],
            families: vec![family("shaped-async", 20_000, 1_500_000, async_strategy, async_check).racy(), family("large-async", 200, 5_000, large_async_strategy, large_check).racy()],
        },
        Property {
            id: "C19",
            level: "exploration",
            rule: "messages written with the configuration's additions present; aggregates: always",
            assumptions: &["aggregate checks accept deviations of probability below 1e-12"],
            families: vec![
                family("policy", 12_000, 600_000, policy_strategy, policy_check).racy(),
                enumerate("aggregate", aggregate_list, aggregate_check).racy(),
                enumerate("long", long_list, long_check).racy(),
                enumerate("background", background_list, background_check).racy(),
            ],
        },
        Property {
            id: "C20",
            level: "exploration",
            rule: "a connection was dropped (drop), something happened before the silence (idle)",
            assumptions: &["blocking: thread schedules are sampled; a minute and a half without decoys means none are coming"],
            families: vec![
                family("drop-async", 12_000, 600_000, drop_async_strategy, drop_async_check).racy(),
                family("idle-async", 1_500, 60_000, idle_strategy, idle_check).racy(),
                family("drop-blocking", 8_000, 400_000, drop_sync_strategy, drop_sync_check).racy(),
                family("idle-blocking", 120, 5_000, idle_sync_strategy, idle_sync_check).racy(),
            ],
        },
        Property {
            id: "C21",
            level: "exploration",
            rule: "time passed and bytes were read (sequential); several rounds with bytes read (threads)",
            assumptions: &["times are compared to a millisecond", "thread interleavings are sampled"],
            families: vec![family("sequential", 60_000, 4_000_000, stat_strategy, stat_check), family("threads", 3_000, 100_000, threads_strategy, threads_check).racy()],
        },
        Property {
            id: "C23",
            level: "fault_enumeration",
            rule: "the injected failure was met by an operation",
            assumptions: &["blocking: thread schedules are sampled"],
            families: vec![
                family("faults-async", 24_000, 1_500_000, fault_async_strategy, fault_async_check).racy(),
                family("faults-cancelled", 24_000, 1_500_000, cancel_fault_strategy, cancel_fault_check).racy(),
                family("faults-blocking", 10_000, 400_000, fault_sync_strategy, fault_sync_check).racy(),
                family("other-faults", 10_000, 500_000, other_strategy, other_check).racy(),
            ],
        },
        halves::property(),
        rooms::property(),
        pairs::property(),
        memory::property(),
    ]
}
