//! C29: any two interfaces of the library talk to each other, on real threads and runtimes.
use super::*;
use crate::runner::{in_threads, seed_workers};
use bip324::Role;
use std::collections::VecDeque;
use std::io::{BufReader, Error, ErrorKind, Read, Result as IoResult, Write};
use std::sync::Condvar;
use std::task::{Context, Wake, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Blocking,
    ShapedBlocking,
    Async,
    ShapedAsync,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Runs {
    /// A current-thread runtime; the shaped protocols always run on a runtime.
    One,
    /// A runtime of several threads.
    Several(u8),
    /// An executor which is not tokio's.
    Other,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Side {
    kind: Kind,
    runs: Runs,
    cfg: u8,
    /// Of protocols without shaping.
    garbage: Blob,
    decoys: Vec<Blob>,
    /// Decoy or not, contents, pause before it.
    messages: Vec<(bool, Blob, u8)>,
    buffered: bool,
    /// Async: both halves in one task.
    together: bool,
    /// How many bytes the pipe to this side holds, and gives or takes at once.
    capacity: u32,
    chunk: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PairCase {
    magic: [u8; 4],
    initiator: Side,
    responder: Side,
    /// Which side leaves when all is done, and with which half.
    initiator_leaves: bool,
    writer_first: bool,
}
fn side() -> BoxedStrategy<Side> {
    let kind = prop_oneof![1 => Just(Kind::Blocking), 1 => Just(Kind::ShapedBlocking), 1 => Just(Kind::Async), 2 => Just(Kind::ShapedAsync)];
    let runs = prop_oneof![1 => Just(Runs::One), 2 => (2u8..4).prop_map(Runs::Several), 1 => Just(Runs::Other)];
    let body = prop_oneof![24 => blob(60), 8 => blob(1100), 4 => blob(9000), 1 => blob(140_000)];
    let message = (proptest::bool::weighted(0.2), body, prop_oneof![3 => Just(0u8), 1 => 0u8..6]);
    // Many small ones arrive while a large one waits for the transport.
    let small = (proptest::bool::weighted(0.1), blob(20), prop_oneof![30 => Just(0u8), 1 => 0u8..3]);
    let many = (proptest::collection::vec(small, 20..120), proptest::collection::vec(message.clone(), 0..4)).prop_map(|(mut a, b)| {
        a.extend(b);
        a
    });
    let messages = prop_oneof![6 => proptest::collection::vec(message, 0..8), 1 => many];
    let capacity = prop_oneof![1 => 1u32..4, 3 => 4u32..300, 2 => 300u32..5000, 2 => Just(1 << 20)];
    let chunk = prop_oneof![1 => 1u32..4, 2 => 4u32..300, 3 => Just(1 << 20)];
    let own = (blob(4095), proptest::collection::vec(blob(300), 0..3));
    ((kind, runs, 0u8..16, own), messages, (any::<bool>(), any::<bool>()), (capacity, chunk))
        .prop_map(|((kind, runs, cfg, (garbage, decoys)), messages, (buffered, together), (capacity, chunk))| Side { kind, runs, cfg, garbage, decoys, messages, buffered, together, capacity, chunk })
        .boxed()
}
fn pair_strategy(_: Tier) -> BoxedStrategy<PairCase> {
    (magic(), side(), side(), any::<bool>(), any::<bool>())
        .prop_map(|(magic, initiator, responder, initiator_leaves, writer_first)| PairCase { magic, initiator, responder, initiator_leaves, writer_first })
        .boxed()
}

// ------------------------------------------------------------------ a pipe for threads and tasks
#[derive(Default)]
struct Flow {
    held: VecDeque<u8>,
    /// Applies after the handshake: in it both sides write before they read.
    capacity: usize,
    limited: bool,
    chunk: usize,
    no_writer: bool,
    no_reader: bool,
    reader: Option<Waker>,
    writer: Option<Waker>,
}
impl Flow {
    fn wake(&mut self) {
        for w in [self.reader.take(), self.writer.take()].into_iter().flatten() {
            w.wake();
        }
    }
    fn take(&mut self, want: usize, mut put: impl FnMut(&[u8])) -> Option<IoResult<usize>> {
        let n = want.min(self.chunk).min(self.held.len());
        if n == 0 {
            return if want == 0 || self.no_writer { Some(Ok(0)) } else { None };
        }
        let part: Vec<u8> = self.held.drain(..n).collect();
        put(&part);
        self.wake();
        Some(Ok(n))
    }
    fn give(&mut self, b: &[u8]) -> Option<IoResult<usize>> {
        if self.no_reader {
            return Some(Err(Error::from(ErrorKind::BrokenPipe)));
        }
        let n = b.len().min(self.chunk).min(if self.limited { self.capacity } else { 1 << 20 }.saturating_sub(self.held.len()));
        if n == 0 && !b.is_empty() {
            return None;
        }
        self.held.extend(&b[..n]);
        self.wake();
        Some(Ok(n))
    }
}
struct Pipe(Mutex<Flow>, Condvar);
impl Pipe {
    fn new(s: &Side) -> Arc<Pipe> {
        // Bytes one by one are for small amounts.
        let total: u32 = s.messages.iter().map(|m| m.1.len() as u32).sum();
        let least = (total / 2000).max(1);
        let f = Flow { capacity: s.capacity.max(least) as usize, chunk: s.chunk.max(least) as usize, ..Flow::default() };
        Arc::new(Pipe(Mutex::new(f), Condvar::new()))
    }
    fn with<T>(&self, f: impl FnOnce(&mut Flow) -> T) -> T {
        let r = f(&mut self.0.lock().unwrap());
        self.1.notify_all();
        r
    }
    fn wait<T>(&self, mut f: impl FnMut(&mut Flow) -> Option<T>) -> T {
        let mut g = self.0.lock().unwrap();
        loop {
            if let Some(x) = f(&mut g) {
                self.1.notify_all();
                return x;
            }
            g = self.1.wait(g).unwrap();
        }
    }
}
struct PipeR(Arc<Pipe>);
struct PipeW(Arc<Pipe>);
impl Drop for PipeR {
    fn drop(&mut self) {
        self.0.with(|f| {
            f.no_reader = true;
            f.wake();
        });
    }
}
impl Drop for PipeW {
    fn drop(&mut self) {
        self.0.with(|f| {
            f.no_writer = true;
            f.wake();
        });
    }
}
impl Read for PipeR {
    fn read(&mut self, buf: &mut [u8]) -> IoResult<usize> {
        self.0.wait(|f| f.take(buf.len(), |p| buf[..p.len()].copy_from_slice(p)))
    }
}
impl Write for PipeW {
    fn write(&mut self, buf: &[u8]) -> IoResult<usize> {
        self.0.wait(|f| f.give(buf))
    }
    fn flush(&mut self) -> IoResult<()> {
        Ok(())
    }
}
impl AsyncRead for PipeR {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<IoResult<()>> {
        self.0.with(|f| match f.take(buf.remaining(), |p| buf.put_slice(p)) {
            Some(r) => Poll::Ready(r.map(|_| ())),
            None => {
                f.reader = Some(cx.waker().clone());
                Poll::Pending
            }
        })
    }
}
impl AsyncWrite for PipeW {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<IoResult<usize>> {
        self.0.with(|f| match f.give(buf) {
            Some(r) => Poll::Ready(r),
            None => {
                f.writer = Some(cx.waker().clone());
                Poll::Pending
            }
        })
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<IoResult<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<IoResult<()>> {
        self.0.with(|f| {
            f.no_writer = true;
            f.wake();
        });
        Poll::Ready(Ok(()))
    }
}

// ------------------------------------------------------------------ what a side does
fn shaped(k: Kind) -> bool {
    matches!(k, Kind::ShapedBlocking | Kind::ShapedAsync)
}
/// A message of the application; its decoys cannot be taken for others.
fn message(i: usize, m: &(bool, Blob, u8)) -> Payload {
    let mut b = m.1.get();
    if m.0 {
        b.extend(b"sent by the application");
        b.push(i as u8);
    }
    payload(m.0, &b)
}
/// Follows what a side receives.
struct Inbox {
    from: Side,
    at: usize,
    extra: usize,
}
impl Inbox {
    fn done(&self) -> bool {
        self.at == self.from.messages.len()
    }
    fn take(&mut self, p: &Payload) -> Result<(), String> {
        if let Some(m) = self.from.messages.get(self.at) {
            let want = message(self.at, m);
            if is_decoy(p) == m.0 && p.contents() == want.contents() {
                self.at += 1;
                return Ok(());
            }
        }
        ensure!(is_decoy(p), "received {} where message {} of {} is due", short(p.contents()), self.at, self.from.messages.len());
        ensure!(shaped(self.from.kind) && (1..=1024).contains(&p.contents().len()), "received a decoy nobody sent: {}", short(p.contents()));
        self.extra += 1;
        Ok(())
    }
    fn end(&self, e: &ProtocolError) -> Result<(), String> {
        let Some((k, _)) = io_err(e) else { return Err(format!("after {} of {} messages a read fails: {e:?}", self.at, self.from.messages.len())) };
        let fits = matches!(k, ErrorKind::UnexpectedEof | ErrorKind::ConnectionAborted | ErrorKind::ConnectionReset | ErrorKind::BrokenPipe);
        ensure!(fits && self.done(), "after {} of {} messages a read fails: {e:?}", self.at, self.from.messages.len());
        Ok(())
    }
}
struct Plan {
    magic: [u8; 4],
    role: Role,
    own: Side,
    other: Side,
    leaves: bool,
    writer_first: bool,
    seed: u64,
    out: Arc<Pipe>,
}
impl Plan {
    fn handshake_done(&self) {
        self.out.with(|f| f.limited = true);
    }
}
type Received = Result<usize, String>;

/// What the two halves of a side do; `$aw` is `.await` or nothing.
macro_rules! writing {
    ($w:ident, $messages:expr, $pause:expr, [$($aw:tt)*]) => {{
        for (i, m) in $messages.iter().enumerate() {
            if m.2 > 0 {
                $pause(m.2)$($aw)*;
            }
            $w.write(&message(i, m))$($aw)*.map_err(|e| format!("message {i} is refused: {e:?}"))?;
        }
        Ok::<_, String>($w)
    }};
}
macro_rules! reading {
    ($r:ident, $inbox:ident, $stay:expr, [$($aw:tt)*]) => {{
        while $stay || !$inbox.done() {
            match $r.read()$($aw)* {
                Ok(p) => $inbox.take(&p)?,
                Err(e) => {
                    $inbox.end(&e)?;
                    break;
                }
            }
        }
        ensure!($inbox.done(), "the stream ends after {} of {} messages", $inbox.at, $inbox.from.messages.len());
        Ok::<_, String>(($r, $inbox.extra))
    }};
}
fn leave<R, W>(p: &Plan, r: R, w: W) {
    if p.writer_first {
        drop(w);
        drop(r);
    } else {
        drop(r);
        drop(w);
    }
}
trait BReader: Send {
    fn read(&mut self) -> Result<Payload, ProtocolError>;
}
trait BWriter: Send {
    fn write(&mut self, m: &Payload) -> Result<(), ProtocolError>;
}
impl<R: Read + Send> BReader for bip324::io::ProtocolReader<R> {
    fn read(&mut self) -> Result<Payload, ProtocolError> {
        self.read()
    }
}
impl<R: Read + Send> BReader for bip324_traffic::io::ShapedProtocolReader<R> {
    fn read(&mut self) -> Result<Payload, ProtocolError> {
        self.read()
    }
}
impl<W: Write + Send> BWriter for bip324::io::ProtocolWriter<W> {
    fn write(&mut self, m: &Payload) -> Result<(), ProtocolError> {
        self.write(m)
    }
}
impl<W: Write + Send> BWriter for bip324_traffic::io::ShapedProtocolWriter<W> {
    fn write(&mut self, m: &Payload) -> Result<(), ProtocolError> {
        self.write(m)
    }
}
fn blocking(p: &Plan, r: PipeR, w: PipeW) -> Received {
    let s = &p.own;
    let input: Box<dyn Read + Send> = if s.buffered { Box::new(BufReader::new(r)) } else { Box::new(r) };
    let refused = |e: ProtocolError| format!("handshake: {e:?}");
    let (mut r, mut w): (Box<dyn BReader>, Box<dyn BWriter>) = if s.kind == Kind::ShapedBlocking {
        let (r, w) = bip324_traffic::io::ShapedProtocol::new(p.magic, p.role, config(s.cfg), input, w).map_err(refused)?.into_split();
        (Box::new(r), Box::new(w))
    } else {
        let d = s.decoys.iter().map(|d| d.get()).collect();
        let (r, w) = bip324::io::Protocol::new(p.magic, p.role, Some(s.garbage.get()), Some(d), input, w).map_err(refused)?.into_split();
        (Box::new(r), Box::new(w))
    };
    p.handshake_done();
    let mut inbox = Inbox { from: p.other.clone(), at: 0, extra: 0 };
    let pause = |n: u8| std::thread::sleep(Duration::from_millis(20 * n as u64));
    enum Half {
        R(Box<dyn BReader>, usize),
        W(Box<dyn BWriter>),
    }
    let halves: Vec<Box<dyn FnOnce() -> Result<Half, String> + Send + '_>> = vec![
        Box::new(move || writing!(w, s.messages, pause, []).map(Half::W)),
        Box::new(move || reading!(r, inbox, !p.leaves, []).map(|(r, n)| Half::R(r, n))),
    ];
    let mut done = in_threads(p.seed, halves).into_iter();
    match (done.next().unwrap(), done.next().unwrap()) {
        (Ok(Half::W(w)), Ok(Half::R(r, extra))) => {
            leave(p, r, w);
            Ok(extra)
        }
        (a, b) => Err(a.err().or(b.err()).unwrap_or_else(|| "HARNESS:halves".into())),
    }
}

/// An executor of one future, in this thread, without anything of tokio's.
struct Unpark(std::thread::Thread, std::sync::atomic::AtomicBool);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.1.store(true, Ordering::SeqCst);
        self.0.unpark();
    }
}
fn run_here<F: Future>(f: F) -> F::Output {
    let flag = Arc::new(Unpark(std::thread::current(), std::sync::atomic::AtomicBool::new(false)));
    let waker = Waker::from(flag.clone());
    let mut f = pin!(f);
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&waker)) {
            return x;
        }
        while !flag.1.swap(false, Ordering::SeqCst) {
            std::thread::park();
        }
    }
}
/// Gives other tasks a turn, on any executor.
async fn turns(n: u8) {
    for _ in 0..n {
        let mut first = true;
        std::future::poll_fn(|cx| {
            if std::mem::take(&mut first) {
                cx.waker().wake_by_ref();
                Poll::Pending
            } else {
                Poll::Ready(())
            }
        })
        .await
    }
}
macro_rules! both_halves {
    ($p:ident, $r:ident, $w:ident) => {{
        let (mut r, mut w) = ($r, $w);
        $p.handshake_done();
        let mut inbox = Inbox { from: $p.other.clone(), at: 0, extra: 0 };
        let messages = $p.own.messages.clone();
        let stay = !$p.leaves;
        let writer = async move { writing!(w, messages, turns, [.await]) };
        let reader = async move { reading!(r, inbox, stay, [.await]) };
        let (w, r) = if $p.own.together || $p.own.runs == Runs::Other && !shaped($p.own.kind) {
            // Both are polled to their end even if one fails: the other side then ends them.
            tokio::join!(writer, reader)
        } else {
            let (a, b) = (tokio::spawn(writer), tokio::spawn(reader));
            let died = |e: tokio::task::JoinError| format!("a task panicked: {e}");
            (a.await.map_err(died)?, b.await.map_err(died)?)
        };
        let (w, (r, extra)) = (w?, r?);
        leave($p, r, w);
        Ok(extra)
    }};
}
async fn asynchronous(p: &Plan, r: PipeR, w: PipeW) -> Received {
    let s = &p.own;
    let input: Box<dyn AsyncRead + Send + Unpin> = if s.buffered { Box::new(tokio::io::BufReader::new(r)) } else { Box::new(r) };
    let refused = |e: ProtocolError| format!("handshake: {e:?}");
    if s.kind == Kind::ShapedAsync {
        let (r, w) = bip324_traffic::futures::ShapedProtocol::new(p.magic, p.role, config(s.cfg), input, w).await.map_err(refused)?.into_split();
        both_halves!(p, r, w)
    } else {
        let d = s.decoys.iter().map(|d| d.get()).collect();
        let (r, w) = bip324::futures::Protocol::new(p.magic, p.role, Some(s.garbage.get()), Some(d), input, w).await.map_err(refused)?.into_split();
        both_halves!(p, r, w)
    }
}
fn one_side(p: &Plan, r: PipeR, w: PipeW) -> Received {
    let s = &p.own;
    if !matches!(s.kind, Kind::Async | Kind::ShapedAsync) {
        return blocking(p, r, w);
    }
    let rt = match s.runs {
        Runs::Other if s.kind == Kind::Async => return run_here(asynchronous(p, r, w)),
        Runs::Several(n) => {
            let mut b = tokio::runtime::Builder::new_multi_thread();
            b.worker_threads(n as usize);
            seed_workers(&mut b, p.seed);
            b.enable_time().build()
        }
        _ => tokio::runtime::Builder::new_current_thread().enable_time().build(),
    };
    rt.map_err(|e| format!("HARNESS:{e}"))?.block_on(asynchronous(p, r, w))
}
fn pair_check(c: &PairCase) -> CaseResult {
    let (to_i, to_r) = (Pipe::new(&c.initiator), Pipe::new(&c.responder));
    let plan = |own: &Side, other: &Side, role, leaves, seed, out: &Arc<Pipe>| Plan { magic: c.magic, role, own: own.clone(), other: other.clone(), leaves, writer_first: c.writer_first, seed, out: out.clone() };
    let i = plan(&c.initiator, &c.responder, Role::Initiator, c.initiator_leaves, 11, &to_r);
    let r = plan(&c.responder, &c.initiator, Role::Responder, !c.initiator_leaves, 22, &to_i);
    let (ends_i, ends_r) = ((PipeR(to_i.clone()), PipeW(to_r.clone())), (PipeR(to_r), PipeW(to_i)));
    let sides: Vec<Box<dyn FnOnce() -> Received + Send + '_>> = vec![Box::new(|| one_side(&i, ends_i.0, ends_i.1)), Box::new(|| one_side(&r, ends_r.0, ends_r.1))];
    let got = in_threads(0x7061_6972, sides);
    background_panics()?;
    let mut extra = 0;
    for (who, g) in ["initiator", "responder"].iter().zip(got) {
        match g {
            Ok(n) => extra += n,
            Err(m) if m.starts_with("HARNESS:") => return Err(m),
            Err(m) => return Err(format!("{who}: {m}")),
        }
    }
    let mut cl = vec![];
    let kinds = [c.initiator.kind, c.responder.kind];
    if kinds[0] != kinds[1] {
        cl.push("different-interfaces");
    }
    if [&c.initiator, &c.responder].iter().any(|s| matches!((s.kind, s.runs), (Kind::Async | Kind::ShapedAsync, Runs::Several(_)))) {
        cl.push("several-threads");
    }
    if [&c.initiator, &c.responder].iter().any(|s| (s.kind, s.runs) == (Kind::Async, Runs::Other)) {
        cl.push("other-executor");
    }
    if extra > 0 {
        cl.push("shaped-traffic");
    }
    Ok(Outcome::new(!c.initiator.messages.is_empty() && !c.responder.messages.is_empty(), cl))
}
pub fn property() -> Property {
    Property {
        id: "C29",
        level: "exploration",
        rule: "Both sides are the library, each in any of its four drivers, on real threads, tokio runtimes of one or several threads or a foreign executor, joined by pipes of generated capacity; both write and read at the same time. Non-trivial: both sides send messages.",
        assumptions: &["the pipes deliver what they take; thread schedules are those of the machine"],
        families: vec![family("pairs", 12_000, 400_000, pair_strategy, pair_check).racy()],
    }
}
