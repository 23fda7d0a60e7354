//! C25: the halves of a split connection do not depend on each other.
use super::*;
use std::io::{Error, ErrorKind, Read, Result as IoResult, Write};
use std::sync::atomic::AtomicBool;
use std::sync::mpsc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum HalfOp {
    /// Messages are written while a read waits for the answer to them.
    Exchange(Vec<(bool, Blob)>),
    /// This many packets are read while a write waits for the transport.
    Stalled(bool, Blob, u8),
    Pause(u16),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum End {
    None,
    DropReader,
    DropWriter,
    /// The reader meets the end of the stream, an error, or a forged packet.
    BreakReader(u8),
    BreakWriter(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HalfCase {
    conn: Conn,
    shaped: bool,
    ops: Vec<HalfOp>,
    end: End,
    /// Messages written at the end when the reader is gone.
    last: Vec<(bool, Blob)>,
}
fn half_case(asyn: bool) -> BoxedStrategy<HalfCase> {
    let d = || proptest::bool::weighted(0.25);
    let op = prop_oneof![
        4 => proptest::collection::vec((d(), contents()), 1..4).prop_map(HalfOp::Exchange),
        3 => (d(), contents(), 0u8..3).prop_map(|(d, b, n)| HalfOp::Stalled(d, b, n)),
        1 => (0u16..500).prop_map(HalfOp::Pause),
    ];
    let end = prop_oneof![
        Just(End::None), Just(End::DropReader), Just(End::DropWriter), (0u8..3).prop_map(End::BreakReader), any::<u8>().prop_map(End::BreakWriter)
    ];
    (conn(Just(asyn)), session_packets(10), any::<bool>(), proptest::collection::vec(op, 1..7), end, proptest::collection::vec((d(), contents()), 1..4))
        .prop_map(|(mut conn, session, shaped, ops, end, last)| {
            conn.remote.session = session;
            conn.split = true;
            if !shaped {
                conn.cfg = 0;
            }
            HalfCase { conn, shaped, ops, end, last }
        })
        .boxed()
}
fn half_sync(_: Tier) -> BoxedStrategy<HalfCase> {
    half_case(false)
}
fn half_async(_: Tier) -> BoxedStrategy<HalfCase> {
    half_case(true)
}

// What both versions check.
struct Ledger<'a> {
    c: &'a HalfCase,
    sh: Shared,
    view: View,
    sent: Vec<Sent>,
    next: usize,
    waits: u32,
}
impl Ledger<'_> {
    fn more(&self) -> bool {
        self.next < self.c.conn.remote.session.len()
    }
    fn got(&mut self, r: Result<Payload, ProtocolError>, while_: &str) -> Result<(), String> {
        let i = self.next;
        let m = r.map_err(|e| format!("packet {i} of the peer cannot be read{while_}: {e:?}"))?;
        let (h, b) = &self.c.conn.remote.session[i];
        same_packet(&format!("packet {i}"), &m, *h, b)?;
        self.next += 1;
        Ok(())
    }
    fn wrote(&mut self, d: bool, m: Vec<u8>, r: Result<(), ProtocolError>, while_: &str) -> Result<(), String> {
        r.map_err(|e| format!("write{while_}: {e:?}"))?;
        self.sent.push((d, m, true));
        self.view.flushed(&self.sh)?;
        explains(&self.view.packets, &self.sent).map_err(|e| format!("after a successful write{while_}: {e}"))
    }
    fn release(&self, n: usize) {
        let mut w = lock(&self.sh);
        w.released = self.next + n;
        if let Some(k) = w.read_waker.take() {
            k.wake();
        }
    }
    /// Makes the reads that follow fail.
    fn break_reader(&self, how: u8) -> bool {
        let mut w = lock(&self.sh);
        match how {
            0 => w.fault = Fault::Eof(w.pos),
            1 => w.fault = Fault::ReadErr(w.pos, 0),
            _ => {
                if !self.more() {
                    return false;
                }
                let at = w.known.as_ref().unwrap().marks[4 + self.next] - 1;
                w.stream[at] ^= 1;
                w.released = self.next + 1;
            }
        }
        if let Some(k) = w.read_waker.take() {
            k.wake();
        }
        true
    }
    fn break_writer(&self, kind: u8) {
        let mut w = lock(&self.sh);
        w.fault = Fault::WriteErr(w.written.len(), kind);
    }
    fn outcome(&self) -> CaseResult {
        let mut cl = vec![if self.c.shaped { "shaped" } else { "plain" }];
        cl.push(match self.c.end {
            End::None => "both-to-the-end",
            End::DropReader => "reader-dropped",
            End::DropWriter => "writer-dropped",
            End::BreakReader(_) => "reader-failed",
            End::BreakWriter(_) => "writer-failed",
        });
        Ok(Outcome::new(self.waits > 0, cl))
    }
}
fn open(c: &HalfCase) -> Option<Shared> {
    let sh = wire_of(&c.conn)?;
    lock(&sh).strict = true;
    Some(sh)
}

// ------------------------------------------------------------------ two threads
/// Blocking transports that really wait.
#[derive(Default)]
struct Ctl {
    closed: AtomicBool,
    writer_waits: AtomicBool,
}
struct WaitR(Shared, Arc<Ctl>);
impl Read for WaitR {
    fn read(&mut self, buf: &mut [u8]) -> IoResult<usize> {
        loop {
            let mut n = 0;
            let want = buf.len();
            let step = lock(&self.0).read_step(want, &mut |d| {
                buf[..d.len()].copy_from_slice(d);
                n = d.len();
            });
            match step {
                ReadStep::Done => return Ok(n),
                ReadStep::Hiccup => return Err(Error::new(ErrorKind::Interrupted, "interrupted")),
                ReadStep::Err(k) => return Err(k),
                ReadStep::Block if self.1.closed.load(Ordering::SeqCst) => return Ok(0),
                ReadStep::Block => wait_real(Duration::from_micros(200)),
            }
        }
    }
}
struct WaitW(SyncW, Arc<Ctl>);
impl Write for WaitW {
    fn write(&mut self, buf: &[u8]) -> IoResult<usize> {
        while lock(&self.0 .0).stall {
            self.1.writer_waits.store(true, Ordering::SeqCst);
            wait_real(Duration::from_micros(100));
        }
        self.1.writer_waits.store(false, Ordering::SeqCst);
        self.0.write(buf)
    }
    fn flush(&mut self) -> IoResult<()> {
        self.0.flush()
    }
}
type Job<T> = Box<dyn FnOnce(&mut T) + Send>;
/// A thread that owns a half.
struct Owner<T>(Option<mpsc::Sender<Job<T>>>);
impl<T: Send + 'static> Owner<T> {
    fn new(mut half: T) -> Self {
        let (tx, rx) = mpsc::channel::<Job<T>>();
        std::thread::spawn(move || {
            while let Ok(j) = rx.recv() {
                j(&mut half);
            }
        });
        Owner(Some(tx))
    }
    fn start<O: Send + 'static>(&self, f: impl FnOnce(&mut T) -> O + Send + 'static) -> mpsc::Receiver<O> {
        let (tx, rx) = mpsc::channel();
        let _ = self.0.as_ref().expect("half is there").send(Box::new(move |t| {
            let _ = tx.send(f(t));
        }));
        rx
    }
}
/// Once one operation has been found to hang, the reductions of that case need not wait as long.
static HANGS: AtomicU64 = AtomicU64::new(0);
fn patience() -> u32 {
    if HANGS.load(Ordering::Relaxed) == 0 { 600 } else { 40 }
}
/// Waits for many wake-ups of this thread, so that a slow machine gets more time.
fn result<O>(rx: &mpsc::Receiver<O>, what: &str) -> Result<O, String> {
    for _ in 0..patience() {
        match rx.recv_timeout(Duration::from_millis(100)) {
            Ok(r) => return Ok(r),
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(mpsc::RecvTimeoutError::Disconnected) => return Err(format!("{what} panics")),
        }
    }
    HANGS.fetch_add(1, Ordering::Relaxed);
    Err(format!("{what} does not finish"))
}
fn until(what: &str, mut f: impl FnMut() -> bool) -> Result<(), String> {
    for _ in 0..patience() * 200 {
        if f() {
            return Ok(());
        }
        wait_real(Duration::from_micros(500));
    }
    HANGS.fetch_add(1, Ordering::Relaxed);
    Err(format!("{what} does not get to its transport"))
}
trait ReadHalf: Send + 'static {
    fn get(&mut self) -> Result<Payload, ProtocolError>;
}
trait WriteHalf: Send + 'static {
    fn put(&mut self, p: &Payload) -> Result<(), ProtocolError>;
}
impl ReadHalf for bip324::io::ProtocolReader<WaitR> {
    fn get(&mut self) -> Result<Payload, ProtocolError> {
        self.read()
    }
}
impl WriteHalf for bip324::io::ProtocolWriter<WaitW> {
    fn put(&mut self, p: &Payload) -> Result<(), ProtocolError> {
        self.write(p)
    }
}
impl ReadHalf for bip324_traffic::io::ShapedProtocolReader<WaitR> {
    fn get(&mut self) -> Result<Payload, ProtocolError> {
        self.read()
    }
}
impl WriteHalf for bip324_traffic::io::ShapedProtocolWriter<WaitW> {
    fn put(&mut self, p: &Payload) -> Result<(), ProtocolError> {
        self.write(p)
    }
}
fn half_sync_check(c: &HalfCase) -> CaseResult {
    let Some(sh) = open(c) else { return Ok(Outcome::default()) };
    let ctl = Arc::new(Ctl::default());
    let (r, w) = (WaitR(sh.clone(), ctl.clone()), WaitW(SyncW(sh.clone()), ctl.clone()));
    let role = role_of(c.conn.initiator);
    let res = if c.shaped {
        let p = bip324_traffic::io::ShapedProtocol::new(c.conn.magic, role, config(c.conn.cfg), r, w).map_err(|e| format!("handshake: {e:?}"))?;
        let (r, w) = p.into_split();
        two_threads(c, &sh, &ctl, r, w)
    } else {
        let p = bip324::io::Protocol::new(c.conn.magic, role, None, None, r, w).map_err(|e| format!("handshake: {e:?}"))?;
        let (r, w) = p.into_split();
        two_threads(c, &sh, &ctl, r, w)
    };
    ctl.closed.store(true, Ordering::SeqCst);
    lock(&sh).stall = false;
    let res = res?;
    background_panics()?;
    Ok(res)
}
fn two_threads<R: ReadHalf, W: WriteHalf>(c: &HalfCase, sh: &Shared, ctl: &Ctl, r: R, w: W) -> CaseResult {
    let (mut r, mut w) = (Owner::new(Some(r)), Owner::new(Some(w)));
    let read = |r: &Owner<Option<R>>| r.start(|x| x.as_mut().unwrap().get());
    let write = |w: &Owner<Option<W>>, d: bool, m: &[u8]| {
        let p = payload(d, m);
        w.start(move |x| x.as_mut().unwrap().put(&p))
    };
    let mut l = Ledger { c, sh: sh.clone(), view: View::default(), sent: vec![], next: 0, waits: 0 };
    for op in &c.ops {
        match op {
            HalfOp::Exchange(ms) => {
                if !l.more() {
                    continue;
                }
                lock(sh).blocked = false;
                let answer = read(&r);
                until("a read", || lock(sh).blocked)?;
                for (d, b) in ms {
                    let m = b.get();
                    let x = result(&write(&w, *d, &m), "a write while a read waits for the peer")?;
                    l.wrote(*d, m, x, " while a read waits")?;
                }
                ensure!(answer.try_recv().is_err(), "a read returns although the peer sent nothing");
                l.release(1);
                let x = result(&answer, "a read after writes")?;
                l.got(x, "")?;
                l.waits += 1;
            }
            HalfOp::Stalled(d, b, n) => {
                ctl.writer_waits.store(false, Ordering::SeqCst);
                lock(sh).stall = true;
                let m = b.get();
                let done = write(&w, *d, &m);
                until("a write", || ctl.writer_waits.load(Ordering::SeqCst))?;
                for _ in 0..*n {
                    if l.more() {
                        l.release(1);
                        let x = result(&read(&r), "a read while a write waits for the transport")?;
                        l.got(x, " while a write waits")?;
                        l.waits += 1;
                    }
                }
                lock(sh).stall = false;
                let x = result(&done, "a write")?;
                l.wrote(*d, m, x, "")?;
            }
            HalfOp::Pause(n) => std::thread::sleep(Duration::from_millis(*n as u64)),
        }
    }
    let mut reader = true;
    let mut writer = true;
    match c.end {
        End::None => {}
        End::DropReader => {
            result(&r.start(|x| drop(x.take())), "dropping the reader")?;
            reader = false;
        }
        End::DropWriter => {
            result(&w.start(|x| drop(x.take())), "dropping the writer")?;
            writer = false;
        }
        End::BreakReader(how) => {
            if l.break_reader(how) {
                let x = result(&read(&r), "a failing read")?;
                ensure!(x.is_err(), "a read succeeds although the transport failed");
                reader = false;
            }
        }
        End::BreakWriter(kind) => {
            l.break_writer(kind);
            let x = result(&write(&w, false, &[1; 30]), "a failing write")?;
            ensure!(x.is_err(), "a write succeeds although the transport failed");
            writer = false;
        }
    }
    if c.end == End::None || !reader {
        for (d, b) in &c.last {
            let m = b.get();
            let x = result(&write(&w, *d, &m), "a write after the reader is gone")?;
            l.wrote(*d, m, x, " after the reader is gone")?;
        }
    }
    if c.end == End::None || !writer {
        while l.more() {
            l.release(1);
            let x = result(&read(&r), "a read after the writer is gone")?;
            l.got(x, " after the writer is gone")?;
        }
    }
    ctl.closed.store(true, Ordering::SeqCst);
    let gone = (r.start(|x| drop(x.take())), w.start(|x| drop(x.take())));
    result(&gone.0, "dropping the reader")?;
    result(&gone.1, "dropping the writer")?;
    (r.0, w.0) = (None, None);
    l.outcome()
}

// ------------------------------------------------------------------ one thread, virtual time
enum AHalves {
    Plain(Option<bip324::futures::ProtocolReader<AsyncR>>, Option<bip324::futures::ProtocolWriter<AsyncW>>),
    Shaped(Option<AR>, Option<AW>),
}
macro_rules! with {
    ($h:expr, $r:ident, $w:ident, $e:expr) => {
        match $h {
            AHalves::Plain($r, $w) => $e,
            AHalves::Shaped($r, $w) => $e,
        }
    };
}
fn half_async_check(c: &HalfCase) -> CaseResult {
    let Some(sh) = open(c) else { return Ok(Outcome::default()) };
    virtual_time(async {
        let (r, w, role) = (AsyncR(sh.clone()), AsyncW(sh.clone()), role_of(c.conn.initiator));
        let mut h = if c.shaped {
            let p = within("the handshake", AP::new(c.conn.magic, role, config(c.conn.cfg), r, w)).await?.map_err(|e| format!("handshake: {e:?}"))?;
            let (r, w) = p.into_split();
            AHalves::Shaped(Some(r), Some(w))
        } else {
            let p = within("the handshake", bip324::futures::Protocol::new(c.conn.magic, role, None, None, r, w)).await?.map_err(|e| format!("handshake: {e:?}"))?;
            let (r, w) = p.into_split();
            AHalves::Plain(Some(r), Some(w))
        };
        let mut l = Ledger { c, sh: sh.clone(), view: View::default(), sent: vec![], next: 0, waits: 0 };
        with!(&mut h, r, w, {
            for op in &c.ops {
                match op {
                    HalfOp::Exchange(ms) => {
                        if !l.more() {
                            continue;
                        }
                        lock(&sh).blocked = false;
                        let mut answer = pin!(r.as_mut().unwrap().read());
                        for _ in 0..10_000 {
                            ensure!(poll_once(answer.as_mut()).await.is_none(), "a read returns although the peer sent nothing");
                            if lock(&sh).blocked {
                                break;
                            }
                            tokio::task::yield_now().await;
                        }
                        for (d, b) in ms {
                            let m = b.get();
                            let x = within("a write while a read waits for the peer", w.as_mut().unwrap().write(&payload(*d, &m))).await?;
                            l.wrote(*d, m, x, " while a read waits")?;
                        }
                        l.release(1);
                        let x = within("a read after writes", answer).await?;
                        l.got(x, "")?;
                        l.waits += 1;
                    }
                    HalfOp::Stalled(d, b, n) => {
                        lock(&sh).stall = true;
                        let m = b.get();
                        let pl = payload(*d, &m);
                        let mut f = pin!(w.as_mut().unwrap().write(&pl));
                        for _ in 0..4 {
                            ensure!(poll_once(f.as_mut()).await.is_none(), "a write finishes although the transport takes nothing");
                            tokio::task::yield_now().await;
                        }
                        for _ in 0..*n {
                            if l.more() {
                                l.release(1);
                                let x = within("a read while a write waits for the transport", r.as_mut().unwrap().read()).await?;
                                l.got(x, " while a write waits")?;
                                l.waits += 1;
                            }
                        }
                        resume(&sh);
                        let x = within("a write", f).await?;
                        l.wrote(*d, m, x, "")?;
                    }
                    HalfOp::Pause(n) => ms(*n as u64).await,
                }
            }
            let (mut reader, mut writer) = (true, true);
            match c.end {
                End::None => {}
                End::DropReader => {
                    *r = None;
                    reader = false;
                }
                End::DropWriter => {
                    *w = None;
                    writer = false;
                }
                End::BreakReader(how) => {
                    if l.break_reader(how) {
                        let x = within("a failing read", r.as_mut().unwrap().read()).await?;
                        ensure!(x.is_err(), "a read succeeds although the transport failed");
                        reader = false;
                    }
                }
                End::BreakWriter(kind) => {
                    l.break_writer(kind);
                    let x = within("a failing write", w.as_mut().unwrap().write(&payload(false, &[1; 30]))).await?;
                    ensure!(x.is_err(), "a write succeeds although the transport failed");
                    writer = false;
                }
            }
            if c.end == End::None || !reader {
                for (d, b) in &c.last {
                    let m = b.get();
                    let x = within("a write after the reader is gone", w.as_mut().unwrap().write(&payload(*d, &m))).await?;
                    l.wrote(*d, m, x, " after the reader is gone")?;
                }
            }
            if c.end == End::None || !writer {
                while l.more() {
                    l.release(1);
                    let x = within("a read after the writer is gone", r.as_mut().unwrap().read()).await?;
                    l.got(x, " after the writer is gone")?;
                }
            }
        });
        drop(h);
        l.outcome()
    })
}
pub fn property() -> Property {
    Property {
        id: "C25",
        level: "exploration",
        rule: "at least one operation finished while the other half was waiting",
        assumptions: &["blocking: thread schedules are those the operating system produces; an operation that does not finish within 600 wake-ups of 0.1 s hangs"],
        families: vec![family("threads", 4_000, 200_000, half_sync, half_sync_check).racy(), family("async", 16_000, 800_000, half_async, half_async_check).racy()],
    }
}
