//! C27: memory does not grow with what a connection has carried, nor with past connections.
use super::*;
use crate::alloc;
use crate::runner::spin;
use bip324::{Error as CoreError, PacketType};
use std::io::{ErrorKind, Read, Result as IoResult, Write};
use std::task::Context;
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

/// Memory held at moments each of which has seen twice the work of the one before.
struct Growth {
    at: [i64; 5],
    n: usize,
}
impl Growth {
    fn new() -> Self {
        Growth { at: [0; 5], n: 0 }
    }
    fn note(&mut self, held: i64) {
        self.at[self.n] = held;
        self.n += 1;
    }
    /// What grows with the work grows each time; a buffer that reaches its size does not.
    fn verdict(&self, what: &str) -> Result<(), String> {
        let d: Vec<i64> = (1..5).map(|i| self.at[i] - self.at[i - 1]).collect();
        let grows = d[1..].iter().all(|x| *x > 0) && d[2] + d[3] > 2048;
        ensure!(!grows, "the memory held grows with {what}: by {d:?} bytes each time their number doubles");
        Ok(())
    }
}

// ------------------------------------------------------------------ a connection's traffic
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MemOp {
    /// Header and size.
    Read(u8, u16),
    Write(bool, u16),
    /// A read given up after so many polls, then done.
    CancelledRead(u8, u16, u8),
    /// By hand: a forged packet is refused, then the genuine one accepted. Header, size, entry point.
    Forged(u8, u16, u8),
    /// By hand: refused for want of room, then done.
    NoRoom(bool, u16),
    /// By hand: copies of the ciphers are made and dropped.
    Copies,
    /// Nothing happens for so many tenths of a second.
    Pause(u16),
    /// Statistics are looked at.
    Stats,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MemCase {
    /// 0 ciphers by hand, 1 blocking, 2 async, 3 shaped async
    kind: u8,
    conn: Conn,
    round: Vec<MemOp>,
    /// So many packets behind the one that is read have arrived too.
    #[serde(default)]
    ahead: u8,
}
fn mem_strategy(_: Tier) -> BoxedStrategy<MemCase> {
    let h = || prop_oneof![3 => Just(0u8), 2 => Just(0x80u8), 1 => any::<u8>()];
    let len = || prop_oneof![6 => 0u16..40, 2 => 0u16..300, 1 => 0u16..3000];
    let op = prop_oneof![
        6 => (h(), len()).prop_map(|(h, n)| MemOp::Read(h, n)),
        6 => (proptest::bool::weighted(0.3), len()).prop_map(|(d, n)| MemOp::Write(d, n)),
        3 => (h(), len(), 0u8..6).prop_map(|(h, n, p)| MemOp::CancelledRead(h, n, p)),
        2 => (h(), len(), 0u8..4).prop_map(|(h, n, a)| MemOp::Forged(h, n, a)),
        2 => (any::<bool>(), len()).prop_map(|(d, n)| MemOp::NoRoom(d, n)),
        1 => Just(MemOp::Copies),
        1 => (0u16..80).prop_map(MemOp::Pause),
        1 => Just(MemOp::Stats),
    ];
    let ahead = prop_oneof![2 => Just(0u8), 1 => 1u8..4, 1 => 4u8..12];
    (0u8..4, conn(Just(false)), proptest::collection::vec(op, 1..8), ahead)
        .prop_map(|(kind, mut conn, round, ahead)| {
            conn.asyn = kind >= 2;
            conn.remote.session = vec![];
            MemCase { kind, conn, round, ahead }
        })
        .boxed()
}
/// After the handshake, the remote's bytes come from here; the local side's are thrown away.
#[derive(Default)]
struct Stream {
    open: bool,
    buf: Vec<u8>,
    pos: usize,
    calls: usize,
}
type Pipe = Arc<Mutex<Stream>>;
fn pipe(p: &Pipe) -> MutexGuard<'_, Stream> {
    p.lock().unwrap_or_else(|e| e.into_inner())
}
struct From1<T>(T, Pipe, Shared);
enum Got {
    Handshake,
    Hiccup,
    Nothing,
    Some(usize),
}
impl<T> From1<T> {
    fn serve(&self, out: &mut dyn FnMut(&[u8]), want: usize) -> Got {
        let mut p = pipe(&self.1);
        if !p.open {
            return Got::Handshake;
        }
        p.calls += 1;
        match lock(&self.2).rsched.at(p.calls) {
            Step::Hiccup => Got::Hiccup,
            Step::N(n) => {
                let n = want.min(n.max(1) as usize).min(p.buf.len() - p.pos);
                if n == 0 && want > 0 {
                    return Got::Nothing;
                }
                out(&p.buf[p.pos..p.pos + n]);
                p.pos += n;
                Got::Some(n)
            }
        }
    }
}
impl Read for From1<SyncR> {
    fn read(&mut self, buf: &mut [u8]) -> IoResult<usize> {
        let want = buf.len();
        match self.serve(&mut |d| buf[..d.len()].copy_from_slice(d), want) {
            Got::Handshake => self.0.read(buf),
            Got::Hiccup => Err(ErrorKind::Interrupted.into()),
            Got::Nothing => spin("more is read than the packet that was sent"),
            Got::Some(n) => Ok(n),
        }
    }
}
impl AsyncRead for From1<AsyncR> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<IoResult<()>> {
        let want = buf.remaining();
        match self.serve(&mut |d| buf.put_slice(d), want) {
            Got::Handshake => Pin::new(&mut self.0).poll_read(cx, buf),
            Got::Hiccup => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            // Whoever reads ahead finds nothing; whoever waits for it never gets it.
            Got::Nothing => Poll::Pending,
            Got::Some(_) => Poll::Ready(Ok(())),
        }
    }
}
struct Into1<T>(T, Pipe);
impl Write for Into1<SyncW> {
    fn write(&mut self, buf: &[u8]) -> IoResult<usize> {
        if pipe(&self.1).open { Ok(buf.len()) } else { self.0.write(buf) }
    }
    fn flush(&mut self) -> IoResult<()> {
        if pipe(&self.1).open { Ok(()) } else { self.0.flush() }
    }
}
impl AsyncWrite for Into1<AsyncW> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<IoResult<usize>> {
        if pipe(&self.1).open { Poll::Ready(Ok(buf.len())) } else { Pin::new(&mut self.0).poll_write(cx, buf) }
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<IoResult<()>> {
        if pipe(&self.1).open { Poll::Ready(Ok(())) } else { Pin::new(&mut self.0).poll_flush(cx) }
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<IoResult<()>> {
        Poll::Ready(Ok(()))
    }
}
enum End {
    Hand(bip324::InboundCipher, bip324::OutboundCipher),
    S(bip324::io::Protocol<From1<SyncR>, Into1<SyncW>>),
    SS(bip324::io::ProtocolReader<From1<SyncR>>, bip324::io::ProtocolWriter<Into1<SyncW>>),
    A(bip324::futures::Protocol<From1<AsyncR>, Into1<AsyncW>>),
    AS(bip324::futures::ProtocolReader<From1<AsyncR>>, bip324::futures::ProtocolWriter<Into1<AsyncW>>),
    T(bip324_traffic::futures::ShapedProtocol<From1<AsyncR>>),
    TS(bip324_traffic::futures::ShapedProtocolReader<From1<AsyncR>>, AW),
}
impl End {
    async fn read(&mut self) -> Result<Payload, ProtocolError> {
        match self {
            End::Hand(..) => unreachable!(),
            End::S(p) => p.read(),
            End::SS(p, _) => p.read(),
            End::A(p) => p.read().await,
            End::AS(p, _) => p.read().await,
            End::T(p) => p.read().await,
            End::TS(p, _) => p.read().await,
        }
    }
    async fn write(&mut self, m: &Payload) -> Result<(), ProtocolError> {
        match self {
            End::Hand(..) => unreachable!(),
            End::S(p) => p.write(m),
            End::SS(_, p) => p.write(m),
            End::A(p) => p.write(m).await,
            End::AS(_, p) => p.write(m).await,
            End::T(p) => p.write(m).await,
            End::TS(_, p) => p.write(m).await,
        }
    }
}
fn hand(i: &mut bip324::InboundCipher, o: &mut bip324::OutboundCipher, tx: &mut Dir, op: &MemOp, body: &[u8]) -> Result<(), String> {
    let kind = |d: bool| if d { PacketType::Decoy } else { PacketType::Genuine };
    let open = |i: &mut bip324::InboundCipher, x: &[u8], api: u8| -> Result<(), CoreError> {
        match api {
            0 => i.decrypt_to_vec(x, None).map(drop),
            1 => i.decrypt_in_place(&mut x.to_vec(), None).map(drop),
            _ => i.decrypt(x, &mut vec![0; x.len()], None).map(drop),
        }
    };
    let bad = |what: &'static str| move |e: CoreError| format!("{what}: {e:?}");
    match op {
        MemOp::Read(h, n) | MemOp::CancelledRead(h, n, _) => {
            let p = tx.seal(*h, &body[..*n as usize], &[]);
            i.decrypt_packet_len(p[..3].try_into().unwrap());
            open(i, &p[3..], (n % 3) as u8).map_err(bad("decrypt"))?;
        }
        MemOp::Write(d, n) if n % 2 == 0 => drop(o.encrypt_to_vec(&body[..*n as usize], kind(*d), None)),
        MemOp::Write(d, n) => o.encrypt(&body[..*n as usize], &mut vec![0; *n as usize + 20], kind(*d), None).map_err(bad("encrypt"))?,
        MemOp::Forged(h, n, api) => {
            let mut p = tx.seal(*h, &body[..*n as usize], &[]);
            i.decrypt_packet_len(p[..3].try_into().unwrap());
            p[5] ^= 1;
            ensure!(open(i, &p[3..], *api).is_err(), "a forged packet is accepted");
            p[5] ^= 1;
            open(i, &p[3..], *api).map_err(bad("decrypt after a forgery"))?;
        }
        MemOp::NoRoom(d, n) => {
            let m = &body[..*n as usize];
            let mut b = vec![0; m.len() + 20];
            let short = b.len() - 1;
            ensure!(o.encrypt(m, &mut b[..short], kind(*d), None).is_err(), "encrypts into too short a buffer");
            o.encrypt(m, &mut b, kind(*d), None).map_err(bad("encrypt"))?;
        }
        MemOp::Copies => drop((i.clone(), o.clone())),
        MemOp::Pause(_) | MemOp::Stats => {}
    }
    Ok(())
}
fn mem_check(c: &MemCase) -> CaseResult {
    virtual_time(async {
        let Some(sh) = wire_of(&c.conn) else { return Ok(Outcome::default()) };
        let (role, magic) = (role_of(c.conn.initiator), c.conn.magic);
        let p: Pipe = Pipe::default();
        let e = |e: ProtocolError| format!("the handshake with a conforming peer fails: {e:?}");
        let sr = || From1(SyncR(sh.clone()), p.clone(), sh.clone());
        let sw = || Into1(SyncW(sh.clone()), p.clone());
        let ar = || From1(AsyncR(sh.clone()), p.clone(), sh.clone());
        let aw = || Into1(AsyncW(sh.clone()), p.clone());
        let mut tx;
        let mut end = match c.kind {
            0 => {
                let (s, peer) = establish(7, c.conn.remote.rseed, c.conn.initiator, magic)?;
                tx = Some(peer.tx);
                let (i, o) = s.into_split();
                End::Hand(i, o)
            }
            1 => {
                tx = None;
                let x = bip324::io::Protocol::new(magic, role, None, None, sr(), sw()).map_err(e)?;
                if c.conn.split {
                    let (r, w) = x.into_split();
                    End::SS(r, w)
                } else {
                    End::S(x)
                }
            }
            2 => {
                tx = None;
                let x = bip324::futures::Protocol::new(magic, role, None, None, ar(), aw()).await.map_err(e)?;
                if c.conn.split {
                    let (r, w) = x.into_split();
                    End::AS(r, w)
                } else {
                    End::A(x)
                }
            }
            _ => {
                tx = None;
                let x = bip324_traffic::futures::ShapedProtocol::new(magic, role, config(c.conn.cfg), ar(), aw()).await.map_err(e)?;
                if c.conn.split {
                    let (r, w) = x.into_split();
                    End::TS(r, w)
                } else {
                    End::T(x)
                }
            }
        };
        let mut tx = match tx.take() {
            Some(t) => t,
            None => lock(&sh).known.as_ref().unwrap().tx.clone(),
        };
        pipe(&p).open = true;
        let body = prng_bytes(3, 3000);
        let weight = c.round.len().max(1) + 20 * c.round.iter().filter(|o| matches!(o, MemOp::Pause(_))).count();
        let base = (320 / weight).max(12);
        let reads: Vec<(u8, u16)> = c.round.iter().filter_map(|o| match o {
            MemOp::Read(h, n) | MemOp::CancelledRead(h, n, _) | MemOp::Forged(h, n, _) => Some((*h, *n)),
            _ => None,
        }).collect();
        let (mut sealed, mut read) = (0, 0);
        let mut growth = Growth::new();
        for stage in 0..5 {
            let rounds = if stage == 0 { base } else { base << (stage - 1) };
            for _ in 0..rounds {
                for op in &c.round {
                    if let End::Hand(i, o) = &mut end {
                        hand(i, o, &mut tx, op, &body)?;
                        continue;
                    }
                    match op {
                        MemOp::Read(_, n) | MemOp::CancelledRead(_, n, _) | MemOp::Forged(_, n, _) => {
                            {
                                let mut s = pipe(&p);
                                let done = s.pos;
                                s.buf.drain(..done);
                                s.pos = 0;
                                while sealed <= read + c.ahead as usize {
                                    let (h, n) = reads[sealed % reads.len()];
                                    let x = tx.seal(h, &body[..n as usize], &[]);
                                    s.buf.extend_from_slice(&x);
                                    sealed += 1;
                                }
                                read += 1;
                            }
                            if let MemOp::CancelledRead(_, _, polls) = op {
                                if c.kind >= 2 {
                                    let mut f = pin!(end.read());
                                    let mut done = false;
                                    for _ in 0..=*polls {
                                        if let Some(r) = poll_once(f.as_mut()).await {
                                            r.map_err(|e| format!("read: {e:?}"))?;
                                            done = true;
                                            break;
                                        }
                                    }
                                    if done {
                                        continue;
                                    }
                                }
                            }
                            let m = within("a read of a packet that is there", end.read()).await?.map_err(|e| format!("read: {e:?}"))?;
                            ensure!(m.contents().len() == *n as usize, "{} bytes delivered of {n}", m.contents().len());
                        }
                        MemOp::Write(d, n) | MemOp::NoRoom(d, n) => {
                            end.write(&payload(*d, &body[..*n as usize])).await.map_err(|e| format!("write: {e:?}"))?;
                        }
                        MemOp::Pause(n) => {
                            if c.kind == 3 {
                                ms(100 * *n as u64).await;
                            }
                        }
                        MemOp::Stats => {}
                        MemOp::Copies => {}
                    }
                }
            }
            growth.note(alloc::held());
        }
        growth.verdict("the packets a connection has carried")?;
        let carries = c.round.iter().any(|o| !matches!(o, MemOp::Pause(_) | MemOp::Stats | MemOp::Copies));
        Ok(Outcome::new(carries, vec![["by-hand", "blocking", "async", "shaped-async"][c.kind as usize % 4]]))
    })
}

// ------------------------------------------------------------------ past connections
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Finish {
    /// Everything is read and written.
    Whole,
    /// Nothing more is done after the handshake.
    AtOnce,
    /// The end of the stream at this part of the remote's bytes.
    Cut(u16),
    /// An error of the transport after so many bytes were written.
    NoWrite(u16),
    /// A byte of the remote is changed.
    Forged(u16),
    /// Async: the handshake is given up after so many polls.
    GiveUp(u8),
    /// Async: a write or read is given up after so many polls.
    GiveUpLater(bool, u8),
    TakenApart,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PastCase {
    /// 1 blocking, 2 async, 3 shaped async
    kind: u8,
    conn: Conn,
    garbage: Option<Blob>,
    decoys: Option<Vec<Blob>>,
    writes: Vec<(bool, Blob)>,
    finish: Finish,
    reader_first: bool,
}
fn past_strategy(_: Tier) -> BoxedStrategy<PastCase> {
    let finish = prop_oneof![
        Just(Finish::Whole), Just(Finish::AtOnce), any::<u16>().prop_map(Finish::Cut), any::<u16>().prop_map(Finish::NoWrite), any::<u16>().prop_map(Finish::Forged),
        (0u8..9).prop_map(Finish::GiveUp), (any::<bool>(), 0u8..4).prop_map(|(r, n)| Finish::GiveUpLater(r, n)), Just(Finish::TakenApart)
    ];
    let small = || prop_oneof![3 => blob(40), 1 => blob(600)];
    let hs = (small(), proptest::collection::vec((Just(0x80u8), small()), 0..3)).prop_map(|(garbage, decoys)| PeerHs { garbage, decoys, version_header: 0, version: Blob::empty() });
    let packets = proptest::collection::vec((any::<u8>(), small()), 0..4);
    (1u8..4, conn(Just(false)), (hs, packets), proptest::option::of(small()), proptest::option::of(proptest::collection::vec(small(), 0..3)), proptest::collection::vec((any::<bool>(), small()), 0..4), finish, any::<bool>())
        .prop_map(|(kind, mut conn, (hs, packets), garbage, decoys, writes, finish, reader_first)| {
            conn.asyn = kind >= 2;
            conn.remote.hs = hs;
            conn.remote.session = packets;
            PastCase { kind, conn, garbage, decoys, writes, finish, reader_first }
        })
        .boxed()
}
fn flip(stream: &mut Vec<u8>, k: &Known, arg: &serde_json::Value) {
    // Behind the garbage: its search takes nothing else for a terminator.
    let from = k.marks[2];
    let n = stream.len();
    stream[from + arg.as_u64().unwrap_or(0) as usize % (n - from)] ^= 4;
}
/// Any error, at any time, is one of the ways to end.
async fn one_life(c: &PastCase, n: u32) -> Option<()> {
    let mut conn = c.conn.clone();
    conn.remote.rseed = n;
    let sh = wire_of(&conn)?;
    {
        let mut w = lock(&sh);
        w.eof_at_end = true;
        if c.kind != 3 {
            w.local.garbage = c.garbage.clone();
            w.local.decoys = c.decoys.clone();
        }
        let all = 64 + c.conn.remote.hs.garbage.len() + 36;
        match c.finish {
            Finish::Cut(at) => w.fault = Fault::Eof(at as usize % (all + 60)),
            Finish::NoWrite(at) => w.fault = Fault::WriteErr(at as usize % (w.local_hs_len() + 60), 0),
            Finish::Forged(at) => {
                w.mutate = Some(flip);
                w.mutate_arg = serde_json::json!(at);
            }
            _ => {}
        }
    }
    let role = role_of(conn.initiator);
    let (g, d) = (c.garbage.as_ref().map(|g| g.get()), c.decoys.as_ref().map(|d| d.iter().map(|b| b.get()).collect::<Vec<_>>()));
    let (r, w) = (AsyncR(sh.clone()), AsyncW(sh.clone()));
    let writes = c.writes.iter().map(|(d, b)| payload(*d, &b.get()));
    if c.kind == 1 {
        let mut p = bip324::io::Protocol::new(conn.magic, role, g, d, SyncR(sh.clone()), SyncW(sh.clone())).ok()?;
        if c.finish == Finish::AtOnce {
            return None;
        }
        for m in writes {
            p.write(&m).ok()?;
        }
        for _ in 0..conn.remote.session.len() {
            p.read().ok()?;
        }
        if c.finish == Finish::TakenApart {
            let (r, w) = p.into_split();
            let (a, b) = (r.into_inner(), w.into_inner());
            if c.reader_first {
                drop(a);
                drop(b);
            }
        }
        return Some(());
    }
    // The same for both async kinds.
    let open = async {
        Some(if c.kind == 2 {
            End2::A(bip324::futures::Protocol::new(conn.magic, role, g, d, r, w).await.ok()?)
        } else {
            End2::T(AP::new(conn.magic, role, config(conn.cfg), r, w).await.ok()?)
        })
    };
    let mut p = {
        let mut open = pin!(open);
        if let Finish::GiveUp(n) = c.finish {
            let mut r = None;
            for _ in 0..=n {
                r = poll_once(open.as_mut()).await;
                if r.is_some() {
                    break;
                }
            }
            r??
        } else {
            open.await?
        }
    };
    if c.finish == Finish::AtOnce {
        return None;
    }
    for m in writes {
        if let Finish::GiveUpLater(false, n) = c.finish {
            let mut f = pin!(p.write(&m));
            for _ in 0..=n {
                if poll_once(f.as_mut()).await.is_some() {
                    break;
                }
            }
            continue;
        }
        p.write(&m).await?;
    }
    for _ in 0..conn.remote.session.len() {
        if let Finish::GiveUpLater(true, n) = c.finish {
            let mut f = pin!(p.read());
            for _ in 0..=n {
                if poll_once(f.as_mut()).await.is_some() {
                    break;
                }
            }
            continue;
        }
        p.read().await?;
    }
    match p {
        End2::A(p) if c.finish == Finish::TakenApart => {
            let (r, w) = p.into_split();
            drop((r.into_inner(), w.into_inner()));
        }
        End2::T(p) if conn.split => {
            let (r, w) = p.into_split();
            if c.reader_first {
                drop(r);
                ms(300).await;
                drop(w);
            } else {
                drop(w);
                ms(300).await;
                drop(r);
            }
        }
        _ => {}
    }
    Some(())
}
enum End2 {
    A(bip324::futures::Protocol<AsyncR, AsyncW>),
    T(AP),
}
impl End2 {
    async fn read(&mut self) -> Option<()> {
        match self {
            End2::A(p) => p.read().await.ok().map(drop),
            End2::T(p) => p.read().await.ok().map(drop),
        }
    }
    async fn write(&mut self, m: &Payload) -> Option<()> {
        match self {
            End2::A(p) => p.write(m).await.ok(),
            End2::T(p) => p.write(m).await.ok(),
        }
    }
}
fn past_check(c: &PastCase) -> CaseResult {
    virtual_time(async {
        let mut growth = Growth::new();
        let (mut n, mut whole) = (0, 0);
        for stage in 0..5 {
            for _ in 0..if stage == 0 { 16 } else { 16 << (stage - 1) } {
                n += 1;
                whole += u32::from(one_life(c, n).await.is_some());
            }
            // Background tasks end.
            ms(600_000).await;
            growth.note(alloc::held());
        }
        growth.verdict("the connections a program has had")?;
        let cl = vec![
            ["?", "blocking", "async", "shaped-async"][c.kind as usize % 4],
            match c.finish {
                Finish::Whole => "whole",
                Finish::AtOnce => "after-the-handshake",
                Finish::Cut(_) => "end-of-stream",
                Finish::NoWrite(_) => "write-error",
                Finish::Forged(_) => "forged",
                Finish::GiveUp(_) => "handshake-given-up",
                Finish::GiveUpLater(..) => "operation-given-up",
                Finish::TakenApart => "taken-apart",
            },
            if whole > 0 { "completed" } else { "cut-short" },
        ];
        Ok(Outcome::new(true, cl))
    })
}

// ------------------------------------------------------------------ handshakes with many decoys
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ManyDecoys {
    asyn: bool,
    initiator: bool,
    size: u16,
    rsched: Sched,
    base: u16,
    shaped: bool,
}
fn decoys_strategy(_: Tier) -> BoxedStrategy<ManyDecoys> {
    (any::<bool>(), any::<bool>(), prop_oneof![2 => 0u16..40, 1 => 0u16..600], sched(), 100u16..300, any::<bool>())
        .prop_map(|(asyn, initiator, size, rsched, base, shaped)| ManyDecoys { asyn, initiator, size, rsched, base, shaped })
        .boxed()
}
fn decoys_check(c: &ManyDecoys) -> CaseResult {
    virtual_time(async {
        alloc::leave_out_ours();
        let mut growth = Growth::new();
        for stage in 0..5 {
            // Within the fuel of a transport that moves single bytes.
            let n = (if c.size > 60 { c.base as usize / 8 } else { c.base as usize }) << stage;
            let decoys = (0..n).map(|k| (0x80, Blob::R(c.size as u32, k as u32))).collect();
            let hs = PeerHs { garbage: Blob::R(20, 1), decoys, version_header: 0, version: Blob::empty() };
            let remote = Remote { rseed: 5, hs, session: vec![] };
            let conn = Conn { asyn: c.asyn, cfg: 3, initiator: c.initiator, magic: [0xF9, 0xBE, 0xB4, 0xD9], remote, rsched: c.rsched.clone(), wsched: Sched(vec![]), split: false };
            let sh = wire_of(&conn).unwrap();
            let (role, s) = (role_of(c.initiator), sh.clone());
            let e = |e: ProtocolError| format!("the handshake with a conforming peer fails: {e:?}");
            let (r, peak) = match (c.asyn, c.shaped) {
                (false, false) => alloc::peak_of(|| bip324::io::Protocol::new(conn.magic, role, None, None, SyncR(s.clone()), SyncW(s)).map(drop)),
                (false, true) => alloc::peak_of(|| SP::new(conn.magic, role, TrafficConfig::new(), SyncR(s.clone()), SyncW(s)).map(drop)),
                (true, false) => alloc::peak_of(|| run(bip324::futures::Protocol::new(conn.magic, role, None, None, AsyncR(s.clone()), AsyncW(s)), &sh).map(drop)),
                (true, true) => alloc::peak_of(|| run(AP::new(conn.magic, role, TrafficConfig::new(), AsyncR(s.clone()), AsyncW(s)), &sh).map(drop)),
            };
            r.map_err(e)?;
            growth.note(peak as i64);
        }
        growth.verdict("the decoys of a handshake")?;
        Ok(Outcome::new(true, vec![if c.asyn { "async" } else { "blocking" }, if c.shaped { "shaped" } else { "plain" }]))
    })
}

// ------------------------------------------------------------------ a peer that does not take anything
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Silent {
    conn: Conn,
    /// Seconds.
    base: u16,
    /// A write waits meanwhile.
    waiting: Option<Blob>,
}
fn silent_strategy(_: Tier) -> BoxedStrategy<Silent> {
    (conn(Just(true)), 20u16..200, proptest::option::of(blob(300)))
        .prop_map(|(mut conn, base, waiting)| {
            conn.remote.session = vec![];
            Silent { conn, base, waiting }
        })
        .boxed()
}
fn silent_check(c: &Silent) -> CaseResult {
    virtual_time(async {
        let Some(sh) = wire_of(&c.conn) else { return Ok(Outcome::default()) };
        let mut p = Polled2::open(&c.conn, &sh).await.map_err(|e| format!("handshake with a conforming peer: {e:?}"))?;
        lock(&sh).stall = true;
        let before = lock(&sh).written.len();
        let m = c.waiting.as_ref().map(|b| payload(false, &b.get()));
        let mut growth = Growth::new();
        {
            let mut w = pin!(async {
                match &m {
                    Some(m) => p.write(m).await,
                    None => std::future::pending().await,
                }
            });
            for stage in 0..5 {
                let s = (c.base as u64) << stage;
                if poll_once(w.as_mut()).await.is_some() {
                    return Err("a write ends although the transport takes nothing".into());
                }
                ms(1000 * s).await;
                growth.note(alloc::held());
            }
        }
        ensure!(lock(&sh).written.len() == before, "HARNESS:the transport is not stalled");
        growth.verdict("the time the transport takes nothing")?;
        resume(&sh);
        drop(p);
        ms(1000).await;
        let cl = vec![if decoys(c.conn.cfg) { "decoys" } else { "no-decoys" }];
        Ok(Outcome::new(decoys(c.conn.cfg) || c.waiting.is_some(), cl))
    })
}

// ------------------------------------------------------------------ blocking with its thread
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ThreadMem {
    cfg: u8,
    base: u16,
}
fn thread_list(t: Tier) -> Vec<ThreadMem> {
    // One case only: nothing else may use memory while it runs.
    vec![ThreadMem { cfg: 3, base: if t == Tier::Quick { 12 } else { 200 } }]
}
/// Memory held once the other threads have come to rest.
fn settled(limit: i64) -> i64 {
    let mut least = i64::MAX;
    for _ in 0..100 {
        least = least.min(alloc::held_everywhere());
        if least <= limit {
            break;
        }
        wait_real(Duration::from_millis(20));
    }
    least
}
fn thread_check(c: &ThreadMem) -> CaseResult {
    let one = |n: u32, messages: u32, split: bool, pause: u64| -> Result<(), String> {
        let remote = Remote { rseed: n, hs: PeerHs::plain(), session: vec![(0, Blob::R(40, n)), (0x80, Blob::R(4, n))] };
        let conn = Conn { asyn: false, cfg: c.cfg, initiator: n % 2 == 0, magic: [0xF9, 0xBE, 0xB4, 0xD9], remote, rsched: Sched(vec![]), wsched: Sched(vec![]), split };
        let Some(sh) = wire_of(&conn) else { return Ok(()) };
        let mut p = Blocking::open(&conn, &sh).map_err(|e| format!("handshake with a conforming peer: {e:?}"))?;
        for _ in 0..2 {
            p.read().map_err(|e| format!("read: {e:?}"))?;
        }
        for k in 0..messages {
            p.write(&payload(k % 3 == 0, &[k as u8; 30])).map_err(|e| format!("write: {e:?}"))?;
            lock(&sh).written.clear();
            lock(&sh).flushed = 0;
        }
        if pause > 0 {
            std::thread::sleep(Duration::from_millis(pause));
        }
        Ok(())
    };
    let mut past = Growth::new();
    let mut n = 0;
    for stage in 0..5 {
        for _ in 0..if stage == 0 { c.base } else { c.base << (stage - 1) } {
            n += 1;
            one(n, n % 4, n % 3 == 0, if n % 5 == 0 { 900 } else { 0 })?;
        }
        past.note(settled(if past.n > 0 { past.at[past.n - 1] } else { i64::MIN }));
    }
    past.verdict("the connections a program has had")?;
    background_panics()?;
    Ok(Outcome::new(true, vec!["blocking-shaped"]))
}

pub fn property() -> Property {
    Property {
        id: "C27",
        level: "exploration",
        rule: "packets were carried (traffic), connections ended (past), decoys skipped (handshake), a transport stalled with something to send (silent)",
        assumptions: &[
            "memory is what the global allocator has handed out and not got back; growth counts when it shows at each of three doublings of the work and amounts to more than 2 KB",
            "the memory of a connection's own queue of writes given up by the application while the transport is stalled is the application's responsibility",
        ],
        families: vec![
            enumerate("threads", thread_list, thread_check).racy(),
            family("traffic", 1_200, 40_000, mem_strategy, mem_check),
            family("past", 400, 16_000, past_strategy, past_check),
            family("handshake", 160, 6_000, decoys_strategy, decoys_check),
            family("silent", 400, 16_000, silent_strategy, silent_check),
        ],
    }
}
