//! C26: several connections used by one program at the same time do not influence each other.
use super::*;
use crate::runner::spin;
use bip324::{GarbageResult, Handshake, PacketType, ReceivedKey, VersionResult};
use std::cell::RefCell;
use std::io::{Read, Result as IoResult, Write};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum RoomOp {
    Read,
    Write(bool, Blob),
    /// So many short packets in a row.
    Burst(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Guest {
    /// 0 handshake and ciphers by hand, 1 blocking, 2 async, 3 shaped blocking, 4 shaped async
    kind: u8,
    conn: Conn,
    lseed: u32,
    garbage: Option<Blob>,
    decoys: Option<Vec<Blob>>,
    ops: Vec<RoomOp>,
    /// Abandoned after so many turns.
    leave: Option<u16>,
    /// Which things it has in common with the first: remote key, magic, local key, role.
    same: u8,
    /// Takes the place of one that has finished or was abandoned.
    #[serde(default)]
    late: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RoomCase {
    guests: Vec<Guest>,
    /// Whose turn it is; the high bit asks for a turn of another inside of a blocking call.
    plan: Vec<u8>,
}
fn guest() -> BoxedStrategy<Guest> {
    let op = prop_oneof![
        10 => Just(RoomOp::Read),
        10 => (proptest::bool::weighted(0.3), contents()).prop_map(|(d, b)| RoomOp::Write(d, b)),
        1 => (1u16..450).prop_map(RoomOp::Burst),
    ];
    let long = proptest::collection::vec((prop_oneof![Just(0u8), Just(0x80)], blob(4)), 220..460);
    let session = prop_oneof![10 => session_packets(6), 1 => long.boxed()];
    (
        (prop_oneof![2 => Just(0u8), 4 => 1u8..5], conn(Just(false)), any::<u32>(), session),
        (proptest::option::of(blob(4095)), proptest::option::of(local_decoys()), proptest::collection::vec(op, 0..8), (proptest::option::weighted(0.25, prop_oneof![2 => 0u16..16, 1 => 0u16..60]), 0u8..16, proptest::bool::weighted(0.3))),
    )
        .prop_map(|((kind, mut conn, lseed, session), (garbage, decoys, ops, (leave, same, late)))| {
            conn.asyn = kind == 2 || kind == 4;
            conn.remote.session = session;
            Guest { kind, conn, lseed, garbage, decoys, ops, leave, same, late }
        })
        .boxed()
}
fn room_strategy(_: Tier) -> BoxedStrategy<RoomCase> {
    (proptest::collection::vec(guest(), 2..5), proptest::collection::vec(any::<u8>(), 1..40)).prop_map(|(guests, plan)| RoomCase { guests, plan }).boxed()
}

// ------------------------------------------------------------------ taking turns
type Life = Pin<Box<dyn Future<Output = Result<(), String>>>>;
#[derive(Default)]
struct Room {
    lives: Vec<Option<Life>>,
    /// Those who are late, the next one last.
    queue: Vec<(usize, Life)>,
    turns: Vec<u32>,
    leave: Vec<Option<u16>>,
    plan: Vec<u8>,
    at: usize,
    depth: u32,
    nested: u32,
    error: Option<String>,
}
thread_local! { static ROOM: RefCell<Room> = RefCell::default(); }

impl Room {
    fn next_arrives(&mut self) {
        if let Some((k, l)) = self.queue.pop() {
            self.lives[k] = Some(l);
        }
    }
}
/// One of those who are present and not in the middle of a turn goes on. False when there is nobody.
fn turn() -> bool {
    let picked = ROOM.with(|r| {
        let mut r = r.borrow_mut();
        let here: Vec<usize> = (0..r.lives.len()).filter(|i| r.lives[*i].is_some()).collect();
        if here.is_empty() {
            return None;
        }
        let n = r.plan[r.at % r.plan.len()] & 0x7f;
        r.at += 1;
        if r.at > 3_000_000 {
            spin("connections go on without end: one waits although its transport is ready");
        }
        // The plan repeats: everybody gets a turn.
        let k = here[(n as usize + r.at / r.plan.len()) % here.len()];
        r.turns[k] += 1;
        r.depth += 1;
        let gone = r.leave[k].is_some_and(|l| r.turns[k] > l as u32);
        Some((k, r.lives[k].take().unwrap(), gone))
    });
    let Some((k, mut life, gone)) = picked else { return false };
    if gone {
        drop(life);
        ROOM.with(|r| {
            let mut r = r.borrow_mut();
            r.depth -= 1;
            r.next_arrives();
        });
        return true;
    }
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    let p = life.as_mut().poll(&mut cx);
    let kept = ROOM.with(|r| {
        let mut r = r.borrow_mut();
        r.depth -= 1;
        match p {
            Poll::Pending => {
                r.lives[k] = Some(life);
                None
            }
            Poll::Ready(x) => {
                if let Err(e) = x {
                    r.error.get_or_insert(format!("connection {k}: {e}"));
                }
                Some(life)
            }
        }
    });
    if let Some(gone) = kept {
        drop(gone);
        ROOM.with(|r| r.borrow_mut().next_arrives());
    }
    true
}
/// Somebody else may go on while a transport is being used.
fn meanwhile() {
    let yes = ROOM.with(|r| match r.try_borrow_mut() {
        Ok(mut r) => {
            let yes = !r.plan.is_empty() && r.depth < 5 && r.plan[r.at % r.plan.len()] & 0x80 != 0;
            r.nested += u32::from(yes);
            yes
        }
        Err(_) => false,
    });
    if yes {
        turn();
    }
}
async fn pause() {
    let mut first = true;
    std::future::poll_fn(move |_| {
        if std::mem::take(&mut first) {
            return Poll::Pending;
        }
        Poll::Ready(())
    })
    .await
}
struct Inn<T>(T);
impl Read for Inn<SyncR> {
    fn read(&mut self, buf: &mut [u8]) -> IoResult<usize> {
        meanwhile();
        self.0.read(buf)
    }
}
impl Write for Inn<SyncW> {
    fn write(&mut self, buf: &[u8]) -> IoResult<usize> {
        meanwhile();
        self.0.write(buf)
    }
    fn flush(&mut self) -> IoResult<()> {
        self.0.flush()
    }
}

// ------------------------------------------------------------------ the guests
fn messages(ops: &[RoomOp]) -> Vec<Option<(bool, Vec<u8>)>> {
    let mut v = vec![];
    for o in ops {
        match o {
            RoomOp::Read => v.push(None),
            RoomOp::Write(d, b) => v.push(Some((*d, b.get()))),
            RoomOp::Burst(n) => v.extend((0..*n).map(|j| Some((j % 3 == 1, (j as u32).to_le_bytes()[..(j % 5) as usize].to_vec())))),
        }
    }
    v
}
/// Receive buffers which the program uses for one connection after the other.
struct Loan(Vec<u8>);
thread_local! { static BUFFERS: RefCell<Vec<Vec<u8>>> = const { RefCell::new(vec![]) }; }
impl Loan {
    fn new(n: usize) -> Self {
        let mut b = BUFFERS.with(|b| b.borrow_mut().pop()).unwrap_or_else(|| vec![0xee; 16384]);
        if b.len() < n {
            b.resize(n, 0xee);
        }
        Loan(b)
    }
}
impl Drop for Loan {
    fn drop(&mut self) {
        let b = std::mem::take(&mut self.0);
        BUFFERS.with(|x| x.borrow_mut().push(b));
    }
}
async fn by_hand(g: Guest) -> Result<(), String> {
    let c = &g.conn;
    let e = |what: &'static str| move |e: bip324::Error| format!("{what}: {e:?}");
    let hs = new_handshake(g.lseed, c.initiator, c.magic)?;
    pause().await;
    let own = g.garbage.as_ref().map(|b| b.get());
    let mut first = vec![0u8; 64 + own.as_ref().map_or(0, |o| o.len())];
    let hs = hs.send_key(own.as_deref(), &mut first).map_err(e("send_key"))?;
    pause().await;
    let their = remote_ell(c.remote.rseed);
    let hs = hs.receive_key(their).map_err(e("receive_key"))?;
    pause().await;
    let list: Option<Vec<Vec<u8>>> = g.decoys.as_ref().map(|d| d.iter().map(|b| b.get()).collect());
    let refs: Option<Vec<&[u8]>> = list.as_ref().map(|d| d.iter().map(|x| x.as_slice()).collect());
    let mut second = vec![0u8; Handshake::<ReceivedKey>::send_version_len(refs.as_deref())];
    let hs = hs.send_version(&mut second, refs.as_deref()).map_err(e("send_version"))?;
    let key: [u8; 64] = first[..64].try_into().unwrap();
    let (ei, er) = if c.initiator { (&key, &their) } else { (&their, &key) };
    let secrets = crate::model::Secrets::derive(ei, er, &secret(g.lseed), c.initiator, c.magic);
    let (mut tx, mut rx) = secrets.dirs(!c.initiator);
    let (term, lterm) = secrets.terms(!c.initiator);
    let mut want = lterm.to_vec();
    let own = own.unwrap_or_default();
    let mut aad: &[u8] = &own;
    for d in list.iter().flatten() {
        want.extend(rx.seal(0x80, d, aad));
        aad = &[];
    }
    want.extend(rx.seal(0, &[], aad));
    ensure!(first[64..] == own[..] && second == want, "the handshake's bytes differ from the specification: {}", first_diff(&second, &want));
    pause().await;
    let mut stream = c.remote.hs.garbage.get();
    stream.extend(c.remote.hs.tail(&term, &mut tx));
    let mut loan = Loan::new(stream.len());
    let (mut have, mut hs, mut i) = (0, hs, 0);
    let (mut hs, mut at) = loop {
        let Step::N(n) = c.rsched.at(i) else {
            i += 1;
            pause().await;
            continue;
        };
        i += 1;
        let from = have;
        have = (have + n.max(1 + 15 * (g.lseed & 1)) as usize).min(stream.len());
        loan.0[from..have].copy_from_slice(&stream[from..have]);
        match hs.receive_garbage(&loan.0[..have]).map_err(e("receive_garbage"))? {
            GarbageResult::FoundGarbage { handshake, consumed_bytes } => break (handshake, consumed_bytes),
            GarbageResult::NeedMoreData(h) => {
                ensure!(have < stream.len(), "the terminator is not found");
                hs = h;
            }
        }
        pause().await;
    };
    let cipher = loop {
        ensure!(at + 3 <= stream.len(), "the version packet is not recognised");
        let n = hs.decrypt_packet_len(stream[at..at + 3].try_into().unwrap()).map_err(e("decrypt_packet_len"))?;
        at += 3;
        pause().await;
        ensure!(at + n <= stream.len(), "a handshake packet of {n} bytes is announced that nobody sent");
        let mut body = stream[at..at + n].to_vec();
        match hs.receive_version(&mut body).map_err(e("receive_version"))? {
            VersionResult::Complete { cipher } => break cipher,
            VersionResult::Decoy(h) => hs = h,
        }
        at += n;
        pause().await;
    };
    ensure!(cipher.id() == &secrets.session_id, "session id differs from the specification");
    let (mut inb, mut out) = cipher.into_split();
    let mut next = 0;
    let mut todo = messages(&g.ops);
    todo.extend(std::iter::repeat_n(None, c.remote.session.len()));
    for m in todo {
        match m {
            Some((d, m)) => {
                let got = out.encrypt_to_vec(&m, if d { PacketType::Decoy } else { PacketType::Genuine }, None);
                let want = rx.seal(if d { 0x80 } else { 0 }, &m, &[]);
                ensure!(got == want, "packet bytes differ from the specification: {}", first_diff(&got, &want));
            }
            None if next < c.remote.session.len() => {
                let (h, b) = &c.remote.session[next];
                let pkt = tx.seal(*h, &b.get(), &[]);
                let n = inb.decrypt_packet_len(pkt[..3].try_into().unwrap());
                pause().await;
                ensure!(n + 3 == pkt.len(), "decrypted packet length {n}, expected {}", pkt.len() - 3);
                let (_, p) = inb.decrypt_to_vec(&pkt[3..], None).map_err(|e| format!("packet {next} of the peer is rejected: {e:?}"))?;
                ensure!(p[0] == *h && p[1..] == b.get()[..], "packet {next}: contents differ");
                next += 1;
            }
            None => {}
        }
        pause().await;
    }
    Ok(())
}
enum Any {
    S(bip324::io::Protocol<Inn<SyncR>, Inn<SyncW>>),
    A(bip324::futures::Protocol<AsyncR, AsyncW>),
    ShS(bip324_traffic::io::ShapedProtocol<Inn<SyncR>, Inn<SyncW>>),
    ShA(AP),
}
async fn driver(g: Guest) -> Result<(), String> {
    let c = &g.conn;
    let shaped = g.kind >= 3;
    let Some(sh) = wire_of(c) else { return Ok(()) };
    let own = || g.garbage.as_ref().map(|b| b.get());
    let dec = || g.decoys.as_ref().map(|d| d.iter().map(|b| b.get()).collect());
    let role = role_of(c.initiator);
    if !shaped {
        let mut w = lock(&sh);
        w.local.garbage = g.garbage.clone();
        w.local.decoys = g.decoys.clone();
    }
    let p = match g.kind {
        1 => bip324::io::Protocol::new(c.magic, role, own(), dec(), Inn(SyncR(sh.clone())), Inn(SyncW(sh.clone()))).map(Any::S),
        2 => bip324::futures::Protocol::new(c.magic, role, own(), dec(), AsyncR(sh.clone()), AsyncW(sh.clone())).await.map(Any::A),
        3 => bip324_traffic::io::ShapedProtocol::new(c.magic, role, config(c.cfg), Inn(SyncR(sh.clone())), Inn(SyncW(sh.clone()))).map(Any::ShS),
        _ => AP::new(c.magic, role, config(c.cfg), AsyncR(sh.clone()), AsyncW(sh.clone())).await.map(Any::ShA),
    };
    let mut p = p.map_err(|e| format!("the handshake with a conforming peer fails: {e:?}"))?;
    pause().await;
    let mut view = View::default();
    let mut sent: Vec<Sent> = vec![];
    let mut next = 0;
    let mut todo = messages(&g.ops);
    todo.extend(std::iter::repeat_n(None, c.remote.session.len()));
    for m in todo {
        match m {
            Some((d, m)) => {
                let pl = payload(d, &m);
                let r = match &mut p {
                    Any::S(p) => p.write(&pl),
                    Any::A(p) => p.write(&pl).await,
                    Any::ShS(p) => p.write(&pl),
                    Any::ShA(p) => p.write(&pl).await,
                };
                r.map_err(|e| format!("write: {e:?}"))?;
                sent.push((d, m, true));
            }
            None if next < c.remote.session.len() => {
                let r = match &mut p {
                    Any::S(p) => p.read(),
                    Any::A(p) => p.read().await,
                    Any::ShS(p) => p.read(),
                    Any::ShA(p) => p.read().await,
                };
                let m = r.map_err(|e| format!("packet {next} of the peer cannot be read: {e:?}"))?;
                let (h, b) = &c.remote.session[next];
                same_packet(&format!("packet {next}"), &m, *h, b)?;
                next += 1;
            }
            None => {}
        }
        pause().await;
    }
    if shaped {
        view.flushed(&sh)?;
        return explains(&view.packets, &sent).map_err(|e| format!("shaped: {e}"));
    }
    let w = lock(&sh);
    let plain: Vec<(bool, Vec<u8>)> = sent.into_iter().map(|s| (s.0, s.1)).collect();
    let Some(exp) = w.expected_output(&plain) else { return Err("the local key was not sent".into()) };
    ensure!(w.written == exp, "bytes sent differ from the specification's: {}", first_diff(&w.written, &exp));
    Ok(())
}

struct Clear;
impl Drop for Clear {
    fn drop(&mut self) {
        BUFFERS.with(|b| b.borrow_mut().clear());
        let old = ROOM.with(|r| std::mem::take(&mut *r.borrow_mut()));
        drop(old);
    }
}
fn room_check(c: &RoomCase) -> CaseResult {
    let _clear = Clear;
    virtual_time(async {
        let mut kinds: Vec<u8> = vec![];
        let mut relation = false;
        let room = {
            let mut room = Room { plan: c.plan.clone(), ..Room::default() };
            for (k, g) in c.guests.iter().enumerate() {
                let mut g = g.clone();
                let first = &c.guests[0];
                if k > 0 {
                    if g.same & 1 != 0 {
                        g.conn.remote.rseed = first.conn.remote.rseed;
                    }
                    if g.same & 2 != 0 {
                        g.conn.magic = first.conn.magic;
                    }
                    if g.same & 4 != 0 {
                        g.lseed = first.lseed;
                    }
                    if g.same & 8 != 0 {
                        g.conn.initiator = first.conn.initiator;
                    }
                    relation |= g.same & 3 == 3;
                }
                if remote_ell(g.conn.remote.rseed)[..4] == g.conn.magic {
                    continue;
                }
                kinds.push(g.kind);
                room.turns.push(0);
                room.leave.push(g.leave);
                let late = g.late && !room.lives.is_empty();
                let life: Life = if g.kind == 0 { Box::pin(by_hand(g)) } else { Box::pin(driver(g)) };
                let at = room.lives.len();
                room.lives.push(None);
                if late {
                    room.queue.insert(0, (at, life));
                } else {
                    room.lives[at] = Some(life);
                }
            }
            room
        };
        ROOM.with(|r| *r.borrow_mut() = room);
        let mut n = 0u32;
        while turn() {
            if let Some(e) = ROOM.with(|r| r.borrow_mut().error.take()) {
                return Err(e);
            }
            n += 1;
            // Background tasks take their turns too.
            tokio::task::yield_now().await;
        }
        background_panics()?;
        if let Some(e) = ROOM.with(|r| r.borrow_mut().error.take()) {
            return Err(e);
        }
        let mut cl = vec![];
        if ROOM.with(|r| r.borrow().nested) > 0 && kinds.iter().any(|k| *k == 1 || *k == 3) {
            cl.push("inside-of-blocking-calls");
        }
        if relation {
            cl.push("same-remote-key-and-magic");
        }
        if c.guests.iter().any(|g| g.late) {
            cl.push("one-after-the-other");
        }
        if c.guests.iter().any(|g| g.leave.is_some()) {
            cl.push("abandoned");
        }
        kinds.sort();
        kinds.dedup();
        if kinds.len() > 1 {
            cl.push("different-interfaces");
        }
        Ok(Outcome::new(c.guests.len() > 1 && n > 8, cl))
    })
}
pub fn property() -> Property {
    Property {
        id: "C26",
        level: "exploration",
        rule: "at least two connections that take more than eight turns; classes name what they have in common",
        assumptions: &["turns are taken between public operations, at every wait of an async transport, and inside of the calls of a blocking transport", "the peers are models that follow BIP-324"],
        families: vec![family("together", 16_000, 400_000, room_strategy, room_check).racy()],
    }
}
