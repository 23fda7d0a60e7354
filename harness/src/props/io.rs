//! C08-C15, C22, C24: the blocking and async protocol over scripted transports.
use super::hs;
use crate::alloc::peak_of;
use crate::ensure;
use crate::model::{hex, unhex};
use crate::runner::{enumerate, family, sub_thread, CaseResult, Outcome, Property, Tier};
use crate::session::*;
use crate::util::*;
use crate::wire::*;
use bip324::io::{Payload, ProtocolError, ProtocolFailureSuggestion};
use bip324::{Error, Handshake, Initialized, PacketType, ReceivedKey};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{ErrorKind, Read, Write};
use tokio::io::{AsyncReadExt, AsyncWriteExt};

// ------------------------------------------------------------------ adapter
pub enum Proto {
    S(bip324::io::Protocol<SyncR, SyncW>),
    A(bip324::futures::Protocol<AsyncR, AsyncW>),
}
pub fn open(asyn: bool, sh: &Shared) -> Result<Proto, ProtocolError> {
    let (l, role) = {
        let w = lock(sh);
        (w.local.clone(), role_of(w.local.initiator))
    };
    let (r, g, d) = (sh.clone(), l.garbage_vec(), l.decoys_vec());
    if asyn {
        run(bip324::futures::Protocol::new(l.magic, role, g, d, AsyncR(r.clone()), AsyncW(r)), sh).map(Proto::A)
    } else {
        bip324::io::Protocol::new(l.magic, role, g, d, SyncR(r.clone()), SyncW(r)).map(Proto::S)
    }
}
impl Proto {
    pub fn read(&mut self, sh: &Shared) -> Result<Payload, ProtocolError> {
        match self {
            Proto::S(p) => p.read(),
            Proto::A(p) => run(p.read(), sh),
        }
    }
    pub fn write(&mut self, sh: &Shared, m: &Payload) -> Result<(), ProtocolError> {
        match self {
            Proto::S(p) => p.write(m),
            Proto::A(p) => run(p.write(m), sh),
        }
    }
}
pub fn payload(decoy: bool, b: &[u8]) -> Payload {
    if decoy { Payload::decoy(b.to_vec()) } else { Payload::genuine(b.to_vec()) }
}
pub fn is_decoy(p: &Payload) -> bool {
    p.packet_type() == PacketType::Decoy
}
pub fn same_packet(what: &str, p: &Payload, h: u8, b: &Blob) -> Result<(), String> {
    let b = b.get();
    ensure!(is_decoy(p) == (h & 0x80 != 0), "{what}: header {h:#04x} delivered as {:?}", p.packet_type());
    ensure!(p.contents() == &b[..], "{what}: contents differ: {}", first_diff(p.contents(), &b));
    Ok(())
}
/// Error kind and whether retrying with version 1 is suggested.
pub fn io_err(e: &ProtocolError) -> Option<(ErrorKind, bool)> {
    match e {
        ProtocolError::Io(e, s) => Some((e.kind(), matches!(s, ProtocolFailureSuggestion::RetryV1))),
        ProtocolError::Internal(_) => None,
    }
}
pub fn is_eof(e: &ProtocolError) -> bool {
    matches!(io_err(e), Some((ErrorKind::UnexpectedEof | ErrorKind::ConnectionAborted, true)))
}

// ------------------------------------------------------------------ C10, C11
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Read,
    Write(bool, Blob),
    /// Write back the packet read last.
    Relay,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SessionCase {
    asyn: bool,
    local: Local,
    remote: Remote,
    rsched: Sched,
    wsched: Sched,
    /// None: all remote bytes are there from the start. Some(n): the remote sends each packet
    /// only when it is read or n packets earlier.
    ahead: Option<u8>,
    ops: Vec<Op>,
}
fn contents() -> BoxedStrategy<Blob> {
    prop_oneof![24 => blob(60), 8 => blob(800), 4 => blob(9000), 1 => blob(140_000)].boxed()
}
fn ops(max: usize) -> BoxedStrategy<Vec<Op>> {
    proptest::collection::vec(prop_oneof![4 => Just(Op::Read), 4 => (proptest::bool::weighted(0.3), contents()).prop_map(|(d, b)| Op::Write(d, b)), 1 => Just(Op::Relay)], 0..max).boxed()
}
fn big_remote(max: usize) -> BoxedStrategy<Remote> {
    let pk = (prop_oneof![3 => Just(0u8), 2 => Just(0x80u8), 1 => any::<u8>()], contents());
    (any::<u32>(), peer_hs(), prop_oneof![9 => proptest::collection::vec(pk, 0..max).boxed(), 1 => proptest::collection::vec((prop_oneof![Just(0u8), Just(0x80)], blob(4)), 220..240).boxed()])
        .prop_map(|(rseed, hs, session)| Remote { rseed, hs, session })
        .boxed()
}
fn session_case(asyn: bool) -> BoxedStrategy<SessionCase> {
    (local(), big_remote(8), sched(), sched(), proptest::option::weighted(0.6, prop_oneof![3 => Just(0u8), 1 => 0u8..4]), ops(12))
        .prop_map(move |(local, remote, rsched, wsched, ahead, ops)| SessionCase { asyn, local, remote, rsched, wsched, ahead, ops })
        .boxed()
}
/// Packets of up to the size every reader must accept, in pieces.
fn large_case(asyn: bool) -> BoxedStrategy<SessionCase> {
    let step = prop_oneof![3 => (1u32..70_000).prop_map(Step::N), 1 => (1u32..3_000_000).prop_map(Step::N), 1 => proptest::sample::select(dict_upto(4_000_000)).prop_map(|n| Step::N(n.max(1))), 1 => Just(Step::Hiccup)];
    let steps = (proptest::collection::vec(step, 0..8), prop_oneof![Just(100_000u32), Just(20_000)]).prop_map(|(mut v, n)| {
        // Not too slow.
        v.push(Step::N(n));
        Sched(v)
    });
    let size = prop_oneof![2 => 60_000u32..300_000, 2 => proptest::sample::select(dict_upto(4_000_013)), 1 => 0u32..4_000_014, 1 => Just(4_000_013)];
    let big = (size, any::<u32>()).prop_map(|(n, s)| Blob::R(n, s));
    let some = prop_oneof![1 => blob(60), 2 => big];
    let pk = (prop_oneof![3 => Just(0u8), 2 => Just(0x80u8), 1 => any::<u8>()], some.clone());
    let remote = (any::<u32>(), prop_oneof![Just(PeerHs::plain()), peer_hs()], proptest::collection::vec(pk, 0..3)).prop_map(|(rseed, hs, session)| Remote { rseed, hs, session });
    let op = prop_oneof![3 => Just(Op::Read), 2 => (proptest::bool::weighted(0.3), some).prop_map(|(d, b)| Op::Write(d, b)), 1 => Just(Op::Relay)];
    (local(), remote, steps.clone(), steps, proptest::option::weighted(0.6, 0u8..2), proptest::collection::vec(op, 1..5))
        .prop_map(move |(local, remote, rsched, wsched, ahead, ops)| SessionCase { asyn, local, remote, rsched, wsched, ahead, ops })
        .boxed()
}
fn large_sync(_: Tier) -> BoxedStrategy<SessionCase> {
    large_case(false)
}
fn large_async(_: Tier) -> BoxedStrategy<SessionCase> {
    large_case(true)
}
fn session_sync(_: Tier) -> BoxedStrategy<SessionCase> {
    session_case(false)
}
fn session_async(_: Tier) -> BoxedStrategy<SessionCase> {
    session_case(true)
}
fn check_output(sh: &Shared, sent: &[(bool, Vec<u8>)], when: &str) -> Result<(), String> {
    let w = lock(sh);
    let Some(exp) = w.expected_output(sent) else { return Err(format!("{when}: the local key was not sent")) };
    ensure!(w.written == exp, "{when}: bytes sent differ from the specification's: {}", first_diff(&w.written, &exp));
    ensure!(w.flushed == w.written.len(), "{when}: {} of {} bytes were flushed", w.flushed, w.written.len());
    Ok(())
}
fn session_check(c: &SessionCase) -> CaseResult {
    let sh = Wire::new(c.local.clone(), c.remote.clone(), c.rsched.clone(), c.wsched.clone());
    if remote_ell(c.remote.rseed)[..4] == c.local.magic {
        return Ok(Outcome::default());
    }
    {
        let mut w = lock(&sh);
        w.strict = c.ahead.is_some();
        w.released = c.ahead.unwrap_or(0) as usize;
    }
    let mut p = open(c.asyn, &sh).map_err(|e| format!("the handshake with a conforming peer fails: {e:?}"))?;
    check_output(&sh, &[], "after the handshake")?;
    let mut sent: Vec<(bool, Vec<u8>)> = vec![];
    let mut next = 0;
    let mut last: Option<Payload> = None;
    let total = c.remote.session.len();
    let overread = {
        let w = lock(&sh);
        w.pos > w.known.as_ref().unwrap().marks[3]
    };
    let reads = |p: &mut Proto, next: &mut usize| -> Result<Option<Payload>, String> {
        if *next >= total {
            return Ok(None);
        }
        lock(&sh).released = *next + 1 + c.ahead.unwrap_or(0) as usize;
        let got = p.read(&sh).map_err(|e| format!("packet {next} of {total} cannot be read: {e:?}"))?;
        let (h, b) = &c.remote.session[*next];
        same_packet(&format!("packet {next}"), &got, *h, b)?;
        *next += 1;
        Ok(Some(got))
    };
    for op in &c.ops {
        match op {
            Op::Read => {
                if let Some(x) = reads(&mut p, &mut next)? {
                    last = Some(x);
                }
            }
            Op::Write(d, b) => {
                let m = b.get();
                p.write(&sh, &payload(*d, &m)).map_err(|e| format!("write fails: {e:?}"))?;
                sent.push((*d, m));
                check_output(&sh, &sent, "after a write")?;
            }
            Op::Relay => {
                if let Some(x) = &last {
                    p.write(&sh, &x.clone()).map_err(|e| format!("write of a received packet fails: {e:?}"))?;
                    sent.push((is_decoy(x), x.contents().to_vec()));
                    check_output(&sh, &sent, "after relaying")?;
                }
            }
        }
    }
    while reads(&mut p, &mut next)?.is_some() {}
    lock(&sh).eof_at_end = true;
    match p.read(&sh) {
        Ok(x) => return Err(format!("a packet of {} bytes was delivered that nobody sent", x.contents().len())),
        Err(e) => ensure!(is_eof(&e), "end of stream reported as {e:?}"),
    }
    check_output(&sh, &sent, "at the end")?;
    let mut cl = vec![];
    if overread {
        cl.push("packets-read-with-handshake");
    }
    if c.rsched.0.contains(&Step::Hiccup) {
        cl.push("read-hiccups");
    }
    if c.wsched.0.contains(&Step::Hiccup) {
        cl.push("write-hiccups");
    }
    if c.ahead.is_some() {
        cl.push("lock-step-remote");
    }
    if total >= 224 {
        cl.push("past-rekey");
    }
    Ok(Outcome::new(total > 0 && (!c.rsched.0.is_empty() || overread), cl))
}

fn decoys_sync(t: Tier) -> Vec<ManyCase> {
    ManyCase::list(&[0], t)
}
fn decoys_async(t: Tier) -> Vec<ManyCase> {
    ManyCase::list(&[1], t)
}
fn decoys_any(t: Tier) -> Vec<ManyCase> {
    ManyCase::list(&[0, 1, 2], t)
}
fn decoys_check(c: &ManyCase) -> CaseResult {
    let (local, remote) = c.parts();
    if c.way == 2 {
        let n = remote.session.len();
        let m = MutCase { way: Way::SansIo, local, remote, rsched: Sched(vec![Step::N(300)]), muts: vec![], sends: vec![(false, Blob::R(4, 4))] };
        let t = trace(m.way, &m, 0)?;
        ensure!(t.hs.is_ok(), "handshake: {:?}", t.hs);
        ensure!(t.clean == n, "{} of {n} packets delivered, then {:?}", t.clean, t.end);
    } else {
        let ops = vec![Op::Read, Op::Write(false, Blob::R(4, 4)), Op::Relay];
        let ahead = if c.initiator { None } else { Some(0) };
        session_check(&SessionCase { asyn: c.way == 1, local, remote, rsched: Sched(vec![Step::N(5000), Step::N(3)]), wsched: Sched(vec![]), ahead, ops })?;
    }
    let n = c.remote.max(c.local);
    Ok(Outcome::new(n > 3, vec![if n > 65_535 { "above-65535" } else if n > 255 { "above-255" } else { "up-to-255" }]))
}

// ------------------------------------------------------------------ C12
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CancelCase {
    local: Local,
    remote: Remote,
    rsched: Sched,
    ahead: Option<u8>,
    /// After how many unready polls the nth attempt is dropped.
    cancels: Vec<u8>,
    /// Write between attempts when (attempt % n == 0).
    write_every: Option<u8>,
    split: bool,
}
fn cancel_strategy(_: Tier) -> BoxedStrategy<CancelCase> {
    let rs = prop_oneof![2 => Just(Sched(vec![Step::N(1), Step::Hiccup])), 1 => Just(Sched(vec![Step::N(2), Step::Hiccup, Step::N(7), Step::Hiccup])), 3 => sched()];
    let small = (any::<u32>(), prop_oneof![Just(PeerHs::plain()), peer_hs()], session_packets(8)).prop_map(|(rseed, hs, session)| Remote { rseed, hs, session });
    (local(), small, rs, proptest::option::weighted(0.6, 0u8..3), proptest::collection::vec(prop_oneof![3 => Just(0u8), 2 => 0u8..6, 1 => any::<u8>()], 1..8), proptest::option::of(1u8..6), any::<bool>())
        .prop_map(|(local, remote, rsched, ahead, cancels, write_every, split)| CancelCase { local, remote, rsched, ahead, cancels, write_every, split })
        .boxed()
}
/// Packets of many KiB, read in pieces.
fn cancel_big_strategy(_: Tier) -> BoxedStrategy<CancelCase> {
    let step = prop_oneof![3 => (1u32..70_000).prop_map(Step::N), 1 => proptest::sample::select(dict_upto(200_000)).prop_map(|n| Step::N(n.max(1))), 4 => Just(Step::Hiccup)];
    let steps = prop_oneof![Just(vec![]), Just(vec![Step::N(200)]), Just(vec![Step::N(10_000)])]
        .prop_flat_map(move |first| proptest::collection::vec(step.clone(), 2..12).prop_map(move |mut v| {
            v.extend(first.clone());
            Sched(v)
        }));
    let pk = (prop_oneof![3 => Just(0u8), 2 => Just(0x80u8), 1 => any::<u8>()], prop_oneof![2 => blob(60), 3 => blob(600_000), 1 => (60_000u32..70_000, any::<u32>()).prop_map(|(n, s)| Blob::R(n, s))]);
    let remote = (any::<u32>(), Just(PeerHs::plain()), proptest::collection::vec(pk, 1..4)).prop_map(|(rseed, hs, session)| Remote { rseed, hs, session });
    (local(), remote, steps, proptest::option::weighted(0.6, 0u8..3), proptest::collection::vec(prop_oneof![3 => Just(0u8), 2 => 0u8..3], 1..8), proptest::option::of(1u8..6), any::<bool>())
        .prop_map(|(local, remote, rsched, ahead, cancels, write_every, split)| CancelCase { local, remote, rsched, ahead, cancels, write_every, split })
        .boxed()
}
fn cancel_check(c: &CancelCase) -> CaseResult {
    if remote_ell(c.remote.rseed)[..4] == c.local.magic {
        return Ok(Outcome::default());
    }
    let sh = Wire::new(c.local.clone(), c.remote.clone(), c.rsched.clone(), Sched(vec![]));
    {
        let mut w = lock(&sh);
        w.strict = c.ahead.is_some();
    }
    let p = match open(true, &sh).map_err(|e| format!("handshake: {e:?}"))? {
        Proto::A(p) => p,
        Proto::S(_) => unreachable!(),
    };
    let mut whole = None;
    let mut halves = None;
    if c.split {
        halves = Some(p.into_split());
    } else {
        whole = Some(p);
    }
    let mut sent = vec![];
    let mut attempt = 0usize;
    let mut cancelled = 0u32;
    let mut mid = 0u32;
    let total = c.remote.session.len();
    for (i, (h, b)) in c.remote.session.iter().enumerate() {
        // An attempt before the remote has sent the packet.
        let mut early = c.ahead.is_some();
        loop {
            if !early {
                lock(&sh).released = i + 1 + c.ahead.unwrap_or(0) as usize;
            }
            let cancel = if attempt > 3000 { None } else { Some(c.cancels[attempt % c.cancels.len()] as u32) };
            attempt += 1;
            let at = lock(&sh).pos;
            let r = {
                match (&mut whole, &mut halves) {
                    (Some(p), _) => {
                        let f = std::pin::pin!(p.read());
                        drive(f, &sh, cancel)
                    }
                    (_, Some((r, _))) => {
                        let f = std::pin::pin!(r.read());
                        drive(f, &sh, cancel)
                    }
                    _ => unreachable!(),
                }
            };
            match r {
                Polled::Ready(Ok(p)) => {
                    same_packet(&format!("after {cancelled} cancelled reads, packet {i}"), &p, *h, b)?;
                    break;
                }
                Polled::Ready(Err(e)) => return Err(format!("after {cancelled} cancelled reads ({mid} within a packet), packet {i} cannot be read: {e:?}")),
                Polled::Cancelled => {
                    cancelled += 1;
                    if lock(&sh).pos != at {
                        mid += 1;
                    }
                }
                Polled::Blocked => {
                    let w = lock(&sh);
                    let k = w.known.as_ref().unwrap();
                    let avail = w.available();
                    ensure!(early || avail < k.marks[(4 + i).min(3 + total)], "after {cancelled} cancelled reads, packet {i} is completely received but not delivered");
                    cancelled += 1;
                }
            }
            early = false;
            if c.write_every.map(|n| attempt % n as usize == 0).unwrap_or(false) && sent.len() < 40 {
                let m = prng_bytes(attempt as u64, attempt % 30);
                let pl = payload(attempt % 2 == 0, &m);
                let r = match (&mut whole, &mut halves) {
                    (Some(p), _) => run(p.write(&pl), &sh),
                    (_, Some((_, w))) => run(w.write(&pl), &sh),
                    _ => unreachable!(),
                };
                r.map_err(|e| format!("write between cancelled reads: {e:?}"))?;
                sent.push((attempt % 2 == 0, m));
            }
        }
    }
    check_output(&sh, &sent, "at the end")?;
    Ok(Outcome::new(mid > 0, vec![if mid > 0 { "cancelled-within-packet" } else { "no-progress-before-cancel" }]))
}

// ------------------------------------------------------------------ C13
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FaultBase {
    asyn: bool,
    local: Local,
    remote: Remote,
    rsched: Sched,
    wsched: Sched,
    ops: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FaultCase {
    base: FaultBase,
    fault: Fault,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SweepCase {
    base: FaultBase,
    /// 0 end of stream, 1 read error, 2 write error, 3 write zero, 4 flush error
    what: u8,
    err: u8,
}
fn small_base() -> BoxedStrategy<FaultBase> {
    let small_local = (any::<bool>(), magic(), proptest::option::of(blob(30)), proptest::option::of(proptest::collection::vec(blob(12), 0..3)))
        .prop_map(|(initiator, magic, garbage, decoys)| Local { initiator, magic, garbage, decoys });
    let hs = (blob(30), proptest::collection::vec((Just(0x80u8), blob(12)), 0..3), prop_oneof![3 => Just(Blob::empty()), 1 => blob(9)])
        .prop_map(|(garbage, decoys, version)| PeerHs { garbage, decoys, version_header: 0, version });
    let pk = (prop_oneof![2 => Just(0u8), 1 => Just(0x80u8)], blob(20));
    let remote = (any::<u32>(), hs, proptest::collection::vec(pk, 0..4)).prop_map(|(rseed, hs, session)| Remote { rseed, hs, session });
    let op = prop_oneof![1 => Just(Op::Read), 1 => (any::<bool>(), blob(20)).prop_map(|(d, b)| Op::Write(d, b))];
    (any::<bool>(), small_local, remote, sched(), sched(), proptest::collection::vec(op, 0..7))
        .prop_map(|(asyn, local, remote, rsched, wsched, ops)| FaultBase { asyn, local, remote, rsched, wsched, ops })
        .boxed()
}
fn fault_strategy(_: Tier) -> BoxedStrategy<FaultCase> {
    let base = (any::<bool>(), local(), big_remote(6), sched(), sched(), ops(10)).prop_map(|(asyn, local, remote, rsched, wsched, ops)| FaultBase { asyn, local, remote, rsched, wsched, ops });
    (base, 0u8..5, any::<u32>(), error_number(), 0usize..8)
        .prop_map(|(base, what, at, err, nth)| {
            let rlen: usize = 64 + base.remote.hs.garbage.len() + 36 + base.remote.hs.version.len() + base.remote.hs.decoys.iter().map(|d| d.1.len() + 20).sum::<usize>();
            let rlen = rlen + base.remote.session.iter().map(|d| d.1.len() + 20).sum::<usize>();
            let wlen: usize = 100 + base.local.garbage_len() + base.local.decoys.iter().flatten().map(|d| d.len() + 20).sum::<usize>()
                + base.ops.iter().map(|o| if let Op::Write(_, b) = o { b.len() + 20 } else { 0 }).sum::<usize>();
            let (r, w) = (at as usize % (rlen + 2), at as usize % (wlen + 2));
            let fault = match what {
                0 => Fault::Eof(r),
                1 => Fault::ReadErr(r, err),
                2 => Fault::WriteErr(w, err),
                3 => Fault::WriteZero(w),
                _ => Fault::FlushErr(nth, err),
            };
            FaultCase { base, fault }
        })
        .boxed()
}
/// Runs one connection with one fault. Returns whether the fault struck.
fn run_fault(c: &FaultBase, fault: Fault) -> Result<bool, String> {
    if remote_ell(c.remote.rseed)[..4] == c.local.magic {
        return Ok(false);
    }
    let sh = Wire::new(c.local.clone(), c.remote.clone(), c.rsched.clone(), c.wsched.clone());
    {
        let mut w = lock(&sh);
        w.fault = fault;
        w.eof_at_end = true;
    }
    let read_at = match fault {
        Fault::Eof(a) | Fault::ReadErr(a, _) => Some(a),
        _ => None,
    };
    let right_error = |e: &ProtocolError, what: &str| -> Result<(), String> {
        let Some((kind, v1)) = io_err(e) else { return Err(format!("{fault:?} {what}: reported as {e:?}")) };
        let ok = match fault {
            Fault::Eof(_) => is_eof(e),
            Fault::ReadErr(_, i) | Fault::WriteErr(_, i) | Fault::FlushErr(_, i) => {
                let k = kind_of(i);
                kind == k && v1 == suggests_v1(k)
            }
            Fault::WriteZero(_) => kind == ErrorKind::WriteZero && !v1,
            Fault::None => is_eof(e),
        };
        ensure!(ok, "{fault:?} {what}: reported as {e:?}");
        Ok(())
    };
    // Whatever happens, the bytes sent are a prefix of the right ones.
    let prefix = |msgs: &[(bool, Vec<u8>)], what: &str| -> Result<(), String> {
        let w = lock(&sh);
        if let Some(exp) = w.expected_output(msgs) {
            ensure!(exp.starts_with(&w.written), "{fault:?} {what}: sent bytes are not a prefix of the right ones: {}", first_diff(&w.written, &exp));
        } else {
            let g = w.local.garbage_vec().unwrap_or_default();
            ensure!(w.written.len() <= 64 || g.starts_with(&w.written[64..]), "{fault:?} {what}: wrong garbage");
        }
        Ok(())
    };
    let r = open(c.asyn, &sh);
    let (struck, marks) = {
        let w = lock(&sh);
        (w.faulted, w.known.as_ref().map(|k| k.marks.clone()))
    };
    prefix(&[], "in the handshake")?;
    if let Some(at) = read_at {
        let marks = marks.as_ref().ok_or("the key was not flushed although writing works")?;
        let must = at >= marks[3];
        match &r {
            Ok(_) => ensure!(must, "{fault:?}: handshake reported complete although the remote's version ends at byte {}", marks[3]),
            Err(e) => {
                ensure!(!must, "{fault:?}: handshake fails with {e:?} although everything was received (up to byte {})", marks[3]);
                right_error(e, "in the handshake")?;
            }
        }
    } else {
        match &r {
            Ok(_) => ensure!(!struck, "{fault:?}: handshake reported complete although sending failed"),
            Err(e) => {
                ensure!(struck, "{fault:?}: handshake fails with {e:?} without a fault");
                right_error(e, "in the handshake")?;
            }
        }
    }
    let Ok(mut p) = r else { return Ok(true) };
    let marks = marks.ok_or("handshake completed without sending the key")?;
    let mut sent = vec![];
    let mut next = 0;
    let mut dead_read = false;
    let mut write_struck = false;
    let total = c.remote.session.len();
    let all_reads = std::iter::repeat(&Op::Read).take(total + 1);
    for op in c.ops.iter().chain(all_reads) {
        match op {
            Op::Read => {
                if dead_read {
                    continue;
                }
                let end = marks.get(4 + next).copied();
                let may = match (end, read_at) {
                    (None, _) => false,
                    (Some(e), Some(at)) => e <= at,
                    (Some(_), None) => true,
                };
                match p.read(&sh) {
                    Ok(x) => {
                        ensure!(may, "{fault:?}: packet {next} of {total} was delivered but not completely received");
                        let (h, b) = &c.remote.session[next];
                        same_packet(&format!("{fault:?}: packet {next}"), &x, *h, b)?;
                        next += 1;
                    }
                    Err(e) => {
                        ensure!(!may, "{fault:?}: packet {next} was completely received but reading it fails: {e:?}");
                        if end.is_none() && !lock(&sh).faulted {
                            ensure!(is_eof(&e), "end of stream reported as {e:?}");
                        } else if read_at.is_some() {
                            right_error(&e, &format!("reading packet {next}"))?;
                        }
                        dead_read = true;
                    }
                }
            }
            Op::Write(d, b) => {
                if write_struck {
                    continue;
                }
                let m = b.get();
                let r = p.write(&sh, &payload(*d, &m));
                sent.push((*d, m));
                prefix(&sent, "in a write")?;
                let struck = lock(&sh).faulted && read_at.is_none();
                match r {
                    Ok(()) => {
                        ensure!(!struck, "{fault:?}: a write is reported as successful although sending failed");
                        check_output(&sh, &sent, "after a write")?;
                    }
                    Err(e) => {
                        ensure!(struck, "{fault:?}: a write fails without a fault on the sending side: {e:?}");
                        right_error(&e, "in a write")?;
                        write_struck = true;
                    }
                }
            }
            Op::Relay => {}
        }
    }
    let f = lock(&sh).faulted;
    Ok(f)
}
fn fault_check(c: &FaultCase) -> CaseResult {
    let struck = run_fault(&c.base, c.fault)?;
    let cl = match c.fault {
        Fault::Eof(_) => "eof",
        Fault::ReadErr(..) => "read-error",
        Fault::WriteErr(..) => "write-error",
        Fault::WriteZero(_) => "write-zero",
        Fault::FlushErr(..) => "flush-error",
        Fault::None => "none",
    };
    Ok(Outcome::new(struck, if struck { vec![cl] } else { vec![] }))
}
fn sweep_strategy(_: Tier) -> BoxedStrategy<SweepCase> {
    (small_base(), 0u8..5, error_number()).prop_map(|(base, what, err)| SweepCase { base, what, err }).boxed()
}
fn sweep_check(c: &SweepCase) -> CaseResult {
    let b = &c.base;
    let rlen: usize = 64 + b.remote.hs.garbage.len() + 36 + b.remote.hs.version.len() + b.remote.hs.decoys.iter().chain(&b.remote.session).map(|d| d.1.len() + 20).sum::<usize>();
    let wlen: usize = 100 + b.local.garbage_len() + b.local.decoys.iter().flatten().map(|d| d.len() + 20).sum::<usize>()
        + b.ops.iter().map(|o| if let Op::Write(_, b) = o { b.len() + 20 } else { 0 }).sum::<usize>();
    let n = match c.what {
        0 | 1 => rlen + 1,
        2 | 3 => wlen + 1,
        _ => 10,
    };
    let mut struck = 0;
    for at in 0..=n {
        let f = match c.what {
            0 => Fault::Eof(at),
            1 => Fault::ReadErr(at, c.err),
            2 => Fault::WriteErr(at, c.err),
            3 => Fault::WriteZero(at),
            _ => Fault::FlushErr(at, c.err),
        };
        if run_fault(b, f)? {
            struck += 1;
        }
    }
    let cl = ["eof", "read-error", "write-error", "write-zero", "flush-error"][c.what as usize % 5];
    Ok(Outcome::new(struck > 0, vec![cl]))
}

// ------------------------------------------------------------------ C08 over I/O
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GarbageCase {
    asyn: bool,
    initiator: bool,
    rseed: u32,
    pieces: Vec<hs::Piece>,
    rsched: Sched,
    /// Bytes beyond the 4111 that decide.
    extra: u16,
}
fn garbage_strategy(_: Tier) -> BoxedStrategy<GarbageCase> {
    (any::<bool>(), any::<bool>(), any::<u32>(), hs::pieces(), sched(), prop_oneof![3 => Just(0u16), 1 => 0u16..600])
        .prop_map(|(asyn, initiator, rseed, pieces, rsched, extra)| GarbageCase { asyn, initiator, rseed, pieces, rsched, extra })
        .boxed()
}
fn garbage_stream(stream: &mut Vec<u8>, k: &Known, arg: &serde_json::Value) {
    let c: GarbageCase = serde_json::from_value(arg.clone()).expect("case");
    let (own, term) = k.secrets.terms(c.initiator);
    stream.truncate(64);
    let mut s = hs::assemble(&c.pieces, &term, &own);
    match hs::first_term(&s, &term) {
        Some(i) if i <= 4095 => {
            s.truncate(i + 16);
            let mut tx = k.secrets.dirs(!c.initiator).0;
            let g = s[..i].to_vec();
            s.extend(tx.seal(0x80, b"decoy", &g));
            s.extend(tx.seal(0, &[], &[]));
            s.extend(tx.seal(0, b"session", &[]));
        }
        _ => {
            hs::fill(&mut s, 4111 + c.extra as usize, c.rseed, &term);
        }
    }
    stream.extend(s);
}
fn garbage_check(c: &GarbageCase) -> CaseResult {
    let local = Local { initiator: c.initiator, magic: [0xfb, 0xc0, 0xb6, 0xdb], garbage: None, decoys: None };
    let remote = Remote { rseed: c.rseed, hs: PeerHs::plain(), session: vec![] };
    let sh = Wire::new(local, remote, c.rsched.clone(), Sched(vec![]));
    {
        let mut w = lock(&sh);
        w.mutate = Some(garbage_stream);
        w.mutate_arg = serde_json::to_value(c).unwrap();
    }
    // The remote waits after its last byte: deciding late shows as waiting.
    let r = open(c.asyn, &sh);
    let (term, at, pos) = {
        let w = lock(&sh);
        let k = w.known.as_ref().ok_or("key not sent")?;
        let term = k.secrets.terms(c.initiator).1;
        (term, hs::first_term(&w.stream[64..], &term), w.pos)
    };
    let _ = term;
    let valid = at.map(|i| i <= 4095).unwrap_or(false);
    match r {
        Ok(mut p) => {
            ensure!(valid, "handshake completed with a terminator at {at:?}");
            let m = p.read(&sh).map_err(|e| format!("packet behind {at:?} bytes of garbage: {e:?}"))?;
            ensure!(m.contents() == b"session" && !is_decoy(&m), "packet behind the handshake differs");
        }
        Err(ProtocolError::Internal(Error::NoGarbageTerminator)) => {
            ensure!(!valid, "a terminator after {} bytes of garbage is not found", at.unwrap());
            ensure!(pos <= 64 + 4111 + 4096, "{pos} bytes were read before giving up");
        }
        Err(e) => return Err(format!("terminator at {at:?}: {e:?}")),
    }
    let mut cl = vec![if c.asyn { "async" } else { "blocking" }];
    cl.push(if valid { "found" } else { "refused" });
    Ok(Outcome::new(c.pieces.len() > 1, cl))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LocalGarbageCase {
    way: u8,
    initiator: bool,
    seed: u32,
    garbage: Blob,
    slack: u16,
}
fn local_garbage_strategy(_: Tier) -> BoxedStrategy<LocalGarbageCase> {
    let g = prop_oneof![4 => 4090u32..4101, 2 => 4096u32..20_000, 1 => 0u32..4096, 1 => Just(65_536u32), 1 => Just(4_351), 1 => Just(8191)];
    (0u8..3, any::<bool>(), any::<u32>(), (g, any::<u32>()).prop_map(|(n, s)| Blob::R(n, s)), prop_oneof![2 => Just(0u16), 1 => 0u16..50])
        .prop_map(|(way, initiator, seed, garbage, slack)| LocalGarbageCase { way, initiator, seed, garbage, slack })
        .boxed()
}
fn local_garbage_check(c: &LocalGarbageCase) -> CaseResult {
    let magic = [1, 2, 3, 4];
    let g = c.garbage.get();
    let fine = g.len() <= 4095;
    if c.way == 2 {
        let hs = new_handshake(c.seed, c.initiator, magic)?;
        let need = Handshake::<Initialized>::send_key_len(Some(&g));
        ensure!(need == 64 + g.len(), "send_key_len is {need} for {} bytes of garbage", g.len());
        let mut buf = vec![0xaa; need + c.slack as usize];
        match hs.send_key(Some(&g), &mut buf) {
            Ok(_) => {
                ensure!(fine, "{} bytes of garbage are accepted", g.len());
                ensure!(buf[64..64 + g.len()] == g[..], "garbage differs");
            }
            Err(Error::TooMuchGarbage) => {
                ensure!(!fine, "{} bytes of garbage are refused", g.len());
            }
            Err(e) => return Err(format!("{} bytes of garbage: {e:?}", g.len())),
        }
        return Ok(Outcome::new(g.len() > 4000, vec!["sans-io"]));
    }
    let local = Local { initiator: c.initiator, magic, garbage: Some(c.garbage.clone()), decoys: None };
    let remote = Remote { rseed: c.seed, hs: PeerHs::plain(), session: vec![] };
    let sh = Wire::new(local, remote, Sched(vec![]), Sched(vec![]));
    let r = open(c.way == 1, &sh);
    let n = lock(&sh).written.len();
    match r {
        Ok(_) => ensure!(fine, "{} bytes of garbage are accepted", g.len()),
        Err(ProtocolError::Internal(Error::TooMuchGarbage)) => {
            ensure!(!fine, "{} bytes of garbage are refused", g.len());
            ensure!(n == 0, "{n} bytes were sent before the garbage was refused");
        }
        Err(e) => return Err(format!("{} bytes of garbage: {e:?}", g.len())),
    }
    if fine {
        check_output(&sh, &[], "after the handshake")?;
    }
    Ok(Outcome::new(g.len() > 4000, vec![if c.way == 1 { "async" } else { "blocking" }]))
}

// ------------------------------------------------------------------ C09 over I/O
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct V1IoCase {
    asyn: bool,
    v1: hs::V1Case,
    local: Local,
    rsched: Sched,
}
fn v1_io_strategy(_: Tier) -> BoxedStrategy<V1IoCase> {
    (any::<bool>(), hs::v1_strategy(Tier::Quick), local(), sched()).prop_map(|(asyn, v1, local, rsched)| V1IoCase { asyn, v1, local, rsched }).boxed()
}
fn v1_io_check(c: &V1IoCase) -> CaseResult {
    let mut l = c.local.clone();
    l.magic = c.v1.magic;
    l.initiator = c.v1.initiator;
    let (k, v1) = hs::v1_bytes(&c.v1);
    let remote = Remote { rseed: c.v1.arg, hs: PeerHs::plain(), session: vec![] };
    let sh = Wire::new(l.clone(), remote, c.rsched.clone(), Sched(vec![]));
    {
        let mut w = lock(&sh);
        w.stream = k.to_vec();
        w.fault = Fault::Eof(64);
    }
    let r = open(c.asyn, &sh);
    let w = lock(&sh);
    let first = 64 + l.garbage_len();
    match r {
        Err(ProtocolError::Internal(Error::V1Protocol)) => {
            ensure!(v1, "a remote starting with {} on network {} is reported as V1", hex(&k[..8]), hex(&c.v1.magic));
            ensure!(w.written.len() == first, "{} bytes were sent to a V1 peer, key and garbage are {first}", w.written.len());
        }
        Err(e) => {
            ensure!(!v1, "a V1 remote is reported as {e:?}");
            ensure!(is_eof(&e), "end of stream after the key is reported as {e:?}");
            ensure!(w.written.len() == l.local_hs_len(), "{} bytes were sent to a V2 peer instead of {}", w.written.len(), l.local_hs_len());
        }
        Ok(_) => return Err("handshake completed without the remote's version".into()),
    }
    Ok(Outcome::new(c.v1.kind < 6, vec![if v1 { "v1" } else { "not-v1" }]))
}
impl Local {
    pub fn local_hs_len(&self) -> usize {
        100 + self.garbage_len() + self.decoys.iter().flatten().map(|d| d.len() + 20).sum::<usize>()
    }
}

// ------------------------------------------------------------------ C14
const CORE_LIMIT: usize = 4_000_000 + 13;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SizeCase {
    asyn: bool,
    initiator: bool,
    /// 0: handshake decoy, 1: version packet, 2: session packet
    place: u8,
    len: u32,
    seed: u32,
    /// Sizes of the packets in front of it: decoys of the handshake, and of the session.
    #[serde(default)]
    hs_before: Vec<u16>,
    #[serde(default)]
    session_before: Vec<u16>,
    #[serde(default)]
    garbage: u16,
}
impl SizeCase {
    fn peer(&self) -> PeerHs {
        let mut h = PeerHs::plain();
        h.garbage = Blob::R(self.garbage as u32, self.seed);
        h.decoys = self.hs_before.iter().map(|n| (0x80, Blob::R(*n as u32, 3))).collect();
        h
    }
    fn session(&self) -> Vec<(u8, Blob)> {
        if self.place < 2 { vec![] } else { self.session_before.iter().map(|n| ((n % 2) as u8 * 0x80, Blob::R(*n as u32, 5))).collect() }
    }
}
fn announce_strategy(_: Tier) -> BoxedStrategy<SizeCase> {
    let len = prop_oneof![
        3 => 3_999_980u32..4_000_040,
        2 => 4_000_014u32..16_777_216,
        1 => Just(16_777_215u32),
        1 => proptest::sample::select(dict_upto(16_777_215)),
        1 => 0u32..4_000_000,
    ];
    let before = || proptest::collection::vec(prop_oneof![3 => 0u16..40, 1 => 0u16..3000], 0..4);
    (any::<bool>(), any::<bool>(), 0u8..3, len, any::<u32>(), before(), before(), prop_oneof![1 => Just(0u16), 1 => 0u16..=4095])
        .prop_map(|(asyn, initiator, place, len, seed, hs_before, session_before, garbage)| SizeCase { asyn, initiator, place, len, seed, hs_before, session_before, garbage })
        .boxed()
}
/// Only announces the packet: its length bytes, then the end of the stream.
fn announce_stream(stream: &mut Vec<u8>, k: &Known, arg: &serde_json::Value) {
    let c: SizeCase = serde_json::from_value(arg.clone()).expect("case");
    if c.place < 2 {
        stream.truncate(64 + c.garbage as usize + 16);
        let mut tx = k.secrets.dirs(!c.initiator).0;
        let garbage = c.peer().garbage.get();
        let mut aad: &[u8] = &garbage;
        for n in &c.hs_before {
            stream.extend(tx.seal(0x80, &Blob::R(*n as u32, 3).get(), aad));
            aad = &[];
        }
        stream.extend(tx.len.crypt([c.len as u8, (c.len >> 8) as u8, (c.len >> 16) as u8]));
    } else {
        let mut tx = k.tx.clone();
        stream.extend(tx.len.crypt([c.len as u8, (c.len >> 8) as u8, (c.len >> 16) as u8]));
    }
}
const SLACK: u64 = 300_000;
fn announce_check(c: &SizeCase) -> CaseResult {
    let local = Local { initiator: c.initiator, magic: [1, 2, 3, 4], garbage: None, decoys: None };
    let remote = Remote { rseed: c.seed, hs: c.peer(), session: c.session() };
    let sh = Wire::new(local, remote, Sched(vec![]), Sched(vec![]));
    {
        let mut w = lock(&sh);
        w.mutate = Some(announce_stream);
        w.mutate_arg = serde_json::to_value(c).unwrap();
        w.eof_at_end = true;
    }
    let (e, peak);
    if c.place < 2 {
        let (r, p) = peak_of(|| open(c.asyn, &sh).map(|_| ()));
        let Err(x) = r else { return Err("handshake completed on an announced packet".into()) };
        (e, peak) = (x, p);
        let contents = c.len as usize;
        match &e {
            ProtocolError::Internal(Error::PacketTooBig) => ensure!(contents + 17 > 4_000_014, "a handshake packet of {contents} bytes is refused as too big"),
            e if is_eof(e) => ensure!(contents <= CORE_LIMIT, "a handshake packet of {contents} bytes is not refused before its body"),
            e => return Err(format!("announced handshake packet of {contents} bytes: {e:?}")),
        }
        ensure!(peak <= 4_000_100 + SLACK, "announcing a handshake packet of {contents} bytes made the handshake hold {peak} bytes");
        if matches!(e, ProtocolError::Internal(_)) {
            ensure!(peak <= SLACK, "{peak} bytes were held for a refused packet");
        }
    } else {
        let mut p = open(c.asyn, &sh).map_err(|e| format!("handshake: {e:?}"))?;
        for (i, (h, b)) in c.session().iter().enumerate() {
            let m = p.read(&sh).map_err(|e| format!("packet {i} before the announced one: {e:?}"))?;
            same_packet(&format!("packet {i} before the announced one"), &m, *h, b)?;
        }
        let (r, pk) = peak_of(|| p.read(&sh).map(|_| ()));
        let Err(x) = r else { return Err("a packet was delivered of which only the length was received".into()) };
        (e, peak) = (x, pk);
        let contents = c.len as usize;
        match &e {
            ProtocolError::Internal(Error::PacketTooBig) => ensure!(contents > CORE_LIMIT - 16, "a packet of {contents} bytes is refused as too big"),
            e if is_eof(e) => {}
            e => return Err(format!("announced packet of {contents} bytes: {e:?}")),
        }
        ensure!(peak <= contents as u64 + 100 + SLACK, "announcing a packet of {contents} bytes made the reader hold {peak} bytes");
    }
    let cl = match (c.place < 2, matches!(e, ProtocolError::Internal(_))) {
        (true, true) => "handshake-refused",
        (true, false) => "handshake-awaited",
        (false, true) => "session-refused",
        (false, false) => "session-awaited",
    };
    Ok(Outcome::new(c.len >= 65_536, vec![cl]))
}
fn deliver_list(t: Tier) -> Vec<SizeCase> {
    let mut v = vec![];
    let sizes: &[u32] = &[3_999_996, 3_999_997, 3_999_998, 4_000_000, 4_000_012, 4_000_013, 4_000_014, 4_000_015, 4_000_029, 4_000_030, 4_000_031, 4_100_000, 65_535, 65_536, 131_072, 1 << 20, 1 << 21];
    for len in sizes {
        for place in 0..3 {
            for asyn in [false, true] {
                let k = len + place as u32;
                let before = vec![k as u16 % 50; (k % 3) as usize + (place == 1 && k % 7 == 0) as usize];
                v.push(SizeCase { asyn, initiator: k % 2 == 0, place, len: *len, seed: 7, hs_before: if place < 2 { before.clone() } else { vec![] }, session_before: if place < 2 { vec![] } else { before }, garbage: (k % 5) as u16 * 700 });
                v.push(SizeCase { asyn, initiator: k % 3 == 0, place, len: *len, seed: 7, hs_before: vec![], session_before: vec![], garbage: 0 });
            }
        }
    }
    for len in [8_000_000u32, 8_000_030, 8_388_607, 8_388_608, 8_400_000, 12_000_000, 16_000_000, (1 << 24) - 1] {
        v.push(SizeCase { asyn: true, initiator: len % 3 == 0, place: 2, len, seed: 9, hs_before: vec![], session_before: vec![2], garbage: 5 });
    }
    if t == Tier::Thorough {
        for len in [8 << 20, (1 << 24) - 1, 3_000_000, 16_000_000] {
            for place in 0..3 {
                for asyn in [false, true] {
                    v.push(SizeCase { asyn, initiator: true, place, len, seed: 8, hs_before: vec![3], session_before: vec![1], garbage: 0 });
                }
            }
        }
    }
    v
}
/// The whole packet is there.
fn deliver_check(c: &SizeCase) -> CaseResult {
    let n = c.len as usize;
    let local = Local { initiator: c.initiator, magic: [1, 2, 3, 4], garbage: None, decoys: None };
    let big = Blob::R(c.len, c.seed);
    let mut hs = c.peer();
    let mut session = c.session();
    let before = session.len();
    match c.place {
        0 => hs.decoys.push((0x80, big.clone())),
        1 => hs.version = big.clone(),
        _ => session.push((0u8, big.clone())),
    }
    session.push((0, Blob::R(5, 5)));
    let sh = Wire::new(local, Remote { rseed: c.seed, hs, session }, Sched(vec![]), Sched(vec![]));
    lock(&sh).eof_at_end = true;
    let r = open(c.asyn, &sh);
    if c.place < 2 {
        match r {
            Ok(mut p) => {
                ensure!(n <= CORE_LIMIT, "a handshake packet of {n} bytes is accepted");
                let m = p.read(&sh).map_err(|e| format!("packet behind a handshake packet of {n} bytes: {e:?}"))?;
                ensure!(m.contents() == Blob::R(5, 5).get(), "packet differs");
            }
            Err(ProtocolError::Internal(Error::PacketTooBig)) => {
                ensure!(n + 17 > 4_000_014, "a handshake packet of {n} bytes is refused");
                let w = lock(&sh);
                let front = 64 + 16 + 3 + c.garbage as usize + c.hs_before.iter().map(|n| *n as usize + 20).sum::<usize>();
                ensure!(w.pos <= front + 4096, "{} bytes were read of a refused handshake packet", w.pos);
            }
            Err(e) => return Err(format!("handshake packet of {n} bytes: {e:?}")),
        }
    } else {
        let mut p = r.map_err(|e| format!("handshake: {e:?}"))?;
        for i in 0..before {
            let m = p.read(&sh).map_err(|e| format!("packet {i} before the large one: {e:?}"))?;
            let (h, b) = &c.session()[i];
            same_packet(&format!("packet {i} before the large one"), &m, *h, b)?;
        }
        match p.read(&sh) {
            Ok(m) => {
                ensure!(c.asyn || n <= CORE_LIMIT, "the blocking reader accepts a packet of {n} bytes");
                ensure!(m.contents() == &big.get()[..], "packet of {n} bytes differs");
                let m = p.read(&sh).map_err(|e| format!("packet behind one of {n} bytes: {e:?}"))?;
                ensure!(m.contents() == Blob::R(5, 5).get(), "packet differs");
            }
            Err(ProtocolError::Internal(Error::PacketTooBig)) => ensure!(n > CORE_LIMIT && !c.asyn, "a packet of {n} bytes is refused"),
            Err(e) => return Err(format!("packet of {n} bytes: {e:?}")),
        }
    }
    Ok(Outcome::new(true, vec![if n > CORE_LIMIT { "above-limit" } else { "within-limit" }]))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SendCase {
    /// 0 blocking, 1 async, 2 encrypt
    way: u8,
    initiator: bool,
    sizes: Vec<u32>,
}
fn send_list(t: Tier) -> Vec<SendCase> {
    let mut v = vec![];
    let m = 1u32 << 24;
    let mut lists: Vec<Vec<u32>> = vec![vec![3, m, 4], vec![m - 1, 7], vec![m + 5, m + 65_536, 1], vec![65_535, 65_536, 4_000_014, 0], vec![2 * m, 2]];
    if t == Tier::Thorough {
        lists.push(vec![m - 2, m, m - 1, m + 1, 9]);
        lists.push(vec![8 * m, 3]);
    }
    for (i, sizes) in lists.into_iter().enumerate() {
        for way in 0..3 {
            v.push(SendCase { way, initiator: i % 2 == 0, sizes: sizes.clone() });
        }
    }
    v
}
fn send_check(c: &SendCase) -> CaseResult {
    let max = (1usize << 24) - 1;
    if c.way == 2 {
        let (mut s, mut peer) = establish(3, 4, c.initiator, [1, 2, 3, 4])?;
        for n in &c.sizes {
            let m = vec![(*n % 251) as u8; *n as usize];
            let mut buf = vec![0u8; bip324::OutboundCipher::encryption_buffer_len(m.len())];
            match s.outbound().encrypt(&m, &mut buf, PacketType::Genuine, None) {
                Ok(()) => {
                    ensure!(m.len() <= max, "contents of {n} bytes are encrypted");
                    ensure!(peer.rx.open(&buf, &[]) == Some((0, m)), "the peer cannot decrypt {n} bytes");
                }
                Err(Error::PacketTooBig) => ensure!(m.len() > max, "contents of {n} bytes are refused"),
                Err(e) => return Err(format!("contents of {n} bytes: {e:?}")),
            }
        }
        return Ok(Outcome::new(true, vec!["encrypt"]));
    }
    let local = Local { initiator: c.initiator, magic: [1, 2, 3, 4], garbage: None, decoys: None };
    let sh = Wire::new(local, Remote { rseed: 9, hs: PeerHs::plain(), session: vec![] }, Sched(vec![]), Sched(vec![]));
    let mut p = open(c.way == 1, &sh).map_err(|e| format!("handshake: {e:?}"))?;
    let mut sent = vec![];
    for n in &c.sizes {
        let m = vec![(*n % 251) as u8; *n as usize];
        let before = lock(&sh).written.len();
        match p.write(&sh, &payload(false, &m)) {
            Ok(()) => {
                ensure!(m.len() <= max, "contents of {n} bytes are sent");
                sent.push((false, m));
            }
            Err(ProtocolError::Internal(Error::PacketTooBig)) => {
                ensure!(m.len() > max, "contents of {n} bytes are refused");
                ensure!(lock(&sh).written.len() == before, "part of a refused packet was sent");
            }
            Err(e) => return Err(format!("contents of {n} bytes: {e:?}")),
        }
    }
    check_output(&sh, &sent, "after sending large packets")?;
    Ok(Outcome::new(true, vec![if c.way == 1 { "async" } else { "blocking" }]))
}

// ------------------------------------------------------------------ C15, C24
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mut {
    /// (section, offset, bit)
    Flip(u8, u16, u8),
    Set(u8, u16, u8),
    Del(u8, u16, u16),
    Ins(u8, u16, Blob),
    Dup(u8, u16, u16),
    Cut(u8, u16),
    /// Everything from there on is replaced.
    Tail(u8, u16, Blob),
    Zero(u8, u16, u16),
    SwapSections(u8, u8),
    /// Literal network magic and version message.
    Magic(u8, u16),
}
fn mutation() -> BoxedStrategy<Mut> {
    let s = || any::<u8>();
    let o = || prop_oneof![4 => 0u16..24, 2 => 0u16..300, 1 => any::<u16>()];
    prop_oneof![
        5 => (s(), o(), 0u8..8).prop_map(|(a, b, c)| Mut::Flip(a, b, c)),
        2 => (s(), o(), any::<u8>()).prop_map(|(a, b, c)| Mut::Set(a, b, c)),
        2 => (s(), o(), 1u16..40).prop_map(|(a, b, c)| Mut::Del(a, b, c)),
        2 => (s(), o(), blob(60)).prop_map(|(a, b, c)| Mut::Ins(a, b, c)),
        1 => (s(), o(), 1u16..200).prop_map(|(a, b, c)| Mut::Dup(a, b, c)),
        2 => (s(), o()).prop_map(|(a, b)| Mut::Cut(a, b)),
        2 => (s(), o(), blob(6000)).prop_map(|(a, b, c)| Mut::Tail(a, b, c)),
        1 => (s(), o(), 1u16..40).prop_map(|(a, b, c)| Mut::Zero(a, b, c)),
        1 => (s(), s()).prop_map(|(a, b)| Mut::SwapSections(a, b)),
        1 => (s(), o()).prop_map(|(a, b)| Mut::Magic(a, b)),
    ]
    .boxed()
}
fn apply(stream: &mut Vec<u8>, marks: &[usize], magic: &[u8; 4], muts: &[Mut]) {
    let mut starts = vec![0];
    starts.extend_from_slice(marks);
    for m in muts {
        let len = stream.len();
        let at = |s: u8, o: u16| (starts[s as usize % starts.len()] + o as usize).min(len.saturating_sub(1));
        if len == 0 {
            continue;
        }
        match m {
            Mut::Flip(s, o, b) => {
                let i = at(*s, *o);
                stream[i] ^= 1 << (b % 8);
            }
            Mut::Set(s, o, b) => {
                let i = at(*s, *o);
                stream[i] = *b;
            }
            Mut::Del(s, o, n) => {
                let i = at(*s, *o);
                let e = (i + *n as usize).min(len);
                stream.drain(i..e);
            }
            Mut::Ins(s, o, b) => {
                let i = at(*s, *o);
                let t = stream.split_off(i);
                stream.extend(b.get());
                stream.extend(t);
            }
            Mut::Dup(s, o, n) => {
                let i = at(*s, *o);
                let e = (i + *n as usize).min(len);
                let d = stream[i..e].to_vec();
                let t = stream.split_off(e);
                stream.extend(d);
                stream.extend(t);
            }
            Mut::Cut(s, o) => {
                let i = at(*s, *o);
                stream.truncate(i);
            }
            Mut::Tail(s, o, b) => {
                let i = at(*s, *o);
                stream.truncate(i);
                stream.extend(b.get());
            }
            Mut::Zero(s, o, n) => {
                let i = at(*s, *o);
                let e = (i + *n as usize).min(len);
                stream[i..e].fill(0);
            }
            Mut::SwapSections(a, b) => {
                let n = marks.len();
                let (a, b) = ((*a as usize % n).min(*b as usize % n), (*a as usize % n).max(*b as usize % n));
                if a == b || marks[b] > len {
                    continue;
                }
                let (a0, a1, b0, b1) = (starts[a], starts[a + 1], starts[b], starts[b + 1]);
                let mut v = stream[..a0].to_vec();
                v.extend(&stream[b0..b1]);
                v.extend(&stream[a1..b0]);
                v.extend(&stream[a0..a1]);
                v.extend(&stream[b1..]);
                *stream = v;
            }
            Mut::Magic(s, o) => {
                let i = at(*s, *o);
                let mut t = magic.to_vec();
                t.extend(b"version\0\0\0\0\0");
                let e = (i + 16).min(len);
                stream[i..e].copy_from_slice(&t[..e - i]);
            }
        }
    }
}
fn mutate_stream(stream: &mut Vec<u8>, k: &Known, arg: &serde_json::Value) {
    let muts: Vec<Mut> = serde_json::from_value(arg[0].clone()).expect("mutations");
    let magic: [u8; 4] = serde_json::from_value(arg[1].clone()).expect("magic");
    apply(stream, &k.marks, &magic, &muts);
}
#[derive(Clone, Debug, PartialEq)]
pub enum Class {
    Io(bool),
    Internal(Error),
}
fn class(e: &ProtocolError) -> Class {
    match e {
        ProtocolError::Io(..) => Class::Io(io_err(e).unwrap().1),
        ProtocolError::Internal(e) => Class::Internal(*e),
    }
}
#[derive(Debug)]
pub struct Trace {
    hs: Result<(), Class>,
    delivered: Vec<(bool, Vec<u8>)>,
    /// How many packets were delivered before the first error.
    clean: usize,
    end: Option<Class>,
    written: Vec<u8>,
    stream: Vec<u8>,
    honest: Vec<u8>,
    marks: Vec<usize>,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Way {
    Blocking,
    Async,
    SansIo,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MutCase {
    way: Way,
    local: Local,
    remote: Remote,
    rsched: Sched,
    muts: Vec<Mut>,
    sends: Vec<(bool, Blob)>,
}
fn trace(way: Way, c: &MutCase, after_error: usize) -> Result<Trace, String> {
    let sh = Wire::new(c.local.clone(), c.remote.clone(), c.rsched.clone(), Sched(vec![]));
    {
        let mut w = lock(&sh);
        w.mutate = Some(mutate_stream);
        w.mutate_arg = serde_json::json!([c.muts, c.local.magic]);
        w.eof_at_end = true;
    }
    let mut t = Trace { hs: Ok(()), delivered: vec![], clean: 0, end: None, written: vec![], stream: vec![], honest: vec![], marks: vec![] };
    let cap = c.remote.session.len() + c.remote.hs.decoys.len() + 12;
    if way == Way::SansIo {
        sans(c, &sh, &mut t, cap, after_error)?;
    } else {
        match open(way == Way::Async, &sh) {
            Err(e) => t.hs = Err(class(&e)),
            Ok(mut p) => {
                for (d, b) in &c.sends {
                    p.write(&sh, &payload(*d, &b.get())).map_err(|e| format!("write: {e:?}"))?;
                }
                let mut errs = 0;
                for _ in 0..cap {
                    match p.read(&sh) {
                        Ok(m) => {
                            t.delivered.push((is_decoy(&m), m.contents().to_vec()));
                            if t.end.is_none() {
                                t.clean += 1;
                            }
                        }
                        Err(e) => {
                            if t.end.is_none() {
                                t.end = Some(class(&e));
                            }
                            errs += 1;
                            if errs > after_error {
                                break;
                            }
                        }
                    }
                }
            }
        }
    }
    let w = lock(&sh);
    let k = w.known.as_ref().ok_or("the key was not sent")?;
    t.written = w.written.clone();
    t.stream = w.stream.clone();
    t.honest = w.honest.clone();
    t.marks = k.marks.clone();
    Ok(t)
}
/// The same connection driven by hand through the sans-IO interface.
fn sans(c: &MutCase, sh: &Shared, t: &mut Trace, cap: usize, after_error: usize) -> Result<(), String> {
    let l = &c.local;
    let (g, d) = (l.garbage_vec(), l.decoys_vec());
    let hs = Handshake::<Initialized>::new(l.magic, role_of(l.initiator)).map_err(|e| format!("{e:?}"))?;
    let mut buf = vec![0u8; Handshake::<Initialized>::send_key_len(g.as_deref())];
    let hs = hs.send_key(g.as_deref(), &mut buf).map_err(|e| format!("send_key: {e:?}"))?;
    let mut w = SyncW(sh.clone());
    w.write_all(&buf).unwrap();
    w.flush().unwrap();
    let stream = lock(sh).stream.clone();
    if stream.len() < 64 {
        t.hs = Err(Class::Io(true));
        return Ok(());
    }
    let hs = match hs.receive_key(stream[..64].try_into().unwrap()) {
        Ok(h) => h,
        Err(e) => {
            t.hs = Err(Class::Internal(e));
            return Ok(());
        }
    };
    let refs: Option<Vec<&[u8]>> = d.as_ref().map(|d| d.iter().map(|x| x.as_slice()).collect());
    let mut buf = vec![0u8; Handshake::<ReceivedKey>::send_version_len(refs.as_deref())];
    let hs = hs.send_version(&mut buf, refs.as_deref()).map_err(|e| format!("send_version: {e:?}"))?;
    w.write_all(&buf).unwrap();
    w.flush().unwrap();
    let cuts: Vec<u32> = c.rsched.0.iter().filter_map(|s| if let Step::N(n) = s { Some(*n) } else { None }).collect();
    let mut done = match hs::finish(hs, &stream[64..], &cuts) {
        Ok(d) => d,
        Err(hs::Stop::NeedMore) => {
            t.hs = Err(Class::Io(true));
            return Ok(());
        }
        Err(hs::Stop::Err(e)) => {
            t.hs = Err(Class::Internal(e));
            return Ok(());
        }
    };
    for (d, b) in &c.sends {
        let m = b.get();
        let p = done.cipher.outbound().encrypt_to_vec(&m, if *d { PacketType::Decoy } else { PacketType::Genuine }, None);
        w.write_all(&p).unwrap();
        w.flush().unwrap();
    }
    let mut at = 64 + done.used;
    let mut errs = 0;
    for _ in 0..cap {
        let mut fail = |e: Class, t: &mut Trace| {
            if t.end.is_none() {
                t.end = Some(e);
            }
            errs += 1;
            errs > after_error
        };
        let Some(lb) = stream.get(at..at + 3) else {
            fail(Class::Io(true), t);
            break;
        };
        at += 3;
        let n = done.cipher.inbound().decrypt_packet_len(lb.try_into().unwrap());
        let Some(b) = stream.get(at..at + n) else {
            fail(Class::Io(true), t);
            break;
        };
        at += n;
        match done.cipher.inbound().decrypt_to_vec(b, None) {
            Ok((ty, p)) => {
                t.delivered.push((ty == PacketType::Decoy, p[1..].to_vec()));
                if t.end.is_none() {
                    t.clean += 1;
                }
            }
            Err(e) => {
                if fail(Class::Internal(e), t) {
                    break;
                }
            }
        }
    }
    Ok(())
}
fn hostile_strategy(_: Tier) -> BoxedStrategy<MutCase> {
    let hs = prop_oneof![2 => peer_hs(), 2 => (blob(60), prop_oneof![30 => proptest::collection::vec((Just(0x80u8), blob(20)), 0..3), 1 => proptest::collection::vec((Just(0x80u8), blob(2)), 200..300)]).prop_map(|(garbage, decoys)| PeerHs { garbage, decoys, version_header: 0, version: Blob::empty() }), 1 => Just(PeerHs::plain())];
    let remote = (any::<u32>(), hs, session_packets(6)).prop_map(|(rseed, hs, session)| Remote { rseed, hs, session });
    let sl = (any::<bool>(), magic(), proptest::option::of(blob(60)), proptest::option::of(proptest::collection::vec(blob(20), 0..3))).prop_map(|(initiator, magic, garbage, decoys)| Local { initiator, magic, garbage, decoys });
    (prop_oneof![Just(Way::Blocking), Just(Way::Async), Just(Way::SansIo)], sl, remote, sched(), proptest::collection::vec(mutation(), 1..4), proptest::collection::vec((any::<bool>(), blob(30)), 0..3))
        .prop_map(|(way, local, remote, rsched, muts, sends)| MutCase { way, local, remote, rsched, muts, sends })
        .boxed()
}
fn hostile_check(c: &MutCase) -> CaseResult {
    let t = trace(c.way, c, 3)?;
    let honest: Vec<(bool, Vec<u8>)> = c.remote.session.iter().map(|(h, b)| (h & 0x80 != 0, b.get())).collect();
    let d = t.stream.iter().zip(&t.honest).take_while(|(a, b)| a == b).count();
    let v1 = t.stream.len() >= 4 && t.stream[..4] == c.local.magic;
    let complete = d >= t.marks[3] && !v1;
    match &t.hs {
        Ok(()) => ensure!(complete, "handshake completed although the remote's bytes differ from byte {d}, its version ends at {}", t.marks[3]),
        Err(e) => ensure!(!complete, "handshake failed ({e:?}) although the remote's bytes are intact up to {d}"),
    }
    let mut cl = vec![match c.way {
        Way::Blocking => "blocking",
        Way::Async => "async",
        Way::SansIo => "sans-io",
    }];
    if t.hs.is_ok() {
        let intact = t.marks[4..].iter().take_while(|m| **m <= d).count();
        ensure!(t.clean >= intact, "only {} of {intact} intact packets were delivered, then {:?}", t.clean, t.end);
        ensure!(t.clean == intact, "packet {intact} was altered but {} packets were delivered", t.clean);
        // In order, each from its own position or later, nothing invented.
        let mut next = 0;
        for (k, m) in t.delivered.iter().enumerate() {
            match honest[next.min(honest.len())..].iter().position(|h| h == m) {
                Some(i) => {
                    ensure!(k >= t.clean || i == 0, "packet {k} delivered out of order");
                    next += i + 1;
                }
                None => return Err(format!("a packet was delivered that the remote did not send (after {k}): {} bytes", m.1.len())),
            }
        }
        cl.push("session");
    } else {
        cl.push("handshake");
    }
    Ok(Outcome::new(t.stream != t.honest, cl))
}
fn equal_strategy(_: Tier) -> BoxedStrategy<MutCase> {
    (
        local(),
        remote(6),
        sched(),
        prop_oneof![1 => Just(vec![]).boxed(), 1 => proptest::collection::vec(mutation(), 1..3).boxed()],
        proptest::collection::vec((any::<bool>(), contents()), 0..4),
    )
        .prop_map(|(local, remote, rsched, muts, sends)| MutCase { way: Way::SansIo, local, remote, rsched, muts, sends })
        .boxed()
}
fn equal_check(c: &MutCase) -> CaseResult {
    let seed = hash64(&c.remote.rseed.to_le_bytes());
    let a = sub_thread(seed, || trace(Way::Blocking, c, 0))?;
    let b = sub_thread(seed, || trace(Way::Async, c, 0))?;
    let s = sub_thread(seed, || trace(Way::SansIo, c, 0))?;
    let too_big = |t: &Trace| t.hs == Err(Class::Internal(Error::PacketTooBig)) || t.end == Some(Class::Internal(Error::PacketTooBig));
    for (name, x, y) in [("blocking and async", &a, &b), ("sans-IO and blocking", &s, &a), ("sans-IO and async", &s, &b)] {
        // Only the blocking reader and the I/O handshakes have an allocation limit.
        let limit = too_big(x) || too_big(y);
        // Entropy may be drawn differently; then what follows from the keys differs too.
        let same = x.written[..64] == y.written[..64];
        if !same && !c.muts.is_empty() {
            continue;
        }
        ensure!(!same || x.written == y.written, "{name}: bytes sent differ: {}", first_diff(&x.written, &y.written));
        ensure!(limit || x.hs == y.hs, "{name}: handshake results differ: {:?} and {:?}", x.hs, y.hs);
        ensure!(x.delivered == y.delivered, "{name}: {} and {} packets delivered", x.delivered.len(), y.delivered.len());
        ensure!(limit || x.end == y.end, "{name}: sessions end with {:?} and {:?}", x.end, y.end);
    }
    let cl = match (&a.hs, c.muts.is_empty()) {
        (_, true) => "honest",
        (Ok(()), _) => "altered-session",
        (Err(Class::Io(_)), _) => "altered-handshake-eof",
        (Err(_), _) => "altered-handshake-refused",
    };
    Ok(Outcome::new(c.remote.hs.garbage.len() > 0 || !c.muts.is_empty(), vec![cl]))
}

// ------------------------------------------------------------------ C22
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SplitCase {
    asyn: bool,
    local: Local,
    remote: Remote,
    rsched: Sched,
    wsched: Sched,
    ahead: Option<u8>,
    /// Take the handshake function instead of the protocol type.
    bare: bool,
    whole: Vec<Op>,
    halves: Vec<Op>,
    parts: Vec<Op>,
}
fn split_case(asyn: bool) -> BoxedStrategy<SplitCase> {
    let small = |n| ops(n);
    (local(), remote(10), sched(), sched(), proptest::option::of(0u8..3), proptest::bool::weighted(0.25), (small(5), small(5), small(8)))
        .prop_map(move |(local, remote, rsched, wsched, ahead, bare, (whole, halves, parts))| SplitCase { asyn, local, remote, rsched, wsched, ahead, bare, whole, halves, parts })
        .boxed()
}
fn split_sync(_: Tier) -> BoxedStrategy<SplitCase> {
    split_case(false)
}
fn split_async(_: Tier) -> BoxedStrategy<SplitCase> {
    split_case(true)
}
struct Book<'a> {
    c: &'a SplitCase,
    sh: &'a Shared,
    next: usize,
    sent: Vec<(bool, Vec<u8>)>,
}
impl Book<'_> {
    fn release(&self) -> bool {
        if self.next >= self.c.remote.session.len() {
            return false;
        }
        lock(self.sh).released = self.next + 1 + self.c.ahead.unwrap_or(0) as usize;
        true
    }
    fn got(&mut self, phase: &str, r: Result<Payload, ProtocolError>) -> Result<(), String> {
        let n = self.next;
        let p = r.map_err(|e| format!("{phase}: packet {n}: {e:?}"))?;
        let (h, b) = &self.c.remote.session[n];
        same_packet(&format!("{phase}: packet {n}"), &p, *h, b)?;
        self.next += 1;
        Ok(())
    }
    fn raw(&mut self, cipher: &mut bip324::InboundCipher, len: [u8; 3], body: &mut dyn FnMut(usize) -> Result<Vec<u8>, String>) -> Result<(), String> {
        let n = self.next;
        let (h, b) = &self.c.remote.session[n];
        let l = cipher.decrypt_packet_len(len);
        ensure!(l == b.len() + 17, "taken apart: packet {n} has length {l} instead of {}", b.len() + 17);
        let body = body(l)?;
        let (t, p) = cipher.decrypt_to_vec(&body, None).map_err(|e| format!("taken apart: packet {n}: {e:?}"))?;
        ensure!((t == PacketType::Decoy) == (h & 0x80 != 0) && p[0] == *h && p[1..] == b.get()[..], "taken apart: packet {n} differs");
        self.next += 1;
        Ok(())
    }
}
macro_rules! plain {
    ($sh:expr, $e:expr) => {
        $e
    };
}
macro_rules! polled {
    ($sh:expr, $e:expr) => {
        run($e, $sh)
    };
}
macro_rules! split_fn {
    ($name:ident, $m:ident, $x:ident, $R:ident, $W:ident) => {
        fn $name(c: &SplitCase, sh: &Shared) -> Result<(usize, usize), String> {
            let (l, role) = (&c.local, role_of(c.local.initiator));
            let mut bk = Book { c, sh, next: 0, sent: vec![] };
            let (mut inb, mut outb, mut rd, mut wr);
            if c.bare {
                wr = $W(sh.clone());
                (inb, outb, rd) = $x!(sh, bip324::$m::handshake(l.magic, role, l.garbage_vec(), l.decoys_vec(), $R(sh.clone()), &mut wr)).map_err(|e| format!("handshake: {e:?}"))?;
            } else {
                let mut p = $x!(sh, bip324::$m::Protocol::new(l.magic, role, l.garbage_vec(), l.decoys_vec(), $R(sh.clone()), $W(sh.clone()))).map_err(|e| format!("handshake: {e:?}"))?;
                for op in &c.whole {
                    match op {
                        Op::Read => {
                            if bk.release() {
                                let r = $x!(sh, p.read());
                                bk.got("whole", r)?;
                            }
                        }
                        Op::Write(d, b) => {
                            let m = b.get();
                            $x!(sh, p.write(&payload(*d, &m))).map_err(|e| format!("write: {e:?}"))?;
                            bk.sent.push((*d, m));
                        }
                        Op::Relay => {}
                    }
                }
                let (mut r, mut w) = p.into_split();
                for op in &c.halves {
                    match op {
                        Op::Read => {
                            if bk.release() {
                                let x = $x!(sh, r.read());
                                bk.got("split", x)?;
                            }
                        }
                        Op::Write(d, b) => {
                            let m = b.get();
                            $x!(sh, w.write(&payload(*d, &m))).map_err(|e| format!("write after the split: {e:?}"))?;
                            bk.sent.push((*d, m));
                        }
                        Op::Relay => {}
                    }
                }
                (inb, rd) = r.into_inner();
                (outb, wr) = w.into_inner();
            }
            let before = bk.next;
            let reads = std::iter::repeat(&Op::Read).take(c.remote.session.len());
            for op in c.parts.iter().chain(reads) {
                match op {
                    Op::Read => {
                        if bk.release() {
                            let mut l = [0u8; 3];
                            $x!(sh, rd.read_exact(&mut l)).map_err(|e| format!("taken apart: reading: {e:?}"))?;
                            bk.raw(&mut inb, l, &mut |n| {
                                let mut b = vec![0u8; n];
                                $x!(sh, rd.read_exact(&mut b)).map_err(|e| format!("taken apart: reading: {e:?}"))?;
                                Ok(b)
                            })?;
                        }
                    }
                    Op::Write(d, b) => {
                        let m = b.get();
                        let p = outb.encrypt_to_vec(&m, if *d { PacketType::Decoy } else { PacketType::Genuine }, None);
                        $x!(sh, wr.write_all(&p)).map_err(|e| format!("{e:?}"))?;
                        $x!(sh, wr.flush()).map_err(|e| format!("{e:?}"))?;
                        bk.sent.push((*d, m));
                    }
                    Op::Relay => {}
                }
            }
            ensure!(bk.next == c.remote.session.len(), "HARNESS:not all packets were read");
            // Nothing is left over but the end.
            lock(sh).eof_at_end = true;
            let mut b = [0u8; 64];
            let r = $x!(sh, rd.read(&mut b));
            let r = match r {
                Err(e) if e.kind() == ErrorKind::Interrupted => Ok(0),
                r => r,
            };
            ensure!(matches!(r, Ok(0)), "taken apart: reading at the end gives {r:?}");
            check_output(sh, &bk.sent, "at the end")?;
            Ok((before, bk.sent.len()))
        }
    };
}
split_fn!(split_blocking, io, plain, SyncR, SyncW);
split_fn!(split_polled, futures, polled, AsyncR, AsyncW);
fn split_check(c: &SplitCase) -> CaseResult {
    if remote_ell(c.remote.rseed)[..4] == c.local.magic {
        return Ok(Outcome::default());
    }
    let sh = Wire::new(c.local.clone(), c.remote.clone(), c.rsched.clone(), c.wsched.clone());
    {
        let mut w = lock(&sh);
        w.strict = c.ahead.is_some();
        w.released = c.ahead.unwrap_or(0) as usize;
    }
    let (before, sent) = if c.asyn { split_polled(c, &sh)? } else { split_blocking(c, &sh)? };
    let n = c.remote.session.len();
    Ok(Outcome::new(n > before && (sent > 0 || before > 0 || c.bare), vec![if c.bare { "from-handshake" } else if before > 0 { "mid-session" } else { "before-first-packet" }]))
}
#[allow(unused)]
fn unused(b: &[u8]) -> Vec<u8> {
    unhex(&hex(b))
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C08",
            level: "exploration",
            rule: "Garbage assembled from random bytes, terminator prefixes/suffixes, near misses, the local terminator and padding to boundaries, with the real terminator anywhere or nowhere, fed in arbitrary pieces to the sans-IO handshake and both drivers; local garbage around 4095 bytes. Non-trivial: more than one piece, or local garbage above 4000 bytes.",
            assumptions: &["a terminator occurring by chance is negligible (checked per case)"],
            families: vec![hs::search(), family("bounded", 16_000, 200_000, garbage_strategy, garbage_check), family("local", 20_000, 100_000, local_garbage_strategy, local_garbage_check)],
        },
        Property {
            id: "C09",
            level: "exploration",
            rule: "First 64 remote bytes: version messages of this and other networks, magic plus anything, partial, reversed or shifted magic, or a key; all drivers. Non-trivial: everything but plain keys.",
            assumptions: &[],
            families: vec![hs::v1_sans(), family("drivers", 40_000, 400_000, v1_io_strategy, v1_io_check)],
        },
        Property {
            id: "C10",
            level: "exploration",
            rule: "A blocking session with a model peer over a transport following a random call-by-call schedule of transfer sizes and interruptions; the remote is eager or in lock step. Non-trivial: packets are received and the transport fragments, or packets arrived together with the handshake.",
            assumptions: &["flush is not interrupted: the standard library does not retry it"],
            families: vec![family("session", 30_000, 400_000, session_sync, session_check), family("large", 300, 10_000, large_sync, session_check), enumerate("decoys", decoys_sync, decoys_check)],
        },
        Property {
            id: "C11",
            level: "exploration",
            rule: "An async session with a model peer over a transport following a random poll-by-poll schedule of readiness and transfer sizes; futures are polled by hand; the remote is eager or in lock step. Non-trivial: packets are received and the transport fragments, or packets arrived together with the handshake.",
            assumptions: &[],
            families: vec![family("session", 30_000, 400_000, session_async, session_check), family("large", 300, 10_000, large_async, session_check), enumerate("decoys", decoys_async, decoys_check)],
        },
        Property {
            id: "C12",
            level: "exploration",
            rule: "Reads are dropped after a random number of unready polls and retried, over random readiness schedules. Non-trivial: at least one read was dropped after it had taken bytes from the transport.",
            assumptions: &[],
            families: vec![family("cancel", 40_000, 500_000, cancel_strategy, cancel_check), family("cancel-large", 1_500, 40_000, cancel_big_strategy, cancel_check)],
        },
        Property {
            id: "C13",
            level: "fault_enumeration",
            rule: "sweep: for a random small connection, one fault kind at every byte offset (or flush) of it; faults: one fault at a random offset of a larger connection. Non-trivial: the fault struck.",
            assumptions: &["one fault per connection"],
            families: vec![family("sweep", 4_000, 60_000, sweep_strategy, sweep_check), family("faults", 20_000, 300_000, fault_strategy, fault_check)],
        },
        Property {
            id: "C14",
            level: "exploration",
            rule: "announce: only the length of a packet arrives, sizes weighted to the boundaries, memory counted; deliver: whole packets around the limit (fixed list); send: contents around 2^24 (fixed list). Non-trivial: at least 64 KiB.",
            assumptions: &["contents between 3,999,998 and 4,000,013 bytes may be refused or accepted in the handshake"],
            families: vec![family("announce", 12_000, 100_000, announce_strategy, announce_check), enumerate("deliver", deliver_list, deliver_check), enumerate("send", send_list, send_check)],
        },
        Property {
            id: "C15",
            level: "exploration",
            rule: "Structured mutations (flips, deletions, insertions, duplications, truncations, replaced tails, swapped sections, V1 magic) of an honest peer's stream, through all three interfaces. Non-trivial: the stream really differs.",
            assumptions: &["forging a tag by chance is negligible"],
            families: vec![family("hostile", 60_000, 1_000_000, hostile_strategy, hostile_check), enumerate("decoys", decoys_any, decoys_check)],
        },
        Property {
            id: "C22",
            level: "exploration",
            rule: "A session is split and taken apart after random numbers of packets (or right after the handshake) and continued with the parts. Non-trivial: packets remain for the parts and something happened before.",
            assumptions: &[],
            families: vec![family("blocking", 16_000, 200_000, split_sync, split_check), family("async", 16_000, 200_000, split_async, split_check)],
        },
        Property {
            id: "C24",
            level: "exploration",
            rule: "The same entropy, configuration, messages and remote bytes (honest or mutated) through all three interfaces. Non-trivial: the remote sends garbage, or its stream is altered.",
            assumptions: &["the allocation limit of the blocking reader and the I/O handshakes is the only intended difference"],
            families: vec![family("differential", 20_000, 300_000, equal_strategy, equal_check), family("refused", 4_000, 40_000, local_garbage_strategy, local_garbage_check)],
        },
    ]
}
