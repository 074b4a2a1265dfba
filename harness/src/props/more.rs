//! Sending with limits, several connections, opening them, resources, logging, signals, equality.
use crate::engine::*;
use crate::gen::{self, uni, S};
use crate::model::*;
use crate::obs;
use crate::props::{codec, hand, payload, stream};
use crate::scen::*;
use crate::wire::*;
use crate::{storm, trace};
use bsp_server::types as t;
use bsp_server::Connection;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::io::Read;
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn io(what: &'static str) -> impl Fn(std::io::Error) -> Fail {
    move |e| format!("{what}: {e}").into()
}
fn norms(ms: &[Msg]) -> Vec<Norm> {
    ms.iter().map(Msg::norm).collect()
}

/// A message that carries a tag, a value and about n bytes.
pub fn tagged(tag: String, k: u8, v: &Value, n: usize) -> Msg {
    if k % 4 == 1 && k / 24 % 2 == 1 {
        return gen::typed(k / 4, Id::S(tag.clone()), &tag, n);
    }
    let pad = gen::bulk(k / 4, n);
    let body = |v: &Value| if k / 24 % 2 == 0 { pad.clone() } else { json!([v, pad]) };
    match k % 4 {
        0 => Msg::Req { id: Id::S(tag), method: "custom/c".into(), params: Params::Is(body(v)) },
        1 => Msg::Note { method: "custom/n".into(), params: Params::Is(json!({"tag": tag, "v": v, "p": pad})) },
        2 => Msg::Err { id: Id::S(tag), error: ErrM { code: -(k as i32), message: v.to_string(), data: Some(body(v)) } },
        _ => Msg::Ok { id: Id::S(tag), result: body(v) },
    }
}
pub fn tag_of(n: &Norm) -> String {
    let v = match n {
        Norm::Request { id, .. } | Norm::Success { id, .. } | Norm::Failure { id, .. } | Norm::Odd { id, .. } => id,
        Norm::Notification { params, .. } => [&params["tag"], &params["originId"], &params["taskId"]["id"], &params["changes"][0]["data"]["tag"]]
            .into_iter()
            .find(|t| t.is_string())
            .unwrap_or(&Value::Null),
    };
    v.as_str().unwrap_or("").to_string()
}

// ---------------------------------------------------------------- C27

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Seg {
    /// whether the peer reads meanwhile
    reads: bool,
    /// bytes another thread of the application is busy sending
    fill: usize,
    ops: Vec<(u8, usize, How)>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C27Case {
    tr: Tr,
    segs: Vec<Seg>,
    /// the peer goes away in the end, and these follow
    gone: Option<Vec<(u8, usize, How)>>,
}
pub struct C27;
fn hows(reads: bool) -> S<How> {
    let ms = || select(vec![0u64, 0, 1, 3, 10, 40]);
    let mut v = vec![
        (3, Just(How::Try).boxed()),
        (3, ms().prop_map(How::Timeout).boxed()),
        (3, (-1500i64..40).prop_map(How::Deadline).boxed()),
    ];
    if reads {
        v.push((4, Just(How::Plain).boxed()));
        v.push((3, Just(How::Timeout(20_000)).boxed()));
        v.push((3, Just(How::Deadline(20_000)).boxed()));
    }
    uni(v)
}
const SLACK: u64 = 12_000_000;
fn judge_timed(ops: &[(Msg, How)], out: &[Tm], alive: bool, reads: bool) -> Result<(usize, usize), Fail> {
    ensure!(out.len() == ops.len(), "{} outcomes of {} sends", out.len(), ops.len());
    let (mut ok, mut refused) = (0, 0);
    for (i, ((_, how), o)) in ops.iter().zip(out).enumerate() {
        let limit = match how {
            How::Try => 0,
            How::Plain => u64::MAX / 4,
            How::Timeout(ms) => ms * 1000,
            How::Deadline(ms) => (*ms).max(0) as u64 * 1000,
        };
        ensure!(o.micros <= limit + SLACK, "send {i} ({how:?}) took {} ms", o.micros / 1000);
        match o.result {
            0 => ok += 1,
            r => {
                refused += 1;
                ensure!(o.back, "send {i} ({how:?}) was refused and did not give the message back unchanged");
                ensure!(!alive || r == 1, "send {i} ({how:?}) says disconnected on a live connection");
                ensure!(!(alive && reads && limit >= 20_000_000), "send {i} ({how:?}) was refused although the peer reads");
                ensure!(r != 1 || o.micros + 1000 >= limit, "send {i} ({how:?}) gave up after {} ms", o.micros / 1000);
            }
        }
    }
    Ok((ok, refused))
}
impl Prop for C27 {
    type Case = C27Case;
    fn id(&self) -> &'static str {
        "C27"
    }
    fn rule(&self) -> &'static str {
        "generated sequences of the four send operations (try, timeouts and deadlines from past to generous) over TCP and stdio in phases in which the peer reads or does not and another thread fills the stream or does not, in the end perhaps with the peer gone; every outcome, its duration, the message handed back, and every byte the peer got compared with what was accepted; non-trivial: both an accepted and a refused message"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(1_800, 15)
    }
    fn patience(&self) -> Duration {
        Duration::from_secs(30)
    }
    fn threads(&self) -> usize {
        24
    }
    fn fixed(&self, _: Tier) -> Vec<C27Case> {
        let mut v = vec![];
        for tr in [Tr::Connect, Tr::Listen, Tr::Stdio] {
            for how in [How::Try, How::Timeout(0), How::Timeout(1500), How::Deadline(-1000), How::Deadline(1500)] {
                let fill = if tr == Tr::Stdio { 1 << 18 } else { 14 << 20 };
                let seg = |reads, fill| Seg { reads, fill, ops: vec![(0, 10, how), (1, 100_000, how), (3, 10, how)] };
                v.push(C27Case { tr, segs: vec![seg(true, 0), seg(false, fill), seg(true, 0)], gone: None });
                v.push(C27Case { tr, segs: vec![seg(false, 0)], gone: Some(vec![(0, 10, how); 3]) });
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> S<C27Case> {
        let size = || uni(vec![(6, (0usize..60).boxed()), (3, gen::boundary_len(1 << 14)), (1, gen::boundary_len(1 << 18))]);
        let seg = move || {
            (prop::bool::weighted(0.4), uni(vec![(8, Just(0usize).boxed()), (6, (1usize << 14..1 << 20).boxed()), (1, Just(14usize << 20).boxed())]))
                .prop_flat_map(move |(reads, fill)| vec((any::<u8>(), size(), hows(reads)), 0..8).prop_map(move |ops| Seg { reads, fill, ops }))
        };
        let size = || uni(vec![(6, (0usize..60).boxed()), (1, gen::boundary_len(1 << 14))]);
        let after = vec((any::<u8>(), size(), hows(false)), 1..8).prop_map(Some);
        (stream::tr(6), vec(seg(), 1..5), uni(vec![(3, Just(None).boxed()), (1, after.boxed())]))
            .prop_map(|(tr, mut segs, gone)| {
                for s in &mut segs {
                    if tr == Tr::Stdio {
                        s.fill = s.fill.min(1 << 19);
                    }
                }
                C27Case { tr, segs, gone }
            })
            .boxed()
    }
    fn run(&self, c: &C27Case, cx: &mut Cx) -> R {
        cx.label(format!("{:?}", c.tr));
        let (peer, mut app) = start(c.tr, cx)?;
        let Peer { mut w, mut r } = peer;
        let gate = Arc::new((Mutex::new(false), Condvar::new()));
        let set = |g: &Arc<(Mutex<bool>, Condvar)>, x: bool| {
            *g.0.lock().unwrap() = x;
            g.1.notify_all();
        };
        // the peer's reading end; `stop` ends it before the end of the stream
        let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let rd = {
            let (gate, stop) = (gate.clone(), stop.clone());
            std::thread::spawn(move || -> (Vec<u8>, Result<(), String>) {
                let mut all = vec![];
                let mut buf = vec![0; 1 << 16];
                loop {
                    {
                        let mut g = gate.0.lock().unwrap();
                        while !*g {
                            g = gate.1.wait(g).unwrap();
                        }
                    }
                    if stop.load(std::sync::atomic::Ordering::SeqCst) {
                        return (all, Ok(()));
                    }
                    match r.read(&mut buf) {
                        Ok(0) => return (all, Ok(())),
                        Ok(n) => all.extend_from_slice(&buf[..n]),
                        Err(e) => return (all, Err(e.to_string())),
                    }
                }
            })
        };
        let mut accepted: Vec<Msg> = vec![];
        let mut fills: Vec<Vec<Msg>> = vec![];
        let (mut oks, mut nos) = (0, 0);
        let mut n = 0;
        let mut mk = |ops: &[(u8, usize, How)]| -> Vec<(Msg, How)> {
            ops.iter()
                .map(|(k, size, how)| {
                    n += 1;
                    (tagged(format!("f.{n}"), *k, &json!(n), *size), *how)
                })
                .collect()
        };
        let mut res: R = Ok(());
        for (s, seg) in c.segs.iter().enumerate() {
            set(&gate, seg.reads);
            if seg.fill > 0 {
                let each = if c.tr == Tr::Stdio { 8_192 } else { 500_000 };
                let ms: Vec<Msg> = (0..(seg.fill / each).max(1)).map(|i| tagged(format!("{s}.{i}"), 4 * (i as u8 % 2), &Value::Null, each)).collect();
                want(app.call(Cmd::SendBg(ms.clone())), Ev::Done, "starting to send")?;
                fills.push(ms);
            }
            let ops = mk(&seg.ops);
            let out = match app.call(Cmd::Timed(ops.clone())) {
                Ev::Timed(o) => o,
                e => fail!("sending: {e:?}"),
            };
            match judge_timed(&ops, &out, true, seg.reads) {
                Ok((a, b)) => {
                    oks += a;
                    nos += b;
                }
                Err(e) => {
                    res = Err(e);
                    break;
                }
            }
            accepted.extend(ops.into_iter().zip(&out).filter(|(_, o)| o.result == 0).map(|((m, _), _)| m));
        }
        cx.nontrivial(oks > 0 && nos > 0);
        cx.label_if(nos > 0, "refused");
        let accepted = &mut accepted;
        let go = || -> Result<(Vec<u8>, bool), Fail> {
            let mut whole = true;
            if let (Some(ops), true) = (&c.gone, res.is_ok()) {
                cx.label("peer gone");
                // the peer stops reading, then closes both ways
                stop.store(true, std::sync::atomic::Ordering::SeqCst);
                set(&gate, true);
                w.shut();
                drop(w);
                let ops = mk(ops);
                let out = match app.call(Cmd::Timed(ops.clone())) {
                    Ev::Timed(o) => o,
                    e => fail!("sending: {e:?}"),
                };
                judge_timed(&ops, &out, false, false)?;
                accepted.extend(ops.into_iter().zip(&out).filter(|(_, o)| o.result == 0).map(|((m, _), _)| m));
                whole = false;
                match app.call(Cmd::WaitBg) {
                    Ev::Sent(..) => {}
                    e => fail!("sending: {e:?}"),
                }
                want(app.call(Cmd::Drop), Ev::Done, "dropping")?;
                match app.call(Cmd::Join) {
                    Ev::Joined(_) => {}
                    e => fail!("joining: {e:?}"),
                }
                app.quit()?;
                let (bytes, _) = rd.join().unwrap();
                return Ok((bytes, whole));
            }
            set(&gate, true);
            sent(app.call(Cmd::WaitBg), fills.iter().map(Vec::len).sum())?;
            w.close();
            want(app.call(Cmd::Drop), Ev::Done, "dropping")?;
            want(app.call(Cmd::Join), Ev::Joined(Ok(())), "joining")?;
            app.quit()?;
            let (bytes, end) = rd.join().unwrap();
            end?;
            Ok((bytes, whole))
        };
        let went = go();
        res?;
        let (bytes, whole) = went?;
        let seen = if whole { norms_of_stream(&bytes)? } else { norms_of_prefix(&bytes)? };
        let part = |tag: &str| -> Vec<Norm> { seen.iter().filter(|n| tag_of(n).split('.').next() == Some(tag)).cloned().collect() };
        let check = |what: &str, got: Vec<Norm>, exp: Vec<Norm>| -> R {
            if whole {
                same_seq(what, &got, &exp)
            } else {
                // what was under way when the peer went is lost
                same_seq(what, &got, &exp[..got.len().min(exp.len())])
            }
        };
        check("accepted messages", part("f"), norms(accepted))?;
        let mut total = part("f").len();
        for (k, f) in fills.iter().enumerate() {
            let tag = tag_of(&f[0].norm()).split('.').next().unwrap().to_string();
            let p = part(&tag);
            total += p.len();
            check(&format!("the other thread's messages {k}"), p, norms(f))?;
        }
        ensure!(total == seen.len(), "{} messages arrived, {total} were sent", seen.len());
        Ok(())
    }
}

// ---------------------------------------------------------------- C28

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Trouble {
    /// bytes that are no frame
    Junk(Vec<u8>),
    /// the peer goes away
    Vanish,
    /// the peer sends exit
    Exit,
    /// the peer does not read this much
    Unread(usize),
    /// the application does not receive this much
    Unreceived(usize),
    /// half a frame
    Half,
    /// the application drops its connection
    Dropped,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    /// peer to application
    In(Msg),
    /// application to peer
    Out(Msg),
    Echo(Msg),
    Is(Trouble),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C28Case {
    listen: Vec<bool>,
    ops: Vec<(usize, Op)>,
    /// each connection in its own thread, or all in the given order
    par: bool,
}
struct Side {
    peer: Peer,
    app: App,
    trouble: Option<Trouble>,
    writing: Option<(std::thread::JoinHandle<std::io::Result<()>>, usize)>,
}
fn do_op(s: &mut Side, k: usize, op: &Op) -> R {
    if s.trouble.is_some() {
        return Ok(());
    }
    let at = |e: Fail| -> Fail { format!("connection {k}: {}", e.what).into() };
    match op {
        Op::In(m) => {
            s.app.post(Cmd::Recv);
            s.peer.w.write(&frame_msg(m)).map_err(io("writing"))?;
            let (g, _) = got(s.app.wait()).map_err(at)?;
            same_seq(&format!("received on connection {k}"), &g, &[m.norm()])
        }
        Op::Out(m) => {
            s.app.post(Cmd::Send(vec![m.clone()], 0));
            let g = read_norm(&mut s.peer.r)?;
            sent(s.app.wait(), 1).map_err(at)?;
            same(&format!("sent on connection {k}"), &g, &Some(m.norm()))
        }
        Op::Echo(m) => {
            s.app.post(Cmd::Echo(1));
            s.peer.w.write(&frame_msg(m)).map_err(io("writing"))?;
            let g = read_norm(&mut s.peer.r)?;
            got(s.app.wait()).map_err(at)?;
            same(&format!("echoed on connection {k}"), &g, &Some(m.norm()))
        }
        Op::Is(t) => {
            s.trouble = Some(t.clone());
            match t {
                Trouble::Junk(b) => {
                    // never the beginning of a frame
                    let mut j = b"!".to_vec();
                    j.extend_from_slice(b);
                    j.push(b'\n');
                    s.peer.w.write(&j).map_err(io("writing"))?;
                    want(s.app.call(Cmd::Recv), Ev::Got(vec![], true), "receiving after junk").map_err(at)
                }
                Trouble::Vanish => {
                    s.peer.w.shut();
                    Ok(())
                }
                Trouble::Exit => {
                    s.peer.w.write(&frame_msg(&Msg::Note { method: "build/exit".into(), params: Params::Absent })).map_err(io("writing"))?;
                    let (g, end) = got(s.app.call(Cmd::RecvAll)).map_err(at)?;
                    ensure!(end && g.len() == 1, "connection {k}: exit brought {g:?}");
                    Ok(())
                }
                Trouble::Unread(n) => want(s.app.call(Cmd::SendBg(stream::volume(*n, 200_000, 100))), Ev::Done, "starting to send").map_err(at),
                Trouble::Unreceived(n) => {
                    let ms = stream::volume(*n, 200_000, 100);
                    let count = ms.len();
                    let bytes: Vec<u8> = ms.iter().flat_map(frame_msg).collect();
                    let mut w = s.peer.w.dup().map_err(io("cloning"))?;
                    s.writing = Some((std::thread::spawn(move || w.write(&bytes)), count));
                    Ok(())
                }
                Trouble::Half => {
                    let b = frame_msg(&gen::blob(0, 1, 50));
                    s.peer.w.write(&b[..b.len() / 2]).map_err(io("writing"))
                }
                Trouble::Dropped => want(s.app.call(Cmd::Drop), Ev::Done, "dropping").map_err(at),
            }
        }
    }
}
fn wind_up(mut s: Side, k: usize) -> R {
    let at = |e: Fail| -> Fail { format!("connection {k}: {}", e.what).into() };
    match s.trouble.clone() {
        None => {
            s.peer.w.close();
            want(s.app.call(Cmd::RecvAll), Ev::Got(vec![], true), "end of stream").map_err(at)?;
            want(s.app.call(Cmd::Drop), Ev::Done, "dropping").map_err(at)?;
            want(s.app.call(Cmd::Join), Ev::Joined(Ok(())), "joining").map_err(at)?;
            let rest = s.peer.read_all().map_err(io("reading"))?;
            ensure!(rest.is_empty(), "connection {k}: more was sent: {}", show(&rest));
        }
        Some(Trouble::Unread(n)) => {
            let ms = stream::volume(n, 200_000, 100);
            s.app.post(Cmd::WaitBg);
            let seen = stream::read_norms(&mut s.peer.r, ms.len())?;
            sent(s.app.wait(), ms.len()).map_err(at)?;
            same_seq("held back", &seen, &norms(&ms)).map_err(at)?;
        }
        Some(Trouble::Unreceived(n)) => {
            let ms = stream::volume(n, 200_000, 100);
            let (g, _) = got(s.app.call(Cmd::RecvN(ms.len()))).map_err(at)?;
            same_seq("held back", &g, &norms(&ms)).map_err(at)?;
        }
        _ => {}
    }
    if let Some((h, _)) = s.writing.take() {
        let _ = h.join();
    }
    // dropping the peer and the application ends the rest
    s.peer.w.shut();
    s.app.quit()
}
pub struct C28;
impl Prop for C28 {
    type Case = C28Case;
    fn id(&self) -> &'static str {
        "C28"
    }
    fn rule(&self) -> &'static str {
        "2 to 6 connections of one process (connecting and listening), generated exchanges on each, interleaved in a generated order or each in its own thread, while some of them get into trouble (junk, half a frame, a vanished peer, exit, megabytes unread or unreceived, dropped); every message of the others compared, and what the stalled ones held back; non-trivial: exchanges on one connection after another is in trouble"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(2_000, 12)
    }
    fn threads(&self) -> usize {
        16
    }
    fn fixed(&self, _: Tier) -> Vec<C28Case> {
        let ts = [
            Trouble::Junk(vec![]),
            Trouble::Vanish,
            Trouble::Exit,
            Trouble::Unread(14 << 20),
            Trouble::Unreceived(14 << 20),
            Trouble::Half,
            Trouble::Dropped,
        ];
        let m = |i: i32| gen::blob(i as u8, i, 30);
        ts.into_iter()
            .flat_map(|t| {
                [false, true].map(|par| C28Case {
                    listen: vec![false, true, false, true],
                    ops: std::iter::once((0, Op::Is(t.clone())))
                        .chain((0..12).map(|i| (1 + i as usize % 3, if i % 2 == 0 { Op::In(m(i)) } else { Op::Out(m(i)) })))
                        .collect(),
                    par,
                })
            })
            .collect()
    }
    fn strategy(&self, _: Tier) -> S<C28Case> {
        let vol = || uni(vec![(40, (0usize..1 << 18).boxed()), (1, Just(14usize << 20).boxed())]);
        let trouble = uni(vec![
            (2, vec(any::<u8>(), 0..20).prop_map(Trouble::Junk).boxed()),
            (2, Just(Trouble::Vanish).boxed()),
            (2, Just(Trouble::Exit).boxed()),
            (2, vol().prop_map(Trouble::Unread).boxed()),
            (2, vol().prop_map(Trouble::Unreceived).boxed()),
            (2, Just(Trouble::Half).boxed()),
            (2, Just(Trouble::Dropped).boxed()),
        ]);
        let m = || uni(vec![(5, gen::msg()), (1, gen::sized(1 << 14))]);
        let op = uni(vec![
            (4, m().prop_map(Op::In).boxed()),
            (4, m().prop_map(Op::Out).boxed()),
            (2, m().prop_map(Op::Echo).boxed()),
            (2, trouble.prop_map(Op::Is).boxed()),
        ]);
        (vec(any::<bool>(), 2..7), vec((0usize..6, op), 1..30), any::<bool>())
            .prop_map(|(listen, ops, par)| C28Case { listen, ops, par })
            .boxed()
    }
    fn run(&self, c: &C28Case, cx: &mut Cx) -> R {
        let n = c.listen.len();
        let mut bad = vec![false; n];
        for (k, op) in &c.ops {
            match op {
                Op::Is(_) => bad[k % n] = true,
                _ => cx.nontrivial(!bad[k % n] && bad.iter().any(|b| *b)),
            }
        }
        cx.label(if c.par { "parallel" } else { "interleaved" });
        let mut sides = vec![];
        for l in &c.listen {
            let (peer, app) = start(if *l { Tr::Listen } else { Tr::Connect }, cx)?;
            sides.push(Side { peer, app, trouble: None, writing: None });
        }
        let mut res: R = Ok(());
        if c.par {
            let rs: Vec<R> = std::thread::scope(|sc| {
                let hs: Vec<_> = sides
                    .iter_mut()
                    .enumerate()
                    .map(|(k, s)| {
                        let ops = &c.ops;
                        sc.spawn(move || ops.iter().filter(|(i, _)| i % n == k).try_for_each(|(_, op)| do_op(s, k, op)))
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("the case panicked".into()))).collect()
            });
            for r in rs {
                res = res.and(r);
            }
        } else {
            for (k, op) in &c.ops {
                res = res.and_then(|_| do_op(&mut sides[k % n], k % n, op));
            }
        }
        res?;
        // the healthy ones first, while the others are still in trouble
        sides.iter().for_each(|s| {
            if let Some(t) = &s.trouble {
                cx.labels.push(format!("{t:?}").split('(').next().unwrap().to_string());
            }
        });
        let (ill, well): (Vec<_>, Vec<_>) = sides.into_iter().enumerate().partition(|(_, s)| s.trouble.is_some());
        for (k, s) in well.into_iter().chain(ill) {
            wind_up(s, k)?;
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C29

/// Runs a case in a process of its own.
pub fn alone(id: &str, case: &impl Serialize, cx: &mut Cx) -> R {
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
    static N: AtomicU64 = AtomicU64::new(0);
    let dir = cx.dir.join(format!("alone-{}-{}", std::process::id(), N.fetch_add(1, SeqCst)));
    std::fs::create_dir_all(&dir).map_err(inconclusive)?;
    std::fs::write(dir.join("case"), serde_json::to_vec(case).unwrap()).map_err(inconclusive)?;
    let st = std::process::Command::new(std::env::current_exe().map_err(inconclusive)?)
        .args(["alone", id])
        .arg(&dir)
        .arg(cx.slot.to_string())
        .env("BSPV_ALONE", "1")
        .stdin(std::process::Stdio::null())
        .status()
        .map_err(inconclusive)?;
    let out: Option<Alone> = std::fs::read(dir.join("out")).ok().and_then(|b| serde_json::from_slice(&b).ok());
    let _ = std::fs::remove_dir_all(&dir);
    match out {
        Some(o) if st.success() => {
            cx.labels.extend(o.labels);
            cx.nontrivial |= o.nontrivial;
            match o.fail {
                Some((what, true)) => Err(inconclusive(what)),
                Some((what, false)) => Err(what.into()),
                None => Ok(()),
            }
        }
        _ => Err(format!("the process ended with {st}").into()),
    }
}
pub fn is_alone() -> bool {
    std::env::var_os("BSPV_ALONE").is_some()
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C29Case {
    /// None: in memory
    tr: Option<Tr>,
    msgs: Vec<Msg>,
    /// exchanges per measurement
    rounds: usize,
    /// connections opened and closed instead
    churn: bool,
}
pub struct C29;
impl Prop for C29 {
    type Case = C29Case;
    fn id(&self) -> &'static str {
        "C29"
    }
    fn rule(&self) -> &'static str {
        "a generated set of messages received and sent back hundreds to thousands of times over TCP, stdio and in memory, or as many connections opened, used and closed, in a process of its own that counts its allocations, threads and descriptors before and after; growth beyond a fixed allowance is a violation; every case is non-trivial in which at least 1000 messages pass between the measurements"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(240, 12)
    }
    fn threads(&self) -> usize {
        40
    }
    fn fixed(&self, _: Tier) -> Vec<C29Case> {
        let one = |m: &str| vec![Msg::Req { id: Id::I(1), method: m.into(), params: Params::Is(json!([1, {"a": "b"}])) }];
        let note = |m: &str| vec![Msg::Note { method: m.into(), params: Params::Is(json!({"a": 1})) }];
        let mut v = vec![];
        for tr in [Some(Tr::Connect), Some(Tr::Listen), Some(Tr::Stdio), None] {
            for msgs in [one("c"), one("custom/request"), note("n"), note("build/other"), vec![gen::blob(2, 7, 3000)]] {
                v.push(C29Case { tr, msgs, rounds: 4000, churn: false });
            }
            v.push(C29Case { tr, msgs: vec![gen::blob(2, 7, 30)], rounds: 300, churn: tr != Some(Tr::Stdio) });
        }
        v
    }
    fn strategy(&self, _: Tier) -> S<C29Case> {
        let tr = uni(vec![(3, Just(Some(Tr::Connect)).boxed()), (3, Just(Some(Tr::Listen)).boxed()), (3, Just(Some(Tr::Stdio)).boxed()), (1, Just(None).boxed())]);
        let m = uni(vec![(8, gen::msg()), (1, gen::sized(1 << 12))]);
        (tr, vec(m, 1..9), 0usize..4)
            .prop_map(|(tr, msgs, churn)| {
                let churn = churn == 0 && tr != Some(Tr::Stdio);
                C29Case { tr, rounds: if churn { 150 } else { 3000 / msgs.len().max(1) }, msgs, churn }
            })
            .boxed()
    }
    fn run(&self, c: &C29Case, cx: &mut Cx) -> R {
        if !is_alone() {
            return alone("C29", c, cx);
        }
        cx.label(c.tr.map_or("memory".into(), |t| format!("{t:?}")));
        cx.label_if(c.churn, "opening and closing");
        cx.nontrivial(c.churn || c.rounds * c.msgs.len() >= 1000);
        let bytes: Vec<Vec<u8>> = c.msgs.iter().map(frame_msg).collect();
        if c.churn {
            let mut first = None;
            for round in 0..3 {
                for _ in 0..c.rounds {
                    one_life(c, &bytes, cx)?;
                }
                let now = settled();
                match &first {
                    None => first = Some(now),
                    Some(a) if round == 2 => grown("opening and closing", c.rounds * 2, a, &now)?,
                    _ => {}
                }
            }
            return Ok(());
        }
        match c.tr {
            None => {
                let (a, b) = Connection::memory();
                let ms = obs::build_all(&c.msgs)?;
                let go = |n: usize| {
                    for _ in 0..n {
                        for m in &ms {
                            a.send(m.clone()).unwrap();
                            b.send(b.receiver.recv().unwrap()).unwrap();
                            drop(a.receiver.recv().unwrap());
                        }
                    }
                };
                go(c.rounds / 4 + 1);
                let x = settled();
                go(c.rounds);
                grown("in memory", c.rounds * ms.len(), &x, &settled())
            }
            Some(tr) => {
                let (mut peer, mut app) = start(tr, cx)?;
                let mut buf = vec![];
                let all = bytes.concat();
                let many = all.repeat((32_768 / all.len()).clamp(1, 50));
                let mut lap = |peer: &mut Peer, app: &mut App, n: usize| -> R {
                    app.post(Cmd::Spin(n * bytes.len()));
                    // a few at a time: an answer to every single message would take Nagle's algorithm 40 ms
                    let each = (32_768 / all.len()).clamp(1, 50);
                    let mut left = n;
                    while left > 0 {
                        let k = each.min(left);
                        peer.w.write(&many[..k * all.len()]).map_err(io("writing"))?;
                        for _ in 0..k * bytes.len() {
                            pass_frame(&mut peer.r, &mut buf)?;
                        }
                        left -= k;
                    }
                    sent(app.wait(), n * bytes.len())
                };
                let mem = |app: &mut App| -> Result<Held, Fail> {
                    match app.call(Cmd::Mem) {
                        Ev::Mem(h) => Ok(h),
                        e => fail!("measuring: {e:?}"),
                    }
                };
                lap(&mut peer, &mut app, c.rounds / 4 + 1)?;
                let x = mem(&mut app)?;
                lap(&mut peer, &mut app, c.rounds)?;
                let y = mem(&mut app)?;
                grown("one connection", c.rounds * bytes.len(), &x, &y)?;
                peer.w.close();
                want(app.call(Cmd::Drop), Ev::Done, "dropping")?;
                want(app.call(Cmd::Join), Ev::Joined(Ok(())), "joining")?;
                app.quit()
            }
        }
    }
}
fn grown(what: &str, n: usize, a: &Held, b: &Held) -> R {
    let (db, dt, df) = (b.bytes - a.bytes, b.threads as i64 - a.threads as i64, b.files as i64 - a.files as i64);
    // a word per message is a leak
    ensure!(db < 6_000 + n as i64 * 2, "{what}: {db} bytes more are allocated after {n} more rounds");
    ensure!(dt < 8 && df < 8, "{what}: {dt} more threads and {df} more open files after {n} more rounds");
    Ok(())
}
fn pass_frame(r: &mut impl Read, buf: &mut Vec<u8>) -> R {
    buf.clear();
    loop {
        if let Some((n, _)) = strict_header(buf)? {
            buf.resize(n, 0);
            return r.read_exact(buf).map_err(io("reading"));
        }
        let mut c = [0];
        ensure!(r.read(&mut c).map_err(io("reading"))? == 1, "the stream ended");
        buf.push(c[0]);
    }
}
/// Opens a connection, uses it and closes it.
fn one_life(c: &C29Case, bytes: &[Vec<u8>], cx: &Cx) -> R {
    match c.tr {
        None => {
            let (a, b) = Connection::memory();
            for m in obs::build_all(&c.msgs)? {
                a.send(m).unwrap();
                b.send(b.receiver.recv().unwrap()).unwrap();
            }
            Ok(())
        }
        Some(tr) => {
            let (mut peer, mut app) = start(tr, cx)?;
            let mut buf = vec![];
            app.post(Cmd::Spin(bytes.len()));
            peer.w.write(&bytes.concat()).map_err(io("writing"))?;
            for _ in bytes {
                pass_frame(&mut peer.r, &mut buf)?;
            }
            sent(app.wait(), bytes.len())?;
            peer.w.close();
            want(app.call(Cmd::Drop), Ev::Done, "dropping")?;
            want(app.call(Cmd::Join), Ev::Joined(Ok(())), "joining")?;
            app.quit()
        }
    }
}
#[derive(Serialize, Deserialize)]
pub struct Alone {
    pub fail: Option<(String, bool)>,
    pub labels: Vec<String>,
    pub nontrivial: bool,
}

// ---------------------------------------------------------------- C30, C31

/// A case of another property, run under other circumstances.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Inner {
    Sending(stream::C01Case),
    Receiving(stream::C02Case),
    Malformed(stream::C03Case),
    Initialize(hand::C08Case),
    Shutdown(hand::C09Case),
    Exit(stream::C10Case),
    Teardown(stream::C11Case),
    Threads(stream::C17Case),
    Session(stream::C22Case),
    Lockstep(stream::C25Case),
    Routes(codec::C18Case),
}
impl Inner {
    fn run(&self, cx: &mut Cx) -> R {
        use Inner::*;
        let name = format!("{self:?}");
        cx.label(name.split('(').next().unwrap().to_string());
        match self {
            Sending(c) => stream::C01.run(c, cx),
            Receiving(c) => stream::C02.run(c, cx),
            Malformed(c) => stream::C03.run(c, cx),
            Initialize(c) => hand::C08.run(c, cx),
            Shutdown(c) => hand::C09.run(c, cx),
            Exit(c) => stream::C10.run(c, cx),
            Teardown(c) => stream::C11.run(c, cx),
            Threads(c) => stream::C17.run(c, cx),
            Session(c) => stream::C22.run(c, cx),
            Lockstep(c) => stream::C25.run(c, cx),
            Routes(c) => codec::C18.run(c, cx),
        }
    }
    fn strategy(t: Tier, decoding: bool) -> S<Inner> {
        let mut v = vec![
            (3, stream::C01.strategy(t).prop_map(Inner::Sending).boxed()),
            (3, stream::C02.strategy(t).prop_map(Inner::Receiving).boxed()),
            (3, stream::C03.strategy(t).prop_map(Inner::Malformed).boxed()),
            (2, hand::C08.strategy(t).prop_map(Inner::Initialize).boxed()),
            (2, stream::C10.strategy(t).prop_map(Inner::Exit).boxed()),
            (2, stream::C11.strategy(t).prop_map(Inner::Teardown).boxed()),
            (1, stream::C17.strategy(t).prop_map(Inner::Threads).boxed()),
            (2, stream::C22.strategy(t).prop_map(Inner::Session).boxed()),
            (2, stream::C25.strategy(t).prop_map(Inner::Lockstep).boxed()),
        ];
        if decoding {
            v.push((2, codec::C18.strategy(t).prop_map(Inner::Routes).boxed()));
            v.push((2, hand::C09.strategy(t).prop_map(Inner::Shutdown).boxed()));
        }
        uni(v)
    }
}

pub struct C30;
impl Prop for C30 {
    type Case = Inner;
    fn id(&self) -> &'static str {
        "C30"
    }
    fn rule(&self) -> &'static str {
        "the generated cases of sending, receiving, malformed input, both handshakes, exit, teardown, concurrent senders, sessions, lock-step exchanges and decoding, run with a subscriber that takes and formats every span and event of every level, judged by the same models; non-trivial as in those"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(9_000, 12)
    }
    fn patience(&self) -> Duration {
        Duration::from_secs(50)
    }
    fn threads(&self) -> usize {
        32
    }
    fn strategy(&self, t: Tier) -> S<Inner> {
        Inner::strategy(t, true)
    }
    fn run(&self, c: &Inner, cx: &mut Cx) -> R {
        trace::install();
        cx.extra = "trace";
        let before = trace::seen();
        let r = c.run(cx);
        cx.label_if(trace::seen() > before, "events");
        match trace::panicked() {
            Some(p) => Err(format!("formatting a log event panicked: {p}").into()),
            None => r,
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C31Case {
    inner: Inner,
}
pub struct C31;
impl Prop for C31 {
    type Case = C31Case;
    fn id(&self) -> &'static str {
        "C31"
    }
    fn rule(&self) -> &'static str {
        "the generated cases of sending, receiving, malformed input, initialize, exit, teardown, concurrent senders, sessions and lock-step exchanges, run in a process whose every thread is interrupted by signals (a handler without SA_RESTART) thousands of times a second, so that its system calls return early, judged by the same models; non-trivial as in those"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(3_000, 12)
    }
    fn patience(&self) -> Duration {
        Duration::from_secs(40)
    }
    fn threads(&self) -> usize {
        16
    }
    fn strategy(&self, t: Tier) -> S<C31Case> {
        Inner::strategy(t, false).prop_map(|inner| C31Case { inner }).boxed()
    }
    fn run(&self, c: &C31Case, cx: &mut Cx) -> R {
        if !is_alone() {
            return alone("C31", c, cx);
        }
        cx.extra = "storm";
        storm::start();
        let r = c.inner.run(cx);
        cx.label_if(storm::sent() > 0, "signals");
        r
    }
}

// ---------------------------------------------------------------- C32

/// Equality of the values, and their encodings; whether a copy is the same.
type Cmp = fn(&Value, &Value) -> Result<(bool, Value, Value), String>;
fn cmp<T: DeserializeOwned + Serialize + PartialEq>(a: &Value, b: &Value) -> Result<(bool, Value, Value), String> {
    let de = |v: &Value| serde_json::from_value::<T>(v.clone()).map_err(|e| e.to_string());
    let en = |v: &T| serde_json::to_value(v).map_err(|e| e.to_string());
    let (x, y) = (de(a)?, de(b)?);
    let eq = x == y;
    if eq != (y == x) || eq == (x != y) {
        return Err("equality is not symmetric, or not the opposite of inequality".into());
    }
    if x != de(a)? {
        return Err("a value does not equal the same value".into());
    }
    Ok((eq, en(&x)?, en(&y)?))
}
const COMPARED: &[(&str, Cmp)] = &[
    ("InitializeBuild", cmp::<t::InitializeBuild>),
    ("BuildTargetCleanCache", cmp::<t::BuildTargetCleanCache>),
    ("BuildTargetCleanCacheResult", cmp::<t::BuildTargetCleanCacheResult>),
    ("BuildTargetResources", cmp::<t::BuildTargetResources>),
    ("BuildTargetResourcesResult", cmp::<t::BuildTargetResourcesResult>),
    ("DebugSessionStart", cmp::<t::DebugSessionStart>),
    ("DebugSessionStartResult", cmp::<t::DebugSessionStartResult>),
    ("BuildTargetIdentifier", cmp::<t::BuildTargetIdentifier>),
    ("BuildTargetCompile", cmp::<t::BuildTargetCompile>),
    ("BuildTargetCompileResult", cmp::<t::BuildTargetCompileResult>),
    ("BuildTargetDependencyModules", cmp::<t::BuildTargetDependencyModules>),
    ("BuildTargetDependencyModulesResult", cmp::<t::BuildTargetDependencyModulesResult>),
    ("DependencyModule", cmp::<t::DependencyModule>),
    ("BuildTargetDependencySources", cmp::<t::BuildTargetDependencySources>),
    ("BuildTargetDependencySourcesResult", cmp::<t::BuildTargetDependencySourcesResult>),
    ("ClientCapabilities", cmp::<t::ClientCapabilities>),
    ("BuildTargetTest", cmp::<t::BuildTargetTest>),
    ("BuildTargetTestResult", cmp::<t::BuildTargetTestResult>),
    ("BuildTargetRun", cmp::<t::BuildTargetRun>),
    ("BuildTargetRunResult", cmp::<t::BuildTargetRunResult>),
    ("TextDocumentInverseSources", cmp::<t::TextDocumentInverseSources>),
    ("BuildTargetInverseSourcesResult", cmp::<t::BuildTargetInverseSourcesResult>),
];
type Fresh = fn() -> Result<(Value, Value), String>;
/// The encoding of the default value, and of that decoded again.
fn fresh<T: Default + DeserializeOwned + Serialize>() -> Result<(Value, Value), String> {
    let a = serde_json::to_value(T::default()).map_err(|e| format!("does not encode: {e}"))?;
    let b: T = serde_json::from_value(a.clone()).map_err(|e| format!("{a} does not decode: {e}"))?;
    Ok((a, serde_json::to_value(b).map_err(|e| e.to_string())?))
}
/// Types with a default, and the document it stands for.
fn defaults() -> Vec<(&'static str, Fresh, Value)> {
    vec![
        ("BuildTargetCapabilities", fresh::<t::BuildTargetCapabilities>, json!({"canCompile": false, "canTest": false, "canRun": false, "canDebug": false})),
        ("BuildTargetSourcesResult", fresh::<t::BuildTargetSourcesResult>, json!({"items": []})),
        ("BuildTargetSources", fresh::<t::BuildTargetSources>, json!({"targets": []})),
        ("BuildTargetResourcesResult", fresh::<t::BuildTargetResourcesResult>, json!({"items": []})),
        ("BuildTargetDependencyModulesResult", fresh::<t::BuildTargetDependencyModulesResult>, json!({"items": []})),
        ("BuildTargetDependencySourcesResult", fresh::<t::BuildTargetDependencySourcesResult>, json!({"items": []})),
        ("BuildTargetDidChange", fresh::<t::BuildTargetDidChange>, json!({"changes": []})),
        ("WorkspaceBuildTargetsResult", fresh::<t::WorkspaceBuildTargetsResult>, json!({"targets": []})),
        ("BuildTargetInverseSourcesResult", fresh::<t::BuildTargetInverseSourcesResult>, json!({"targets": []})),
        ("ClientCapabilities", fresh::<t::ClientCapabilities>, json!({"languageIds": []})),
        ("ServerCapabilities", fresh::<t::ServerCapabilities>, json!({})),
        ("DependencyModule", fresh::<t::DependencyModule>, json!({"name": "", "version": ""})),
        ("TaskId", fresh::<t::TaskId>, json!({"id": ""})),
    ]
}
/// One part of `a` as in `b`.
fn cross(a: &Value, b: &Value, r: &mut u64) -> Value {
    let mut next = |n: usize| {
        *r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (*r >> 33) as usize % n.max(1)
    };
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            let keys: Vec<&String> = x.keys().chain(y.keys().filter(|k| !x.contains_key(*k))).collect();
            let mut out = x.clone();
            if keys.is_empty() {
                return a.clone();
            }
            let k = keys[next(keys.len())];
            match (x.get(k), y.get(k)) {
                (Some(p), Some(q)) => {
                    let deep = next(3) > 0;
                    out.insert(k.clone(), if deep { cross(p, q, r) } else { q.clone() });
                }
                (_, Some(q)) => {
                    out.insert(k.clone(), q.clone());
                }
                _ => {
                    out.remove(k);
                }
            }
            Value::Object(out)
        }
        (Value::Array(x), Value::Array(y)) => {
            let mut out = x.clone();
            match next(4) {
                0 if !y.is_empty() => {
                    let q = y[next(y.len())].clone();
                    let at = next(out.len() + 1);
                    out.insert(at, q);
                }
                1 if !out.is_empty() => {
                    out.remove(next(out.len()));
                }
                2 if out.len() > 1 => {
                    let i = next(out.len());
                    let j = next(out.len());
                    out.swap(i, j);
                }
                _ if !out.is_empty() && !y.is_empty() => {
                    let i = next(out.len());
                    let j = next(y.len());
                    out[i] = cross(&x[i], &y[j], r);
                }
                _ => {}
            }
            out.into()
        }
        (Value::String(x), Value::String(_)) if next(2) == 0 => {
            // the smallest differences: case, a space, the order of two characters
            match next(4) {
                0 => x.to_uppercase().into(),
                1 => x.to_lowercase().into(),
                2 => x.chars().rev().collect::<String>().into(),
                _ => b.clone(),
            }
        }
        _ => b.clone(),
    }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C32Case {
    ty: usize,
    a: Value,
    b: Value,
    /// a message, to be copied
    msg: Msg,
}
pub struct C32;
impl Prop for C32 {
    type Case = C32Case;
    fn id(&self) -> &'static str {
        "C32"
    }
    fn rule(&self) -> &'static str {
        "pairs of generated documents of each comparable payload type (the same, differing in one part at any depth, or unrelated); the values must be equal exactly when their encodings are, and symmetrically; copies of generated messages must be the same and stay so when the original is gone; the default of each type is the document that sets nothing; non-trivial: documents that differ in one part"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(150_000, 12)
    }
    fn fixed(&self, _: Tier) -> Vec<C32Case> {
        vec![C32Case { ty: usize::MAX, a: Value::Null, b: Value::Null, msg: gen::blob(0, 0, 1) }]
    }
    fn strategy(&self, _: Tier) -> S<C32Case> {
        let pairs = COMPARED
            .iter()
            .enumerate()
            .map(|(k, (name, _))| {
                let ty = payload::TYPES.iter().find(|t| t.0 == *name).expect("type").1;
                (1, (Just(k), gen::doc(ty), gen::doc(ty)).boxed())
            })
            .collect();
        (uni(pairs), 0u8..8, any::<u64>(), gen::msg())
            .prop_map(|((ty, a, other), how, r, msg)| (ty, a, other, how, r, msg))
            .prop_map(|(ty, a, other, how, mut r, msg)| {
                let b = match how {
                    0 => a.clone(),
                    1 => other,
                    _ => cross(&a, &other, &mut r),
                };
                C32Case { ty, a, b, msg }
            })
            .boxed()
    }
    fn run(&self, c: &C32Case, cx: &mut Cx) -> R {
        if c.ty == usize::MAX {
            for (name, f, doc) in defaults() {
                let (a, b) = f().map_err(|e| format!("the default {name}: {e}"))?;
                same(&format!("the default {name}, decoded again"), &b, &a)?;
                let bare = |v: &Value| -> Value {
                    // unset members may be left out, null, false, empty
                    let o = v.as_object().cloned().unwrap_or_default();
                    o.into_iter().filter(|(_, v)| !(v.is_null() || *v == json!(false) || *v == json!([]) || *v == json!("") || *v == json!({}))).collect()
                };
                same(&format!("the default {name}"), &bare(&a), &bare(&doc))?;
            }
            return Ok(());
        }
        let (name, f) = COMPARED[c.ty];
        cx.label(name);
        match f(&c.a, &c.b) {
            Ok((eq, x, y)) => {
                cx.label(if eq { "equal" } else { "different" });
                cx.nontrivial(c.a != c.b);
                ensure!(eq == (x == y), "{name}: values compare {} but encode as {} and {}", if eq { "equal" } else { "different" }, cut(&x.to_string(), 400), cut(&y.to_string(), 400));
            }
            // not both documents fit
            Err(e) if e.contains("equal") => fail!("{name}: {e}"),
            Err(_) => cx.label("refused"),
        }
        let m = obs::build(&c.msg)?;
        let copy = m.clone();
        let before = serde_json::to_value(&m).map_err(|e| e.to_string())?;
        same("a copy", &serde_json::to_value(&copy).map_err(|e| e.to_string())?, &before)?;
        same("a copy", &obs::observe(&copy), &obs::observe(&m))?;
        drop(m);
        same("a copy that outlives the original", &serde_json::to_value(&copy).map_err(|e| e.to_string())?, &before)
    }
}

// ---------------------------------------------------------------- C33

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum At {
    /// a listener is there
    Taken,
    /// nobody is there
    Free,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Open {
    /// connect to a list of addresses
    Connect(Vec<At>),
    /// listen on a list of addresses
    Listen(Vec<At>),
    /// text or a pair instead of a list
    Text(bool, At, u8),
    /// text that is no address
    Bad(bool, String),
    /// listen, then a second client, then listen again on the same address
    Again(u8),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C33Case {
    opens: Vec<Open>,
}
pub struct C33;
fn place(a: At, cx: &Cx) -> Result<(SocketAddr, Option<TcpListener>), Fail> {
    for _ in 0..200 {
        let addr = local(129, cx.slot);
        if let Ok(l) = TcpListener::bind(addr) {
            return Ok((addr, (a == At::Taken).then_some(l)));
        }
    }
    Err(inconclusive("no address left"))
}
type Opened = std::io::Result<(Connection, bsp_server::IoThreads)>;
/// Runs an opening call in a thread of its own.
fn opening(f: impl FnOnce() -> Opened + Send + 'static) -> std::thread::JoinHandle<Result<Opened, String>> {
    std::thread::spawn(move || guard(f))
}
fn opened(h: std::thread::JoinHandle<Result<Opened, String>>, what: &str) -> Result<Opened, Fail> {
    h.join().map_err(|_| Fail::from("panic"))?.map_err(|p| format!("{what} panicked: {p}").into())
}
/// The connection works, and ends.
fn proves(o: Opened, s: TcpStream, what: &str) -> R {
    let (c, t) = o.map_err(|e| Fail::from(format!("{what}: {e}")))?;
    let m = gen::blob(0, 77, 20);
    let mut s = s;
    use std::io::Write;
    s.write_all(&frame_msg(&m)).map_err(io("writing"))?;
    let g = c.receiver.recv().map_err(|e| format!("{what}: receiving: {e}"))?;
    same(&format!("{what}: received"), &obs::observe(&g), &m.norm())?;
    c.send(g).map_err(|e| format!("{what}: sending: {e}"))?;
    same(&format!("{what}: sent"), &read_norm(&mut s)?, &Some(m.norm()))?;
    s.shutdown(std::net::Shutdown::Write).map_err(io("closing"))?;
    drop(c);
    t.join().map_err(|e| format!("{what}: joining: {e}"))?;
    Ok(())
}
/// Connects to a listener that is about to be there.
fn reach(a: SocketAddr) -> Result<TcpStream, Fail> {
    let t0 = Instant::now();
    loop {
        match TcpStream::connect(a) {
            Ok(s) => return Ok(s),
            Err(_) if t0.elapsed() < Duration::from_secs(15) => std::thread::sleep(Duration::from_micros(300)),
            Err(e) => return Err(format!("nobody listens on the first usable address: {e}").into()),
        }
    }
}
impl Prop for C33 {
    type Case = C33Case;
    fn id(&self) -> &'static str {
        "C33"
    }
    fn rule(&self) -> &'static str {
        "generated attempts to connect and to listen, on lists of addresses (with a listener, without), on text and pairs, on text that is no address, and listening again on the same address; the outcome compared with the first usable address of the list, and every connection opened proved by an exchange; non-trivial: an attempt that must fail, or a list whose first address is not usable"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(5_000, 12)
    }
    fn threads(&self) -> usize {
        32
    }
    fn fixed(&self, _: Tier) -> Vec<C33Case> {
        use At::*;
        let one = |o: Open| C33Case { opens: vec![o] };
        let mut v = vec![];
        for l in [vec![], vec![Taken], vec![Free], vec![Free, Taken], vec![Taken, Free], vec![Free, Free, Taken, Free], vec![Taken, Taken, Free, Free], vec![Taken, Taken]] {
            v.push(one(Open::Connect(l.clone())));
            v.push(one(Open::Listen(l)));
        }
        v.extend([one(Open::Again(1)), one(Open::Again(3))]);
        for listen in [false, true] {
            for (at, how) in [(Taken, 0), (Free, 0), (Taken, 1), (Free, 1)] {
                v.push(one(Open::Text(listen, at, how)));
            }
            for b in ["", ":", "127.0.0.1", "127.0.0.1:", "127.0.0.1:65536", "127.0.0.1:http", "127.0.0.1:-1"] {
                v.push(one(Open::Bad(listen, b.into())));
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> S<C33Case> {
        use At::*;
        let open = uni(vec![
            (4, vec(select(vec![Taken, Free]), 0..5).prop_map(Open::Connect).boxed()),
            (4, vec(select(vec![Taken, Free]), 0..5).prop_map(Open::Listen).boxed()),
            (2, (any::<bool>(), select(vec![Taken, Free]), 0u8..3).prop_map(|(l, a, h)| Open::Text(l, a, h)).boxed()),
            (1, (any::<bool>(), "[0-9]{1,3}(\\.[0-9]{1,3}){0,3}(:[0-9a-f]{0,2})?:?").prop_map(|(l, s)| Open::Bad(l, format!("{s}:x"))).boxed()),
            (2, (1u8..4).prop_map(Open::Again).boxed()),
        ]);
        vec(open, 1..4).prop_map(|opens| C33Case { opens }).boxed()
    }
    fn run(&self, c: &C33Case, cx: &mut Cx) -> R {
        for o in &c.opens {
            match o {
                Open::Connect(l) => {
                    let places: Vec<_> = l.iter().map(|a| place(*a, cx)).collect::<Result<_, _>>()?;
                    let addrs: Vec<SocketAddr> = places.iter().map(|p| p.0).collect();
                    let h = opening(move || Connection::connect(&addrs[..]));
                    match places.iter().find_map(|p| p.1.as_ref()) {
                        Some(l0) => {
                            cx.nontrivial(l[0] != At::Taken);
                            cx.label("connects");
                            let o = opened(h, "connecting")?;
                            ensure!(o.is_ok(), "connecting to a list with a listener: {:?}", o.err());
                            l0.set_nonblocking(true).map_err(inconclusive)?;
                            let s = l0.accept().map_err(|e| format!("the first listener of the list was not connected to: {e}"))?.0;
                            s.set_nonblocking(false).map_err(inconclusive)?;
                            proves(o, s, "connecting")?;
                        }
                        None => {
                            cx.nontrivial(true);
                            cx.label("nobody there");
                            ensure!(opened(h, "connecting")?.is_err(), "connecting to nobody succeeded");
                        }
                    }
                }
                Open::Listen(l) => {
                    let places: Vec<_> = l.iter().map(|a| place(*a, cx)).collect::<Result<_, _>>()?;
                    let addrs: Vec<SocketAddr> = places.iter().map(|p| p.0).collect();
                    let h = opening(move || Connection::listen(&addrs[..]));
                    match l.iter().position(|a| *a == At::Free) {
                        Some(k) => {
                            cx.nontrivial(k > 0);
                            cx.label("listens");
                            let s = reach(places[k].0)?;
                            proves(opened(h, "listening")?, s, "listening")?;
                        }
                        None => {
                            cx.nontrivial(true);
                            cx.label("nothing to listen on");
                            ensure!(opened(h, "listening")?.is_err(), "listening on no usable address succeeded");
                        }
                    }
                }
                Open::Text(listen, at, how) => {
                    let (addr, l) = place(*at, cx)?;
                    let how = *how;
                    macro_rules! by { ($f:path) => { opening(move || match how { 0 => $f(addr.to_string()), 1 => $f((addr.ip(), addr.port())), _ => $f((addr.ip().to_string().as_str(), addr.port())) }) } }
                    let h = if *listen { by!(Connection::listen) } else { by!(Connection::connect) };
                    cx.label("text or pair");
                    if *listen == l.is_some() {
                        cx.nontrivial(true);
                        match (l, *listen) {
                            (_, true) => ensure!(opened(h, "listening")?.is_err(), "listening on an address in use succeeded"),
                            _ => ensure!(opened(h, "connecting")?.is_err(), "connecting to nobody succeeded"),
                        }
                    } else if let Some(l) = l {
                        let o = opened(h, "connecting")?;
                        ensure!(o.is_ok(), "connecting by text or pair: {:?}", o.err());
                        let s = l.accept().map_err(inconclusive)?.0;
                        proves(o, s, "connecting")?;
                    } else {
                        let s = reach(addr)?;
                        proves(opened(h, "listening")?, s, "listening")?;
                    }
                }
                Open::Bad(listen, text) => {
                    cx.nontrivial(true);
                    cx.label("no address");
                    let (l, t) = (*listen, text.clone());
                    let h = opening(move || if l { Connection::listen(t) } else { Connection::connect(t) });
                    ensure!(opened(h, "opening")?.is_err(), "opening {text:?} succeeded");
                }
                Open::Again(n) => {
                    let (addr, _) = place(At::Free, cx)?;
                    cx.label("again");
                    cx.nontrivial(true);
                    for k in 0..*n {
                        let h = opening(move || Connection::listen(addr));
                        let s = reach(addr)?;
                        let o = opened(h, "listening again")?;
                        ensure!(o.is_ok(), "listening on the address for the {}. time: {:?}", k + 1, o.err());
                        // it has its one peer; a second finds nobody
                        ensure!(TcpStream::connect(addr).is_err(), "a second client is taken although nobody will ever accept it");
                        proves(o, s, "listening again")?;
                    }
                }
            }
        }
        Ok(())
    }
}
