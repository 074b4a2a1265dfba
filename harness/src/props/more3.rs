//! Ids as keys, and flow control.
use crate::engine::*;
use crate::gen::{self, uni, S};
use crate::model::*;
use crate::obs;
use crate::props::stream;
use crate::scen::*;
use crate::wire::*;
use bsp_server::{Message, Request, RequestId, Response};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::time::Duration;

fn io(what: &'static str) -> impl Fn(std::io::Error) -> Fail {
    move |e| format!("{what}: {e}").into()
}

// ---------------------------------------------------------------- C39

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C39Case {
    /// the ids in play
    ids: Vec<Id>,
    /// a call or its answer (which id, how it is obtained)
    ops: Vec<(bool, gen::Ix, u8)>,
}
pub struct C39;
/// The id, through one of the ways in which ids are obtained.
fn obtain(id: &Id, how: u8) -> Result<RequestId, String> {
    let j = id.json();
    let of = |m: Message| match m {
        Message::Request(r) => Ok(r.id().clone()),
        Message::Response(r) => Ok(r.id),
        m => Err(format!("id {j} was lost: {m:?}")),
    };
    let parse = |t: String| serde_json::from_str::<Message>(&t).map_err(|e| format!("{t}: {e}")).and_then(of);
    match how % 9 {
        0 => Ok(obs::rid(id)),
        1 => parse(json!({"id": j, "method": "workspace/buildTargets"}).to_string()),
        2 => parse(json!({"id": j, "method": "custom/x", "params": 1}).to_string()),
        3 => parse(json!({"id": j, "result": null}).to_string()),
        4 => parse(json!({"id": j, "error": {"code": 1, "message": ""}}).to_string()),
        5 => serde_json::from_value(json!({"jsonrpc": "2.0", "id": j, "result": 1})).map_err(|e| format!("id {j}: {e}")).and_then(of),
        6 => serde_json::from_str(&j.to_string()).map_err(|e| format!("id {j}: {e}")),
        7 => Ok(Response::err(obs::rid(id), 1, String::new()).id),
        _ => Ok(Request::Shutdown(obs::rid(id)).id().clone()),
    }
}
fn hash(id: &RequestId) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    id.hash(&mut h);
    h.finish()
}
impl Prop for C39 {
    type Case = C39Case;
    fn id(&self) -> &'static str {
        "C39"
    }
    fn rule(&self) -> &'static str {
        "histories of calls and answers under ids that look alike (a number and its digits as a string, other case, spaces, signs, quotes, zeros), each id obtained in one of nine ways; hash and tree tables keyed by RequestId must find what a table keyed by the JSON of the id finds, and equality, hash, order and display must agree with the JSON for all pairs and triples; non-trivial: an answer finds its call and another one finds nothing"
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.n(60_000, 20)
    }
    fn fixed(&self, _: Tier) -> Vec<C39Case> {
        let ids = [0, 1, -1, i32::MIN, i32::MAX, 10, 100]
            .into_iter()
            .flat_map(|i| [Id::I(i), Id::S(i.to_string()), Id::S(format!("\"{i}\"")), Id::S(format!("{i}.0")), Id::S(format!("0{i}"))])
            .chain(["", " ", "null", "a", "A", "á", "a\u{301}", "ß", "SS", "\0"].map(|s| Id::S(s.into())))
            .collect::<Vec<_>>();
        let n = ids.len();
        let ops = (0..4 * n).map(|k| (k < n || k % 3 == 0, gen::Ix::at(k % n, n), (k * 7) as u8)).collect();
        vec![C39Case { ids, ops }]
    }
    fn strategy(&self, _: Tier) -> S<C39Case> {
        let alike = |id: Id| {
            let s = match &id {
                Id::I(i) => i.to_string(),
                Id::S(s) => s.clone(),
            };
            let mut v = vec![
                Id::S(s.to_uppercase()),
                Id::S(s.to_lowercase()),
                Id::S(format!(" {s}")),
                Id::S(format!("{s} ")),
                Id::S(format!("0{s}")),
                Id::S(format!("+{s}")),
                Id::S(format!("\"{s}\"")),
                Id::S(s.escape_default().to_string()),
                Id::S(s.chars().rev().collect()),
                Id::S(format!("{s}\0")),
            ];
            if let Ok(i) = s.trim().parse::<i32>() {
                v.extend([Id::I(i), Id::I(i.wrapping_neg()), Id::I(i ^ i32::MIN), Id::I(i & 0xffff), Id::I(i as i8 as i32)]);
            }
            v.push(Id::S(s));
            select(v).boxed()
        };
        let some = uni(vec![(2, gen::id()), (1, any::<i32>().prop_map(Id::I).boxed()), (1, (0i32..300).prop_map(Id::I).boxed())]);
        let group = some.prop_flat_map(move |id| {
            let one = id.clone();
            vec(alike(id), 0..4).prop_map(move |mut v| {
                v.push(one.clone());
                v
            })
        });
        (vec(group, 1..4), vec((any::<bool>(), gen::ix(), any::<u8>()), 0..24))
            .prop_map(|(g, ops)| C39Case { ids: g.concat(), ops })
            .boxed()
    }
    fn run(&self, c: &C39Case, cx: &mut Cx) -> R {
        let n = c.ids.len();
        let mut model: HashMap<String, usize> = HashMap::new();
        let mut hashed: HashMap<RequestId, usize> = HashMap::new();
        let mut tree: BTreeMap<RequestId, usize> = BTreeMap::new();
        let (mut hits, mut misses) = (false, false);
        let mut all: Vec<(String, RequestId)> = vec![];
        for (k, (call, at, how)) in c.ops.iter().enumerate() {
            let id = &c.ids[at.index(n)];
            let r = obtain(id, *how)?;
            let j = id.json().to_string();
            same(&format!("the id of operation {k}"), &obs::rid_json(&r).to_string(), &j)?;
            if all.len() < 12 {
                all.push((j.clone(), r.clone()));
            }
            let (a, b, want) = if *call {
                (hashed.insert(r.clone(), k), tree.insert(r, k), model.insert(j.clone(), k))
            } else {
                (hashed.remove(&r), tree.remove(&r), model.remove(&j))
            };
            hits |= !*call && want.is_some();
            misses |= !*call && want.is_none();
            ensure!(a == want, "operation {k}, id {j}: a hash table finds {a:?} instead of {want:?}");
            ensure!(b == want, "operation {k}, id {j}: an ordered table finds {b:?} instead of {want:?}");
        }
        cx.nontrivial(hits && misses);
        for (k, id) in c.ids.iter().enumerate().take(12) {
            all.push((id.json().to_string(), obtain(id, k as u8 * 5)?));
        }
        for (j1, a) in &all {
            for (j2, b) in &all {
                let eq = j1 == j2;
                cx.label_if(!eq && a.to_string().trim_matches('"') == b.to_string().trim_matches('"'), "a number and its digits");
                ensure!((a == b) == eq && (a != b) != eq, "ids {j1} and {j2}: equal is {}", a == b);
                ensure!(!eq || hash(a) == hash(b), "id {j1} has two hashes");
                let o = a.cmp(b);
                ensure!((o == Ordering::Equal) == eq, "ids {j1} and {j2} are ordered as {o:?}");
                ensure!(b.cmp(a) == o.reverse() && a.partial_cmp(b) == Some(o), "ids {j1} and {j2} are ordered as {o:?}, {:?} and {:?}", b.cmp(a), a.partial_cmp(b));
                ensure!((a.to_string() == b.to_string()) == eq, "ids {j1} and {j2} are displayed as {a} and {b}");
                for (j3, d) in &all {
                    ensure!(!(o == Ordering::Less && b < d) || a < d, "{j1} is less than {j2}, that less than {j3}, but not the first less than the last");
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C40

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C40Case {
    tr: Tr,
    /// the peer sends and the application does not receive, rather than the other way round
    inc: bool,
    /// bytes in each message
    each: usize,
    kind: u8,
    /// messages that pass before
    before: Vec<Msg>,
    /// how it was filled up a second time, after so many were taken off
    again: Option<usize>,
}
pub struct C40;
fn sysctl(name: &str, default: usize) -> usize {
    let t = std::fs::read_to_string(format!("/proc/sys/net/ipv4/{name}")).unwrap_or_default();
    t.split_whitespace().last().and_then(|n| n.parse().ok()).unwrap_or(default)
}
/// What the operating system may hold, with room to spare.
fn limit(tr: Tr, each: usize) -> usize {
    let system = match tr {
        Tr::Stdio => 1 << 20,
        _ => sysctl("tcp_rmem", 32 << 20) + sysctl("tcp_wmem", 4 << 20) + (4 << 20),
    };
    system + 40 * each.max(4_000)
}
impl Prop for C40 {
    type Case = C40Case;
    fn id(&self) -> &'static str {
        "C40"
    }
    fn rule(&self) -> &'static str {
        "one side sends messages of a generated kind and size without end while the other takes none, over TCP or stdio: it must be held back before more is taken than the system's buffers and 40 messages hold; then some are taken off and more are sent, and in the end everything accepted must have arrived, once and in order, and nothing that was refused; non-trivial: the sender was held back"
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.n(130, 12)
    }
    fn patience(&self) -> Duration {
        Duration::from_secs(40)
    }
    fn fixed(&self, _: Tier) -> Vec<C40Case> {
        [Tr::Connect, Tr::Listen, Tr::Stdio]
            .into_iter()
            .flat_map(|tr| [false, true].map(|inc| C40Case { tr, inc, each: if tr == Tr::Stdio { 5_000 } else { 100_000 }, kind: 1, before: vec![gen::blob(0, 1, 9)], again: Some(3) }))
            // whatever comes first waits for a while
            .chain([0, 1, 2, 3, 7, 11, 15, 19, 23, 27, 31, 35].map(|kind| C40Case { tr: if kind % 2 == 0 { Tr::Stdio } else { Tr::Connect }, inc: true, each: 100_000, kind, before: vec![], again: Some(1) }))
            .collect()
    }
    fn strategy(&self, _: Tier) -> S<C40Case> {
        let before = vec(gen::msg().prop_filter("exit comes last", |m| !m.is_exit()), 0..4);
        (stream::tr(5), any::<bool>(), any::<u8>(), 0.0f64..1.0, before, proptest::option::of(0usize..100))
            .prop_map(|(tr, inc, kind, f, before, again)| {
                let (lo, hi) = if tr == Tr::Stdio { (200.0f64, 100_000.0) } else { (8_000.0f64, 1_000_000.0) };
                C40Case { tr, inc, each: (lo * (hi / lo).powf(f)) as usize, kind, before, again }
            })
            .boxed()
    }
    fn run(&self, c: &C40Case, cx: &mut Cx) -> R {
        cx.label(format!("{:?}, {}", c.tr, if c.inc { "application does not receive" } else { "peer does not read" }));
        let limit = limit(c.tr, c.each);
        let most = limit / c.each + 2;
        let make = |i: usize| gen::one_of(c.kind, i, c.each);
        let (peer, mut app) = start(c.tr, cx)?;
        let Peer { mut w, mut r } = peer;
        let want_before: Vec<Norm> = c.before.iter().map(Msg::norm).collect();
        if c.inc {
            let bytes: Vec<u8> = c.before.iter().flat_map(frame_msg).collect();
            app.post(Cmd::RecvN(c.before.len()));
            w.write(&bytes).map_err(io("writing"))?;
            same_seq("before", &got(app.wait())?.0, &want_before)?;
            let (stop, done) = (AtomicBool::new(false), AtomicUsize::new(0));
            let mut taken = 0;
            std::thread::scope(|s| -> R {
                let h = s.spawn(|| -> std::io::Result<()> {
                    let mut i = 0;
                    while !stop.load(SeqCst) {
                        w.write(&frame_msg(&make(i)))?;
                        i += 1;
                        done.store(i, SeqCst);
                    }
                    Ok(())
                });
                // until nothing moves, or too much has
                let rest = |from: usize| -> bool {
                    let (mut last, mut still) = (usize::MAX, 0);
                    loop {
                        let n = done.load(SeqCst);
                        if n.saturating_sub(from) > most || h.is_finished() {
                            return false;
                        }
                        still = if n == last { still + 1 } else { 0 };
                        last = n;
                        if still > 60 {
                            return true;
                        }
                        std::thread::sleep(Duration::from_millis(10));
                    }
                };
                let held = (|| -> R {
                    let mut ok = rest(0);
                    if let (true, Some(k)) = (ok, c.again) {
                        let k = k.min(done.load(SeqCst));
                        let (g, _) = got(app.call(Cmd::RecvN(k)))?;
                        same_seq("received first", &g, &(0..k).map(|i| make(i).norm()).collect::<Vec<_>>())?;
                        taken = k;
                        ok = rest(k);
                    }
                    ensure!(ok, "{} messages of {} bytes were taken from the peer, and the application received {taken}", done.load(SeqCst), c.each);
                    Ok(())
                })();
                app.post(Cmd::RecvAll);
                stop.store(true, SeqCst);
                let wrote = h.join().unwrap();
                held?;
                wrote.map_err(io("writing"))?;
                Ok(())
            })?;
            w.close();
            cx.nontrivial(true);
            let n = done.load(SeqCst);
            let (g, end) = got(app.wait())?;
            same_seq("received at last", &g, &(taken..n).map(|i| make(i).norm()).collect::<Vec<_>>())?;
            ensure!(end, "the stream has not ended");
        } else {
            let mut expected = want_before;
            app.post(Cmd::Send(c.before.clone(), 0));
            for (i, want) in expected.iter().enumerate() {
                let n = read_norm(&mut r)?.ok_or("the stream ended")?;
                same(&format!("message {i}"), &n, want)?;
            }
            sent(app.wait(), c.before.len())?;
            expected.clear();
            let mut from = 0;
            let mut read = 0;
            for round in 0..1 + c.again.is_some() as usize {
                if round > 0 {
                    // the peer takes a few off
                    let k = c.again.unwrap_or(0).min(from);
                    for i in 0..k {
                        let n = read_norm(&mut r)?.ok_or("the stream ended")?;
                        same(&format!("message {i}"), &n, &make(i).norm())?;
                    }
                    read = k;
                }
                // numbered on from what was accepted
                match app.call(Cmd::Fill { kind: c.kind, from, each: c.each, most: most + 40, ms: 600 }) {
                    Ev::Sent(k, refused) => {
                        from += k;
                        ensure!(refused.is_some() && from - read <= most, "{from} messages of {} bytes were accepted, and the peer has read {read}", c.each);
                        ensure!(refused.as_deref() == Some("timed out"), "sending: {refused:?}");
                    }
                    e => fail!("sending: {e:?}"),
                }
            }
            cx.nontrivial(true);
            let last = Msg::Note { method: "last".into(), params: Params::Is(json!(1)) };
            app.post(Cmd::Send(vec![last.clone()], 0));
            for i in read..from {
                let n = read_norm(&mut r)?.ok_or("the stream ended")?;
                same(&format!("message {i}"), &n, &make(i).norm())?;
            }
            let n = read_norm(&mut r)?.ok_or("the stream ended")?;
            same("the last message", &n, &last.norm())?;
            sent(app.wait(), 1)?;
            w.close();
        }
        want(app.call(Cmd::Drop), Ev::Done, "dropping")?;
        want(app.call(Cmd::Join), Ev::Joined(Ok(())), "joining")?;
        app.quit()
    }
}
