//! The handshakes and the in-memory pair.
use crate::engine::*;
use crate::gen::{self, uni, S};
use crate::model::*;
use crate::obs::*;
use crate::scen::*;
use crate::wire::*;
use bsp_server::{Connection, Message, Request};
use crossbeam_channel as ch;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::VecDeque;
use std::time::{Duration, Instant};

fn init_msg() -> S<Msg> {
    (gen::id(), gen::doc(INITIALIZE)).prop_map(|(id, d)| Msg::Req { id, method: "build/initialize".into(), params: Params::Is(d) }).boxed()
}
fn initialized() -> S<Msg> {
    gen::params_any().prop_map(|params| Msg::Note { method: "build/initialized".into(), params }).boxed()
}
fn some_init() -> Msg {
    Msg::Req { id: Id::I(3), method: "build/initialize".into(), params: Params::Is(json!({"displayName": "c", "rootUri": "file:///r"})) }
}
fn note(m: &str) -> Msg {
    Msg::Note { method: m.into(), params: Params::Absent }
}
fn call(id: i32, m: &str) -> Msg {
    Msg::Req { id: Id::I(id), method: m.into(), params: Params::Absent }
}

// ---------------------------------------------------------------- C08

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Way {
    /// everything is queued before the server starts
    Queued,
    /// the client waits for each answer before it goes on; it stops receiving before message n
    Lockstep { deaf_from: Option<usize> },
    Over(Tr, Vec<usize>),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C08Case {
    msgs: Vec<Msg>,
    result: Value,
    way: Way,
    /// queued: the client receives nothing at all
    deaf: bool,
    /// the client keeps its end open after the last message (only where that decides nothing)
    linger: bool,
}
/// What the handshake must do with a history.
struct Plan {
    /// per consumed message, the reply
    replies: Vec<Option<Norm>>,
    params: Option<Value>,
    ok: bool,
}
fn plan(msgs: &[Msg], result: &Value) -> Plan {
    let mut p = Plan { replies: vec![], params: None, ok: false };
    for m in msgs {
        if p.params.is_some() {
            p.replies.push(None);
            p.ok = matches!(m, Msg::Note { method, .. } if method == "build/initialized");
            return p;
        }
        match m.norm() {
            Norm::Request { id, variant, params, .. } => {
                if variant == "build/initialize" {
                    p.params = Some(params);
                    p.replies.push(Some(Norm::Success { id, result: result.clone() }));
                } else {
                    p.replies.push(Some(Norm::Failure { id, code: -32002, message: String::new(), data: Value::Null }));
                }
            }
            n @ Norm::Notification { .. } if !n.is_exit() => p.replies.push(None),
            _ => {
                p.replies.push(None);
                return p;
            }
        }
    }
    p
}
/// The text of a refusal is free.
fn strip(n: Norm) -> Norm {
    match n {
        Norm::Failure { id, code, .. } => Norm::Failure { id, code, message: String::new(), data: Value::Null },
        n => n,
    }
}

pub struct C08;
impl Prop for C08 {
    type Case = C08Case;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "generated client histories around initialize (earlier requests, notifications, responses, exit; right and wrong continuations; trailing messages; disconnects of either half at any point), queued, in lock-step or over TCP and stdio, against a state machine of the handshake; non-trivial: something precedes initialize, or the handshake must fail"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(45_000, 15)
    }
    fn fixed(&self, _: Tier) -> Vec<C08Case> {
        let i = some_init;
        let mut hist: Vec<Vec<Msg>> = vec![
            vec![],
            vec![i()],
            vec![i(), note("build/initialized")],
            vec![i(), note("build/initialized"), note("build/initialized"), call(1, "build/shutdown")],
            vec![i(), note("build/exit")],
            vec![i(), note("initialized")],
            vec![i(), call(4, "build/initialized")],
            vec![i(), i(), note("build/initialized")],
            vec![note("build/initialized"), i(), note("build/initialized")],
            vec![note("build/initialized"), note("x"), i(), note("build/initialized"), note("x")],
            vec![call(1, "build/shutdown"), call(1, "x"), i(), note("build/initialized")],
            vec![call(1, "build/shutdown"), note("build/exit")],
            vec![note("build/exit"), i(), note("build/initialized")],
            vec![Msg::Ok { id: Id::I(3), result: Value::Null }, i(), note("build/initialized")],
            vec![i(), Msg::Ok { id: Id::I(3), result: Value::Null }, note("build/initialized")],
            vec![call(3, "workspace/buildTargets"), i(), note("build/initialized"), call(3, "workspace/buildTargets")],
        ];
        let long = |n: i32, m: fn(i32) -> Msg| (0..n).map(m).chain([i(), note("build/initialized"), note("x")]).collect::<Vec<_>>();
        hist.push(long(1100, |k| call(k, "workspace/buildTargets")));
        hist.push(long(1100, |_| note("build/initialized")));
        hist.push(long(300, |k| if k % 2 == 0 { call(k / 2, "x") } else { note("x") }));
        let bare: Vec<Msg> = gen::all_methods().iter().filter(|m| !is_typed_request(m)).map(|m| call(9, m)).collect();
        for b in bare {
            hist.push(vec![b, i(), note("build/initialized")]);
        }
        let mut v = vec![];
        for msgs in hist {
            for (way, deaf) in [
                (Way::Queued, false),
                (Way::Queued, true),
                (Way::Lockstep { deaf_from: None }, false),
                (Way::Lockstep { deaf_from: Some(1) }, false),
                (Way::Lockstep { deaf_from: Some(0) }, false),
                (Way::Over(Tr::Connect, vec![7]), false),
            ] {
                v.push(C08Case { msgs: msgs.clone(), result: json!({"a": [1]}), way, deaf, linger: false });
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> S<C08Case> {
        let early = uni(vec![
            (6, gen::request()),
            (6, gen::note()),
            (2, initialized()),
            (1, gen::exit()),
            (1, gen::response()),
        ]);
        let mostly_fine = uni(vec![(4, gen::request()), (4, gen::note()), (2, initialized())]);
        let before = uni(vec![
            (4, Just(vec![]).boxed()),
            (10, vec(mostly_fine.clone(), 0..6).boxed()),
            (1, vec(mostly_fine, 6..40).boxed()),
            (4, vec(early, 0..6).boxed()),
        ]);
        let init = uni(vec![(6, init_msg().prop_map(|m| vec![m]).boxed()), (1, Just(vec![]).boxed())]);
        let next = uni(vec![
            (5, initialized().prop_map(|m| vec![m]).boxed()),
            (1, Just(vec![]).boxed()),
            (2, gen::msg().prop_map(|m| vec![m]).boxed()),
            (1, gen::exit().prop_map(|m| vec![m]).boxed()),
            (1, select(vec!["initialized", "build/Initialized", "build/initialized ", "build/initialize"]).prop_map(|m| vec![note(m)]).boxed()),
        ]);
        let rest = vec(uni(vec![(5, gen::msg()), (1, gen::exit()), (1, initialized())]), 0..4);
        let way = uni(vec![
            (12, Just(Way::Queued).boxed()),
            (12, uni(vec![(1, Just(None).boxed()), (1, (0usize..8).prop_map(Some).boxed())]).prop_map(|deaf_from| Way::Lockstep { deaf_from }).boxed()),
            (2, (select(vec![Tr::Connect, Tr::Listen, Tr::Connect, Tr::Listen, Tr::Stdio]), gen::cuts()).prop_map(|(t, c)| Way::Over(t, c)).boxed()),
        ]);
        (before, init, next, rest, gen::results(), way, prop::bool::weighted(0.15), any::<bool>())
            .prop_map(|(b, i, n, r, result, way, deaf, linger)| C08Case { msgs: [b, i, n, r].concat(), result, way, deaf, linger })
            .boxed()
    }
    fn run(&self, c: &C08Case, cx: &mut Cx) -> R {
        let p = plan(&c.msgs, &c.result);
        let used = p.replies.len();
        let replies: Vec<Norm> = p.replies.iter().flatten().cloned().collect();
        cx.nontrivial(!p.ok || p.replies.len() > 2);
        cx.label(if p.ok { "handshake succeeds" } else if p.params.is_some() { "fails after initialize" } else { "fails before initialize" });
        let after: Vec<Norm> = c.msgs[used..].iter().map(Msg::norm).collect();
        match &c.way {
            Way::Over(tr, cuts) => {
                cx.label(format!("over {tr:?}"));
                // nothing may be left in the socket: stop at an exit
                let stop = c.msgs.iter().position(Msg::is_exit).map_or(c.msgs.len(), |i| i + 1);
                let msgs = &c.msgs[..stop];
                let after: Vec<Norm> = msgs.get(used..).unwrap_or(&[]).iter().map(Msg::norm).collect();
                let (mut peer, mut app) = start(*tr, cx)?;
                app.post(Cmd::Initialize(c.result.clone()));
                app.post(Cmd::RecvAll);
                app.post(Cmd::Drop);
                app.post(Cmd::Join);
                app.post(Cmd::Quit);
                let bytes: Vec<u8> = msgs.iter().flat_map(frame_msg).collect();
                peer.w.write_cut(&bytes, cuts).map_err(|e| format!("client writing: {e}"))?;
                peer.w.close();
                let out = peer.read_all().map_err(|e| format!("client reading: {e}"))?;
                let init = app.wait();
                let (rest, ended) = got(app.wait())?;
                want(app.wait(), Ev::Done, "dropping")?;
                want(app.wait(), Ev::Joined(Ok(())), "joining")?;
                app.quit()?;
                let out: Vec<Norm> = norms_of_stream(&out)?.into_iter().map(strip).collect();
                same_seq("replies", &out, &replies)?;
                match init {
                    Ev::Init(Ok(v)) if p.ok => same("params returned", &norm(&INITIALIZE, &v), p.params.as_ref().unwrap())?,
                    Ev::Init(Err(_)) if !p.ok => {}
                    e => fail!("initialize gave {} but success is {}", cut(&format!("{e:?}"), 300), p.ok),
                }
                ensure!(ended, "no end of stream");
                same_seq("messages left", &rest, &after)
            }
            way => {
                let (client, server) = Connection::memory();
                let Connection { sender, receiver } = client;
                let (mut sender, mut receiver) = (Some(sender), Some(receiver));
                let result = c.result.clone();
                let mut calls: Vec<Value> = vec![];
                let mut ok_replies = replies.clone();
                let mut expect_ok = p.ok;
                let all = build_all(&c.msgs)?;
                let linger = c.linger && (p.ok || p.replies.len() < c.msgs.len());
                let mut replies_got = vec![];
                let serve = |server: &Connection, calls: &mut Vec<Value>| {
                    guard(|| {
                        server.initialize(|q| {
                            calls.push(serde_json::to_value(q).unwrap_or_default());
                            result
                        })
                    })
                };
                let r = match way {
                    Way::Queued => {
                        cx.label(if c.deaf { "queued, client not receiving" } else { "queued" });
                        if c.deaf {
                            receiver = None;
                            // its first answer finds nobody
                            if !ok_replies.is_empty() {
                                expect_ok = false;
                            }
                        }
                        for m in all {
                            sender.as_ref().unwrap().send(m).map_err(|e| format!("queueing: {e}"))?;
                        }
                        if !linger {
                            sender = None;
                        }
                        let r = serve(&server, &mut calls);
                        replies_got.extend(receiver.iter().flat_map(|r| r.try_iter()).map(|m| observe(&m)));
                        r
                    }
                    Way::Lockstep { deaf_from } => {
                        cx.label(if deaf_from.is_some() { "lock-step, client stops receiving" } else { "lock-step" });
                        let (dtx, drx) = ch::bounded::<()>(0);
                        if let Some(n) = deaf_from {
                            if p.replies.iter().skip(*n).any(Option::is_some) {
                                expect_ok = false;
                                ok_replies = p.replies.iter().take(*n).flatten().cloned().collect();
                            }
                        }
                        std::thread::scope(|s| {
                            let h = s.spawn(|| {
                                let r = serve(&server, &mut calls);
                                drop(dtx);
                                r
                            });
                            for (i, m) in all.into_iter().enumerate() {
                                if deaf_from.map_or(false, |n| i >= n) {
                                    receiver = None;
                                }
                                if sender.as_ref().unwrap().send(m).is_err() {
                                    break;
                                }
                                if let (Some(Some(_)), Some(rx)) = (p.replies.get(i), &receiver) {
                                    ch::select! {
                                        recv(rx) -> m => if let Ok(m) = m { replies_got.push(observe(&m)) },
                                        recv(drx) -> _ => {
                                            // it may have answered just before it ended
                                            if let Ok(m) = rx.try_recv() { replies_got.push(observe(&m)) }
                                        }
                                    }
                                }
                            }
                            if !linger {
                                sender = None;
                            }
                            let r = h.join().unwrap();
                            replies_got.extend(receiver.iter().flat_map(|r| r.try_iter()).map(|m| observe(&m)));
                            r
                        })
                    }
                    Way::Over(..) => unreachable!(),
                };
                let r = r.map_err(|p| format!("initialize panicked: {p}"))?;
                let served: Vec<Norm> = replies_got.into_iter().map(strip).collect();
                if c.deaf && matches!(way, Way::Queued) {
                    ok_replies.clear();
                }
                same_seq("replies", &served, &ok_replies)?;
                let deaf_at = match way {
                    Way::Queued if c.deaf => 0,
                    Way::Lockstep { deaf_from: Some(n) } => *n,
                    _ => usize::MAX,
                };
                let init_at = p.replies.iter().position(|r| matches!(r, Some(Norm::Success { .. }))).unwrap_or(0);
                let cut_short = p.replies.iter().take(init_at).enumerate().any(|(i, r)| r.is_some() && i >= deaf_at);
                match &p.params {
                    Some(q) if !cut_short => {
                        ensure!(calls.len() == 1, "the callback ran {} times", calls.len());
                        same("params given to the callback", &norm(&INITIALIZE, &calls[0]), q)?;
                    }
                    Some(_) => ensure!(calls.len() <= 1, "the callback ran {} times", calls.len()),
                    None => ensure!(calls.is_empty(), "the callback ran without initialize"),
                }
                match r {
                    Ok(v) => {
                        ensure!(expect_ok, "initialize succeeded");
                        let v = serde_json::to_value(&v).unwrap_or_default();
                        same("params returned", &norm(&INITIALIZE, &v), p.params.as_ref().unwrap())?;
                    }
                    Err(e) => ensure!(!expect_ok, "initialize failed: {}", cut(&e.to_string(), 300)),
                }
                // what comes later is still there
                if receiver.is_some() && ok_replies == replies {
                    let left: Vec<Norm> = server.receiver.try_iter().map(|m| observe(&m)).collect();
                    same_seq("messages left", &left, &after)?;
                }
                drop(sender);
                Ok(())
            }
        }
    }
}

// ---------------------------------------------------------------- C09

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Client {
    /// queued beforehand
    Queued { deaf: bool, linger: bool },
    /// sent once the reply has come, this much later
    After { ms: u64 },
    /// stays connected and says nothing
    Silent,
    Over(Tr),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C09Case {
    req: Msg,
    next: Vec<Msg>,
    client: Client,
}
pub struct C09;
impl Prop for C09 {
    type Case = C09Case;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "generated requests (half of them shutdown) and continuations (exit, any other message, nothing; queued, after the reply, delayed up to 27 s, silent; client receiving or not; over TCP and stdio) against the specified outcome; non-trivial: a shutdown request"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(45_000, 15)
    }
    fn patience(&self) -> Duration {
        Duration::from_secs(100)
    }
    fn fixed(&self, t: Tier) -> Vec<C09Case> {
        let sd = || call(1, "build/shutdown");
        let exit = || note("build/exit");
        let mut v = vec![
            C09Case { req: sd(), next: vec![], client: Client::Silent },
            C09Case { req: sd(), next: vec![exit()], client: Client::After { ms: 27_000 } },
            C09Case { req: sd(), next: vec![note("exit")], client: Client::After { ms: 6_000 } },
            C09Case { req: sd(), next: vec![], client: Client::After { ms: 4_000 } },
            C09Case { req: sd(), next: vec![exit()], client: Client::After { ms: 11_000 } },
        ];
        if t == Tier::Thorough {
            for k in 0..27 {
                v.push(C09Case { req: sd(), next: vec![exit()], client: Client::After { ms: k * 1000 } });
            }
        }
        for next in [
            vec![exit()],
            vec![],
            vec![exit(), exit()],
            vec![sd(), exit()],
            vec![note("build/initialized"), exit()],
            vec![note("build/Exit")],
            vec![note("exit")],
            vec![call(1, "build/exit"), exit()],
            vec![Msg::Ok { id: Id::I(1), result: Value::Null }, exit()],
        ] {
            for client in [
                Client::Queued { deaf: false, linger: false },
                Client::Queued { deaf: true, linger: false },
                Client::Queued { deaf: true, linger: true },
                Client::After { ms: 0 },
                Client::Over(Tr::Connect),
                Client::Over(Tr::Stdio),
            ] {
                if next.is_empty() && matches!(client, Client::Queued { linger: true, .. }) {
                    continue;
                }
                v.push(C09Case { req: sd(), next: next.clone(), client });
            }
        }
        for m in gen::all_methods() {
            if !is_typed_request(m) || BARE_REQUESTS.contains(&m) {
                v.push(C09Case { req: call(2, m), next: vec![exit()], client: Client::Queued { deaf: false, linger: true } });
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> S<C09Case> {
        let sd = (gen::id(), gen::params_any()).prop_map(|(id, params)| Msg::Req { id, method: "build/shutdown".into(), params }).boxed();
        let near = (gen::id(), select(vec!["build/exit", "shutdown", "build/Shutdown", "build/shutdown ", "build/shutdow", "workspace/reload"]))
            .prop_map(|(id, m)| Msg::Req { id, method: m.into(), params: Params::Absent })
            .boxed();
        let req = uni(vec![(4, sd), (3, gen::request()), (1, near)]);
        let first = uni(vec![(4, gen::exit()), (3, gen::msg()), (1, select(vec!["exit", "build/Exit", "build/exit ", "build/initialized"]).prop_map(note).boxed())]);
        let next = (vec(first, 0..2), vec(uni(vec![(2, gen::msg()), (1, gen::exit())]), 0..3)).prop_map(|(a, b)| if a.is_empty() { a } else { [a, b].concat() });
        let client = uni(vec![
            (12, (any::<bool>(), any::<bool>()).prop_map(|(deaf, linger)| Client::Queued { deaf, linger }).boxed()),
            (12, (0u64..4).prop_map(|ms| Client::After { ms }).boxed()),
            (1, select(vec![Tr::Connect, Tr::Listen, Tr::Connect, Tr::Listen, Tr::Stdio]).prop_map(Client::Over).boxed()),
        ]);
        (req, next, client)
            .prop_map(|(req, next, mut client)| {
                if next.is_empty() {
                    if let Client::Queued { linger, .. } = &mut client {
                        *linger = false;
                    }
                }
                C09Case { req, next, client }
            })
            .boxed()
    }
    fn run(&self, c: &C09Case, cx: &mut Cx) -> R {
        let (id, method) = match &c.req {
            Msg::Req { id, method, .. } => (id.clone(), method.clone()),
            _ => fail!("not a request"),
        };
        let is = method == "build/shutdown";
        let ok = c.next.first().map_or(false, Msg::is_exit);
        cx.nontrivial(is);
        cx.label(if !is { "other request" } else if ok { "shutdown, exit" } else if c.next.is_empty() { "shutdown, nothing" } else { "shutdown, other message" });
        let reply = Norm::Success { id: id.json(), result: Value::Null };
        let nexts: Vec<Norm> = c.next.iter().map(Msg::norm).collect();
        let judge = |r: Result<bool, String>| -> R {
            match (r, is, ok) {
                (Ok(false), false, _) | (Ok(true), true, true) | (Err(_), true, false) => Ok(()),
                (r, ..) => Err(format!("handle_shutdown gave {}", cut(&format!("{r:?}"), 300)).into()),
            }
        };
        if let Client::Over(tr) = &c.client {
            cx.label(format!("over {tr:?}"));
            let stop = c.next.iter().position(Msg::is_exit).map_or(c.next.len(), |i| i + 1);
            let (mut peer, mut app) = start(*tr, cx)?;
            app.post(Cmd::Shutdown);
            app.post(Cmd::RecvAll);
            app.post(Cmd::Drop);
            app.post(Cmd::Join);
            app.post(Cmd::Quit);
            peer.w.write(&frame_msg(&c.req)).map_err(|e| format!("client writing: {e}"))?;
            if is {
                let r = read_norm(&mut peer.r)?;
                same("reply", &r, &Some(reply.clone()))?;
            }
            let bytes: Vec<u8> = c.next[..stop].iter().flat_map(frame_msg).collect();
            peer.w.write(&bytes).map_err(|e| format!("client writing: {e}"))?;
            peer.w.close();
            let more = peer.read_all().map_err(|e| format!("client reading: {e}"))?;
            ensure!(more.is_empty(), "more was sent: {}", show(&more));
            match app.wait() {
                Ev::Shut(Some(r)) => judge(r)?,
                e => fail!("shutdown: {e:?}"),
            }
            let (rest, _) = got(app.wait())?;
            let left = if is { nexts.get(1..stop.max(1)).unwrap_or(&[]) } else { &nexts[..stop] };
            same_seq("messages left", &rest, left)?;
            want(app.wait(), Ev::Done, "dropping")?;
            want(app.wait(), Ev::Joined(Ok(())), "joining")?;
            return app.quit();
        }
        let (client, server) = Connection::memory();
        let req = match build(&c.req)? {
            Message::Request(r) => r,
            _ => fail!("not a request"),
        };
        let next = build_all(&c.next)?;
        let Connection { sender, receiver } = client;
        let (mut sender, mut receiver) = (Some(sender), Some(receiver));
        let handle = |r: &Request| guard(|| server.handle_shutdown(r).map_err(|e| e.to_string()));
        let mut replies: Vec<Norm> = vec![];
        let r = match &c.client {
            Client::Queued { deaf, linger } => {
                cx.label(if *deaf { "queued, client not receiving" } else { "queued" });
                for m in next {
                    sender.as_ref().unwrap().send(m).map_err(|e| e.to_string())?;
                }
                if *deaf {
                    receiver = None;
                }
                if !*linger {
                    sender = None;
                }
                handle(&req)
            }
            Client::After { ms } => {
                cx.label("after the reply");
                std::thread::scope(|s| {
                    let h = s.spawn(|| handle(&req));
                    if is {
                        // an answer, or the end of the call
                        let rx = receiver.as_ref().unwrap();
                        loop {
                            if let Ok(m) = rx.recv_timeout(Duration::from_millis(20)) {
                                replies.push(observe(&m));
                                break;
                            }
                            if h.is_finished() {
                                break;
                            }
                        }
                    }
                    std::thread::sleep(Duration::from_millis(*ms));
                    for m in next {
                        let _ = sender.as_ref().unwrap().send(m);
                    }
                    if c.next.is_empty() {
                        sender = None;
                    }
                    h.join().unwrap()
                })
            }
            _ => {
                cx.label("silence");
                let t0 = Instant::now();
                let (tx, rx) = ch::bounded(1);
                let (server2, req2) = (server, req);
                std::thread::spawn(move || {
                    let r = guard(|| server2.handle_shutdown(&req2).map_err(|e| e.to_string()));
                    let _ = tx.send(r);
                    drop(server2);
                });
                let r = match rx.recv_timeout(Duration::from_secs(75)) {
                    Ok(r) => r,
                    Err(_) => fail!("handle_shutdown still waits after {:?} of silence", t0.elapsed()),
                };
                ensure!(t0.elapsed() >= Duration::from_secs(28), "handle_shutdown gave up after {:?}: {r:?}", t0.elapsed());
                match r {
                    Ok(r) => judge(r)?,
                    Err(p) => fail!("handle_shutdown panicked: {p}"),
                }
                let replies: Vec<Norm> = receiver.iter().flat_map(|r| r.try_iter()).map(|m| observe(&m)).collect();
                return same_seq("replies", &replies, &[reply]);
            }
        };
        let r = r.map_err(|p| format!("handle_shutdown panicked: {p}"))?;
        judge(r)?;
        replies.extend(receiver.iter().flat_map(|r| r.try_iter()).map(|m| observe(&m)));
        let wanted = if is && receiver.is_some() { vec![reply] } else { vec![] };
        same_seq("replies", &replies, &wanted)?;
        let left: Vec<Norm> = server.receiver.try_iter().map(|m| observe(&m)).collect();
        let wanted = if is { nexts.get(1..).unwrap_or(&[]) } else { &nexts[..] };
        same_seq("messages left", &left, wanted)?;
        drop(sender);
        Ok(())
    }
}

// ---------------------------------------------------------------- C13

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    /// end, way of sending, message
    Send(usize, u8, Msg),
    /// end, how many
    Burst(usize, u8, usize),
    /// end, how many at most, way of receiving
    Recv(usize, usize, u8),
    Clone(usize),
    DropClone(usize),
    DropSender(usize),
    DropReceiver(usize),
    Drop(usize),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum C13Case {
    Ops(Vec<Op>),
    /// both ends send and receive at the same time: numbers of messages, pauses
    Busy(usize, usize, u64),
}
#[derive(Default)]
struct End {
    conn: Option<Connection>,
    tx: Vec<ch::Sender<Message>>,
    rx: Option<ch::Receiver<Message>>,
}
pub struct C13;
impl Prop for C13 {
    type Case = C13Case;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "generated sequences of the four send operations (with zero and past deadlines), bursts of thousands, receives, sender clones and drops of either half on both ends of a pair, against two model queues, and both ends busy in their own threads; non-trivial: messages in flight both ways, or an operation on an end whose other side is gone"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(25_000, 15)
    }
    fn fixed(&self, _: Tier) -> Vec<C13Case> {
        let mut v = vec![];
        for e in 0..2 {
            for via in 0..8 {
                v.push(C13Case::Ops(vec![Op::Burst(e, via, 5000), Op::Burst(1 - e, via, 10), Op::Recv(1 - e, 6000, 0), Op::Recv(e, 20, 1)]));
                v.push(C13Case::Ops(vec![Op::Burst(e, via, 3), Op::Drop(e), Op::Recv(1 - e, 9, via), Op::Send(1 - e, via, some_init())]));
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> S<C13Case> {
        let e = 0usize..2;
        let op = uni(vec![
            (20, (e.clone(), any::<u8>(), uni(vec![(6, gen::msg()), (1, gen::exit())])).prop_map(|(e, v, m)| Op::Send(e, v, m)).boxed()),
            (3, (e.clone(), any::<u8>(), 1usize..30).prop_map(|(e, v, n)| Op::Burst(e, v, n)).boxed()),
            (1, (e.clone(), any::<u8>(), 1usize..3000).prop_map(|(e, v, n)| Op::Burst(e, v, n)).boxed()),
            (14, (e.clone(), 1usize..6, any::<u8>()).prop_map(|(e, n, v)| Op::Recv(e, n, v)).boxed()),
            (3, (e.clone(), 1usize..5000, any::<u8>()).prop_map(|(e, n, v)| Op::Recv(e, n, v)).boxed()),
            (1, e.clone().prop_map(Op::Clone).boxed()),
            (1, e.clone().prop_map(Op::DropClone).boxed()),
            (1, e.clone().prop_map(Op::DropSender).boxed()),
            (1, e.clone().prop_map(Op::DropReceiver).boxed()),
            (1, e.clone().prop_map(Op::Drop).boxed()),
        ]);
        uni(vec![
            (30, vec(op, 1..25).prop_map(C13Case::Ops).boxed()),
            (1, (0usize..3000, 0usize..3000, any::<u64>()).prop_map(|(a, b, s)| C13Case::Busy(a, b, s)).boxed()),
        ])
    }
    fn run(&self, c: &C13Case, cx: &mut Cx) -> R {
        match c {
            C13Case::Ops(ops) => ops_run(ops, cx),
            C13Case::Busy(a, b, s) => busy(*a, *b, *s, cx),
        }
    }
}
fn busy(a: usize, b: usize, salt: u64, cx: &mut Cx) -> R {
    cx.label("both ends busy");
    cx.nontrivial(a > 0 && b > 0);
    let (x, y) = Connection::memory();
    let work = |c: Connection, tag: &'static str, n: usize, other: usize, mut s: u64| -> R {
        let (mut sent, mut got) = (0usize, 0usize);
        let other_tag = if tag == "x" { "y" } else { "x" };
        while sent < n || got < other {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let k = ((s >> 40) % 50) as usize + 1;
            for _ in 0..k.min(n - sent) {
                c.send((bsp_server::RequestId::from(sent as i32), "m", json!(tag))).map_err(|e| format!("send: {e}"))?;
                sent += 1;
            }
            // block only when there is nothing left to send
            for _ in 0..k {
                if got == other {
                    break;
                }
                let m = if sent == n { c.receiver.recv().map_err(|e| format!("{tag} received {got} of {other}: {e}"))? } else {
                    match c.receiver.try_recv() {
                        Ok(m) => m,
                        Err(ch::TryRecvError::Empty) => break,
                        Err(e) => return Err(format!("{tag} received {got} of {other}: {e}").into()),
                    }
                };
                let want = norm_request(json!(got), "m", json!(other_tag));
                same("received", &observe(&m), &want)?;
                got += 1;
            }
        }
        drop(c.sender);
        ensure!(c.receiver.recv().is_err(), "a message too many");
        Ok(())
    };
    std::thread::scope(|sc| {
        let h1 = sc.spawn(|| work(x, "x", a, b, salt));
        let h2 = sc.spawn(|| work(y, "y", b, a, salt.rotate_left(31)));
        let r1 = h1.join().map_err(|_| Fail::from("panic"))?;
        let r2 = h2.join().map_err(|_| Fail::from("panic"))?;
        r1.and(r2)
    })
}
fn ops_run(ops: &[Op], cx: &mut Cx) -> R {
    let (a, b) = Connection::memory();
    let mut ends = [End { conn: Some(a), ..End::default() }, End { conn: Some(b), ..End::default() }];
    // in flight towards each end
    let mut q: [VecDeque<Norm>; 2] = Default::default();
    let mut serial = 0;
    for (i, op) in ops.iter().enumerate() {
        let at = |e: Fail| -> Fail { format!("operation {i} {}: {}", cut(&format!("{op:?}"), 200), e.what).into() };
        let rx_alive = |e: &End| e.conn.is_some() || e.rx.is_some();
        let tx_alive = |e: &End| e.conn.is_some() || !e.tx.is_empty();
        match op {
            Op::Send(..) | Op::Burst(..) => {
                let (e, via, msgs) = match op {
                    Op::Send(e, v, m) => (*e, *v, vec![m.clone()]),
                    Op::Burst(e, v, n) => (*e, *v, {
                        serial += *n as i32;
                        (0..*n as i32).map(|k| gen::blob(k as u8, serial - k, 1)).collect()
                    }),
                    _ => unreachable!(),
                };
                if !tx_alive(&ends[e]) {
                    continue;
                }
                let open = rx_alive(&ends[1 - e]);
                cx.label_if(!open, "sending to a gone end");
                cx.nontrivial(!open);
                for m in msgs {
                    let lib = build(&m)?;
                    let n = m.norm();
                    let back: Result<(), Message> = match (&ends[e].conn, via % 8) {
                        (Some(c), 0) => c.send(lib).map_err(|x| x.into_inner()),
                        (Some(c), 1) => c.try_send(lib).map_err(|x| x.into_inner()),
                        (Some(c), 2) => c.send_timeout(lib, Duration::from_secs(1000)).map_err(|x| x.into_inner()),
                        (Some(c), 3) => c.send_deadline(lib, Instant::now() + Duration::from_secs(1000)).map_err(|x| x.into_inner()),
                        (Some(c), 4) => c.send_timeout(lib, Duration::ZERO).map_err(|x| x.into_inner()),
                        (Some(c), 5) => c.send_deadline(lib, Instant::now()).map_err(|x| x.into_inner()),
                        (Some(c), _) => c.sender.send(lib).map_err(|x| x.into_inner()),
                        (None, v) if v % 2 == 0 => ends[e].tx[0].try_send(lib).map_err(|x| x.into_inner()),
                        (None, _) => ends[e].tx[0].send(lib).map_err(|x| x.into_inner()),
                    };
                    match back {
                        Ok(()) => {
                            ensure!(open, "operation {i}: sending to an end that is gone succeeded");
                            q[1 - e].push_back(n);
                        }
                        Err(m) => {
                            ensure!(!open, "operation {i}: sending failed");
                            same("message given back", &observe(&m), &n).map_err(at)?;
                        }
                    }
                }
                cx.nontrivial(!q[0].is_empty() && !q[1].is_empty());
            }
            Op::Recv(e, n, via) => {
                let sender_alive = tx_alive(&ends[1 - *e]);
                let rx = match (&ends[*e].conn, &ends[*e].rx) {
                    (Some(c), _) => &c.receiver,
                    (None, Some(r)) => r,
                    _ => continue,
                };
                for _ in 0..*n {
                    match q[*e].pop_front() {
                        Some(w) => {
                            let m = match via % 3 {
                                0 => rx.recv().map_err(|e| e.to_string()),
                                1 => rx.try_recv().map_err(|e| e.to_string()),
                                _ => rx.recv_timeout(Duration::from_secs(1000)).map_err(|e| e.to_string()),
                            };
                            let m = m.map_err(|x| at(format!("a message was lost: {x}").into()))?;
                            same("received", &observe(&m), &w).map_err(at)?;
                        }
                        None if sender_alive => {
                            match rx.try_recv() {
                                Err(ch::TryRecvError::Empty) => {}
                                x => fail!("operation {i}: nothing is in flight but receiving gives {x:?}"),
                            }
                            break;
                        }
                        None => {
                            cx.label("end of stream");
                            cx.nontrivial(true);
                            if let Ok(m) = rx.recv() {
                                fail!("operation {i}: a message out of nowhere: {:?}", observe(&m));
                            }
                            break;
                        }
                    }
                }
            }
            Op::Clone(e) => {
                let s = match &ends[*e].conn {
                    Some(c) => c.sender.clone(),
                    None => match ends[*e].tx.first() {
                        Some(s) => s.clone(),
                        None => continue,
                    },
                };
                ends[*e].tx.push(s);
            }
            Op::DropClone(e) => {
                ends[*e].tx.pop();
            }
            Op::DropSender(e) | Op::DropReceiver(e) => {
                if let Some(Connection { sender, receiver }) = ends[*e].conn.take() {
                    ends[*e].tx.push(sender);
                    ends[*e].rx = Some(receiver);
                }
                if matches!(op, Op::DropSender(_)) {
                    ends[*e].tx.clear();
                } else {
                    ends[*e].rx = None;
                    q[*e].clear();
                }
            }
            Op::Drop(e) => {
                ends[*e] = End::default();
                q[*e].clear();
            }
        }
    }
    Ok(())
}
