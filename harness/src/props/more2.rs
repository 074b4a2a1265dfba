//! The server interface, any transport alike, forwarding, several receivers, and what a message costs.
use crate::engine::*;
use crate::gen::{self, uni, S};
use crate::model::*;
use crate::obs;
use crate::props::{codec, more, stream};
use crate::scen::*;
use crate::wire::*;
use bsp_server::types::{self as t, BuildServer};
use bsp_server::{Connection, Message, Request, Response};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::Read;

fn io(what: &'static str) -> impl Fn(std::io::Error) -> Fail {
    move |e| format!("{what}: {e}").into()
}
fn norms(ms: &[Msg]) -> Vec<Norm> {
    ms.iter().map(Msg::norm).collect()
}

// ---------------------------------------------------------------- C34

/// One answer: a result or the text of an error.
type Answer = Result<Value, String>;
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C34Case {
    calls: Vec<(String, Id, Value, Answer)>,
    salt: u64,
}
/// The server under test: what it was asked, and what it answers next.
#[derive(Default)]
struct Script {
    seen: RefCell<Vec<(&'static str, Value)>>,
    next: RefCell<Option<Answer>>,
}
impl Script {
    fn play<R: DeserializeOwned>(&self, what: &'static str, p: impl Serialize) -> anyhow::Result<R> {
        self.seen.borrow_mut().push((what, serde_json::to_value(p)?));
        match self.next.borrow_mut().take() {
            Some(Ok(v)) => Ok(serde_json::from_value(v)?),
            Some(Err(e)) => Err(anyhow::anyhow!(e)),
            None => Err(anyhow::anyhow!("called twice")),
        }
    }
}
macro_rules! own {
    ($name:ident: $( $f:ident($p:ty) -> $r:ty = $m:literal; )* | $( $g:ident -> $s:ty = $n:literal; )*) => {
        struct $name(Script);
        impl BuildServer for $name {
            fn initialize(&self, p: t::InitializeBuild) -> anyhow::Result<t::InitializeBuildResult> {
                self.0.play("build/initialize", p)
            }
            $( fn $f(&self, p: $p) -> anyhow::Result<$r> { self.0.play($m, p) } )*
            $( fn $g(&self) -> anyhow::Result<$s> { self.0.play($n, ()) } )*
        }
    };
}
own!(Bare: |);
own!(Half:
    bt_compile(t::BuildTargetCompile) -> t::BuildTargetCompileResult = "buildTarget/compile";
    bt_sources(t::BuildTargetSources) -> t::BuildTargetSourcesResult = "buildTarget/sources";
    bt_resources(t::BuildTargetResources) -> t::BuildTargetResourcesResult = "buildTarget/resources";
    bt_clean_cache(t::BuildTargetCleanCache) -> t::BuildTargetCleanCacheResult = "buildTarget/cleanCache";
    debug_session_start(t::DebugSessionStart) -> t::DebugSessionStartResult = "debugSession/start";
    | workspace_reload -> Option<Value> = "workspace/reload";
);
own!(Rest:
    bt_dependency_modules(t::BuildTargetDependencyModules) -> t::BuildTargetDependencyModulesResult = "buildTarget/dependencyModules";
    bt_inverse_sources(t::TextDocumentInverseSources) -> t::BuildTargetInverseSourcesResult = "buildTarget/inverseSources";
    bt_dependency_sources(t::BuildTargetDependencySources) -> t::BuildTargetDependencySourcesResult = "buildTarget/dependencySources";
    bt_run(t::BuildTargetRun) -> t::BuildTargetRunResult = "buildTarget/run";
    bt_test(t::BuildTargetTest) -> t::BuildTargetTestResult = "buildTarget/test";
    | workspace_bts -> t::WorkspaceBuildTargetsResult = "workspace/buildTargets";
    build_shutdown -> Option<Value> = "build/shutdown";
);
const HALF: &[&str] = &["buildTarget/compile", "buildTarget/sources", "buildTarget/resources", "buildTarget/cleanCache", "debugSession/start", "workspace/reload"];
/// What an operation answers that is not implemented: an empty result, or none at all.
fn unset(method: &str) -> Option<Value> {
    match method {
        "build/shutdown" | "workspace/reload" => Some(Value::Null),
        "workspace/buildTargets" | "buildTarget/inverseSources" => Some(json!({"targets": []})),
        "buildTarget/sources" | "buildTarget/dependencySources" | "buildTarget/resources" => Some(json!({"items": []})),
        _ => None,
    }
}
fn result_of(method: &str) -> Option<Ty> {
    Some(match method {
        "build/initialize" => R_INITIALIZE,
        "workspace/buildTargets" => R_TARGETS,
        "buildTarget/dependencyModules" => R_MODULES,
        "debugSession/start" => R_DEBUG,
        "buildTarget/sources" => R_SOURCES,
        "buildTarget/inverseSources" => JUST_TARGETS,
        "buildTarget/dependencySources" => R_DEPSOURCES,
        "buildTarget/resources" => R_RESOURCES,
        "buildTarget/run" => R_RUN,
        "buildTarget/compile" | "buildTarget/test" => R_TEST,
        "buildTarget/cleanCache" => R_CLEAN,
        _ => return None,
    })
}
fn dispatch(s: &dyn BuildServer, r: Request) -> Response {
    fn done<T: Serialize>(id: bsp_server::RequestId, r: anyhow::Result<T>) -> Response {
        match r {
            Ok(x) => Response::ok(id, x),
            Err(e) => Response::err(id, -32603, e.to_string()),
        }
    }
    match r {
        Request::InitializeBuild(i, p) => done(i, s.initialize(p)),
        Request::Shutdown(i) => done(i, s.build_shutdown()),
        Request::WorkspaceBuildTargets(i) => done(i, s.workspace_bts()),
        Request::WorkspaceReload(i) => done(i, s.workspace_reload()),
        Request::BuildTargetDependencyModules(i, p) => done(i, s.bt_dependency_modules(p)),
        Request::DebugSessionStart(i, p) => done(i, s.debug_session_start(p)),
        Request::BuildTargetSources(i, p) => done(i, s.bt_sources(p)),
        Request::TextDocumentInverseSources(i, p) => done(i, s.bt_inverse_sources(p)),
        Request::BuildTargetDependencySources(i, p) => done(i, s.bt_dependency_sources(p)),
        Request::BuildTargetResources(i, p) => done(i, s.bt_resources(p)),
        Request::BuildTargetRun(i, p) => done(i, s.bt_run(p)),
        Request::BuildTargetCompile(i, p) => done(i, s.bt_compile(p)),
        Request::BuildTargetTest(i, p) => done(i, s.bt_test(p)),
        Request::BuildTargetCleanCache(i, p) => done(i, s.bt_clean_cache(p)),
        r => Response::method_not_found(r.id().clone(), r.method().to_string()),
    }
}
pub struct C34;
impl C34 {
    fn serve(&self, c: &C34Case, s: &dyn BuildServer, script: &Script, implements: impl Fn(&str) -> bool, who: &str) -> R {
        let (client, server) = Connection::memory();
        for (k, (method, id, params, answer)) in c.calls.iter().enumerate() {
            let at = format!("{who}: call {k}, {method}");
            let m = Msg::Req { id: id.clone(), method: method.clone(), params: Params::Is(params.clone()) };
            let m: Message = serde_json::from_str(&spell(&m.wire_rpc(), c.salt)).map_err(|e| format!("{at}: refused: {e}"))?;
            client.send(m).map_err(|e| format!("{at}: {e}"))?;
            let r = match server.receiver.try_recv() {
                Ok(Message::Request(r)) => r,
                m => fail!("{at}: received {m:?}"),
            };
            s.on_initializtion();
            *script.next.borrow_mut() = Some(answer.clone());
            script.seen.borrow_mut().clear();
            let resp = guard(|| dispatch(s, r)).map_err(|p| format!("{at}: {p}"))?;
            s.on_build_exit();
            server.send(resp).map_err(|e| format!("{at}: {e}"))?;
            let got = match client.receiver.try_recv() {
                Ok(m) => obs::observe(&m),
                Err(e) => fail!("{at}: {e}"),
            };
            let seen = script.seen.borrow().clone();
            if implements(method) {
                let p = match request_schema(method) {
                    Some(ty) => norm(&ty, params),
                    None => Value::Null,
                };
                ensure!(seen.len() == 1 && seen[0].0 == method, "{at}: called {seen:?}");
                let got_p = match request_schema(method) {
                    Some(ty) => norm(&ty, &seen[0].1),
                    None => seen[0].1.clone(),
                };
                same(&format!("{at}: its parameters"), &got_p, &p)?;
                match (got, answer) {
                    (Norm::Success { id: i, result }, Ok(a)) if i == id.json() => {
                        let n = |v: &Value| result_of(method).map_or(v.clone(), |ty| norm(&ty, v));
                        same(&format!("{at}: its result"), &n(&result), &n(a))?;
                    }
                    (Norm::Failure { id: i, message, .. }, Err(e)) if i == id.json() && message == *e => {}
                    (g, a) => fail!("{at}: answered {g:?} instead of {a:?}"),
                }
            } else {
                ensure!(seen.is_empty(), "{at}: called {seen:?}");
                match (got, unset(method)) {
                    (Norm::Success { id: i, result }, Some(e)) if i == id.json() => same(&format!("{at}: not implemented"), &result, &e)?,
                    (Norm::Failure { id: i, .. }, None) if i == id.json() => {}
                    (g, e) => fail!("{at}: not implemented, answered {g:?} instead of {e:?}"),
                }
            }
        }
        Ok(())
    }
}
fn c34_call() -> S<(String, Id, Value, Answer)> {
    let mut v = vec![];
    for (m, ty) in REQUESTS.iter().map(|(m, ty)| (*m, Some(*ty))).chain(BARE_REQUESTS.iter().map(|m| (*m, None))) {
        let params = ty.map_or(Just(Value::Null).boxed(), gen::doc);
        let result = match result_of(m) {
            Some(ty) => gen::doc(ty),
            None => gen::json(),
        };
        let answer = uni(vec![(3, result.prop_map(Ok).boxed()), (1, gen::text().prop_map(Err).boxed())]);
        v.push((1, (gen::id(), params, answer).prop_map(move |(i, p, a)| (m.to_string(), i, p, a)).boxed()));
    }
    uni(v)
}
impl Prop for C34 {
    type Case = C34Case;
    fn id(&self) -> &'static str {
        "C34"
    }
    fn rule(&self) -> &'static str {
        "sequences of generated requests of all fourteen methods, received over an in-memory connection and dispatched to three implementations of the interface that between them implement and leave out every operation; parameters seen, and the response at the client, compared with the script, or with the empty result or an error where an operation is left out; non-trivial: at least one call is implemented and one is not, by the same implementation"
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.n(12_000, 20)
    }
    fn strategy(&self, _: Tier) -> S<C34Case> {
        (vec(c34_call(), 1..8), any::<u64>()).prop_map(|(calls, salt)| C34Case { calls, salt }).boxed()
    }
    fn run(&self, c: &C34Case, cx: &mut Cx) -> R {
        let (a, b, d) = (Bare(Script::default()), Half(Script::default()), Rest(Script::default()));
        let has = |half: bool| move |m: &str| m == "build/initialize" || HALF.contains(&m) == half;
        cx.nontrivial(c.calls.iter().any(|(m, ..)| has(true)(m)) && c.calls.iter().any(|(m, ..)| !has(true)(m)));
        for (m, ..) in &c.calls {
            cx.label(m.clone());
        }
        self.serve(c, &a, &a.0, |m| m == "build/initialize", "implementing nothing")?;
        self.serve(c, &b, &b.0, has(true), "implementing some")?;
        self.serve(c, &d, &d.0, has(false), "implementing the others")
    }
}

// ---------------------------------------------------------------- C35

#[derive(Serialize, Deserialize, Clone, Copy, Debug)]
pub enum Way {
    /// two endpoints of the library, the first listening
    Direct(bool),
    /// each with its own transport, and bytes passed on between them
    Relay(Tr, Tr),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Step {
    /// send (by the first or the second), through one of the ways of sending
    Send(bool, Vec<Msg>, u8),
    /// receive at most so many of those that are there
    Recv(bool, usize),
    /// the receiver waits while a message of any size is sent
    Pass(bool, Msg),
    /// send back what is there, at most so many
    Echo(bool, usize),
    /// send small messages until so many wait for the other
    Burst(bool, usize),
    /// nothing happens for so many milliseconds
    Wait(u64),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C35Case {
    way: Way,
    cuts: Vec<usize>,
    /// requests before the handshake, the handshake's messages, and its result
    hand: Option<(Vec<Msg>, Msg, Msg, Value)>,
    steps: Vec<Step>,
    /// a shutdown request before exit
    shutdown: Option<Id>,
    /// how long after exit what came before it is received, if only then
    #[serde(default)]
    late: Option<u64>,
}
pub struct C35;
fn passes(cuts: Vec<usize>, mut r: PeerR, mut w: PeerW) -> std::thread::JoinHandle<()> {
    std::thread::spawn(move || {
        let mut buf = vec![0; 1 << 16];
        let mut k = 0;
        loop {
            let n = if k < 3000 { cuts[k % cuts.len()].clamp(1, buf.len()) } else { buf.len() };
            k += 1;
            match r.read(&mut buf[..n]) {
                Ok(n) if n > 0 => {
                    if w.write(&buf[..n]).is_err() {
                        break;
                    }
                }
                _ => break,
            }
        }
        w.close();
    })
}
/// What both sides saw.
#[derive(PartialEq, Debug)]
struct Seen(bool, &'static str, Ev);
/// Error texts may differ.
fn plain(e: Ev) -> Ev {
    match e {
        Ev::Init(Err(_)) => Ev::Init(Err(String::new())),
        Ev::Shut(Some(Err(_))) => Ev::Shut(Some(Err(String::new()))),
        e => e,
    }
}
/// Plays the session and checks it against the queues it should behave like.
fn session(c: &C35Case, a: App, b: App, memory: bool) -> Result<Vec<Seen>, Fail> {
    let mut log = vec![];
    let mut apps = [a, b];
    // what is under way to each
    let mut q: [Vec<Norm>; 2] = [vec![], vec![]];
    let quiet = |e: &Ev| matches!(e, Ev::Panicked(_) | Ev::Died(_));
    macro_rules! see {
        ($side:expr, $what:expr, $e:expr) => {{
            let e = plain($e);
            ensure!(!quiet(&e), "{} of the {} application: {e:?}", $what, if $side == 0 { "first" } else { "second" });
            log.push(Seen($side == 1, $what, e));
        }};
    }
    macro_rules! take {
        ($side:expr, $n:expr) => {{
            let n: usize = $n;
            let (g, end) = got(apps[$side].call(Cmd::RecvN(n)))?;
            ensure!(!end, "the stream of the {} application ended", $side);
            let want: Vec<Norm> = q[$side].drain(..n).collect();
            same_seq(&format!("received by application {}", $side), &g, &want)?;
            log.push(Seen($side == 1, "receiving", Ev::Got(g, end)));
        }};
    }
    if let Some((before, init, then, result)) = &c.hand {
        apps[1].post(Cmd::Initialize(result.clone()));
        for m in before {
            see!(0, "calling early", apps[0].call(Cmd::Send(vec![m.clone()], 0)));
            see!(0, "refused early", apps[0].call(Cmd::RecvN(1)));
        }
        see!(0, "initialize", apps[0].call(Cmd::Send(vec![init.clone()], 0)));
        see!(0, "answer to initialize", apps[0].call(Cmd::RecvN(1)));
        see!(0, "initialized", apps[0].call(Cmd::Send(vec![then.clone()], 0)));
        see!(1, "handshake", apps[1].wait());
    }
    for s in &c.steps {
        match s {
            Step::Send(by, ms, via) => {
                let k = *by as usize;
                sent(apps[k].call(Cmd::Send(ms.clone(), *via)), ms.len())?;
                q[1 - k].extend(norms(ms));
            }
            Step::Recv(by, n) => {
                let k = *by as usize;
                let n = (*n).min(q[k].len());
                take!(k, n);
            }
            Step::Pass(by, m) => {
                let k = *by as usize;
                let n = q[1 - k].len();
                take!(1 - k, n);
                apps[1 - k].post(Cmd::RecvN(1));
                sent(apps[k].call(Cmd::Send(vec![m.clone()], 0)), 1)?;
                let (g, _) = got(apps[1 - k].wait())?;
                same_seq("passed", &g, &[m.norm()])?;
            }
            Step::Echo(by, n) => {
                let k = *by as usize;
                let n = (*n).min(q[k].len());
                let (g, end) = got(apps[k].call(Cmd::Echo(n)))?;
                ensure!(!end && g.len() == n, "{} of {n} messages sent back", g.len());
                let back: Vec<Norm> = q[k].drain(..n).collect();
                same_seq("sent back", &g, &back)?;
                q[1 - k].extend(back);
            }
            Step::Burst(by, n) => {
                let k = *by as usize;
                let ms: Vec<Msg> = (0..n.saturating_sub(q[1 - k].len())).map(|i| Msg::Note { method: "m".into(), params: Params::Is(json!(i)) }).collect();
                sent(apps[k].call(Cmd::Send(ms.clone(), 0)), ms.len())?;
                q[1 - k].extend(norms(&ms));
            }
            Step::Wait(ms) => std::thread::sleep(std::time::Duration::from_millis(*ms)),
        }
    }
    let late = c.late.filter(|_| c.shutdown.is_none());
    if late.is_none() {
        let n = q[1].len();
        take!(1, n);
    }
    let exit = Msg::Note { method: "build/exit".into(), params: Params::Absent };
    if let Some(id) = &c.shutdown {
        apps[1].post(Cmd::Shutdown);
        let call = Msg::Req { id: id.clone(), method: "build/shutdown".into(), params: Params::Absent };
        sent(apps[0].call(Cmd::Send(vec![call], 0)), 1)?;
        q[0].push(Norm::Success { id: id.json(), result: Value::Null });
        sent(apps[0].call(Cmd::Send(vec![exit], 1)), 1)?;
        let e = apps[1].wait();
        same("shutting down", &e, &Ev::Shut(Some(Ok(true))))?;
    } else {
        sent(apps[0].call(Cmd::Send(vec![exit.clone()], 1)), 1)?;
        q[1].push(exit.norm());
        std::thread::sleep(std::time::Duration::from_millis(late.unwrap_or(0)));
        let n = q[1].len();
        take!(1, n);
    }
    if !memory {
        want(apps[1].call(Cmd::Recv), Ev::Got(vec![], true), "receiving after exit")?;
    }
    let [mut a, mut b] = apps;
    want(b.call(Cmd::Drop), Ev::Done, "dropping the second")?;
    let joined = if memory { Ev::Done } else { Ev::Joined(Ok(())) };
    want(b.call(Cmd::Join), joined.clone(), "joining the second")?;
    b.quit()?;
    let (g, end) = got(a.call(Cmd::RecvAll))?;
    same_seq("received at the end", &g, &q[0])?;
    ensure!(end, "no end of stream");
    log.push(Seen(false, "the rest", Ev::Got(g, end)));
    want(a.call(Cmd::Drop), Ev::Done, "dropping the first")?;
    want(a.call(Cmd::Join), joined, "joining the first")?;
    a.quit()?;
    Ok(log)
}
impl Prop for C35 {
    type Case = C35Case;
    fn id(&self) -> &'static str {
        "C35"
    }
    fn rule(&self) -> &'static str {
        "sessions of two applications that both use the library: an optional handshake (with early requests, or spoiled), sends, bursts, receives, large passes, echoes and pauses in a generated global order, an optional shutdown, exit and teardown; played over an in-memory pair, which must behave like two queues, and over connect to listen directly or any two transports with a relay that cuts the bytes as generated; everything either side saw must be the same; non-trivial: messages in both directions"
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.n(4_000, 20)
    }
    fn threads(&self) -> usize {
        24
    }
    fn fixed(&self, _: Tier) -> Vec<C35Case> {
        let all = [Tr::Connect, Tr::Listen, Tr::Stdio];
        let mut ways = vec![Way::Direct(false), Way::Direct(true)];
        for a in all {
            for b in all {
                ways.push(Way::Relay(a, b));
            }
        }
        let init = Msg::Req { id: Id::I(1), method: "build/initialize".into(), params: Params::Is(json!({"displayName": "c", "rootUri": "file:///x"})) };
        let then = Msg::Note { method: "build/initialized".into(), params: Params::Absent };
        let mut v: Vec<C35Case> = ways
            .into_iter()
            .map(|way| C35Case {
                way,
                cuts: vec![3, 100],
                hand: Some((vec![gen::blob(0, 1, 10)], init.clone(), then.clone(), json!({"displayName": "s"}))),
                steps: vec![
                    Step::Send(false, (0..4).map(|k| gen::blob(k, k as i32, 500)).collect(), 0),
                    Step::Echo(true, 3),
                    Step::Send(true, vec![gen::blob(1, 5, 50)], 2),
                    Step::Recv(false, 2),
                    Step::Pass(false, gen::blob(2, 9, 300_000)),
                    Step::Pass(true, gen::blob(0, 9, 300_000)),
                ],
                shutdown: Some(Id::S("z".into())),
                late: None,
            })
            .collect();
        let leaving: Vec<C35Case> = v
            .iter()
            .map(|c| C35Case {
                steps: vec![Step::Burst(true, 300), Step::Burst(false, 300), Step::Wait(1_500), Step::Recv(false, 1)],
                shutdown: None,
                late: Some(1_500),
                ..c.clone()
            })
            .collect();
        v.extend(leaving);
        v
    }
    fn strategy(&self, _: Tier) -> S<C35Case> {
        let way = uni(vec![
            (6, any::<bool>().prop_map(Way::Direct).boxed()),
            (6, (stream::tr(1), stream::tr(1)).prop_map(|(a, b)| Way::Relay(a, b)).boxed()),
        ]);
        let m = || gen::msg().prop_filter("exit comes last", |m| !m.is_exit() && m.wire().to_string().len() < 2_000);
        let step = uni(vec![
            (4, (any::<bool>(), vec(m(), 1..4), any::<u8>()).prop_map(|(b, ms, v)| Step::Send(b, ms, v)).boxed()),
            (4, (any::<bool>(), 0usize..5).prop_map(|(b, n)| Step::Recv(b, n)).boxed()),
            (2, (any::<bool>(), 1usize..4).prop_map(|(b, n)| Step::Echo(b, n)).boxed()),
            (1, (any::<bool>(), gen::sized(1 << 18)).prop_filter("exit comes last", |(_, m)| !m.is_exit()).prop_map(|(b, m)| Step::Pass(b, m)).boxed()),
            (1, (any::<bool>(), uni(vec![(4, (1usize..40).boxed()), (1, (40usize..400).boxed())])).prop_map(|(b, n)| Step::Burst(b, n)).boxed()),
        ]);
        let init = (gen::id(), gen::doc(INITIALIZE)).prop_map(|(id, p)| Msg::Req { id, method: "build/initialize".into(), params: Params::Is(p) });
        let early = || m().prop_filter("requests", |m| matches!(m, Msg::Req { method, .. } if method != "build/initialize"));
        let then = uni(vec![(5, Just(Msg::Note { method: "build/initialized".into(), params: Params::Absent }).boxed()), (1, m().boxed())]);
        let hand = (vec(early(), 0..3), init, then, gen::json());
        let cut = uni(vec![(1, Just(vec![1usize]).boxed()), (4, gen::cuts())]);
        let late = uni(vec![(4, Just(None).boxed()), (3, Just(Some(0u64)).boxed()), (1, (1u64..200).prop_map(Some).boxed())]);
        let wait = proptest::option::weighted(0.1, (any::<prop::sample::Index>(), 0u64..200));
        (way, cut, proptest::option::of(hand), vec(step, 0..12), proptest::option::of(gen::id()), late, wait)
            .prop_map(|(way, cuts, hand, mut steps, shutdown, late, wait)| {
                if let Some((at, ms)) = wait {
                    let at = at.index(steps.len() + 1);
                    steps.insert(at, Step::Wait(ms));
                }
                C35Case { way, cuts, hand, steps, shutdown, late }
            })
            .boxed()
    }
    fn run(&self, c: &C35Case, cx: &mut Cx) -> R {
        cx.label(match &c.way {
            Way::Direct(true) => "listen-connect".to_string(),
            Way::Direct(false) => "connect-listen".to_string(),
            Way::Relay(a, b) => format!("{a:?}~{b:?}"),
        });
        let by = |x: bool| c.steps.iter().any(|s| matches!(s, Step::Send(b, ..) | Step::Pass(b, _) if *b == x));
        cx.nontrivial(by(false) && by(true));
        cx.label_if(c.hand.is_some(), "handshake");
        cx.label_if(c.shutdown.is_some(), "shutdown");
        cx.label_if(c.shutdown.is_none() && c.late.is_some(), "received only after exit was sent");
        let (a, b) = start_memory()?;
        let model = session(c, a, b, true).map_err(|e| Fail { what: format!("in memory: {}", e.what), ..e })?;
        let (seen, relays) = match &c.way {
            Way::Direct(l) => {
                let (a, b) = start_direct(*l, cx)?;
                (session(c, a, b, false)?, vec![])
            }
            Way::Relay(ta, tb) => {
                let (pa, a) = start(*ta, cx)?;
                let (pb, b) = start(*tb, cx)?;
                let rs = vec![passes(c.cuts.clone(), pa.r, pb.w), passes(c.cuts.clone(), pb.r, pa.w)];
                (session(c, a, b, false)?, rs)
            }
        };
        for (m, s) in model.iter().zip(&seen) {
            same(&format!("{} by application {}, compared with an in-memory pair", m.1, m.0 as u8), s, m)?;
        }
        ensure!(model.len() == seen.len(), "{} observations instead of {}", seen.len(), model.len());
        for r in relays {
            let _ = r.join();
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C36

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C36Case {
    /// bodies of frames, well-formed or not
    bodies: Vec<String>,
    tr: Option<Tr>,
    hops: usize,
}
pub struct C36;
impl Prop for C36 {
    type Case = C36Case;
    fn id(&self) -> &'static str {
        "C36"
    }
    fn rule(&self) -> &'static str {
        "message documents, well-formed or with one part removed, replaced, renamed or added, in generated spellings; those that are accepted are encoded and decoded over and over, some also by an application that sends back what it receives over TCP or stdio; the message must stay the same and its encoding too from the first on; non-trivial: an accepted document that is not simply the encoding of its message"
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.n(25_000, 15)
    }
    fn strategy(&self, tier: Tier) -> S<C36Case> {
        let body = codec::C18.strategy(tier).prop_map(|c| c.text());
        let tr = uni(vec![(20, Just(None).boxed()), (2, Just(Some(Tr::Connect)).boxed()), (2, Just(Some(Tr::Listen)).boxed()), (1, Just(Some(Tr::Stdio)).boxed())]);
        (vec(body, 1..6), tr, 1usize..4).prop_map(|(bodies, tr, hops)| C36Case { bodies, tr, hops }).boxed()
    }
    fn run(&self, c: &C36Case, cx: &mut Cx) -> R {
        let mut accepted: Vec<(&String, Norm, String)> = vec![];
        for b in &c.bodies {
            let Ok(m) = serde_json::from_str::<Message>(b) else {
                cx.label("refused");
                continue;
            };
            let first = obs::observe(&m);
            let enc = |m: &Message| serde_json::to_string(m).map_err(|e| Fail::from(format!("{} does not encode: {e}", cut(b, 400))));
            let text = enc(&m)?;
            cx.label(first.kind());
            cx.nontrivial(text != *b);
            let mut t = text.clone();
            for hop in 0..c.hops {
                let m: Message = serde_json::from_str(&t).map_err(|e| format!("hop {hop}: {} was accepted, {} is not: {e}", cut(b, 400), cut(&t, 400)))?;
                same(&format!("hop {hop} of {}", cut(b, 400)), &obs::observe(&m), &first)?;
                t = enc(&m)?;
                same(&format!("encoding at hop {hop} of {}", cut(b, 400)), &t, &text)?;
            }
            accepted.push((b, first, text));
        }
        let Some(tr) = c.tr else { return Ok(()) };
        // exit ends the stream
        let k = accepted.iter().position(|(_, n, _)| n.is_exit()).map_or(accepted.len(), |k| k + 1);
        accepted.truncate(k);
        let ends = accepted.last().map_or(false, |(_, n, _)| n.is_exit());
        cx.label(format!("{tr:?}"));
        let (mut peer, mut app) = start(tr, cx)?;
        app.post(Cmd::Echo(accepted.len()));
        let bytes: Vec<u8> = accepted.iter().flat_map(|(b, ..)| frame(b.as_bytes())).collect();
        peer.w.write(&bytes).map_err(io("writing"))?;
        for (b, _, text) in &accepted {
            let body = read_frame(&mut peer.r)?.ok_or("the stream ended")?;
            let got: Value = serde_json::from_slice(&body).map_err(|e| format!("{}: {e}", show(&body)))?;
            let mut want: Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
            want["jsonrpc"] = "2.0".into();
            same(&format!("sent back for {}", cut(b, 400)), &got, &want)?;
        }
        let (g, _) = got(app.wait())?;
        let want_g: Vec<Norm> = accepted.iter().map(|(_, n, _)| n.clone()).collect();
        same_seq("received", &g, &want_g)?;
        if !ends {
            peer.w.close();
        }
        want(app.call(Cmd::Drop), Ev::Done, "dropping")?;
        peer.w.close();
        want(app.call(Cmd::Join), Ev::Joined(Ok(())), "joining")?;
        app.quit()
    }
}

// ---------------------------------------------------------------- C37

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C37Case {
    /// None: in memory
    tr: Option<Tr>,
    msgs: Vec<(u8, Value, usize)>,
    cuts: Vec<usize>,
    ways: Vec<(u8, Option<usize>)>,
    /// ends with exit rather than the end of the stream
    exit: bool,
    /// milliseconds before anyone receives
    #[serde(default)]
    idle: u64,
}
pub struct C37;
impl Prop for C37 {
    type Case = C37Case;
    fn id(&self) -> &'static str {
        "C37"
    }
    fn rule(&self) -> &'static str {
        "one to six threads that receive through clones of the receiver, each in one of six ways (recv, try_recv, timeouts, iterators, select), some only up to a number of messages, some of them only after 11 s, while the peer sends tagged messages in generated pieces and then exit or the end of the stream; each message received exactly once, each thread's in order, everyone sees the end, what is left over stays available; non-trivial: two threads received something"
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.n(6_000, 20)
    }
    fn fixed(&self, _: Tier) -> Vec<C37Case> {
        [None, Some(Tr::Connect), Some(Tr::Listen), Some(Tr::Stdio)]
            .into_iter()
            .flat_map(|tr| {
                [false, true].map(|exit| C37Case {
                    tr,
                    msgs: (0..200).map(|k| ((k * 7 % 48) as u8, json!(k), k % 5 * 300)).collect(),
                    cuts: vec![700],
                    ways: (0..6).map(|w| (w, None)).collect(),
                    exit,
                    idle: 0,
                })
            })
            .flat_map(|c| [C37Case { idle: 11_000, ..c.clone() }, c])
            // whatever comes first waits for a while
            .chain([Tr::Connect, Tr::Listen, Tr::Stdio].into_iter().flat_map(|tr| {
                (0..16u8).map(move |k| C37Case {
                    tr: Some(tr),
                    msgs: (0..3).map(|i| (match k {
                        0..=3 => k,
                        4..=9 => 25 + 4 * (k - 4),
                        _ => 73 + 4 * (k - 10),
                    }, json!(i), 20)).collect(),
                    cuts: vec![50],
                    ways: vec![(0, None), (k, None)],
                    exit: k % 2 == 0,
                    idle: 2_500,
                })
            }))
            .collect()
    }
    fn strategy(&self, _: Tier) -> S<C37Case> {
        let tr = uni(vec![(3, Just(Some(Tr::Connect)).boxed()), (3, Just(Some(Tr::Listen)).boxed()), (1, Just(Some(Tr::Stdio)).boxed()), (2, Just(None).boxed())]);
        let size = uni(vec![(8, (0usize..60).boxed()), (2, gen::boundary_len(1 << 14)), (1, gen::boundary_len(1 << 17))]);
        let way = (any::<u8>(), uni(vec![(2, Just(None).boxed()), (1, (0usize..12).prop_map(Some).boxed())]));
        (tr, vec((any::<u8>(), gen::json(), size), 0..40), gen::cuts(), vec(way, 1..7), any::<bool>())
            .prop_map(|(tr, msgs, cuts, ways, exit)| C37Case { tr, msgs, cuts, ways, exit, idle: 0 })
            .boxed()
    }
    fn run(&self, c: &C37Case, cx: &mut Cx) -> R {
        cx.label(c.tr.map_or("memory".into(), |t| format!("{t:?}")));
        let mut ms: Vec<Msg> = c.msgs.iter().enumerate().map(|(i, (k, v, n))| more::tagged(i.to_string(), *k, v, *n)).collect();
        if c.exit {
            ms.push(Msg::Note { method: "build/exit".into(), params: Params::Absent });
        }
        let expected = norms(&ms);
        let (many, rest) = match c.tr {
            None => {
                let (mut a, mut b) = start_memory()?;
                b.post(Cmd::Idle(c.idle));
                b.post(Cmd::Consumers(c.ways.clone()));
                sent(a.call(Cmd::Send(ms.clone(), 0)), ms.len())?;
                want(a.call(Cmd::Drop), Ev::Done, "dropping the sender")?;
                want(b.wait(), Ev::Done, "idling")?;
                let many = b.wait();
                let rest = got(b.call(Cmd::RecvAll))?;
                a.quit()?;
                b.quit()?;
                (many, rest)
            }
            Some(tr) => {
                let (mut peer, mut app) = start(tr, cx)?;
                app.post(Cmd::Idle(c.idle));
                app.post(Cmd::Consumers(c.ways.clone()));
                app.post(Cmd::RecvAll);
                let bytes: Vec<u8> = ms.iter().flat_map(frame_msg).collect();
                peer.w.write_cut(&bytes, &c.cuts).map_err(io("writing"))?;
                if !c.exit {
                    peer.w.close();
                }
                want(app.wait(), Ev::Done, "idling")?;
                let many = app.wait();
                let rest = got(app.wait())?;
                want(app.call(Cmd::Drop), Ev::Done, "dropping")?;
                want(app.call(Cmd::Join), Ev::Joined(Ok(())), "joining")?;
                peer.w.close();
                app.quit()?;
                (many, rest)
            }
        };
        let many = match many {
            Ev::Many(m) => m,
            e => fail!("receiving: {e:?}"),
        };
        ensure!(many.len() == c.ways.len(), "{} of {} consumers", many.len(), c.ways.len());
        ensure!(rest.1, "no end of stream after the consumers");
        cx.nontrivial(many.iter().filter(|(g, _)| !g.is_empty()).count() > 1);
        let mut seen = vec![0usize; expected.len()];
        let lists = many.iter().map(|(g, _)| g).chain([&rest.0]);
        for (who, list) in lists.enumerate() {
            let mut at = 0;
            for n in list {
                let i = if n.is_exit() { expected.len().wrapping_sub(1) } else { more::tag_of(n).parse().unwrap_or(usize::MAX) };
                ensure!(i < expected.len(), "receiver {who} got {n:?}, which nobody sent");
                same(&format!("message {i} at receiver {who}"), n, &expected[i])?;
                seen[i] += 1;
                ensure!(i >= at, "receiver {who} got message {i} after message {}", at - 1);
                at = i + 1;
            }
        }
        for (i, k) in seen.iter().enumerate() {
            ensure!(*k == 1, "message {i} of {} was received {k} times", expected.len());
        }
        for (k, ((g, end), (how, limit))) in many.iter().zip(&c.ways).enumerate() {
            ensure!(*end || limit.map_or(false, |l| g.len() == l), "receiver {k} ({how}, {limit:?}) stopped after {} messages without the end of the stream", g.len());
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C38

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Shape {
    Text,
    Escapes,
    Ints,
    Lists,
    Objects,
    Nested,
    Targets,
    Parents,
    Diagnostics,
    Extra,
    Spaces,
    Headers,
    LongHeader,
    /// many messages rather than a long one
    Many,
    /// and each with a method of its own
    Names,
}
const SHAPES: [Shape; 15] = [
    Shape::Text,
    Shape::Escapes,
    Shape::Ints,
    Shape::Lists,
    Shape::Objects,
    Shape::Nested,
    Shape::Targets,
    Shape::Parents,
    Shape::Diagnostics,
    Shape::Extra,
    Shape::Spaces,
    Shape::Headers,
    Shape::LongHeader,
    Shape::Many,
    Shape::Names,
];
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum C38Case {
    /// receive a message of a kind and shape, of about so many bytes, and of that times the factor
    In { tr: Tr, kind: u8, shape: Shape, bytes: usize, factor: usize },
    /// send one
    Out { tr: Tr, kind: u8, shape: Shape, bytes: usize, factor: usize },
    /// frames that declare far more than they bring, then the end of the stream
    Declared { tr: Tr, ahead: usize, declared: u64, brings: usize, kind: u8 },
}
fn value(shape: Shape, n: usize) -> Value {
    // all of them different
    let many = |x: &dyn Fn(usize) -> Value| -> Value { (0..n / (x(1000).to_string().len() + 1) + 1).map(x).collect() };
    match shape {
        Shape::Escapes => "\"\\\n\u{1}é".repeat(n / 14 + 1).into(),
        Shape::Ints => many(&|i| json!(i)),
        Shape::Lists => many(&|i| json!([i])),
        Shape::Objects => many(&|i| json!({"a": i})),
        Shape::Nested => many(&|i| {
            let mut v = json!(i);
            for _ in 0..60 {
                v = json!([v]);
            }
            v
        }),
        _ => "t".repeat(n).into(),
    }
}
fn shaped(shape: Shape, kind: u8, n: usize) -> Vec<Msg> {
    let note = |method: &str, p: Value| vec![Msg::Note { method: method.into(), params: Params::Is(p) }];
    let uri = |i: usize| json!({"uri": format!("file:///t/{i}")});
    let targets = || -> Value { (0..n / 25 + 1).map(uri).collect() };
    match shape {
        Shape::Names => (0..n / 120 + 1)
            .map(|i| {
                let (method, params) = (format!("custom/n{i}{n}"), Params::Is("x".repeat(50).into()));
                if kind & 1 == 0 {
                    Msg::Note { method, params }
                } else {
                    Msg::Req { id: Id::I(i as i32), method, params }
                }
            })
            .collect(),
        Shape::Many => (0..n / 120 + 1).map(|i| gen::blob(kind, i as i32, 60)).collect(),
        Shape::Targets => vec![Msg::Req { id: Id::I(1), method: "buildTarget/sources".into(), params: Params::Is(json!({"targets": targets()})) }],
        Shape::Parents => note("build/taskStart", json!({"taskId": {"id": "x", "parents": (0..n / 8 + 1).map(|i| i.to_string()).collect::<Vec<_>>()}})),
        Shape::Diagnostics => {
            let pos = json!({"line": 1, "character": 2});
            let ds: Vec<Value> = (0..n / 110 + 1).map(|i| json!({"range": {"start": pos, "end": {"line": 1, "character": i}}, "message": "m", "severity": 1})).collect();
            note("build/publishDiagnostics", json!({"textDocument": uri(0), "buildTarget": uri(1), "diagnostics": ds, "reset": true}))
        }
        _ => {
            let v = value(shape, n);
            let id = || Id::S("i".into());
            vec![match kind % 6 {
                0 => Msg::Req { id: id(), method: "custom/x".into(), params: Params::Is(v) },
                1 => Msg::Note { method: "custom/x".into(), params: Params::Is(v) },
                2 => Msg::Ok { id: id(), result: v },
                3 => Msg::Err { id: id(), error: ErrM { code: 1, message: "m".into(), data: Some(v) } },
                4 => Msg::Req { id: id(), method: "build/initialize".into(), params: Params::Is(json!({"displayName": "d", "rootUri": "file:///", "data": v})) },
                _ => Msg::Note { method: "build/taskFinish".into(), params: Params::Is(json!({"taskId": {"id": "x"}, "status": 1, "data": v})) },
            }]
        }
    }
}
fn framed(shape: Shape, ms: &[Msg], n: usize) -> Vec<u8> {
    match shape {
        Shape::Extra => {
            let mut w = ms[0].wire_rpc();
            for i in 0..n / 12 + 1 {
                w[format!("x{i}").as_str()] = json!(i);
            }
            frame(w.to_string().as_bytes())
        }
        Shape::Spaces => {
            let b = ms[0].wire_rpc().to_string();
            frame(format!("{{{}{}", " \n".repeat(n / 2), &b[1..]).as_bytes())
        }
        Shape::Headers => {
            let b = ms[0].wire_rpc().to_string();
            let mut f: Vec<u8> = (0..n / 10 + 1).flat_map(|i| format!("X-{i}: z\r\n").into_bytes()).collect();
            f.extend(frame(b.as_bytes()));
            f
        }
        Shape::LongHeader => {
            let b = ms[0].wire_rpc().to_string();
            let mut f = format!("X: {}\r\n", "h".repeat(n)).into_bytes();
            f.extend(frame(b.as_bytes()));
            f
        }
        _ => ms.iter().flat_map(frame_msg).collect(),
    }
}
pub struct C38;
/// (bytes on the wire, peak, total, processor time)
type Price = (usize, i64, i64, u64);
fn price_in(tr: Tr, kind: u8, shape: Shape, n: usize, cx: &Cx) -> Result<Price, Fail> {
    let small = matches!(shape, Shape::Extra | Shape::Spaces | Shape::Headers | Shape::LongHeader);
    let ms = shaped(shape, kind, if small { 5 } else { n });
    let bytes = framed(shape, &ms, n);
    let (mut peer, mut app) = start(tr, cx)?;
    // warm up
    peer.w.write(&frame_msg(&gen::blob(1, 1, 10))).map_err(io("writing"))?;
    want(app.call(Cmd::RecvN(0)), Ev::Got(vec![], false), "receiving")?;
    got(app.call(Cmd::RecvN(1)))?;
    want(app.call(Cmd::Meter), Ev::Done, "measuring")?;
    app.post(Cmd::Cost(ms.len()));
    peer.w.write(&bytes).map_err(io("writing"))?;
    let r = match app.wait() {
        Ev::Cost(k, p, t, c) if k == ms.len() => (bytes.len(), p, t, c),
        e => fail!("receiving: {e:?}"),
    };
    peer.w.close();
    want(app.call(Cmd::Drop), Ev::Done, "dropping")?;
    want(app.call(Cmd::Join), Ev::Joined(Ok(())), "joining")?;
    app.quit()?;
    Ok(r)
}
fn price_out(tr: Tr, kind: u8, shape: Shape, n: usize, cx: &Cx) -> Result<Price, Fail> {
    let ms = shaped(shape, kind, n);
    let size: usize = ms.iter().map(|m| frame_msg(m).len()).sum();
    let (mut peer, mut app) = start(tr, cx)?;
    app.post(Cmd::CostOf(ms.clone()));
    let mut buf = vec![0; 1 << 16];
    let mut left = size as i64;
    // the library may spell it shorter or longer
    while left > 0 {
        match peer.r.read(&mut buf) {
            Ok(0) => break,
            Ok(k) => left -= k as i64,
            Err(e) => fail!("reading: {e}"),
        }
        if let Some(e) = app.try_wait(std::time::Duration::ZERO) {
            return finish_out(e, ms.len(), size, peer, app);
        }
    }
    let e = app.wait();
    finish_out(e, ms.len(), size, peer, app)
}
fn finish_out(e: Ev, n: usize, size: usize, mut peer: Peer, mut app: App) -> Result<Price, Fail> {
    let r = match e {
        Ev::Cost(k, p, t, c) if k == n => (size, p, t, c),
        e => fail!("sending: {e:?}"),
    };
    peer.w.close();
    let _ = app.call(Cmd::Join);
    app.quit()?;
    Ok(r)
}
impl Prop for C38 {
    type Case = C38Case;
    fn id(&self) -> &'static str {
        "C38"
    }
    fn rule(&self) -> &'static str {
        "messages of fifteen shapes and six kinds, received or sent over TCP or stdio in a process of its own that counts what it allocates and the processor time it takes, at one size and at a multiple of it; memory at most and in total, and time, must grow no faster than in proportion (with allowances), and memory must stay within a multiple of the bytes; and frames that declare up to 2^40 bytes and bring few, which must take memory for what they bring; every case is non-trivial"
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.n(400, 20)
    }
    fn fixed(&self, _: Tier) -> Vec<C38Case> {
        let mut v = vec![];
        for (i, shape) in SHAPES.into_iter().enumerate() {
            for kind in 0..6 {
                if kind > 0 && matches!(shape, Shape::Targets | Shape::Parents | Shape::Diagnostics | Shape::Headers | Shape::LongHeader | Shape::Spaces | Shape::Many | Shape::Names) {
                    continue;
                }
                let tr = [Tr::Connect, Tr::Listen, Tr::Stdio][(i + kind as usize) % 3];
                v.push(C38Case::In { tr, kind, shape, bytes: 60_000, factor: 16 });
                if !matches!(shape, Shape::Extra | Shape::Headers | Shape::LongHeader | Shape::Spaces) {
                    v.push(C38Case::Out { tr, kind, shape, bytes: 60_000, factor: 16 });
                }
            }
        }
        for tr in [Tr::Connect, Tr::Listen, Tr::Stdio] {
            for declared in [1 << 20, 100 << 20, 1 << 30, 1 << 40] {
                v.push(C38Case::Declared { tr, ahead: 1, declared, brings: 10, kind: 0 });
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> S<C38Case> {
        let one = || (stream::tr(3), any::<u8>(), select(SHAPES.to_vec()), 20_000usize..80_000, 8usize..24);
        let declared = (stream::tr(3), 0usize..3, uni(vec![(1, (1u64 << 17..1 << 24).boxed()), (1, (1u64 << 24..1 << 34).boxed()), (1, (1u64 << 34..1 << 40).boxed())]), gen::boundary_len(1 << 16), any::<u8>());
        uni(vec![
            (3, one().prop_map(|(tr, kind, shape, bytes, factor)| C38Case::In { tr, kind, shape, bytes, factor }).boxed()),
            (2, one().prop_map(|(tr, kind, shape, bytes, factor)| C38Case::Out { tr, kind, shape, bytes, factor }).boxed()),
            (2, declared.prop_map(|(tr, ahead, declared, brings, kind)| C38Case::Declared { tr, ahead, declared, brings, kind }).boxed()),
        ])
    }
    fn run(&self, c: &C38Case, cx: &mut Cx) -> R {
        if !more::is_alone() {
            return more::alone("C38", c, cx);
        }
        cx.nontrivial(true);
        let (dir, tr, kind, shape, bytes, factor) = match *c {
            C38Case::In { tr, kind, shape, bytes, factor } => ("received", tr, kind, shape, bytes, factor),
            C38Case::Out { tr, kind, shape, bytes, factor } => ("sent", tr, kind, shape, bytes, factor),
            C38Case::Declared { tr, ahead, declared, brings, kind } => {
                cx.label("declared");
                let (mut peer, mut app) = start(tr, cx)?;
                want(app.call(Cmd::Meter), Ev::Done, "measuring")?;
                app.post(Cmd::Cost(usize::MAX));
                let mut b: Vec<u8> = (0..ahead).flat_map(|i| frame_msg(&gen::blob(kind, i as i32, 20))).collect();
                b.extend(format!("Content-Length: {declared}\r\n\r\n").as_bytes());
                b.extend("\"".bytes().chain(std::iter::repeat(b'x')).take(brings));
                peer.w.write(&b).map_err(io("writing"))?;
                peer.w.close();
                let (k, peak, total) = match app.wait() {
                    Ev::Cost(k, p, t, _) => (k, p, t),
                    e => fail!("receiving: {e:?}"),
                };
                ensure!(k == ahead, "{k} messages arrived instead of {ahead}");
                let limit = 300_000 + 40 * b.len() as i64;
                ensure!(peak < limit && total < 2 * limit, "a frame that declares {declared} bytes and brings {brings} takes {peak} bytes of memory, {total} in total");
                want(app.call(Cmd::Drop), Ev::Done, "dropping")?;
                match app.call(Cmd::Join) {
                    Ev::Joined(_) => {}
                    e => fail!("joining: {e:?}"),
                }
                return app.quit();
            }
        };
        cx.label(format!("{dir} {shape:?}"));
        let price = |n: usize| if dir == "sent" { price_out(tr, kind, shape, n, cx) } else { price_in(tr, kind, shape, n, cx) };
        let (n1, p1, t1, mut c1) = price(bytes)?;
        let (n2, p2, t2, mut c2) = price(bytes * factor)?;
        if let Some(f) = std::env::var_os("BSPV_PRICES") {
            use std::io::Write;
            if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(f) {
                let _ = writeln!(f, "{dir} {shape:?} {kind} {tr:?}: {n1} {p1} {t1} {c1} -- {n2} {p2} {t2} {c2}:");
            }
        }
        let by = n2 as f64 / n1 as f64;
        for (what, a, b) in [("at most", p1, p2), ("in total", t1, t2)] {
            ensure!((b as f64) < a.max(40_000) as f64 * by * 2.5 + 100_000.0, "{dir}, {shape:?}: {n1} bytes take {a} bytes of memory {what}, {n2} take {b}");
            ensure!(b < 2_000 * n2 as i64, "{dir}, {shape:?}: {n2} bytes take {b} bytes of memory {what}");
        }
        let slow = |a: u64, b: u64| b as f64 > a.max(2_000) as f64 * by * 4.0 + 50_000.0;
        for _ in 0..4 {
            if !slow(c1, c2) {
                break;
            }
            c1 = price(bytes)?.3.max(c1);
            c2 = price(bytes * factor)?.3.min(c2);
        }
        ensure!(!slow(c1, c2), "{dir}, {shape:?}: {n1} bytes take {c1} us of processor time, {n2} take {c2}");
        Ok(())
    }
}
