//! Properties of encoding and decoding messages.
use crate::engine::*;
use crate::gen::{self, uni, S};
use crate::model::*;
use crate::obs::*;
use crate::scen::*;
use crate::wire::*;
use bsp_server::{Message, Notification, Request, RequestId, Response};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

fn enc<T: Serialize>(x: &T) -> Result<String, Fail> {
    serde_json::to_string(x).map_err(|e| format!("does not encode: {e}").into())
}
fn clip(s: &str) -> String {
    cut(s, 400)
}

/// Encodes and decodes one message by itself, in every direction.
fn codec_roundtrip(m: &Msg, salt: u64) -> R {
    let want = m.norm();
    // the application's own message, encoded
    let built = build(m)?;
    same("the message built", &observe(&built), &want)?;
    let text = enc(&built)?;
    let n = norm_of_body(text.as_bytes(), false).map_err(|e| format!("encoded as {}: {e}", clip(&text)))?;
    same("encoded message", &n, &want)?;
    // and read back
    let back: Message = serde_json::from_str(&text).map_err(|e| format!("own encoding {} refused: {e}", clip(&text)))?;
    same("own encoding read back", &observe(&back), &want)?;
    // the same message from another implementation
    let foreign = spell(&m.wire_rpc(), salt);
    let got: Message = serde_json::from_str(&foreign).map_err(|e| format!("{} refused: {e}", clip(&foreign)))?;
    same("decoded message", &observe(&got), &want)?;
    Ok(())
}

/// Sends the messages over a connection, checks the bytes, and feeds the bytes to another connection.
fn transport_roundtrip(ms: &[Msg], tr: Tr, via: u8, cx: &Cx) -> R {
    let expected: Vec<Norm> = ms.iter().map(Msg::norm).collect();
    let (mut peer, mut a) = start(tr, cx)?;
    peer.w.close();
    a.post(Cmd::Send(ms.to_vec(), via));
    a.post(Cmd::Drop);
    a.post(Cmd::Join);
    a.post(Cmd::Quit);
    let bytes = peer.read_all().map_err(|e| format!("reading what was sent: {e}"))?;
    sent(a.wait(), ms.len())?;
    want(a.wait(), Ev::Done, "dropping")?;
    want(a.wait(), Ev::Joined(Ok(())), "joining the sender")?;
    a.quit()?;
    drop(peer);
    let norms = norms_of_stream(&bytes)?;
    same_seq("on the wire", &norms, &expected)?;

    let (mut peer, mut b) = start(tr, cx)?;
    b.post(Cmd::RecvAll);
    b.post(Cmd::Drop);
    b.post(Cmd::Join);
    b.post(Cmd::Quit);
    peer.w.write(&bytes).map_err(|e| format!("writing: {e}"))?;
    peer.w.close();
    let (n, ended) = got(b.wait())?;
    same_seq("received", &n, &expected)?;
    ensure!(ended, "no end of stream");
    want(b.wait(), Ev::Done, "dropping")?;
    want(b.wait(), Ev::Joined(Ok(())), "joining the receiver")?;
    b.quit()
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Batch {
    msgs: Vec<Msg>,
    salt: u64,
    /// carried over this transport as well
    tr: Option<Tr>,
    via: u8,
}
fn transport(stdio: u32) -> S<Option<Tr>> {
    uni(vec![
        (50, Just(None).boxed()),
        (3, Just(Some(Tr::Connect)).boxed()),
        (3, Just(Some(Tr::Listen)).boxed()),
        (stdio, Just(Some(Tr::Stdio)).boxed()),
    ])
}
fn batch(m: S<Msg>, last: Option<S<Msg>>) -> S<Batch> {
    let last = match last {
        Some(l) => uni(vec![(4, Just(None).boxed()), (1, l.prop_map(Some).boxed())]),
        None => Just(None).boxed(),
    };
    (vec(m, 1..5), last, uni(vec![(1, Just(0u64).boxed()), (4, any::<u64>().boxed())]), transport(2), any::<u8>())
        .prop_map(|(mut msgs, l, salt, tr, via)| {
            msgs.extend(l);
            Batch { msgs, salt, tr, via }
        })
        .boxed()
}
fn run_batch(b: &Batch, cx: &mut Cx) -> R {
    let mut salt = b.salt;
    for m in &b.msgs {
        codec_roundtrip(m, salt)?;
        salt = salt.rotate_left(7);
        cx.inner += 1;
        let (l, nt) = match m {
            Msg::Req { method, params, .. } => (
                if is_typed_request(method) { method.clone() } else { "custom request".into() },
                gen::size(&params.value()) > 3,
            ),
            Msg::Note { method, params } => (
                if is_typed_note(method) { method.clone() } else { "custom notification".into() },
                gen::size(&params.value()) > 3,
            ),
            Msg::Ok { result, .. } => ("success".into(), gen::size(result) > 3),
            Msg::Err { error, .. } => ("failure".into(), error.data.is_some()),
        };
        cx.label(l);
        cx.nontrivial(nt);
    }
    if let Some(tr) = b.tr {
        cx.label(format!("over {tr:?}"));
        transport_roundtrip(&b.msgs, tr, b.via, cx)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

pub struct C04;
impl Prop for C04 {
    type Case = Batch;
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "batches of generated requests (typed with documents fitting the parameter schema, bare with absent/null/any params, custom) encoded, decoded from foreign spellings and carried over TCP or stdio, against the schema model; non-trivial: a request whose params have more than 3 JSON nodes"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(60_000, 12)
    }
    fn strategy(&self, _: Tier) -> S<Batch> {
        batch(gen::request(), None)
    }
    fn fixed(&self, _: Tier) -> Vec<Batch> {
        let mut out = vec![];
        for id in [Id::I(0), Id::S("".into())] {
            let mut msgs = vec![];
            for m in BARE_REQUESTS.iter().copied().chain(["x", "", "build/exit", "buildTarget/scalaMainClasses"]) {
                for params in [Params::Absent, Params::Is(Value::Null), Params::Is(json!({})), Params::Is(json!([]))] {
                    if !BARE_REQUESTS.contains(&m) && params == Params::Is(json!([])) {
                        continue;
                    }
                    msgs.push(Msg::Req { id: id.clone(), method: m.into(), params });
                }
            }
            for tr in [None, Some(Tr::Connect), Some(Tr::Listen), Some(Tr::Stdio)] {
                out.push(Batch { msgs: msgs.clone(), salt: 0, tr, via: 0 });
            }
        }
        out
    }
    fn run(&self, b: &Batch, cx: &mut Cx) -> R {
        run_batch(b, cx)?;
        for m in &b.msgs {
            if let Msg::Req { id, method, params } = m {
                let r = build_request(rid(id), method, params.value())?;
                let text = enc(&r)?;
                let n = norm_of_body(text.as_bytes(), false)?;
                same("request encoded by itself", &n, &m.norm())?;
                let back: Request = serde_json::from_str(&text).map_err(|e| format!("{} refused as a request: {e}", clip(&text)))?;
                same("request read back by itself", &observe_request(&back), &m.norm())?;
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C05

pub struct C05;
impl Prop for C05 {
    type Case = Batch;
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "batches of generated notifications (typed with documents fitting the parameter schema, bare with absent/null/any params, custom; exit last) encoded, decoded from foreign spellings and carried over TCP or stdio, against the schema model; non-trivial: a notification whose params have more than 3 JSON nodes"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(60_000, 12)
    }
    fn strategy(&self, _: Tier) -> S<Batch> {
        batch(gen::note(), Some(gen::exit()))
    }
    fn fixed(&self, _: Tier) -> Vec<Batch> {
        let mut msgs = vec![];
        for m in ["build/initialized", "x", "", "build/initialize", "build/exit"] {
            for params in [Params::Absent, Params::Is(Value::Null), Params::Is(json!({})), Params::Is(json!([1]))] {
                msgs.push(Msg::Note { method: m.into(), params });
            }
        }
        let mut out = vec![Batch { msgs: msgs.clone(), salt: 0, tr: None, via: 0 }];
        msgs.truncate(17);
        for tr in [Some(Tr::Connect), Some(Tr::Listen), Some(Tr::Stdio)] {
            out.push(Batch { msgs: msgs.clone(), salt: 0, tr, via: 0 });
        }
        out
    }
    fn run(&self, b: &Batch, cx: &mut Cx) -> R {
        run_batch(b, cx)?;
        for m in &b.msgs {
            if let Msg::Note { method, params } = m {
                let r = build_note(method, params.value())?;
                let text = enc(&r)?;
                let n = norm_of_body(text.as_bytes(), false)?;
                same("notification encoded by itself", &n, &m.norm())?;
                let back: Notification = serde_json::from_str(&text).map_err(|e| format!("{} refused as a notification: {e}", clip(&text)))?;
                same("notification read back by itself", &observe_note(&back), &m.norm())?;
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C06

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum C06Case {
    Batch(Batch),
    /// an error helper, with an id and a message
    Helper(usize, Id, String),
    /// Response::ok, Response::err
    Made(Id, Value, i32, String),
}
const HELPERS: &[(&str, fn(RequestId, String) -> Response, i64)] = &[
    ("parse_error", Response::parse_error, -32700),
    ("invalid_request", Response::invalid_request, -32600),
    ("method_not_found", Response::method_not_found, -32601),
    ("invalid_params", Response::invalid_params, -32602),
    ("internal_error", Response::internal_error, -32603),
    ("server_error_start", Response::server_error_start, -32099),
    ("server_error_end", Response::server_error_end, -32000),
    ("server_not_initialized", Response::server_not_initialized, -32002),
    ("request_canceled", Response::request_canceled, -32800),
    ("content_modified", Response::content_modified, -32801),
    ("server_canceled", Response::server_canceled, -32802),
];

fn both_ways(r: Response, want: &Norm) -> R {
    same("the response", &observe_response(&r), want)?;
    let direct = enc(&r)?;
    let text = enc(&Message::from(r))?;
    same("encoded response", &norm_of_body(direct.as_bytes(), false)?, want)?;
    same("encoded message", &norm_of_body(text.as_bytes(), false)?, want)?;
    let back: Response = serde_json::from_str(&direct).map_err(|e| format!("{} refused: {e}", clip(&direct)))?;
    same("read back", &observe_response(&back), want)?;
    let back: Message = serde_json::from_str(&text).map_err(|e| format!("{} refused: {e}", clip(&text)))?;
    same("read back as a message", &observe(&back), want)
}

pub struct C06;
impl Prop for C06 {
    type Case = C06Case;
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "batches of generated responses (typed and free-form results including null, errors with and without data) encoded, decoded and carried over TCP or stdio, the error helpers and the two constructors, against the model; non-trivial: a result of more than 3 JSON nodes or an error with data"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(80_000, 12)
    }
    fn fixed(&self, _: Tier) -> Vec<C06Case> {
        let mut v = vec![];
        for k in 0..HELPERS.len() {
            v.push(C06Case::Helper(k, Id::I(1), "m".into()));
            v.push(C06Case::Helper(k, Id::S("".into()), "".into()));
        }
        for tr in [None, Some(Tr::Connect), Some(Tr::Listen), Some(Tr::Stdio)] {
            v.push(C06Case::Batch(Batch {
                msgs: vec![
                    Msg::Ok { id: Id::I(1), result: Value::Null },
                    Msg::Err { id: Id::I(1), error: ErrM { code: 0, message: "".into(), data: None } },
                    Msg::Ok { id: Id::S("1".into()), result: json!({"code": 1, "message": "x"}) },
                ],
                salt: 0,
                tr,
                via: 0,
            }));
        }
        v
    }
    fn strategy(&self, _: Tier) -> S<C06Case> {
        uni(vec![
            (6, batch(gen::response(), None).prop_map(C06Case::Batch).boxed()),
            (1, (0..HELPERS.len(), gen::id(), gen::text()).prop_map(|(k, i, m)| C06Case::Helper(k, i, m)).boxed()),
            (2, (gen::id(), gen::results(), gen::i32s(), gen::text()).prop_map(|(i, v, c, m)| C06Case::Made(i, v, c, m)).boxed()),
        ])
    }
    fn run(&self, c: &C06Case, cx: &mut Cx) -> R {
        match c {
            C06Case::Batch(b) => run_batch(b, cx),
            C06Case::Helper(k, id, m) => {
                let (name, f, code) = HELPERS[*k];
                cx.label(name);
                let want = Norm::Failure { id: id.json(), code, message: m.clone(), data: Value::Null };
                both_ways(f(rid(id), m.clone()), &want)
            }
            C06Case::Made(id, v, code, m) => {
                cx.label("constructors");
                cx.nontrivial(gen::size(v) > 3);
                both_ways(Response::ok(rid(id), v), &Norm::Success { id: id.json(), result: v.clone() })?;
                let want = Norm::Failure { id: id.json(), code: *code as i64, message: m.clone(), data: Value::Null };
                both_ways(Response::err(rid(id), *code, m.clone()), &want)
            }
        }
    }
}

// ---------------------------------------------------------------- C07

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C07Case {
    frame: FrameM,
    /// a response that also spells out the other outcome as null
    spelled: bool,
}
pub struct C07;
impl Prop for C07 {
    type Case = C07Case;
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "generated messages of each kind under any method name with fitting params, spelled with any member order and unknown extra members, result, error and params included where they mean nothing; the decoded kind is compared with the presence of method and id; non-trivial: extra members, or a name known for the other kind"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(120_000, 12)
    }
    fn fixed(&self, _: Tier) -> Vec<C07Case> {
        let mut v = vec![];
        for m in gen::all_methods() {
            if !is_typed_request(m) {
                for params in [Params::Absent, Params::Is(json!({"a": 1})), Params::Is(Value::Null)] {
                    v.push(C07Case { frame: FrameM::plain(Msg::Req { id: Id::I(1), method: m.into(), params }), spelled: false });
                }
            }
            if !is_typed_note(m) {
                for params in [Params::Absent, Params::Is(json!({"a": 1})), Params::Is(Value::Null)] {
                    v.push(C07Case { frame: FrameM::plain(Msg::Note { method: m.into(), params }), spelled: false });
                }
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> S<C07Case> {
        let known = gen::all_methods();
        let swapped = (select(known), gen::params_any(), gen::id(), any::<bool>()).prop_map(|(m, params, id, r)| {
            let method = m.to_string();
            if (r && !is_typed_request(m)) || is_typed_note(m) {
                Msg::Req { id, method, params }
            } else {
                Msg::Note { method, params }
            }
        });
        let m = uni(vec![(3, gen::msg()), (1, gen::exit()), (2, swapped.boxed())]);
        let foreign = uni(vec![(4, Just(vec![]).boxed()), (1, vec((select(vec!["result", "error", "params"]), gen::json()), 1..3).boxed())]);
        (gen::frame_of(m), any::<bool>(), foreign)
            .prop_map(|(mut frame, spelled, foreign)| {
                // members that mean nothing in a message of this kind
                let response = matches!(frame.msg, Msg::Ok { .. } | Msg::Err { .. });
                for (name, v) in foreign {
                    if (name == "params") == response && !frame.extra.iter().any(|(n, _)| n == name) {
                        frame.extra.push((name.into(), v));
                    }
                }
                frame.before.clear();
                frame.after.clear();
                frame.pad = 0;
                if spelled {
                    if let Msg::Ok { .. } = frame.msg {
                        frame.extra.push(("error".into(), Value::Null));
                    }
                }
                C07Case { frame, spelled }
            })
            .boxed()
    }
    fn run(&self, c: &C07Case, cx: &mut Cx) -> R {
        let want = c.frame.msg.norm();
        let (kind, swapped) = match &c.frame.msg {
            Msg::Req { method, .. } => ("request", is_typed_note(method)),
            Msg::Note { method, .. } => ("notification", is_typed_request(method)),
            _ => ("response", false),
        };
        cx.label(kind);
        cx.label_if(swapped, "name of the other kind");
        cx.label_if(!c.frame.extra.is_empty(), "extra members");
        cx.nontrivial(swapped || !c.frame.extra.is_empty());
        let body = c.frame.body();
        let got: Message = serde_json::from_slice(&body).map_err(|e| format!("{} refused: {e}", show(&body)))?;
        let kind_got = match &got {
            Message::Request(_) => "request",
            Message::Response(_) => "response",
            Message::Notification(_) => "notification",
        };
        ensure!(kind == kind_got, "a {kind} was decoded as a {kind_got}: {}", show(&body));
        same("decoded", &observe(&got), &want)
    }
}

// ---------------------------------------------------------------- C12

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum C12Case {
    Batch(Batch),
    /// a typed request or notification with this data member
    Data { slot: usize, id: Id, value: Value, doc: Value, salt: u64 },
    /// a value that differs from another in one place only
    Twin { method: String, id: Id, a: Value, path: Vec<gen::Ix>, salt: u64 },
}
/// every free-form data member: (kind, method or result, path to the object it stands in)
const DATA_SLOTS: &[(&str, Ty, &[&str])] = &[
    ("build/initialize", INITIALIZE, &["data"]),
    ("debugSession/start", DEBUG_START, &["data"]),
    ("buildTarget/run", RUN, &["data"]),
    ("buildTarget/test", RUN, &["data"]),
    ("build/taskStart", TASK_START, &["data"]),
    ("build/taskFinish", TASK_FINISH, &["data"]),
    ("build/taskProgress", TASK_PROGRESS, &["data"]),
    ("buildTarget/didChange", DID_CHANGE, &["changes", "0", "data"]),
    ("build/publishDiagnostics", DIAGNOSTICS, &["diagnostics", "0", "data"]),
];
fn at_path<'a>(v: &'a Value, path: &[&str]) -> Option<&'a Value> {
    let mut v = v;
    for p in path {
        v = match v {
            Value::Array(a) => a.get(p.parse::<usize>().ok()?)?,
            Value::Object(o) => o.get(*p)?,
            _ => return None,
        };
    }
    Some(v)
}
fn put_path(v: &mut Value, path: &[&str], x: Value) -> bool {
    let mut v = v;
    for p in &path[..path.len() - 1] {
        v = match v {
            Value::Array(a) => match a.get_mut(p.parse::<usize>().unwrap_or(0)) {
                Some(v) => v,
                None => return false,
            },
            Value::Object(o) => match o.get_mut(*p) {
                Some(v) => v,
                None => return false,
            },
            _ => return false,
        };
    }
    match v {
        Value::Object(o) => {
            o.insert(path[path.len() - 1].into(), x);
            true
        }
        _ => false,
    }
}
fn walk<'a>(v: &'a mut Value, path: &[gen::Ix]) -> &'a mut Value {
    let mut v = v;
    for ix in path {
        let here: *mut Value = v;
        let next = match v {
            Value::Array(a) if !a.is_empty() => {
                let i = ix.index(a.len());
                &mut a[i]
            }
            Value::Object(o) if !o.is_empty() => {
                let i = ix.index(o.len());
                o.values_mut().nth(i).unwrap()
            }
            // SAFETY: no borrow of `v` is live in this arm
            _ => return unsafe { &mut *here },
        };
        v = next;
    }
    v
}

pub struct C12;
impl Prop for C12 {
    type Case = C12Case;
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "custom requests and notifications under any method name, results, error data, and every free-form data member of typed messages, holding generated JSON values, encoded, decoded and carried over transports, compared value for value; pairs of values differing in one node must stay different; non-trivial: a value of more than 3 nodes"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(80_000, 12)
    }
    fn fixed(&self, _: Tier) -> Vec<C12Case> {
        // each method name that could be confused with a known one, with and without params
        let mut v = vec![];
        for m in gen::all_methods() {
            let mut msgs = vec![];
            for n in [m.to_uppercase(), format!("{m} "), format!("{m}s"), m[..m.len() - 1].to_string(), m.replace('/', "."), format!("x{m}")] {
                if is_typed_request(&n) || is_typed_note(&n) {
                    continue;
                }
                for params in [Params::Absent, Params::Is(json!([null, {"a": null}]))] {
                    msgs.push(Msg::Req { id: Id::I(1), method: n.clone(), params: params.clone() });
                    msgs.push(Msg::Note { method: n.clone(), params });
                }
            }
            v.push(C12Case::Batch(Batch { msgs, salt: 0, tr: Some(Tr::Connect), via: 0 }));
        }
        v
    }
    fn strategy(&self, _: Tier) -> S<C12Case> {
        let custom = uni(vec![
            (3, (gen::id(), gen::custom_req_method(), gen::params_any()).prop_map(|(id, method, params)| Msg::Req { id, method, params }).boxed()),
            (3, (gen::custom_note_method(), gen::params_any()).prop_map(|(method, params)| Msg::Note { method, params }).boxed()),
            (2, (gen::id(), gen::json()).prop_map(|(id, result)| Msg::Ok { id, result }).boxed()),
            (
                1,
                (gen::id(), gen::err_m(), gen::json_nonnull())
                    .prop_map(|(id, mut error, d)| {
                        error.data = Some(d);
                        Msg::Err { id, error }
                    })
                    .boxed(),
            ),
        ]);
        let slots: Vec<(u32, S<C12Case>)> = DATA_SLOTS
            .iter()
            .enumerate()
            .map(|(slot, (_, ty, _))| {
                let s = (gen::id(), gen::json_nonnull(), gen::doc(*ty), any::<u64>())
                    .prop_map(move |(id, value, doc, salt)| C12Case::Data { slot, id, value, doc, salt })
                    .boxed();
                (1, s)
            })
            .collect();
        let twin = (gen::custom_req_method(), gen::id(), gen::json(), vec(gen::ix(), 0..6), any::<u64>())
            .prop_map(|(method, id, a, path, salt)| C12Case::Twin { method, id, a, path, salt });
        uni(vec![(9, batch(custom, None).prop_map(C12Case::Batch).boxed()), (6, uni(slots)), (2, twin.boxed())])
    }
    fn run(&self, c: &C12Case, cx: &mut Cx) -> R {
        match c {
            C12Case::Batch(b) => run_batch(b, cx),
            C12Case::Data { slot, id, value, doc, salt } => {
                let (method, ty, path) = DATA_SLOTS[*slot];
                let mut doc = doc.clone();
                if !put_path(&mut doc, path, value.clone()) {
                    cx.label("no place for data");
                    return Ok(());
                }
                cx.label(format!("data of {method}"));
                cx.nontrivial(gen::size(value) > 3);
                let params = Params::Is(doc);
                let m = if is_typed_note(method) {
                    Msg::Note { method: method.into(), params }
                } else {
                    Msg::Req { id: id.clone(), method: method.into(), params }
                };
                let _ = ty;
                codec_roundtrip(&m, *salt)?;
                // the data itself, without any normal form
                let text = enc(&build(&m)?)?;
                let v: Value = serde_json::from_str(&text).map_err(|e| format!("encoding: {e}"))?;
                let mut full = vec!["params"];
                full.extend(path);
                ensure!(at_path(&v, &full) == Some(value), "data {} became {:?}", clip(&value.to_string()), at_path(&v, &full));
                Ok(())
            }
            C12Case::Twin { method, id, a, path, salt } => {
                let mut b = a.clone();
                let spot = walk(&mut b, path);
                *spot = match &*spot {
                    Value::Null => json!({}),
                    Value::Bool(x) => json!(!x),
                    Value::Number(n) => json!(n.to_string()),
                    Value::String(s) => json!(format!("{s} ")),
                    Value::Array(x) => {
                        let mut x = x.clone();
                        x.push(Value::Null);
                        Value::Array(x)
                    }
                    Value::Object(o) => {
                        let mut o = o.clone();
                        o.insert("\u{1}new".into(), Value::Null);
                        Value::Object(o)
                    }
                };
                cx.label("twins");
                cx.nontrivial(gen::size(a) > 3);
                for v in [a, &b] {
                    codec_roundtrip(&Msg::Req { id: id.clone(), method: method.clone(), params: Params::Is(v.clone()) }, *salt)?;
                }
                let ta = enc(&build(&Msg::Ok { id: id.clone(), result: a.clone() })?)?;
                let tb = enc(&build(&Msg::Ok { id: id.clone(), result: b.clone() })?)?;
                ensure!(ta != tb, "different results have the same encoding {}", clip(&ta));
                Ok(())
            }
        }
    }
}

// ---------------------------------------------------------------- C18

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C18Case {
    /// the body, as text
    text: String,
    well_formed: bool,
}
impl C18Case {
    pub fn text(self) -> String {
        self.text
    }
}
type O = Result<Norm, String>;
fn outcome<T>(r: Result<T, impl std::fmt::Display>, f: impl Fn(&T) -> Norm) -> O {
    r.map(|x| f(&x)).map_err(|e| e.to_string())
}
fn routes<T: serde::de::DeserializeOwned>(text: &str, f: impl Fn(&T) -> Norm + Copy) -> Vec<(&'static str, O)> {
    let mut v = vec![
        ("text", outcome(serde_json::from_str::<T>(text), f)),
        ("bytes", outcome(serde_json::from_slice::<T>(text.as_bytes()), f)),
        ("reader", outcome(serde_json::from_reader::<_, T>(text.as_bytes()), f)),
        ("slow reader", outcome(serde_json::from_reader::<_, T>(One(text.as_bytes())), f)),
    ];
    if let Ok(val) = serde_json::from_str::<Value>(text) {
        v.push(("value reference", outcome(T::deserialize(&val), f)));
        v.push(("value", outcome(serde_json::from_value::<T>(val), f)));
    }
    v
}
struct One<'a>(&'a [u8]);
impl std::io::Read for One<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = 1.min(b.len()).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
fn agree(what: &str, rs: &[(&str, O)], text: &str) -> Result<O, Fail> {
    let first = &rs[0];
    for r in &rs[1..] {
        let same = match (&first.1, &r.1) {
            (Ok(a), Ok(b)) => a == b,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if !same {
            return Err(format!(
                "{what} decoded from {} gives {} but from {} gives {}: {}",
                first.0,
                clip(&format!("{:?}", first.1)),
                r.0,
                clip(&format!("{:?}", r.1)),
                cut(text, 600)
            )
            .into());
        }
    }
    Ok(first.1.clone())
}

/// Changes one thing about a message object.
pub fn twist(mut v: Value, k: u8, x: Value, path: &[gen::Ix]) -> Value {
    let names = ["id", "method", "params", "result", "error"];
    let name = names[(k / 8) as usize % names.len()];
    match k % 8 {
        0 => {
            if let Some(o) = v.as_object_mut() {
                o.remove(name);
            }
        }
        1 => {
            if let Some(o) = v.as_object_mut() {
                o.insert(name.into(), x);
            }
        }
        2 => *walk(&mut v, path) = x,
        3 => {
            // drop a member somewhere below
            if let Value::Object(o) = walk(&mut v, path) {
                if let Some(k) = o.keys().next().cloned() {
                    o.remove(&k);
                }
            }
        }
        4 => v = json!([v]),
        5 => {
            let o = v.as_object().cloned().unwrap_or_default();
            v = o.into_iter().map(|(_, x)| x).collect();
        }
        6 => v = x,
        _ => {
            if let Some(o) = v.as_object_mut() {
                if let Some(y) = o.remove(name) {
                    o.insert(format!("{name}2"), y);
                }
            }
        }
    }
    v
}

pub struct C18;
impl Prop for C18 {
    type Case = C18Case;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "well-formed messages with extra members in any place, and the same with one part removed, replaced or renamed; each decoded by six routes (text, bytes, reader, one-byte reader, value, value reference) both as Message and as Request, Response, Notification; all routes must agree; non-trivial: extra members present or ill-formed"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(80_000, 12)
    }
    fn fixed(&self, _: Tier) -> Vec<C18Case> {
        let mut v = vec![];
        for extra in ["2.0", "", "x", "params", "build/exit"] {
            for (i, m) in [
                json!({"method": "build/exit"}),
                json!({"method": "build/taskStart", "params": {"taskId": {"id": "x"}}}),
                json!({"id": 1, "method": "build/shutdown"}),
                json!({"id": 1, "method": "c", "params": [1]}),
                json!({"id": "1", "result": null}),
                json!({"id": 1, "error": {"code": 1, "message": "m"}}),
            ]
            .into_iter()
            .enumerate()
            {
                for (before, after) in [(true, false), (false, true), (true, true)] {
                    for e in [json!(extra), json!({"id": 5, "params": [extra]}), json!([]), Value::Null, json!(1)] {
                        let body = m.to_string();
                        let inner = &body[1..body.len() - 1];
                        let mut t = String::from("{");
                        if before {
                            t += &format!("\"jsonrpc\":{e},");
                        }
                        t += inner;
                        if after {
                            t += &format!(",\"zz\":{e}");
                        }
                        t += "}";
                        let _ = i;
                        v.push(C18Case { text: t, well_formed: true });
                    }
                }
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> S<C18Case> {
        let m = uni(vec![(8, gen::msg()), (1, gen::exit())]);
        let dup = uni(vec![(5, Just(None).boxed()), (1, (gen::text(), gen::json(), gen::json()).prop_map(Some).boxed())]);
        (
            m,
            gen::extra_members(),
            any::<u64>(),
            uni(vec![(3, Just(None).boxed()), (2, (any::<u8>(), gen::json(), vec(gen::ix(), 0..5)).prop_map(Some).boxed())]),
            any::<bool>(),
            dup,
        )
            .prop_map(|(m, extra, salt, tw, rpc, dup)| {
                let mut v = if rpc { m.wire_rpc() } else { m.wire() };
                for (k, x) in extra {
                    v[k.as_str()] = x;
                }
                let well_formed = tw.is_none();
                if let Some((k, x, path)) = tw {
                    v = twist(v, k, x, &path);
                }
                let mut text = spell(&v, salt);
                if let Some((k, a, b)) = dup {
                    // an unknown member twice, in front
                    let k = if ["id", "method", "params", "result", "error", "code", "message", "data"].contains(&k.as_str()) { "x".into() } else { k };
                    let t = text.trim_start();
                    if t.starts_with('{') && t[1..].trim_start().starts_with('"') {
                        let k = Value::from(k);
                        text = format!("{{{k}:{a},{k}:{b},{}", &t[1..]);
                    }
                }
                C18Case { text, well_formed }
            })
            .boxed()
    }
    fn run(&self, c: &C18Case, cx: &mut Cx) -> R {
        let t = &c.text;
        let msg = agree("message", &routes::<Message>(t, observe), t)?;
        let req = agree("request", &routes::<Request>(t, observe_request), t)?;
        let resp = agree("response", &routes::<Response>(t, observe_response), t)?;
        let note = agree("notification", &routes::<Notification>(t, observe_note), t)?;
        cx.inner += 24;
        cx.label(if c.well_formed { "well-formed" } else { "ill-formed" });
        cx.label(match &msg {
            Ok(n) => n.kind(),
            Err(_) => "refused",
        });
        cx.nontrivial(!c.well_formed || t.contains("jsonrpc"));
        match &msg {
            Ok(n) => {
                let direct = match n.kind() {
                    "request" => &req,
                    "response" => &resp,
                    _ => &note,
                };
                match direct {
                    Ok(d) => same("decoded directly as its kind", d, n),
                    Err(e) => Err(format!("decodes as a message, a {}, but not directly as one ({e}): {}", n.kind(), cut(t, 600)).into()),
                }
            }
            Err(_) => {
                // a message of any kind would have been one
                for (k, r) in [("request", req), ("response", resp), ("notification", note)] {
                    ensure!(r.is_err(), "decodes as a {k} but not as a message: {}", cut(t, 600));
                }
                ensure!(!c.well_formed, "a well-formed message is refused: {}", cut(t, 600));
                Ok(())
            }
        }
    }
}

// ---------------------------------------------------------------- C19

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C19Case {
    /// which conversion
    k: usize,
    id: Id,
    doc: Value,
    text: String,
}
const N_CONV: usize = 11 + 7 + 14 + 3 + 3;
fn conv_ty(k: usize) -> Ty {
    if k < 11 {
        REQUESTS[k].1
    } else if k < 18 {
        NOTES[k - 11].1
    } else if k < 30 {
        RESULTS[k - 18].1
    } else if k == 30 || k >= 32 {
        Ty::Any
    } else {
        Ty::Str
    }
}
fn de<T: serde::de::DeserializeOwned>(v: &Value) -> Result<T, Fail> {
    serde_json::from_value(v.clone()).map_err(|e| format!("{} refused: {e}", clip(&v.to_string())).into())
}

pub struct C19;
impl Prop for C19 {
    type Case = C19Case;
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "every conversion into Message, Request and Notification applied to generated ids and values, the outcome compared with the model and with the indirect conversion; non-trivial: a value of more than 3 nodes"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(120_000, 12)
    }
    fn fixed(&self, _: Tier) -> Vec<C19Case> {
        vec![]
    }
    fn strategy(&self, _: Tier) -> S<C19Case> {
        uni((0..N_CONV)
            .map(|k| {
                let d = if k >= 30 && conv_ty(k) == Ty::Any { gen::json() } else { gen::doc(conv_ty(k)) };
                let m = gen::any_method();
                (1, (gen::id(), d, m).prop_map(move |(id, doc, text)| C19Case { k, id, doc, text }).boxed())
            })
            .collect())
    }
    fn run(&self, c: &C19Case, cx: &mut Cx) -> R {
        use bsp_server::types::*;
        let id = || rid(&c.id);
        let d = &c.doc;
        cx.nontrivial(gen::size(d) > 3);
        macro_rules! request {
            ($t:ty, $m:expr) => {{
                let want = norm_request(c.id.json(), $m, d.clone());
                let a: $t = de(d)?;
                same("as a request", &observe_request(&Request::from((id(), de::<$t>(d)?))), &want)?;
                same("as a message", &observe(&Message::from((id(), a))), &want)?;
                same("as a message through a request", &observe(&Message::from(Request::from((id(), de::<$t>(d)?)))), &want)?;
                // the way an application sends it
                let (x, y) = bsp_server::Connection::memory();
                x.send((id(), de::<$t>(d)?)).map_err(|e| e.to_string())?;
                same("sent", &observe(&y.receiver.recv().map_err(|e| e.to_string())?), &want)
            }};
        }
        macro_rules! note {
            ($t:ty, $m:expr) => {{
                let want = norm_note($m, d.clone());
                same("as a notification", &observe_note(&Notification::from(de::<$t>(d)?)), &want)?;
                same("as a message", &observe(&Message::from(de::<$t>(d)?)), &want)?;
                same("as a message through a notification", &observe(&Message::from(Notification::from(de::<$t>(d)?))), &want)
            }};
        }
        macro_rules! result {
            ($t:ty, $ty:expr) => {{
                let v: $t = de(d)?;
                let plain = serde_json::to_value(&v).map_err(|e| e.to_string())?;
                let n = observe(&Message::from((id(), v)));
                match &n {
                    Norm::Success { id, result } => {
                        same("id", id, &c.id.json())?;
                        same("result", result, &plain)?;
                        same("result document", &norm(&$ty, result), &norm(&$ty, d))
                    }
                    n => Err(format!("a result became {n:?}").into()),
                }
            }};
        }
        let m = intern(&c.text);
        cx.label(match c.k {
            0..=10 => "request",
            11..=17 => "notification",
            18..=29 => "result",
            _ => "free-form",
        });
        match c.k {
            0 => request!(InitializeBuild, REQUESTS[0].0),
            1 => request!(BuildTargetDependencyModules, REQUESTS[1].0),
            2 => request!(DebugSessionStart, REQUESTS[2].0),
            3 => request!(BuildTargetSources, REQUESTS[3].0),
            4 => request!(TextDocumentInverseSources, REQUESTS[4].0),
            5 => request!(BuildTargetDependencySources, REQUESTS[5].0),
            6 => request!(BuildTargetResources, REQUESTS[6].0),
            7 => request!(BuildTargetRun, REQUESTS[7].0),
            8 => request!(BuildTargetCompile, REQUESTS[8].0),
            9 => request!(BuildTargetTest, REQUESTS[9].0),
            10 => request!(BuildTargetCleanCache, REQUESTS[10].0),
            11 => note!(ShowMessage, NOTES[0].0),
            12 => note!(LogMessage, NOTES[1].0),
            13 => note!(PublishDiagnostics, NOTES[2].0),
            14 => note!(TaskStart, NOTES[3].0),
            15 => note!(TaskProgress, NOTES[4].0),
            16 => note!(TaskFinish, NOTES[5].0),
            17 => note!(BuildTargetDidChange, NOTES[6].0),
            18 => result!(InitializeBuildResult, R_INITIALIZE),
            19 => result!(WorkspaceBuildTargetsResult, R_TARGETS),
            20 => result!(BuildTargetSourcesResult, R_SOURCES),
            21 => result!(BuildTargetTestResult, R_TEST),
            22 => result!(BuildTargetRunResult, R_RUN),
            23 => result!(BuildTargetCompileResult, R_TEST),
            24 => result!(BuildTargetResourcesResult, R_RESOURCES),
            25 => result!(BuildTargetDependencyModulesResult, R_MODULES),
            26 => result!(BuildTargetCleanCacheResult, R_CLEAN),
            27 => result!(BuildTargetInverseSourcesResult, JUST_TARGETS),
            28 => result!(BuildTargetDependencySourcesResult, R_DEPSOURCES),
            29 => result!(DebugSessionStartResult, R_DEBUG),
            30 => {
                let want = Norm::Success { id: c.id.json(), result: d.clone() };
                same("a value", &observe(&Message::from((id(), d.clone()))), &want)
            }
            31 => {
                let s = d.as_str().unwrap_or_default().to_string();
                let want = Norm::Success { id: c.id.json(), result: json!(s) };
                same("a text", &observe(&Message::from((id(), s))), &want)
            }
            32 => {
                let want = Norm::Request { id: c.id.json(), variant: "custom".into(), method: c.text.clone(), params: d.clone() };
                same("custom request", &observe_request(&Request::from((id(), m, d.clone()))), &want)?;
                same("custom request message", &observe(&Message::from((id(), m, d.clone()))), &want)?;
                same("through a request", &observe(&Message::from(Request::from((id(), m, d.clone())))), &want)
            }
            33 => {
                let want = Norm::Notification { variant: "custom".into(), method: c.text.clone(), params: d.clone() };
                same("custom notification", &observe_note(&Notification::from((m, d.clone()))), &want)?;
                same("custom notification message", &observe(&Message::from((m, d.clone()))), &want)?;
                same("through a notification", &observe(&Message::from(Notification::from((m, d.clone())))), &want)
            }
            34 => {
                same("exit", &observe_note(&Notification::from("build/exit")), &norm_note("build/exit", Value::Null))?;
                same("initialized", &observe_note(&Notification::from("build/initialized")), &norm_note("build/initialized", Value::Null))
            }
            35 => {
                let r = Response::ok(id(), d);
                let want = Norm::Success { id: c.id.json(), result: d.clone() };
                same("a response", &observe(&Message::from(r)), &want)
            }
            36 => {
                let r = Response::err(id(), 7, c.text.clone());
                let want = Norm::Failure { id: c.id.json(), code: 7, message: c.text.clone(), data: Value::Null };
                same("an error response", &observe(&Message::from(r)), &want)
            }
            _ => {
                for (r, m) in [
                    (Request::Shutdown(id()), "build/shutdown"),
                    (Request::WorkspaceReload(id()), "workspace/reload"),
                    (Request::WorkspaceBuildTargets(id()), "workspace/buildTargets"),
                ] {
                    same("a bare request", &observe(&Message::from(r)), &norm_request(c.id.json(), m, Value::Null))?;
                }
                Ok(())
            }
        }
    }
}

// ---------------------------------------------------------------- C20

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum C20Case {
    Req { id: Id, method: String, params: Params, salt: u64, decoded: bool },
    /// a custom request under any name, made by the application
    Own { id: Id, method: String, params: Value },
    Note { method: String, params: Params, salt: u64, decoded: bool },
    OwnNote { method: String, params: Value },
    Ids(Id, Id),
}
pub struct C20;
impl Prop for C20 {
    type Case = C20Case;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "requests and notifications of every kind, built or decoded; method, id and params accessors compared with the encoding; pairs of ids compared for equality, hashing, display and encoding; non-trivial: params of more than 3 nodes, or an integer and a string id of the same text"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(120_000, 12)
    }
    fn fixed(&self, _: Tier) -> Vec<C20Case> {
        let mut v = vec![];
        for i in [0, 1, -1, 7, i32::MAX, i32::MIN] {
            v.push(C20Case::Ids(Id::I(i), Id::S(i.to_string())));
            v.push(C20Case::Ids(Id::I(i), Id::I(i)));
        }
        v
    }
    fn strategy(&self, _: Tier) -> S<C20Case> {
        let ids = uni(vec![
            (2, (gen::id(), gen::id()).boxed()),
            (1, gen::id().prop_map(|a| (a.clone(), a)).boxed()),
            (1, gen::i32s().prop_map(|i| (Id::I(i), Id::S(i.to_string()))).boxed()),
            (1, (gen::i32s(), -2i32..3).prop_map(|(i, d)| (Id::I(i), Id::I(i.wrapping_add(d)))).boxed()),
            (1, (gen::text(), gen::text_char()).prop_map(|(s, c)| (Id::S(s.clone()), Id::S(format!("{s}{c}")))).boxed()),
        ]);
        uni(vec![
            (4, (gen::id(), gen::req_payload(), any::<u64>(), any::<bool>()).prop_map(|(id, (method, params), salt, decoded)| C20Case::Req { id, method, params, salt, decoded }).boxed()),
            (2, (gen::id(), gen::any_method(), gen::json()).prop_map(|(id, method, params)| C20Case::Own { id, method, params }).boxed()),
            (3, (uni(vec![(6, gen::note_payload()), (1, gen::params_any().prop_map(|p| ("build/exit".to_string(), p)).boxed())]), any::<u64>(), any::<bool>()).prop_map(|((method, params), salt, decoded)| C20Case::Note { method, params, salt, decoded }).boxed()),
            (1, (gen::any_method(), gen::json()).prop_map(|(method, params)| C20Case::OwnNote { method, params }).boxed()),
            (3, ids.prop_map(|(a, b)| C20Case::Ids(a, b)).boxed()),
        ])
    }
    fn run(&self, c: &C20Case, cx: &mut Cx) -> R {
        fn check_req(r: &Request, id: &Id, method: &str, cx: &mut Cx) -> R {
            check_req_raw(r)?;
            let e = serde_json::to_value(r).map_err(|e| format!("does not encode: {e}"))?;
            let p = r.params().map_err(|e| format!("params: {e}"))?;
            let none = Value::Null;
            cx.nontrivial(gen::size(&p) > 3);
            same("method against the encoding", &json!(r.method()), &e["method"])?;
            same("method", &r.method(), &method)?;
            same("id against the encoding", &rid_json(r.id()), &e["id"])?;
            same("id", r.id(), &rid(id))?;
            same("params against the encoding", &p, e.get("params").unwrap_or(&none))?;
            // and of a copy
            same("copy", &observe_request(&r.clone()), &observe_request(r))
        }
        fn check_req_raw(r: &Request) -> R {
            // a null that the application sets, which decoding never does
            let mut r = r.clone();
            match &mut r {
                Request::InitializeBuild(_, p) => p.set_data(Some(Value::Null)),
                Request::BuildTargetRun(_, p) => p.set_data(Some(Value::Null)),
                Request::BuildTargetTest(_, p) => p.set_data(Some(Value::Null)),
                _ => return Ok(()),
            }
            let e = serde_json::to_value(&r).map_err(|e| format!("does not encode: {e}"))?;
            same("params with null data against the encoding", &r.params().map_err(|e| format!("params: {e}"))?, &e["params"])
        }
        fn check_note(n: &Notification, method: &str) -> R {
            let e = serde_json::to_value(n).map_err(|e| format!("does not encode: {e}"))?;
            same("method against the encoding", &json!(n.method()), &e["method"])?;
            same("method", &n.method(), &method)?;
            same("copy", &observe_note(&n.clone()), &observe_note(n))
        }
        match c {
            C20Case::Req { id, method, params, salt, decoded } => {
                cx.label(if *decoded { "request decoded" } else { "request built" });
                let m = Msg::Req { id: id.clone(), method: method.clone(), params: params.clone() };
                let r = if *decoded {
                    let t = spell(&m.wire_rpc(), *salt);
                    serde_json::from_str(&t).map_err(|e| format!("{} refused: {e}", clip(&t)))?
                } else {
                    build_request(rid(id), method, params.value())?
                };
                check_req(&r, id, method, cx)?;
                let p = r.params().map_err(|e| e.to_string())?;
                let want = match m.norm() {
                    Norm::Request { params, .. } => params,
                    _ => Value::Null,
                };
                let n = request_schema(method).map_or(p.clone(), |t| norm(&t, &p));
                same("params", &n, &want)
            }
            C20Case::Own { id, method, params } => {
                cx.label("custom request built");
                let r = Request::Custom(rid(id), intern(method), params.clone());
                check_req(&r, id, method, cx)?;
                same("params", &r.params().map_err(|e| e.to_string())?, params)
            }
            C20Case::Note { method, params, salt, decoded } => {
                cx.label(if *decoded { "notification decoded" } else { "notification built" });
                cx.nontrivial(gen::size(&params.value()) > 3);
                let m = Msg::Note { method: method.clone(), params: params.clone() };
                let n = if *decoded {
                    let t = spell(&m.wire_rpc(), *salt);
                    serde_json::from_str(&t).map_err(|e| format!("{} refused: {e}", clip(&t)))?
                } else {
                    build_note(method, params.value())?
                };
                check_note(&n, method)
            }
            C20Case::OwnNote { method, params } => {
                cx.label("custom notification built");
                check_note(&Notification::Custom(intern(method), params.clone()), method)
            }
            C20Case::Ids(a, b) => {
                cx.label("ids");
                let same_text = a.json().to_string().trim_matches('"') == b.json().to_string().trim_matches('"');
                cx.nontrivial(same_text && a != b);
                cx.label_if(same_text && a != b, "same text, different kind");
                let (x, y) = (rid(a), rid(b));
                ensure!((x == y) == (a == b), "ids {a:?} and {b:?} compare as {}", x == y);
                ensure!((y == x) == (a == b), "equality of {a:?} and {b:?} is one-sided");
                let mut set = std::collections::HashSet::new();
                set.insert(x.clone());
                ensure!(set.contains(&y) == (a == b), "a set of {a:?} asked for {b:?}");
                for (i, r) in [(a, &x), (b, &y)] {
                    same("encoded id", &rid_json(r), &i.json())?;
                    let back: RequestId = serde_json::from_value(i.json()).map_err(|e| format!("id {i:?} refused: {e}"))?;
                    ensure!(&back == r, "id {i:?} decodes as {back:?}");
                    let t = i.json().to_string();
                    let back: RequestId = serde_json::from_str(&t).map_err(|e| format!("id {t} refused: {e}"))?;
                    ensure!(&back == r, "id {t} decodes as {back:?}");
                }
                Ok(())
            }
        }
    }
}

// ---------------------------------------------------------------- C23

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C23Case {
    id: Id,
    method: String,
    params: Params,
    salt: u64,
}
/// Parameters as BSP 2.0 specifies them: (name, type, mandatory).
const SPEC: &[(&str, &[(&str, Ty, bool)])] = &[
    (
        "build/initialize",
        &[
            ("displayName", Ty::Str, true),
            ("version", Ty::Str, true),
            ("bspVersion", Ty::Str, true),
            ("rootUri", Ty::Url, true),
            ("capabilities", LANGS, true),
            ("data", Ty::Any, false),
        ],
    ),
    ("build/shutdown", &[]),
    ("workspace/buildTargets", &[]),
    ("workspace/reload", &[]),
    ("buildTarget/sources", &[("targets", TARGETS, true)]),
    ("buildTarget/inverseSources", &[("textDocument", DOC, true)]),
    ("buildTarget/dependencySources", &[("targets", TARGETS, true)]),
    ("buildTarget/dependencyModules", &[("targets", TARGETS, true)]),
    ("buildTarget/resources", &[("targets", TARGETS, true)]),
    ("buildTarget/cleanCache", &[("targets", TARGETS, true)]),
    ("buildTarget/compile", &[("targets", TARGETS, true), ("originId", Ty::Str, false), ("arguments", STRS, false)]),
    (
        "buildTarget/test",
        &[
            ("targets", TARGETS, true),
            ("originId", Ty::Str, false),
            ("arguments", STRS, false),
            ("dataKind", Ty::Str, false),
            ("data", Ty::Any, false),
        ],
    ),
    (
        "buildTarget/run",
        &[
            ("target", TARGET, true),
            ("originId", Ty::Str, false),
            ("arguments", STRS, false),
            ("dataKind", Ty::Str, false),
            ("data", Ty::Any, false),
        ],
    ),
    ("debugSession/start", &[("targets", TARGETS, true), ("dataKind", Ty::Str, true), ("data", Ty::Any, true)]),
];
/// The member the library is known to read differently from the specification, if present.
fn departs(method: &str, p: &Value) -> Option<&'static str> {
    match method {
        "buildTarget/compile" | "buildTarget/test" | "buildTarget/dependencySources" => Some("targets"),
        "buildTarget/run" if p.get("arguments").is_some() => Some("arguments"),
        _ => None,
    }
}
fn sample(ty: Ty) -> Value {
    match ty {
        Ty::Str => json!("s"),
        Ty::Url => json!("file:///x"),
        Ty::Any => json!({"d": [1]}),
        t if t == TARGETS => json!([{"uri": "file:///a"}, {"uri": "bsp://b?c=d"}]),
        t if t == TARGET || t == DOC => json!({"uri": "file:///a"}),
        t if t == LANGS => json!({"languageIds": ["rust"]}),
        t if t == STRS => json!(["-x", ""]),
        _ => Value::Null,
    }
}
pub struct C23;
impl Prop for C23 {
    type Case = C23Case;
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "requests of the fourteen methods with parameters generated from tables of the protocol specification (every subset of optional members, any contents), in any spelling; the decoded request compared member for member; non-trivial: at least one parameter"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(80_000, 12)
    }
    fn fixed(&self, _: Tier) -> Vec<C23Case> {
        let mut v = vec![];
        for (method, fs) in SPEC {
            let optional: Vec<_> = fs.iter().filter(|f| !f.2).collect();
            for bits in 0..1u32 << optional.len() {
                let mut o = serde_json::Map::new();
                for f in *fs {
                    let k = optional.iter().position(|g| g.0 == f.0);
                    if k.map_or(true, |k| bits >> k & 1 == 1) {
                        o.insert(f.0.into(), sample(f.1));
                    }
                }
                let params = if fs.is_empty() { Params::Absent } else { Params::Is(o.into()) };
                v.push(C23Case { id: Id::I(1), method: method.to_string(), params, salt: 0 });
            }
            if fs.is_empty() {
                for p in [Value::Null, json!({})] {
                    v.push(C23Case { id: Id::S("1".into()), method: method.to_string(), params: Params::Is(p), salt: 0 });
                }
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> S<C23Case> {
        uni(SPEC
            .iter()
            .map(|(method, fs)| {
                let mut acc: S<Vec<(&'static str, Value)>> = Just(vec![]).boxed();
                for (name, ty, must) in *fs {
                    let d = gen::doc(*ty);
                    let d = if *must { d.prop_map(Some).boxed() } else { proptest::option::of(d).boxed() };
                    acc = (acc, d)
                        .prop_map(move |(mut a, d)| {
                            a.extend(d.map(|d| (*name, d)));
                            a
                        })
                        .boxed();
                }
                let params = if fs.is_empty() {
                    uni(vec![(2, Just(Params::Absent).boxed()), (1, Just(Params::Is(Value::Null)).boxed()), (1, Just(Params::Is(json!({}))).boxed())])
                } else {
                    acc.prop_map(|a| Params::Is(a.into_iter().map(|(k, v)| (k.to_string(), v)).collect::<serde_json::Map<_, _>>().into())).boxed()
                };
                let w = if fs.is_empty() { 1 } else { 3 };
                (w, (gen::id(), params, any::<u64>()).prop_map(move |(id, params, salt)| C23Case { id, method: method.to_string(), params, salt }).boxed())
            })
            .collect())
    }
    fn run(&self, c: &C23Case, cx: &mut Cx) -> R {
        let m = Msg::Req { id: c.id.clone(), method: c.method.clone(), params: c.params.clone() };
        cx.label(c.method.as_str());
        cx.nontrivial(c.params != Params::Absent);
        let text = spell(&m.wire_rpc(), c.salt);
        let got: Message = serde_json::from_str(&text).map_err(|e| format!("{} refused: {e}", clip(&text)))?;
        let n = observe(&got);
        let want = m.norm();
        if n == want {
            return Ok(());
        }
        let mut f: Fail = format!("{} is delivered as {} instead of {}", clip(&text), clip(&format!("{n:?}")), clip(&format!("{want:?}"))).into();
        if let (Some(why), Norm::Odd { id, result: None, error: None }) = (departs(&c.method, &c.params.value()), &n) {
            if *id == c.id.json() {
                f.sig = Some(format!("{}:{why}->empty-response", c.method));
                cx.label(format!("known: {why} of {}", c.method));
            }
        }
        Err(f)
    }
}

// ---------------------------------------------------------------- C24

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum C24Case {
    /// a document of this type (index) with one thing wrong; carried as call or notification too
    Payload { ty: usize, doc: Value, id: Id },
    /// a typed call or notification without usable params
    Params { method: String, id: Id, params: Params },
    /// a call or an answer with this for an id
    BadId { bad: Value, method: Option<String>, body: Value, error: bool },
    /// a call without a method, or with a method that is no string
    BadMethod { bad: Option<Value>, id: Option<Id>, params: Value },
    BadError { id: Id, result: Option<Value>, error: Value },
    /// one member twice: (message, member, its other value, put in front)
    Twice { msg: Msg, member: u8, other: Value, front: bool },
    /// a body that is no object
    NoObject(Value),
}

#[derive(Clone, Debug)]
enum Step {
    K(&'static str),
    N(usize),
}
/// Every place in a document where something can be wrong: path, type, whether it can be removed or null.
fn sites(ty: &Ty, v: &Value, path: &mut Vec<Step>, out: &mut Vec<(Vec<Step>, Ty, P)>) {
    match (ty, v) {
        (Ty::Arr(t), Value::Array(a)) => {
            for (i, x) in a.iter().enumerate() {
                path.push(Step::N(i));
                out.push((path.clone(), **t, P::Def(D::EmptyStr)));
                sites(t, x, path, out);
                path.pop();
            }
        }
        (Ty::Obj(fs), Value::Object(o)) => {
            for f in *fs {
                path.push(Step::K(f.name));
                out.push((path.clone(), f.ty, f.p));
                if let Some(x) = o.get(f.name) {
                    sites(&f.ty, x, path, out);
                }
                path.pop();
            }
        }
        _ => {}
    }
}
/// A value that does not fit the type.
fn wrong(ty: &Ty, p: P, k: u32) -> Option<Value> {
    let mut c: Vec<Value> = match ty {
        Ty::Any | Ty::DataKind => return None,
        Ty::Str | Ty::Tag => vec![json!(1), json!(true), json!({}), json!([]), json!(1.5), json!(["a"])],
        Ty::Url => vec![json!(1), json!(true), json!({}), json!([]), json!("not a url"), json!(""), json!("//x"), json!("/abs/path")],
        Ty::Bool => vec![json!(0), json!(1), json!("true"), json!(""), json!({}), json!([])],
        Ty::U32 => vec![json!("1"), json!(-1), json!(1.5), json!(4294967296u64), json!(true), json!({}), json!([])],
        Ty::Open(lo, _) => vec![json!(lo.to_string()), json!(1.5), json!(2147483648u64), json!(-2147483649i64), json!(true), json!({}), json!([])],
        Ty::U64 => vec![json!("1"), json!(-1), json!(1.5), json!(true), json!({}), json!([])],
        Ty::Enum(lo, hi) => vec![json!(lo - 1), json!(hi + 1), json!(hi + 256), json!(-lo), json!(lo.to_string()), json!(true), json!({}), json!([]), json!(1.5)],
        Ty::NumOrStr => vec![json!(true), json!({}), json!([]), json!(1.5)],
        Ty::Arr(_) => vec![json!({}), json!("x"), json!(1), json!(true)],
        // an object may be written as an array of its members' values
        Ty::Obj(_) => vec![json!("x"), json!(1), json!(true), json!("")],
    };
    if p != P::Opt {
        c.push(Value::Null);
    }
    let n = c.len();
    Some(c.swap_remove(k as usize % n))
}
fn put(v: &mut Value, path: &[Step], x: Option<Value>) -> bool {
    let (last, up) = match path.split_last() {
        Some(x) => x,
        None => return false,
    };
    let mut v = v;
    for s in up {
        let next = match s {
            Step::K(k) => v.get_mut(*k),
            Step::N(i) => v.get_mut(*i),
        };
        v = match next {
            Some(v) => v,
            None => return false,
        };
    }
    match (last, v, x) {
        (Step::K(k), Value::Object(o), Some(x)) => o.insert(k.to_string(), x).map_or(true, |_| true),
        (Step::K(k), Value::Object(o), None) => o.remove(*k).is_some(),
        (Step::N(i), Value::Array(a), Some(x)) => {
            a[*i] = x;
            true
        }
        _ => false,
    }
}
/// The document with one thing wrong.
fn spoil(ty: &Ty, doc: &Value, at: gen::Ix, k: u32) -> Option<Value> {
    let mut all = vec![];
    sites(ty, doc, &mut vec![], &mut all);
    let mut choices = vec![];
    for (path, t, p) in &all {
        if *p == P::Req {
            let mut d = doc.clone();
            if put(&mut d, path, None) {
                choices.push(d);
            }
        }
        if let Some(x) = wrong(t, *p, k) {
            let mut d = doc.clone();
            if put(&mut d, path, Some(x)) {
                choices.push(d);
            }
        }
    }
    if choices.is_empty() {
        return None;
    }
    let n = choices.len();
    Some(choices.swap_remove(at.index(n)))
}
fn kind_of(v: &Value) -> &'static str {
    match v {
        Value::Null => "null",
        Value::Bool(_) => "bool",
        Value::Number(n) if n.is_f64() => "float",
        Value::Number(_) => "bigint",
        Value::String(_) => "string",
        Value::Array(_) => "array",
        Value::Object(_) => "object",
    }
}

pub struct C24;
impl C24 {
    fn decode(text: &str) -> Option<Norm> {
        serde_json::from_str::<Message>(text).ok().map(|m| observe(&m))
    }
    fn refuse(text: &str) -> R {
        match Self::decode(text) {
            None => Ok(()),
            Some(n) => Err(format!("{} is delivered as {}", clip(text), clip(&format!("{n:?}"))).into()),
        }
    }
    /// A call: refused, or a request with its own id; `sig` names what it may be known to become.
    fn call(text: &str, id: &Value, sig: String, known: impl Fn(&Norm) -> bool) -> R {
        match Self::decode(text) {
            None => Ok(()),
            Some(Norm::Request { id: i, .. }) if i == *id => Ok(()),
            Some(n) => {
                let mut f: Fail = format!("{} is delivered as {}", clip(text), clip(&format!("{n:?}"))).into();
                if known(&n) {
                    f.sig = Some(sig);
                }
                Err(f)
            }
        }
    }
    fn empty<'a>(id: &'a Value) -> impl Fn(&Norm) -> bool + 'a {
        move |n| *n == Norm::Odd { id: id.clone(), result: None, error: None }
    }
}
impl Prop for C24 {
    type Case = C24Case;
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "generated documents of every payload type with one mandatory member removed or one member replaced by a value of another type, decoded alone, as notification and as request; generated calls and answers with an unusable id, method, outcome or params, duplicated members, and bodies that are no object; each must be refused or stay a request with its own id; every case is non-trivial"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(120_000, 12)
    }
    fn fixed(&self, _: Tier) -> Vec<C24Case> {
        let mut v = vec![];
        for (m, _) in REQUESTS.iter().chain(NOTES) {
            for params in [Params::Absent, Params::Is(Value::Null), Params::Is(json!(1)), Params::Is(json!("x"))] {
                v.push(C24Case::Params { method: m.to_string(), id: Id::I(1), params });
            }
        }
        for bad in [Value::Null, json!(true), json!(1.5), json!(2147483648u64), json!([1]), json!({"a": 1}), json!(-2147483649i64)] {
            for method in [Some("x".to_string()), Some("build/shutdown".into()), Some("build/initialize".into()), None] {
                for error in [false, true] {
                    v.push(C24Case::BadId { bad: bad.clone(), method: method.clone(), body: json!({}), error });
                }
            }
        }
        for bad in [None, Some(json!(5)), Some(Value::Null), Some(json!({}))] {
            for id in [Some(Id::I(1)), Some(Id::S("a".into())), None] {
                v.push(C24Case::BadMethod { bad: bad.clone(), id, params: json!({}) });
            }
        }
        for m in [
            Msg::Req { id: Id::I(1), method: "x".into(), params: Params::Is(json!({})) },
            Msg::Note { method: "x".into(), params: Params::Is(json!({})) },
            Msg::Ok { id: Id::I(1), result: json!(1) },
            Msg::Err { id: Id::I(1), error: ErrM { code: 1, message: "m".into(), data: None } },
        ] {
            for member in 0..3 {
                for front in [false, true] {
                    v.push(C24Case::Twice { msg: m.clone(), member, other: json!(7), front });
                }
            }
        }
        for b in [json!([1, 2, null]), json!([1]), json!([1, 2]), json!([]), json!(null), json!("x"), json!(["x", null, {"code": 1, "message": "m"}])] {
            v.push(C24Case::NoObject(b));
        }
        v
    }
    fn strategy(&self, _: Tier) -> S<C24Case> {
        let types = super::payload::TYPES;
        let payload = uni((0..types.len())
            .map(|ty| {
                let t = types[ty].1;
                let s = (gen::doc(t), gen::ix(), any::<u32>(), gen::id())
                    .prop_filter_map("nothing to spoil", move |(doc, at, k, id)| spoil(&t, &doc, at, k).map(|doc| C24Case::Payload { ty, doc, id }))
                    .boxed();
                (1, s)
            })
            .collect());
        let scalar = uni(vec![
            (1, Just(Value::Null).boxed()),
            (1, any::<bool>().prop_map(Value::from).boxed()),
            (2, gen::number()),
            (2, gen::text().prop_map(Value::from).boxed()),
        ]);
        let typed: Vec<&'static str> = REQUESTS.iter().chain(NOTES).map(|x| x.0).collect();
        let params = (select(typed), gen::id(), uni(vec![(1, Just(Params::Absent).boxed()), (3, scalar.clone().prop_map(Params::Is).boxed())]))
            .prop_map(|(m, id, params)| C24Case::Params { method: m.into(), id, params });
        let bad = uni(vec![
            (1, Just(Value::Null).boxed()),
            (1, any::<bool>().prop_map(Value::from).boxed()),
            (2, (-1000i64..1000).prop_map(|k| json!(k as f64 + 0.5)).boxed()),
            (2, (i32::MAX as i64 + 1..i64::MAX).prop_map(Value::from).boxed()),
            (1, (i64::MIN..i32::MIN as i64).prop_map(Value::from).boxed()),
            (1, vec(gen::json(), 0..3).prop_map(Value::from).boxed()),
            (1, gen::object_of(gen::json(), 0..3)),
        ]);
        let method = uni(vec![(1, Just(None).boxed()), (3, gen::any_method().prop_map(Some).boxed())]);
        let bad_id = (bad, method, gen::json(), any::<bool>()).prop_map(|(bad, method, body, error)| C24Case::BadId { bad, method, body, error });
        let no_text = gen::json().prop_map(|v| if v.is_string() { json!([v]) } else { v });
        let bad_method = (proptest::option::weighted(0.7, no_text), proptest::option::weighted(0.7, gen::id()), gen::json())
            .prop_map(|(bad, id, params)| C24Case::BadMethod { bad, id, params });
        let bad_error = (
            gen::id(),
            proptest::option::of(gen::json()),
            uni(vec![
                (2, scalar.prop_map(|v| if v.is_null() { json!(0) } else { v }).boxed()),
                (1, gen::text().prop_map(|m| json!({ "message": m })).boxed()),
                (1, gen::i32s().prop_map(|c| json!({ "code": c })).boxed()),
                (1, (gen::text(), gen::text()).prop_map(|(c, m)| json!({"code": c, "message": m})).boxed()),
                (1, (gen::i32s(), gen::i32s()).prop_map(|(c, m)| json!({"code": c, "message": m})).boxed()),
                (1, (i32::MAX as i64 + 1..i64::MAX, gen::text()).prop_map(|(c, m)| json!({"code": c, "message": m})).boxed()),
                (1, Just(json!({"code": null, "message": "m"})).boxed()),
                (1, Just(json!({"code": 1, "message": null})).boxed()),
                (1, Just(json!({})).boxed()),
            ]),
        )
            .prop_map(|(id, result, error)| C24Case::BadError { id, result, error });
        let twice = (gen::msg(), any::<u8>(), gen::json(), any::<bool>()).prop_map(|(msg, member, other, front)| C24Case::Twice { msg, member, other, front });
        let no_object = uni(vec![
            (1, gen::json()),
            (2, (gen::id(), vec(gen::json(), 0..4)).prop_map(|(i, v)| Value::Array([vec![i.json()], v].concat())).boxed()),
            (1, (gen::any_method(), gen::id(), gen::json()).prop_map(|(m, i, v)| json!([m, v, i.json()])).boxed()),
        ])
        .prop_map(|v| C24Case::NoObject(if v.is_object() { json!([v]) } else { v }));
        uni(vec![
            (20, payload),
            (3, params.boxed()),
            (3, bad_id.boxed()),
            (3, bad_method.boxed()),
            (3, bad_error.boxed()),
            (3, twice.boxed()),
            (2, no_object.boxed()),
        ])
    }
    fn run(&self, c: &C24Case, cx: &mut Cx) -> R {
        cx.nontrivial(true);
        match c {
            C24Case::Payload { ty, doc, id } => {
                let (name, _, f) = super::payload::TYPES[*ty];
                cx.label(format!("payload {name}"));
                let text = doc.to_string();
                match f(&text) {
                    Err(e) if !e.starts_with('!') => {}
                    r => fail!("{name} accepts {}: {r:?}", clip(&text)),
                }
                // REQUESTS and NOTES stand first among the types, in order
                let n = REQUESTS.len();
                if *ty < n {
                    let method = REQUESTS[*ty].0;
                    let t = json!({"jsonrpc": "2.0", "id": id.json(), "method": method, "params": doc}).to_string();
                    let i = id.json();
                    Self::call(&t, &i, format!("call-params:{method}->empty-response"), Self::empty(&i))?;
                } else if *ty < n + NOTES.len() {
                    let method = NOTES[*ty - n].0;
                    Self::refuse(&json!({"jsonrpc": "2.0", "method": method, "params": doc}).to_string())?;
                }
                Ok(())
            }
            C24Case::Params { method, id, params } => {
                cx.label("unusable params");
                if is_typed_note(method) {
                    Self::refuse(&Msg::Note { method: method.clone(), params: params.clone() }.wire_rpc().to_string())
                } else {
                    let t = Msg::Req { id: id.clone(), method: method.clone(), params: params.clone() }.wire_rpc().to_string();
                    let i = id.json();
                    Self::call(&t, &i, format!("call-params:{method}->empty-response"), Self::empty(&i))
                }
            }
            C24Case::BadId { bad, method, body, error } => match method {
                Some(m) => {
                    cx.label("call with an unusable id");
                    let t = json!({"jsonrpc": "2.0", "id": bad, "method": m, "params": body}).to_string();
                    Self::call(&t, bad, format!("call-id:{}->notification", kind_of(bad)), |n| matches!(n, Norm::Notification { method, .. } if method == m))
                }
                None => {
                    cx.label("answer with an unusable id");
                    let t = if *error {
                        json!({"jsonrpc": "2.0", "id": bad, "error": {"code": 1, "message": "m", "data": body}})
                    } else {
                        json!({"jsonrpc": "2.0", "id": bad, "result": body})
                    };
                    Self::refuse(&t.to_string())
                }
            },
            C24Case::BadMethod { bad, id, params } => {
                cx.label("unusable method");
                let mut v = json!({"jsonrpc": "2.0", "params": params});
                if let Some(b) = bad {
                    v["method"] = b.clone();
                }
                match id {
                    Some(id) => {
                        let i = id.json();
                        v["id"] = i.clone();
                        let k = if bad.is_some() { "wrong-type" } else { "missing" };
                        Self::call(&v.to_string(), &i, format!("call-method:{k}->empty-response"), Self::empty(&i))
                    }
                    None => Self::refuse(&v.to_string()),
                }
            }
            C24Case::BadError { id, result, error } => {
                cx.label("unusable error");
                let mut v = json!({"jsonrpc": "2.0", "id": id.json(), "error": error});
                if let Some(r) = result {
                    v["result"] = r.clone();
                }
                Self::refuse(&v.to_string())
            }
            C24Case::Twice { msg, member, other, front } => {
                let w = msg.wire();
                let o = w.as_object().unwrap();
                let names: Vec<&String> = o.keys().collect();
                let name = names[*member as usize % names.len()].clone();
                cx.label(format!("{name} twice"));
                let body = w.to_string();
                let inner = &body[1..body.len() - 1];
                let extra = format!("{}:{other}", json!(name));
                let t = if *front { format!("{{{extra},{inner}}}") } else { format!("{{{inner},{extra}}}") };
                match msg {
                    Msg::Req { id, method, params } => {
                        let i = id.json();
                        let note = norm_note(method, params.value());
                        let (known, id): (Box<dyn Fn(&Norm) -> bool>, _) = match name.as_str() {
                            "id" => (Box::new(move |n: &Norm| *n == note), i.clone()),
                            _ => {
                                let j = i.clone();
                                (Box::new(move |n: &Norm| Self::empty(&j)(n)), i.clone())
                            }
                        };
                        let to = if name == "id" { "notification" } else { "empty-response" };
                        Self::call(&t, &id, format!("dup-{name}->{to}"), known)
                    }
                    _ => Self::refuse(&t),
                }
            }
            C24Case::NoObject(v) => {
                cx.label("no object");
                let t = v.to_string();
                match Self::decode(&t) {
                    None => Ok(()),
                    Some(n) => {
                        let mut f: Fail = format!("{} is delivered as {}", clip(&t), clip(&format!("{n:?}"))).into();
                        let own = v.get(0).and_then(Id::of).is_some();
                        if own && n.kind() == "response" {
                            f.sig = Some("array-body->response".into());
                        }
                        Err(f)
                    }
                }
            }
        }
    }
}
