//! Generators. All randomness of a case comes from here (through proptest).
use crate::model::*;
use crate::wire::FrameM;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::Union;
use serde_json::{Map, Value};

pub type S<T> = BoxedStrategy<T>;

/// A place in a collection of any length.
#[derive(serde::Serialize, serde::Deserialize, Clone, Copy, Debug)]
pub struct Ix(pub u32);
impl Ix {
    pub fn index(self, len: usize) -> usize {
        ((self.0 as u64 * len as u64) >> 32) as usize
    }
    pub fn at(k: usize, len: usize) -> Ix {
        Ix((((k as u64) << 32) / len as u64 + 1).min(u32::MAX as u64) as u32)
    }
}
pub fn ix() -> S<Ix> {
    any::<u32>().prop_map(Ix).boxed()
}

pub fn uni<T: std::fmt::Debug + 'static>(v: Vec<(u32, S<T>)>) -> S<T> {
    Union::new_weighted(v).boxed()
}

const EDGE_STRINGS: &[&str] = &[
    "", " ", "a", "0", "-1", "null", "true", "\u{0}", "\r\n", "\r\n\r\n", "\n", "Content-Length: 5\r\n\r\n{}",
    "Content-Length: 0\r\n\r\n", "\"", "\\", "\\u0000", "/", "\u{7f}", "\u{80}", "é", "ß", "日本語", "🦀", "👨‍👩‍👧‍👦", "\u{feff}",
    "\u{2028}\u{2029}", "\u{fffd}", "\u{ffff}", "\u{10ffff}", "e\u{301}", "\t", "\u{1b}[0m", "{}", "[]", "id", "method",
    "params", "result", "error", "jsonrpc", "build/exit", "2.0", "%20", "a b", "../..", "C:\\x", "\u{202e}rtl",
];

pub fn text_char() -> S<char> {
    uni(vec![
        (6, prop::char::range('a', 'z').boxed()),
        (3, prop::char::range(' ', '~').boxed()),
        (1, prop::char::range('\u{0}', '\u{1f}').boxed()),
        (2, prop::char::range('\u{80}', '\u{7ff}').boxed()),
        (1, prop::char::range('\u{800}', '\u{d7ff}').boxed()),
        (1, prop::char::range('\u{10000}', '\u{10ffff}').boxed()),
        (1, select(vec!['"', '\\', '/', '\u{7f}', '\u{2028}', '\r', '\n']).boxed()),
    ])
}

/// Strings of every flavour, kept short.
pub fn text() -> S<String> {
    uni(vec![
        (4, vec(text_char(), 0..12).prop_map(|c| c.into_iter().collect()).boxed()),
        (2, "[a-z]{1,8}".boxed()),
        (2, select(EDGE_STRINGS).prop_map(String::from).boxed()),
        (1, vec(text_char(), 0..80).prop_map(|c| c.into_iter().collect()).boxed()),
    ])
}

/// Lengths around buffer sizes.
pub fn boundary_len(max: usize) -> S<usize> {
    let edges: Vec<usize> = [0usize, 1, 15, 64, 255, 256, 1023, 1024, 4095, 4096, 8191, 8192, 16384, 32768, 65535, 65536, 131072, 1 << 20, 4 << 20]
        .into_iter()
        .filter(|e| *e <= max)
        .collect();
    (select(edges), -24i64..25).prop_map(move |(e, d)| ((e as i64 + d).max(0) as usize).min(max)).boxed()
}

pub fn long_text(max: usize) -> S<String> {
    (boundary_len(max), select(vec!["x", "é", "日", "🦀", "\"", "\n", "ab", "\u{0}"]))
        .prop_map(|(n, u)| u.repeat(n / u.len()) + &"y".repeat(n % u.len()))
        .boxed()
}

pub fn small_len() -> S<usize> {
    uni(vec![(3, (0usize..3).boxed()), (2, (0usize..5).boxed()), (1, (0usize..9).boxed())])
}

pub fn i32s() -> S<i32> {
    uni(vec![
        (3, any::<i32>().boxed()),
        (3, (-3i32..100).boxed()),
        (2, select(vec![i32::MIN, i32::MIN + 1, -1, 0, 1, i32::MAX - 1, i32::MAX, 255, 256, 65535, 65536]).boxed()),
    ])
}
pub fn u32s() -> S<u32> {
    uni(vec![
        (3, any::<u32>().boxed()),
        (3, (0u32..100).boxed()),
        (2, select(vec![0, 1, u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1]).boxed()),
    ])
}
pub fn u64s() -> S<u64> {
    uni(vec![
        (2, any::<u64>().boxed()),
        (2, (0u64..100).boxed()),
        (1, (1_600_000_000_000u64..1_800_000_000_000).boxed()),
        (2, select(vec![0, 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 53, (1 << 53) + 1, 1 << 32, (1 << 32) - 1]).boxed()),
    ])
}

pub fn number() -> S<Value> {
    uni(vec![
        (3, any::<i64>().prop_map(Value::from).boxed()),
        (2, any::<u64>().prop_map(Value::from).boxed()),
        (4, (-20i64..100).prop_map(Value::from).boxed()),
        (1, select(vec![i64::MIN, i64::MAX, i32::MIN as i64 - 1, i32::MAX as i64 + 1, (1 << 53) + 1]).prop_map(Value::from).boxed()),
        (1, Just(Value::from(u64::MAX)).boxed()),
        // eighths: every decimal parser agrees on them
        (2, (-80_000i64..80_000).prop_map(|k| Value::from(k as f64 / 8.0)).boxed()),
        // and so they do when both the digits and the power of ten are exact in 64 bits
        (1, (-100_000_000_000_000i64..100_000_000_000_000, 0i32..=22).prop_map(|(k, d)| Value::from(k as f64 / 10f64.powi(d))).boxed()),
        (1, (-1000i64..1000, 0i32..=19).prop_map(|(k, d)| Value::from(k as f64 * 10f64.powi(d))).boxed()),
    ])
}

pub fn key() -> S<String> {
    uni(vec![
        (3, "[a-zA-Z]{1,6}".boxed()),
        (2, select(vec!["id", "method", "params", "result", "error", "jsonrpc", "data", "code", "message", "dataKind", "uri", "targets"]).prop_map(String::from).boxed()),
        (2, text()),
    ])
}

fn leaf() -> S<Value> {
    uni(vec![
        (2, Just(Value::Null).boxed()),
        (2, any::<bool>().prop_map(Value::from).boxed()),
        (4, number()),
        (5, text().prop_map(Value::from).boxed()),
    ])
}

pub fn object_of(v: S<Value>, n: std::ops::Range<usize>) -> S<Value> {
    vec((key(), v), n).prop_map(|es| Value::Object(es.into_iter().collect::<Map<_, _>>())).boxed()
}

/// Any JSON value.
pub fn json() -> S<Value> {
    let tree = leaf()
        .prop_recursive(4, 24, 4, |inner| {
            prop_oneof![
                vec(inner.clone(), 0..5).prop_map(Value::from),
                object_of(inner.boxed(), 0..5),
            ]
        })
        .boxed();
    uni(vec![(4, leaf()), (9, tree), (1, deep())])
}

/// Narrow values nested deeply, but within the decoder's limit wherever they are put.
pub fn deep() -> S<Value> {
    (leaf(), 5usize..95, any::<u64>())
        .prop_map(|(mut v, n, mut s)| {
            for _ in 0..n {
                v = if s & 1 == 1 { Value::Array(vec![v]) } else { serde_json::json!({ "k": v }) };
                s = s.rotate_right(1);
            }
            v
        })
        .boxed()
}

pub fn json_nonnull() -> S<Value> {
    json().prop_map(|v| if v.is_null() { Value::from(0) } else { v }).boxed()
}

pub fn size(v: &Value) -> usize {
    match v {
        Value::Array(a) => 1 + a.iter().map(size).sum::<usize>(),
        Value::Object(o) => 1 + o.values().map(size).sum::<usize>(),
        _ => 1,
    }
}

pub fn id() -> S<Id> {
    uni(vec![
        (4, i32s().prop_map(Id::I).boxed()),
        (3, text().prop_map(Id::S).boxed()),
        (1, i32s().prop_map(|i| Id::S(i.to_string())).boxed()),
        (1, select(vec!["007", "+1", "1.0", "1e3", "-0", "4294967296", "", "null"]).prop_map(|s| Id::S(s.into())).boxed()),
    ])
}

/// URLs in normal form.
pub fn url() -> S<String> {
    let seg = "[a-zA-Z0-9_~.-]{1,8}".prop_map(|s| if s == "." || s == ".." { "d".into() } else { s });
    let raw = prop_oneof![
        6 => vec(text(), 1..4).prop_map(|p| format!("file:///{}", p.iter().map(|s| esc(s)).collect::<Vec<_>>().join("/"))),
        3 => vec(seg, 1..4).prop_map(|p| format!("file:///{}", p.join("/"))),
        2 => ("[a-z]{1,8}", 1u16.., text(), text(), text()).prop_map(|(h, p, a, b, c)| format!("http://{h}.example:{p}/{}?q={}#{}", esc(&a), esc(&b), esc(&c))),
        2 => select(vec!["urn:isbn:0451450523", "data:,hello", "jdt://contents/a.jar?x=1", "untitled:Untitled-1", "file:///", "file://server/share/x", "build://root#t", "http://[::1]:8080/", "mailto:a@b.c", "x-y+z:opaque path"]).prop_map(String::from),
        1 => (vec("[a-z]{1,6}", 1..3), "[a-zA-Z0-9]{1,6}").prop_map(|(p, t)| format!("file:///{}?id={t}", p.join("/"))),
    ];
    raw.prop_map(|s| {
        // normal form: parsing it changes nothing
        let mut u = lsp_types::Url::parse(&s).map(|u| u.to_string()).unwrap_or_else(|_| "file:///x".into());
        for _ in 0..3 {
            match lsp_types::Url::parse(&u) {
                Ok(v) if v.as_str() == u => return u,
                Ok(v) => u = v.to_string(),
                Err(_) => break,
            }
        }
        "file:///x".into()
    })
    .boxed()
}

pub fn esc(s: &str) -> String {
    s.bytes()
        .map(|b| match b {
            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'_' | b'-' => (b as char).to_string(),
            b => format!("%{b:02X}"),
        })
        .collect()
}

const TAGS: &[&str] = &["test", "application", "library", "integration-test", "benchmark", "manual", "no-ide"];
const KINDS: &[&str] = &["compile-task", "compile-report", "test-task", "test-report", "test-start", "test-finish"];

/// Documents fitting a type.
pub fn doc(ty: Ty) -> S<Value> {
    match ty {
        Ty::Str => text().prop_map(Value::from).boxed(),
        Ty::Bool => any::<bool>().prop_map(Value::from).boxed(),
        Ty::U32 => u32s().prop_map(Value::from).boxed(),
        Ty::U64 => u64s().prop_map(Value::from).boxed(),
        Ty::Url => url().prop_map(Value::from).boxed(),
        Ty::Any => json_nonnull(),
        Ty::Enum(a, b) | Ty::Open(a, b) => (a..=b).prop_map(Value::from).boxed(),
        Ty::Tag => uni(vec![
            (3, select(TAGS).prop_map(Value::from).boxed()),
            (1, text().prop_map(Value::from).boxed()),
        ]),
        Ty::DataKind => uni(vec![
            (3, select(KINDS).prop_map(Value::from).boxed()),
            (1, text().prop_map(Value::from).boxed()),
        ]),
        Ty::NumOrStr => uni(vec![
            (1, i32s().prop_map(Value::from).boxed()),
            (1, text().prop_map(Value::from).boxed()),
        ]),
        Ty::Arr(t) => {
            let d = doc(*t);
            small_len().prop_flat_map(move |n| vec(d.clone(), n).prop_map(Value::from)).boxed()
        }
        Ty::Obj(fs) => {
            let mut acc: S<Vec<(String, Value)>> = Just(vec![]).boxed();
            for f in fs {
                let d = doc(f.ty);
                let s: S<Option<Value>> = match f.p {
                    P::Req => d.prop_map(Some).boxed(),
                    P::Opt => uni(vec![(2, Just(None).boxed()), (1, Just(Some(Value::Null)).boxed()), (4, d.prop_map(Some).boxed())]),
                    P::Def(x) => uni(vec![(2, Just(None).boxed()), (1, Just(Some(x.json())).boxed()), (5, d.prop_map(Some).boxed())]),
                };
                let name = f.name.to_string();
                acc = (acc, s)
                    .prop_map(move |(mut a, v)| {
                        if let Some(v) = v {
                            a.push((name.clone(), v));
                        }
                        a
                    })
                    .boxed();
            }
            acc.prop_map(|a| Value::Object(a.into_iter().collect())).boxed()
        }
    }
}

pub fn all_methods() -> Vec<&'static str> {
    let mut v: Vec<&str> = REQUESTS.iter().map(|x| x.0).collect();
    v.extend(BARE_REQUESTS);
    v.extend(NOTES.iter().map(|x| x.0));
    v.extend(BARE_NOTES);
    v
}

/// Method names of any shape: free text, near misses of known names, known names themselves.
pub fn any_method() -> S<String> {
    let known = all_methods();
    let near = (select(known.clone()), 0u32..10, ix(), text_char()).prop_map(|(m, k, at, c)| {
        let i = at.index(m.len());
        match k {
            0 => m.to_uppercase(),
            1 => format!("{m} "),
            2 => format!(" {m}"),
            3 => format!("{m}{c}"),
            4 => m[..i].to_string(),
            5 => format!("{}{}", &m[..i], &m[i + 1..]),
            6 => m.replace('/', ""),
            7 => m.rsplit('/').next().unwrap().to_string(),
            8 => format!("{}{}{}", &m[..i], c, &m[i..]),
            _ => {
                let mut b = m.as_bytes().to_vec();
                b[i] ^= 0x20;
                String::from_utf8_lossy(&b).into_owned()
            }
        }
    });
    uni(vec![
        (3, text()),
        (4, near.boxed()),
        (3, select(known).prop_map(String::from).boxed()),
        (
            1,
            select(vec!["$/cancelRequest", "textDocument/inverseSources", "buildTarget/taskProgress", "buildTarget/scalacOptions", "workspace/buildTargetsX", "rpc.x", "exit", "shutdown", "initialize", "initialized", "build/Exit", "buildTarget/javacOptions", "buildTarget/outputPaths"])
                .prop_map(String::from)
                .boxed(),
        ),
    ])
}
/// Names that are no typed request.
pub fn custom_req_method() -> S<String> {
    any_method().prop_map(|m| if is_typed_request(&m) { format!("{m}2") } else { m }).boxed()
}
/// Names that are no typed notification.
pub fn custom_note_method() -> S<String> {
    any_method().prop_map(|m| if is_typed_note(&m) { format!("{m}2") } else { m }).boxed()
}

pub fn params_any() -> S<Params> {
    uni(vec![
        (2, Just(Params::Absent).boxed()),
        (1, Just(Params::Is(Value::Null)).boxed()),
        (6, json().prop_map(Params::Is).boxed()),
    ])
}

fn split(v: Vec<(&'static str, Ty)>) -> Vec<(u32, S<(String, Params)>)> {
    v.into_iter()
        .map(|(m, t)| (2u32, doc(t).prop_map(move |d| (m.to_string(), Params::Is(d))).boxed()))
        .collect()
}

pub fn req_payload() -> S<(String, Params)> {
    let mut v = split(REQUESTS.to_vec());
    v.push((5, (select(BARE_REQUESTS), params_any()).prop_map(|(m, p)| (m.to_string(), p)).boxed()));
    v.push((9, (custom_req_method(), params_any()).boxed()));
    uni(v)
}
pub fn note_payload() -> S<(String, Params)> {
    let mut v = split(NOTES.to_vec());
    v.push((2, params_any().prop_map(|p| ("build/initialized".to_string(), p)).boxed()));
    v.push((8, (custom_note_method(), params_any()).boxed()));
    uni(v)
}
pub fn request() -> S<Msg> {
    (id(), req_payload()).prop_map(|(id, (method, params))| Msg::Req { id, method, params }).boxed()
}
/// Any notification except exit.
pub fn note() -> S<Msg> {
    note_payload().prop_map(|(method, params)| Msg::Note { method, params }).boxed()
}
pub fn exit() -> S<Msg> {
    params_any().prop_map(|params| Msg::Note { method: "build/exit".into(), params }).boxed()
}
pub fn err_m() -> S<ErrM> {
    (
        uni(vec![(2, i32s()), (2, (-32900i32..-31999).boxed())]),
        text(),
        uni(vec![(1, Just(None).boxed()), (2, json_nonnull().prop_map(Some).boxed())]),
    )
        .prop_map(|(code, message, data)| ErrM { code, message, data })
        .boxed()
}
pub fn results() -> S<Value> {
    let mut v: Vec<(u32, S<Value>)> = RESULTS.iter().map(|(_, t)| (1, doc(*t))).collect();
    v.push((12, json()));
    v.push((2, Just(Value::Null).boxed()));
    uni(v)
}
pub fn response() -> S<Msg> {
    uni(vec![
        (3, (id(), results()).prop_map(|(id, result)| Msg::Ok { id, result }).boxed()),
        (2, (id(), err_m()).prop_map(|(id, error)| Msg::Err { id, error }).boxed()),
    ])
}
/// Any message except exit.
pub fn msg() -> S<Msg> {
    uni(vec![(4, request()), (4, note()), (3, response())])
}

/// A cheap message carrying a string of the given length, for volume.
pub fn blob(k: u8, i: i32, n: usize) -> Msg {
    if k % 4 == 3 {
        return typed(k / 4, Id::I(i), &i.to_string(), n);
    }
    let s = bulk(k / 4, n);
    match k % 4 {
        0 => Msg::Req { id: Id::I(i), method: "custom/blob".into(), params: Params::Is(s) },
        1 => Msg::Note { method: "custom/blob".into(), params: Params::Is(serde_json::json!({"i": i, "s": s})) },
        _ => Msg::Ok { id: Id::S(i.to_string()), result: s },
    }
}
/// One of a stream of messages of one kind (k < 128) or of all.
pub fn one_of(k: u8, i: usize, n: usize) -> Msg {
    blob(if k < 128 { k } else { (k as usize + 5 * i) as u8 }, i as i32, n)
}
/// A message of the protocol of about n bytes, which carries a tag.
pub fn typed(k: u8, id: Id, tag: &str, n: usize) -> Msg {
    use serde_json::json;
    let s = "b".repeat(n);
    let uri = json!({"uri": format!("file:///{s}")});
    let note = |method: &str, params| Msg::Note { method: method.into(), params: Params::Is(params) };
    let req = |method: &str, params| Msg::Req { id: id.clone(), method: method.into(), params: Params::Is(params) };
    match k % 9 {
        0 => note("build/logMessage", json!({"type": 1 + n % 4, "message": s, "originId": tag})),
        1 => note("build/taskProgress", json!({"taskId": {"id": tag}, "message": s, "total": 10})),
        2 => note("build/publishDiagnostics", json!({"textDocument": uri, "buildTarget": {"uri": "a:b"}, "originId": tag, "diagnostics": [], "reset": n % 2 == 0})),
        3 => note("build/showMessage", json!({"type": 1 + n % 4, "message": s, "originId": tag})),
        4 => note("build/taskStart", json!({"taskId": {"id": tag}, "message": s, "dataKind": "compile-task"})),
        5 => note("buildTarget/didChange", json!({"changes": [{"target": uri, "data": {"tag": tag}}]})),
        6 => note("build/taskFinish", json!({"taskId": {"id": tag}, "message": s, "status": 1 + n % 3})),
        7 => req("buildTarget/compile", json!({"target": uri, "originId": tag})),
        _ => req("buildTarget/sources", json!({"targets": [uri]})),
    }
}
/// A value of about n bytes, of one of several shapes.
pub fn bulk(k: u8, n: usize) -> Value {
    match k % 6 {
        0 => "b".repeat(n).into(),
        1 => vec![7; n / 2].into(),
        2 => (0..n / 12).map(|i| serde_json::json!({ "k": i })).collect::<Vec<_>>().into(),
        3 => (0..n / 12).map(|i| (format!("k{i}"), Value::from(i))).collect::<Map<_, _>>().into(),
        4 => "\u{e9}\u{4e16}\u{1f600}\n".repeat(n / 10).into(),
        _ => vec!["x".repeat(100); n / 103].into(),
    }
}
/// Messages of chosen size.
pub fn sized(max: usize) -> S<Msg> {
    (any::<u8>(), i32s(), boundary_len(max)).prop_map(|(k, i, n)| blob(k, i, n)).boxed()
}

pub fn extra_members() -> S<Vec<(String, Value)>> {
    uni(vec![
        (4, Just(vec![]).boxed()),
        (
            2,
            vec((key(), json()), 1..4)
                .prop_map(|es| {
                    let mut out: Vec<(String, Value)> = vec![];
                    for (k, v) in es {
                        let k = if ["id", "method", "params", "result", "error"].contains(&k.as_str()) { format!("{k}_") } else { k };
                        if !out.iter().any(|(j, _)| *j == k) {
                            out.push((k, v));
                        }
                    }
                    out
                })
                .boxed(),
        ),
        (
            2,
            vec(
                (
                    select(vec!["id", "method", "params", "result", "error", "jsonrpc"]),
                    any::<u64>(),
                    uni(vec![(2, i32s().prop_map(Value::from).boxed()), (2, select(all_methods()).prop_map(Value::from).boxed()), (1, json())]),
                ),
                1..4,
            )
            .prop_map(|es| {
                let mut out: Vec<(String, Value)> = vec![];
                for (k, s, v) in es {
                    let k = near_name(k, s);
                    if !out.iter().any(|(j, _)| *j == k) {
                        out.push((k, v));
                    }
                }
                out
            })
            .boxed(),
        ),
    ])
}

/// Another name that merely resembles this one.
pub fn near_name(name: &str, s: u64) -> String {
    let cs: Vec<char> = name.chars().collect();
    let at = (s >> 8) as usize % cs.len().max(1);
    let flip = |c: char| if c.is_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() };
    let upper_at = |i: usize| cs.iter().enumerate().map(|(k, c)| if k == i { flip(*c) } else { *c }).collect::<String>();
    let split = |sep: &str| {
        cs.iter().map(|c| if c.is_uppercase() { format!("{sep}{}", c.to_ascii_lowercase()) } else { c.to_string() }).collect::<String>()
    };
    let out = match s % 16 {
        0 => name.to_uppercase(),
        1 => upper_at(0),
        2 => name.to_lowercase(),
        3 => split("_"),
        4 => split("-"),
        5 => format!("{name} "),
        6 => format!(" {name}"),
        7 => format!("_{name}"),
        8 => format!("${name}"),
        9 => format!("{name}s"),
        10 => cs[..at].iter().collect(),
        11 => cs.iter().enumerate().filter(|(k, _)| *k != at).map(|(_, c)| c).collect(),
        12 => upper_at(at),
        13 => format!("{name}{}", (s >> 8) % 10),
        14 => format!("{name}\u{0}"),
        _ => format!("x.{name}"),
    };
    if out == name {
        format!("{name}_")
    } else {
        out
    }
}

/// Header fields other than Content-Length.
pub fn headers() -> S<Vec<(String, String)>> {
    let one = prop_oneof![
        2 => Just(("Content-Type".to_string(), "application/vscode-jsonrpc; charset=utf-8".to_string())),
        1 => ("[A-Za-z-]{1,12}", "[ -~]{0,20}").prop_map(|(k, v)| (if k.eq_ignore_ascii_case("content-length") { "X".into() } else { k }, v)),
        1 => ("[A-Za-z]{1,4}", text()).prop_map(|(k, v)| (k, v.replace(['\r', '\n'], " "))),
        1 => Just(("X-Content-Length".to_string(), "7".to_string())),
        1 => Just(("X".to_string(), "Content-Length: 3".to_string())),
        1 => (select(vec!["Content-Language", "Content-Len", "Content-Lengths", "Content-Length-Hint", "Content-Length2", "Content_Length", "Content", "Content-", "ContentLength", "Length", "Content-Encoding", "Content-Length.", "1Content-Length"]),
              prop_oneof![Just("0".to_string()), Just("en".to_string()), Just(String::new()), "[0-9]{1,5}", Just("9".repeat(30))]).prop_map(|(k, v)| (k.to_string(), v)),
        1 => ("[A-Za-z]{1,4}", 4000usize..20_000).prop_map(|(k, n)| (k, "v: ".repeat(n / 3))),
    ];
    uni(vec![(5, Just(vec![]).boxed()), (2, vec(one, 1..4).boxed())])
}

pub fn frame_of(m: S<Msg>) -> S<FrameM> {
    (
        m,
        extra_members(),
        uni(vec![(2, Just(0u64).boxed()), (3, any::<u64>().boxed())]),
        headers(),
        headers(),
        uni(vec![(9, Just(0usize).boxed()), (2, boundary_len(1 << 17))]),
    )
        .prop_map(|(msg, extra, salt, before, after, pad)| FrameM { msg, extra, salt, before, after, pad })
        .boxed()
}
pub fn plain_frame(m: S<Msg>) -> S<FrameM> {
    m.prop_map(FrameM::plain).boxed()
}

/// Sizes of consecutive pieces a byte stream is cut into (repeated over the stream).
pub fn cuts() -> S<Vec<usize>> {
    uni(vec![
        (2, Just(vec![usize::MAX >> 1]).boxed()),
        (2, Just(vec![1]).boxed()),
        (3, vec(1usize..40, 1..8).boxed()),
        (3, vec(1usize..5000, 1..6).boxed()),
        (1, vec(select(vec![1usize, 2, 15, 16, 17, 20, 4096, 8191, 8192, 8193]), 1..5).boxed()),
    ])
}
