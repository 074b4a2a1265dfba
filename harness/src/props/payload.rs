//! Properties of the payload types.
use crate::engine::*;
use crate::gen::{self, uni, S};
use crate::model::*;
use crate::wire::spell;
use bsp_server::types as t;
use lsp_types::{TextDocumentIdentifier, Url};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};

type Codec = fn(&str) -> Result<(Value, String), String>;

fn codec<T: DeserializeOwned + Serialize>(text: &str) -> Result<(Value, String), String> {
    let a: T = serde_json::from_str(text).map_err(|e| e.to_string())?;
    let tree: Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
    let b: T = serde_json::from_value(tree).map_err(|e| format!("as a value: {e}"))?;
    let out = serde_json::to_value(&a).map_err(|e| format!("!does not encode: {e}"))?;
    let out_b = serde_json::to_value(&b).map_err(|e| format!("!does not encode: {e}"))?;
    if out != out_b {
        return Err(format!("!two routes of decoding differ: {out} {out_b}"));
    }
    let text = serde_json::to_string(&a).map_err(|e| format!("!does not encode: {e}"))?;
    Ok((out, text))
}

/// Every parameter, notification and result type, and the public types inside them.
pub const TYPES: &[(&str, Ty, Codec)] = &[
    ("InitializeBuild", INITIALIZE, codec::<t::InitializeBuild>),
    ("BuildTargetDependencyModules", JUST_TARGETS, codec::<t::BuildTargetDependencyModules>),
    ("DebugSessionStart", DEBUG_START, codec::<t::DebugSessionStart>),
    ("BuildTargetSources", JUST_TARGETS, codec::<t::BuildTargetSources>),
    ("TextDocumentInverseSources", JUST_DOC, codec::<t::TextDocumentInverseSources>),
    ("BuildTargetDependencySources", JUST_DOC, codec::<t::BuildTargetDependencySources>),
    ("BuildTargetResources", JUST_TARGETS, codec::<t::BuildTargetResources>),
    ("BuildTargetRun", RUN, codec::<t::BuildTargetRun>),
    ("BuildTargetCompile", COMPILE, codec::<t::BuildTargetCompile>),
    ("BuildTargetTest", RUN, codec::<t::BuildTargetTest>),
    ("BuildTargetCleanCache", JUST_TARGETS, codec::<t::BuildTargetCleanCache>),
    ("ShowMessage", SHOW, codec::<t::ShowMessage>),
    ("LogMessage", SHOW, codec::<t::LogMessage>),
    ("PublishDiagnostics", DIAGNOSTICS, codec::<t::PublishDiagnostics>),
    ("TaskStart", TASK_START, codec::<t::TaskStart>),
    ("TaskProgress", TASK_PROGRESS, codec::<t::TaskProgress>),
    ("TaskFinish", TASK_FINISH, codec::<t::TaskFinish>),
    ("BuildTargetDidChange", DID_CHANGE, codec::<t::BuildTargetDidChange>),
    ("InitializeBuildResult", R_INITIALIZE, codec::<t::InitializeBuildResult>),
    ("WorkspaceBuildTargetsResult", R_TARGETS, codec::<t::WorkspaceBuildTargetsResult>),
    ("BuildTargetSourcesResult", R_SOURCES, codec::<t::BuildTargetSourcesResult>),
    ("BuildTargetTestResult", R_TEST, codec::<t::BuildTargetTestResult>),
    ("BuildTargetRunResult", R_RUN, codec::<t::BuildTargetRunResult>),
    ("BuildTargetCompileResult", R_TEST, codec::<t::BuildTargetCompileResult>),
    ("BuildTargetResourcesResult", R_RESOURCES, codec::<t::BuildTargetResourcesResult>),
    ("BuildTargetDependencyModulesResult", R_MODULES, codec::<t::BuildTargetDependencyModulesResult>),
    ("BuildTargetCleanCacheResult", R_CLEAN, codec::<t::BuildTargetCleanCacheResult>),
    ("BuildTargetInverseSourcesResult", JUST_TARGETS, codec::<t::BuildTargetInverseSourcesResult>),
    ("BuildTargetDependencySourcesResult", R_DEPSOURCES, codec::<t::BuildTargetDependencySourcesResult>),
    ("DebugSessionStartResult", R_DEBUG, codec::<t::DebugSessionStartResult>),
    ("BuildTarget", BUILD_TARGET, codec::<t::BuildTarget>),
    ("BuildTargetIdentifier", TARGET, codec::<t::BuildTargetIdentifier>),
    ("BuildTargetCapabilities", BT_CAPS, codec::<t::BuildTargetCapabilities>),
    ("ServerCapabilities", SERVER_CAPS, codec::<t::ServerCapabilities>),
    ("ClientCapabilities", LANGS, codec::<t::ClientCapabilities>),
    ("TaskId", TASKID, codec::<t::TaskId>),
    ("Sources", SOURCES, codec::<t::Sources>),
    ("DependencyModule", MODULE, codec::<t::DependencyModule>),
];

/// Names that no schema knows, put into every object of a document.
fn sprinkle(ty: &Ty, v: &Value, extra: &[(String, Value)], near: u64) -> Value {
    match (ty, v) {
        (Ty::Arr(t), Value::Array(a)) => a.iter().map(|x| sprinkle(t, x, extra, near)).collect(),
        (Ty::Obj(fs), Value::Object(o)) => {
            let mut out = Map::new();
            for (k, x) in o {
                let x = match fs.iter().find(|f| f.name == k) {
                    Some(f) => sprinkle(&f.ty, x, extra, near.rotate_left(7)),
                    None => x.clone(),
                };
                out.insert(k.clone(), x);
            }
            for (k, x) in extra {
                if fs.iter().all(|f| f.name != k) {
                    out.insert(k.clone(), x.clone());
                }
            }
            if near != 0 && !fs.is_empty() {
                for r in [near, near.rotate_left(23)] {
                    let f = &fs[(r >> 32) as usize % fs.len()];
                    let k = gen::near_name(f.name, r);
                    if fs.iter().all(|f| f.name != k) {
                        let vs = variants(&f.ty);
                        out.insert(k, vs[(r >> 20) as usize % vs.len()].clone());
                    }
                }
            }
            Value::Object(out)
        }
        _ => v.clone(),
    }
}
/// Members of the schema that are mandatory must be present in an encoding.
fn complete(ty: &Ty, v: &Value, at: &str) -> R {
    match (ty, v) {
        (Ty::Arr(t), Value::Array(a)) => {
            for x in a {
                complete(t, x, at)?;
            }
        }
        (Ty::Obj(fs), Value::Object(o)) => {
            for f in *fs {
                match o.get(f.name) {
                    None if f.p == P::Req => fail!("encoding lacks {at}.{}", f.name),
                    Some(x) if !(x.is_null() && f.p == P::Opt) => complete(&f.ty, x, f.name)?,
                    _ => {}
                }
            }
        }
        _ => {}
    }
    Ok(())
}
fn optional_bits(ty: &Ty, v: &Value) -> usize {
    match (ty, v) {
        (Ty::Arr(t), Value::Array(a)) => a.iter().map(|x| optional_bits(t, x)).sum(),
        (Ty::Obj(fs), Value::Object(o)) => fs
            .iter()
            .map(|f| match o.get(f.name) {
                Some(x) => (f.p != P::Req) as usize + optional_bits(&f.ty, x),
                None => 0,
            })
            .sum(),
        _ => 0,
    }
}

// ---------------------------------------------------------------- C14

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C14Case {
    ty: String,
    doc: Value,
    extra: Vec<(String, Value)>,
    salt: u64,
    /// choice of unknown members that resemble known ones
    #[serde(default)]
    near: u64,
}
pub struct C14;
impl Prop for C14 {
    type Case = C14Case;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "documents generated from the schema of each payload type (every combination of absent, null and present optional members, unknown members sprinkled in), decoded and encoded by the library's type, compared with the document modulo unset optional and defaulted members; every fixed single-member document as well; non-trivial: an optional or defaulted member is present"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(180_000, 12)
    }
    fn fixed(&self, _: Tier) -> Vec<C14Case> {
        // each optional member alone: absent, null, present; and each mandatory one at plain values
        let mut out = vec![];
        for (name, ty, _) in TYPES {
            if let Ty::Obj(fs) = ty {
                let base: Map<String, Value> =
                    fs.iter().filter(|f| f.p == P::Req).map(|f| (f.name.to_string(), plain(&f.ty))).collect();
                let mut push = |d: Map<String, Value>| {
                    out.push(C14Case { ty: name.to_string(), doc: d.into(), extra: vec![], salt: 0, near: 0 })
                };
                push(base.clone());
                for f in *fs {
                    for v in variants(&f.ty) {
                        let mut d = base.clone();
                        d.insert(f.name.into(), v);
                        push(d);
                    }
                    if f.p == P::Opt {
                        let mut d = base.clone();
                        d.insert(f.name.into(), Value::Null);
                        push(d);
                    }
                }
                let mut all = base.clone();
                for f in *fs {
                    all.insert(f.name.into(), plain(&f.ty));
                }
                push(all);
            }
        }
        out
    }
    fn strategy(&self, _: Tier) -> S<C14Case> {
        uni(TYPES
            .iter()
            .map(|(name, ty, _)| {
                let s = (gen::doc(*ty), gen::extra_members(), uni(vec![(1, Just(0).boxed()), (3, any::<u64>().boxed())]), uni(vec![(1, Just(0).boxed()), (2, any::<u64>().boxed())]))
                    .prop_map(move |(doc, extra, salt, near)| C14Case { ty: name.to_string(), doc, extra, salt, near })
                    .boxed();
                (1, s)
            })
            .collect())
    }
    fn run(&self, c: &C14Case, cx: &mut Cx) -> R {
        let (_, ty, f) = TYPES.iter().find(|t| t.0 == c.ty).ok_or("no such type")?;
        cx.label(c.ty.clone());
        cx.nontrivial(optional_bits(ty, &c.doc) > 0);
        let want = norm(ty, &c.doc);
        for extra in [false, true] {
            if extra && c.extra.is_empty() && c.near == 0 {
                continue;
            }
            cx.label_if(extra, "with unknown members");
            let d = if extra { sprinkle(ty, &c.doc, &c.extra, c.near) } else { c.doc.clone() };
            let text = spell(&d, c.salt);
            let (out, out_text) = f(&text).map_err(|e| format!("{} refuses {}: {e}", c.ty, cut(&text, 500)))?;
            complete(ty, &out, &c.ty)?;
            same(&format!("{} encoded", c.ty), &norm(ty, &out), &want)?;
            let again: Value = serde_json::from_str(&out_text).map_err(|e| e.to_string())?;
            same("as text", &norm(ty, &again), &want)?;
            let (twice, _) = f(&out_text).map_err(|e| format!("{} refuses its own encoding {}: {e}", c.ty, cut(&out_text, 500)))?;
            same("encoded again", &twice, &out)?;
            cx.inner += 3;
        }
        Ok(())
    }
}
fn plain(ty: &Ty) -> Value {
    match ty {
        Ty::Str => json!("s"),
        Ty::Bool => json!(true),
        Ty::U32 | Ty::U64 => json!(7),
        Ty::Url => json!("file:///a"),
        Ty::Any => json!({"k": [null, 1]}),
        Ty::Enum(a, _) | Ty::Open(a, _) => json!(a),
        Ty::Tag => json!("test"),
        Ty::DataKind => json!("test-task"),
        Ty::NumOrStr => json!(1),
        Ty::Arr(t) => json!([plain(t)]),
        Ty::Obj(fs) => fs.iter().filter(|f| f.p == P::Req).map(|f| (f.name.to_string(), plain(&f.ty))).collect::<Map<_, _>>().into(),
    }
}
fn variants(ty: &Ty) -> Vec<Value> {
    match ty {
        Ty::Str => vec![json!(""), json!("s")],
        Ty::Bool => vec![json!(true), json!(false)],
        Ty::U32 => vec![json!(0), json!(1), json!(u32::MAX)],
        Ty::U64 => vec![json!(0), json!(1_700_000_000_123u64), json!(u64::MAX)],
        Ty::Enum(a, b) | Ty::Open(a, b) => (*a..=*b).map(|x| json!(x)).collect(),
        Ty::Any => vec![json!(false), json!(0), json!(""), json!([]), json!({}), json!([null]), json!({"a": null})],
        Ty::Tag => vec![json!("library"), json!("no-ide"), json!("mine")],
        Ty::DataKind => vec![json!("test-start"), json!("compile-report"), json!("")],
        Ty::NumOrStr => vec![json!(-1), json!("1")],
        Ty::Arr(t) => vec![json!([]), json!([plain(t)]), json!([plain(t), plain(t)])],
        t => vec![plain(t)],
    }
}

// ---------------------------------------------------------------- C15

/// How an argument's value relates to the member.
#[derive(Clone, Copy)]
enum A {
    Is(Ty),
    Opt(Ty),
}
enum How {
    Assign,
    Push,
    Clear,
    Pop,
}
struct Ctor<T> {
    name: &'static str,
    args: Vec<(&'static str, A)>,
    rest: Value,
    make: fn(&[Value]) -> T,
}
struct Setter<T> {
    name: &'static str,
    member: &'static str,
    arg: A,
    how: How,
    call: fn(&mut T, &Value),
}
type Getter<T> = (&'static str, fn(&T) -> Value);
struct Subject<T> {
    name: &'static str,
    ty: Ty,
    ctors: Vec<Ctor<T>>,
    sets: Vec<Setter<T>>,
    gets: Vec<Getter<T>>,
}
trait AnySubject {
    fn name(&self) -> &'static str;
    fn strategy(&self) -> S<C15Case>;
    fn every(&self) -> Vec<C15Case>;
    fn run(&self, c: &C15Case, cx: &mut Cx) -> R;
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C15Case {
    ty: String,
    ctor: usize,
    args: Vec<Value>,
    ops: Vec<(usize, Value)>,
}
fn arg(a: A) -> S<Value> {
    match a {
        A::Is(t) => gen::doc(t),
        A::Opt(t) => uni(vec![(1, Just(Value::Null).boxed()), (3, gen::doc(t))]),
    }
}
fn g<T: DeserializeOwned>(v: &Value) -> T {
    serde_json::from_value(v.clone()).unwrap_or_else(|e| panic!("argument {v}: {e}"))
}
fn j<T: Serialize>(x: T) -> Value {
    serde_json::to_value(x).unwrap()
}
impl<T: Serialize + std::fmt::Debug + 'static> AnySubject for Subject<T> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn strategy(&self) -> S<C15Case> {
        let ops: S<Vec<(usize, Value)>> = if self.sets.is_empty() {
            Just(vec![]).boxed()
        } else {
            let one = uni(self.sets.iter().enumerate().map(|(i, s)| (1, arg(s.arg).prop_map(move |v| (i, v)).boxed())).collect());
            vec(one, 0..8).boxed()
        };
        let ctors = uni(self
            .ctors
            .iter()
            .enumerate()
            .map(|(i, c)| {
                let mut acc: S<Vec<Value>> = Just(vec![]).boxed();
                for (_, a) in &c.args {
                    acc = (acc, arg(*a))
                        .prop_map(|(mut v, x)| {
                            v.push(x);
                            v
                        })
                        .boxed();
                }
                (1, acc.prop_map(move |a| (i, a)).boxed())
            })
            .collect());
        let name = self.name.to_string();
        (ctors, ops).prop_map(move |((ctor, args), ops)| C15Case { ty: name.clone(), ctor, args, ops }).boxed()
    }
    fn every(&self) -> Vec<C15Case> {
        let pa = |a: &A| match a {
            A::Is(t) | A::Opt(t) => variants(t),
        };
        let mut out = vec![];
        for (i, c) in self.ctors.iter().enumerate() {
            // each argument given its own recognisable value
            let args: Vec<Value> = c.args.iter().enumerate().map(|(k, (_, a))| distinct(a, k)).collect();
            out.push(C15Case { ty: self.name.into(), ctor: i, args: args.clone(), ops: vec![] });
            for (k, (_, a)) in c.args.iter().enumerate() {
                for v in pa(a) {
                    let mut args = args.clone();
                    args[k] = v;
                    out.push(C15Case { ty: self.name.into(), ctor: i, args, ops: vec![] });
                }
            }
            for (s, set) in self.sets.iter().enumerate() {
                for v in pa(&set.arg) {
                    out.push(C15Case { ty: self.name.into(), ctor: i, args: args.clone(), ops: vec![(s, v)] });
                }
            }
        }
        out
    }
    fn run(&self, c: &C15Case, cx: &mut Cx) -> R {
        let ctor = &self.ctors[c.ctor];
        cx.label(format!("{}::{}", self.name, ctor.name));
        cx.nontrivial(c.ops.len() >= 2 || (c.ops.is_empty() && c.args.len() >= 2));
        let mut x = (ctor.make)(&c.args);
        let mut model = ctor.rest.as_object().cloned().unwrap_or_default();
        for ((m, _), v) in ctor.args.iter().zip(&c.args) {
            model.insert(m.to_string(), v.clone());
        }
        self.agree(&x, &model, &format!("after {}", ctor.name))?;
        for (i, v) in &c.ops {
            let s = &self.sets[*i];
            (s.call)(&mut x, v);
            let slot = model.entry(s.member).or_insert(Value::Null);
            match s.how {
                How::Assign => *slot = v.clone(),
                How::Push => {
                    if slot.is_null() {
                        *slot = json!([]);
                    }
                    slot.as_array_mut().unwrap().push(v.clone());
                }
                How::Clear => *slot = json!([]),
                How::Pop => {
                    if let Some(a) = slot.as_array_mut() {
                        a.pop();
                    }
                }
            }
            self.agree(&x, &model, &format!("after {}", s.name))?;
            cx.inner += 1;
        }
        Ok(())
    }
}
impl<T: Serialize + std::fmt::Debug> Subject<T> {
    fn agree(&self, x: &T, model: &Map<String, Value>, when: &str) -> R {
        let fs = match self.ty {
            Ty::Obj(fs) => fs,
            _ => unreachable!(),
        };
        let want = norm(&self.ty, &Value::Object(model.clone()));
        let enc = serde_json::to_value(x).map_err(|e| format!("{} does not encode: {e}", self.name))?;
        complete(&self.ty, &enc, self.name)?;
        same(&format!("{} encoded {when}", self.name), &norm(&self.ty, &enc), &want)?;
        for (m, get) in &self.gets {
            let f = fs.iter().find(|f| f.name == *m).unwrap();
            let want = match (model.get(*m), f.p) {
                (Some(v), _) => v.clone(),
                (None, P::Def(d)) => d.json(),
                _ => Value::Null,
            };
            let got = get(x);
            ensure!(
                norm(&f.ty, &got) == norm(&f.ty, &want),
                "{}: {m} is {} {when}, expected {}",
                self.name,
                cut(&got.to_string(), 300),
                cut(&want.to_string(), 300)
            );
        }
        Ok(())
    }
}
fn distinct(a: &A, k: usize) -> Value {
    fn d(t: &Ty, k: usize) -> Value {
        match t {
            Ty::Str => json!(format!("v{k}")),
            Ty::U32 | Ty::U64 => json!(100 + k),
            Ty::Url => json!(format!("file:///u{k}")),
            Ty::Any => json!({ "k": k }),
            Ty::Tag => json!(format!("tag{k}")),
            Ty::Arr(t) => json!([d(t, k)]),
            Ty::Obj(fs) => fs.iter().filter(|f| f.p == P::Req).map(|f| (f.name.to_string(), d(&f.ty, k))).collect::<Map<_, _>>().into(),
            t => plain(t),
        }
    }
    match a {
        A::Is(t) | A::Opt(t) => d(t, k),
    }
}

macro_rules! set {
    ($n:ident, $m:literal, $a:expr) => {
        Setter { name: stringify!($n), member: $m, arg: $a, how: How::Assign, call: |x, v| x.$n(g(v)) }
    };
}
macro_rules! field {
    ($f:ident, $m:literal, $a:expr) => {
        Setter { name: concat!("field ", stringify!($f)), member: $m, arg: $a, how: How::Assign, call: |x, v| x.$f = g(v) }
    };
}
macro_rules! list {
    ($n:ident, $m:literal, $elem:expr) => {
        vec![
            Setter { name: concat!(stringify!($n), " push"), member: $m, arg: A::Is($elem), how: How::Push, call: |x, v| x.$n().push(g(v)) },
            Setter { name: concat!(stringify!($n), " clear"), member: $m, arg: A::Is(Ty::Bool), how: How::Clear, call: |x, _| x.$n().clear() },
            Setter {
                name: concat!(stringify!($n), " pop"),
                member: $m,
                arg: A::Is(Ty::Bool),
                how: How::Pop,
                call: |x, _| {
                    x.$n().pop();
                },
            },
        ]
    };
}
macro_rules! get {
    ($n:ident, $m:literal) => {
        ($m, |x| j(x.$n()))
    };
}
macro_rules! fget {
    ($n:ident, $m:literal) => {
        ($m, |x| j(&x.$n))
    };
}
fn ctor<T>(name: &'static str, args: Vec<(&'static str, A)>, make: fn(&[Value]) -> T) -> Ctor<T> {
    Ctor { name, args, rest: json!({}), make }
}
fn ctor_rest<T>(name: &'static str, args: Vec<(&'static str, A)>, rest: Value, make: fn(&[Value]) -> T) -> Ctor<T> {
    Ctor { name, args, rest, make }
}

fn subjects() -> Vec<Box<dyn AnySubject>> {
    use A::*;
    let s = || Is(Ty::Str);
    let os = || Opt(Ty::Str);
    let mut v: Vec<Box<dyn AnySubject>> = vec![];
    let run_args = || vec![("target", Is(TARGET)), ("originId", os()), ("arguments", os()), ("dataKind", os()), ("data", Opt(Ty::Any))];
    let result_args = || vec![("originId", os()), ("statusCode", Is(Ty::U64)), ("dataKind", os()), ("data", Opt(Ty::Any))];

    v.push(Box::new(Subject::<t::InitializeBuild> {
        name: "InitializeBuild",
        ty: INITIALIZE,
        ctors: vec![
            ctor(
                "new",
                vec![("displayName", s()), ("version", s()), ("bspVersion", s()), ("rootUri", Is(Ty::Url)), ("capabilities", Is(LANGS)), ("data", Opt(Ty::Any))],
                |a| t::InitializeBuild::new(g::<String>(&a[0]), g(&a[1]), g(&a[2]), g(&a[3]), g(&a[4]), a[5].clone()),
            ),
            ctor(
                "new_simple",
                vec![("displayName", s()), ("version", s()), ("bspVersion", s()), ("rootUri", Is(Ty::Url)), ("capabilities", Is(LANGS))],
                |a| t::InitializeBuild::new_simple(g::<String>(&a[0]), g(&a[1]), g(&a[2]), g(&a[3]), g(&a[4])),
            ),
        ],
        sets: vec![
            set!(set_data, "data", Opt(Ty::Any)),
            set!(set_capabilities, "capabilities", Is(LANGS)),
            set!(set_root_uri, "rootUri", Is(Ty::Url)),
            set!(set_bsp_version, "bspVersion", s()),
            set!(set_version, "version", s()),
            set!(set_display_name, "displayName", s()),
        ],
        gets: vec![
            get!(data, "data"),
            get!(capabilities, "capabilities"),
            get!(root_uri, "rootUri"),
            get!(bsp_version, "bspVersion"),
            get!(version, "version"),
            get!(display_name, "displayName"),
        ],
    }));
    v.push(Box::new(Subject::<t::InitializeBuildResult> {
        name: "InitializeBuildResult",
        ty: R_INITIALIZE,
        ctors: vec![
            ctor(
                "new",
                vec![("displayName", s()), ("version", s()), ("bspVersion", s()), ("capabilities", Is(SERVER_CAPS)), ("data", Opt(Ty::Any))],
                |a| t::InitializeBuildResult::new(g::<String>(&a[0]), g(&a[1]), g(&a[2]), g(&a[3]), a[4].clone()),
            ),
            ctor(
                "new_simple",
                vec![("displayName", s()), ("version", s()), ("bspVersion", s()), ("capabilities", Is(SERVER_CAPS))],
                |a| t::InitializeBuildResult::new_simple(g::<String>(&a[0]), g(&a[1]), g(&a[2]), g(&a[3])),
            ),
            ctor_rest("default", vec![], json!({"displayName": "", "version": "", "bspVersion": "", "capabilities": {}}), |_| Default::default()),
        ],
        sets: vec![
            set!(set_bsp_version, "bspVersion", s()),
            set!(set_version, "version", s()),
            set!(set_display_name, "displayName", s()),
            set!(set_capabilities, "capabilities", Is(SERVER_CAPS)),
            set!(set_data, "data", Opt(Ty::Any)),
            Setter { name: "data_mut", member: "data", arg: Opt(Ty::Any), how: How::Assign, call: |x, v| *x.data_mut() = g(v) },
        ],
        gets: vec![
            get!(bsp_version, "bspVersion"),
            get!(version, "version"),
            get!(display_name, "displayName"),
            get!(capabilities, "capabilities"),
            get!(data, "data"),
        ],
    }));
    v.push(Box::new(Subject::<t::ServerCapabilities> {
        name: "ServerCapabilities",
        ty: SERVER_CAPS,
        ctors: vec![ctor("default", vec![], |_| Default::default())],
        sets: vec![
            set!(set_compile_provider, "compileProvider", Opt(LANGS)),
            set!(set_test_provider, "testProvider", Opt(LANGS)),
            set!(set_run_provider, "runProvider", Opt(LANGS)),
            set!(set_debug_provider, "debugProvider", Opt(LANGS)),
            set!(set_inverse_sources_provider, "inverseSourcesProvider", Opt(Ty::Bool)),
            set!(set_dependency_sources_provider, "dependencySourcesProvider", Opt(Ty::Bool)),
            set!(set_dependency_modules_provider, "dependencyModulesProvider", Opt(Ty::Bool)),
            set!(set_resources_provider, "resourcesProvider", Opt(Ty::Bool)),
            set!(set_can_reload, "canReload", Opt(Ty::Bool)),
            set!(set_build_target_changed_provider, "buildTargetChangedProvider", Opt(Ty::Bool)),
        ],
        gets: vec![
            get!(compile_provider, "compileProvider"),
            get!(test_provider, "testProvider"),
            get!(run_provider, "runProvider"),
            get!(debug_provider, "debugProvider"),
            get!(inverse_sources_provider, "inverseSourcesProvider"),
            get!(dependency_sources_provider, "dependencySourcesProvider"),
            get!(dependency_modules_provider, "dependencyModulesProvider"),
            get!(resources_provider, "resourcesProvider"),
            get!(can_reload, "canReload"),
            get!(build_target_changed_provider, "buildTargetChangedProvider"),
        ],
    }));
    v.push(Box::new(Subject::<t::ClientCapabilities> {
        name: "ClientCapabilities",
        ty: LANGS,
        ctors: vec![
            ctor("new", vec![("languageIds", Is(STRS))], |a| t::ClientCapabilities::new(g(&a[0]))),
            ctor_rest("default", vec![], json!({"languageIds": []}), |_| Default::default()),
        ],
        sets: {
            let mut v: Vec<Setter<t::ClientCapabilities>> = list!(language_ids_mut, "languageIds", Ty::Str);
            v.push(set!(set_language_ids, "languageIds", Is(STRS)));
            v
        },
        gets: vec![get!(language_ids, "languageIds")],
    }));
    v.push(Box::new(Subject::<t::BuildTargetCapabilities> {
        name: "BuildTargetCapabilities",
        ty: BT_CAPS,
        ctors: vec![
            ctor(
                "new",
                vec![("canCompile", Is(Ty::Bool)), ("canTest", Is(Ty::Bool)), ("canRun", Is(Ty::Bool)), ("canDebug", Is(Ty::Bool))],
                |a| t::BuildTargetCapabilities::new(g(&a[0]), g(&a[1]), g(&a[2]), g(&a[3])),
            ),
            ctor_rest("default", vec![], json!({"canCompile": false, "canTest": false, "canRun": false, "canDebug": false}), |_| Default::default()),
        ],
        sets: vec![
            set!(set_can_compile, "canCompile", Is(Ty::Bool)),
            set!(set_can_test, "canTest", Is(Ty::Bool)),
            set!(set_can_run, "canRun", Is(Ty::Bool)),
            set!(set_can_debug, "canDebug", Is(Ty::Bool)),
        ],
        gets: vec![get!(can_compile, "canCompile"), get!(can_test, "canTest"), get!(can_run, "canRun"), get!(can_debug, "canDebug")],
    }));
    v.push(Box::new(Subject::<t::BuildTargetIdentifier> {
        name: "BuildTargetIdentifier",
        ty: TARGET,
        ctors: vec![ctor("new", vec![("uri", Is(Ty::Url))], |a| t::BuildTargetIdentifier::new(g(&a[0])))],
        sets: vec![set!(set_uri, "uri", Is(Ty::Url))],
        gets: vec![get!(uri, "uri")],
    }));
    v.push(Box::new(Subject::<t::BuildTarget> {
        name: "BuildTarget",
        ty: BUILD_TARGET,
        ctors: vec![
            ctor(
                "new",
                vec![
                    ("id", Is(TARGET)),
                    ("displayName", os()),
                    ("baseDirectory", os()),
                    ("tags", Is(Ty::Arr(&Ty::Tag))),
                    ("capabilities", Is(BT_CAPS)),
                    ("languageIds", Is(STRS)),
                    ("dependencies", Is(TARGETS)),
                ],
                |a| t::BuildTarget::new(g(&a[0]), g(&a[1]), g(&a[2]), g(&a[3]), g(&a[4]), g(&a[5]), g(&a[6])),
            ),
            ctor(
                "new_simple",
                vec![("id", Is(TARGET)), ("tags", Is(Ty::Arr(&Ty::Tag))), ("capabilities", Is(BT_CAPS)), ("languageIds", Is(STRS)), ("dependencies", Is(TARGETS))],
                |a| t::BuildTarget::new_simple(g(&a[0]), g(&a[1]), g(&a[2]), g(&a[3]), g(&a[4])),
            ),
        ],
        sets: vec![
            field!(id, "id", Is(TARGET)),
            field!(display_name, "displayName", os()),
            field!(base_directory, "baseDirectory", os()),
            field!(tags, "tags", Is(Ty::Arr(&Ty::Tag))),
            field!(capabilities, "capabilities", Is(BT_CAPS)),
            field!(language_ids, "languageIds", Is(STRS)),
            field!(dependencies, "dependencies", Is(TARGETS)),
        ],
        gets: vec![
            fget!(id, "id"),
            fget!(display_name, "displayName"),
            fget!(base_directory, "baseDirectory"),
            fget!(tags, "tags"),
            fget!(capabilities, "capabilities"),
            fget!(language_ids, "languageIds"),
            fget!(dependencies, "dependencies"),
        ],
    }));
    v.push(Box::new(Subject::<t::WorkspaceBuildTargetsResult> {
        name: "WorkspaceBuildTargetsResult",
        ty: R_TARGETS,
        ctors: vec![
            ctor("new", vec![("targets", Is(Ty::Arr(&BUILD_TARGET)))], |a| t::WorkspaceBuildTargetsResult::new(g(&a[0]))),
            ctor_rest("default", vec![], json!({"targets": []}), |_| Default::default()),
        ],
        sets: vec![field!(targets, "targets", Is(Ty::Arr(&BUILD_TARGET)))],
        gets: vec![fget!(targets, "targets")],
    }));
    macro_rules! just_targets {
        ($t:ident, $ctors:expr, $sets:expr) => {
            v.push(Box::new(Subject::<t::$t> {
                name: stringify!($t),
                ty: JUST_TARGETS,
                ctors: $ctors,
                sets: {
                    let mut s: Vec<Setter<t::$t>> = $sets;
                    s.push(set!(set_targets, "targets", Is(TARGETS)));
                    s
                },
                gets: vec![get!(targets, "targets")],
            }));
        };
    }
    just_targets!(BuildTargetCleanCache, vec![ctor("decoded", vec![("targets", Is(TARGETS))], |a| g(&json!({ "targets": a[0] })))], list!(targets_mut, "targets", TARGET));
    just_targets!(BuildTargetDependencyModules, vec![ctor("decoded", vec![("targets", Is(TARGETS))], |a| g(&json!({ "targets": a[0] })))], list!(targets_mut, "targets", TARGET));
    just_targets!(BuildTargetResources, vec![ctor("new", vec![("targets", Is(TARGETS))], |a| t::BuildTargetResources::new(g(&a[0])))], list!(targets_mut, "targets", TARGET));
    just_targets!(
        BuildTargetSources,
        vec![
            ctor("new", vec![("targets", Is(TARGETS))], |a| t::BuildTargetSources::new(g(&a[0]))),
            ctor_rest("default", vec![], json!({"targets": []}), |_| Default::default())
        ],
        vec![]
    );
    macro_rules! just_doc {
        ($t:ident) => {
            v.push(Box::new(Subject::<t::$t> {
                name: stringify!($t),
                ty: JUST_DOC,
                ctors: vec![ctor("new", vec![("textDocument", Is(DOC))], |a| t::$t::new(g::<TextDocumentIdentifier>(&a[0])))],
                sets: vec![set!(set_text_document, "textDocument", Is(DOC))],
                gets: vec![get!(text_document, "textDocument")],
            }));
        };
    }
    just_doc!(TextDocumentInverseSources);
    just_doc!(BuildTargetDependencySources);
    macro_rules! runlike {
        ($t:ident) => {
            v.push(Box::new(Subject::<t::$t> {
                name: stringify!($t),
                ty: RUN,
                ctors: vec![
                    ctor("new", run_args(), |a| t::$t::new(g(&a[0]), g(&a[1]), g(&a[2]), g(&a[3]), g(&a[4]))),
                    ctor("new_simple", vec![("target", Is(TARGET))], |a| t::$t::new_simple(g(&a[0]))),
                ],
                sets: vec![
                    set!(set_target, "target", Is(TARGET)),
                    set!(set_origin_id, "originId", os()),
                    set!(set_arguments, "arguments", os()),
                    set!(set_data_kind, "dataKind", os()),
                    set!(set_data, "data", Opt(Ty::Any)),
                ],
                gets: vec![get!(target, "target"), get!(origin_id, "originId"), get!(arguments, "arguments"), get!(data_kind, "dataKind"), get!(data, "data")],
            }));
        };
    }
    runlike!(BuildTargetRun);
    runlike!(BuildTargetTest);
    v.push(Box::new(Subject::<t::BuildTargetCompile> {
        name: "BuildTargetCompile",
        ty: COMPILE,
        ctors: vec![
            ctor("new", vec![("target", Is(TARGET)), ("originId", os()), ("arguments", os())], |a| t::BuildTargetCompile::new(g(&a[0]), g(&a[1]), g(&a[2]))),
            ctor("new_simple", vec![("target", Is(TARGET))], |a| t::BuildTargetCompile::new_simple(g(&a[0]))),
        ],
        sets: vec![
            set!(set_target, "target", Is(TARGET)),
            set!(set_origin_id, "originId", os()),
            set!(set_arguments, "arguments", os()),
        ],
        gets: vec![get!(target, "target"), get!(origin_id, "originId"), get!(arguments, "arguments")],
    }));
    macro_rules! resultlike {
        ($t:ident) => {
            v.push(Box::new(Subject::<t::$t> {
                name: stringify!($t),
                ty: R_TEST,
                ctors: vec![
                    ctor("new", result_args(), |a| t::$t::new(g(&a[0]), g(&a[1]), g(&a[2]), g(&a[3]))),
                    ctor("new_simple", vec![("statusCode", Is(Ty::U64))], |a| t::$t::new_simple(g(&a[0]))),
                ],
                sets: vec![
                    set!(set_origin_id, "originId", os()),
                    set!(set_status_code, "statusCode", Is(Ty::U64)),
                    set!(set_data_kind, "dataKind", os()),
                    set!(set_data, "data", Opt(Ty::Any)),
                ],
                gets: vec![get!(origin_id, "originId"), get!(status_code, "statusCode"), get!(data_kind, "dataKind"), get!(data, "data")],
            }));
        };
    }
    resultlike!(BuildTargetTestResult);
    resultlike!(BuildTargetCompileResult);
    v.push(Box::new(Subject::<t::BuildTargetRunResult> {
        name: "BuildTargetRunResult",
        ty: R_RUN,
        ctors: vec![ctor("new", vec![("originId", os()), ("statusCode", Is(Ty::U64))], |a| t::BuildTargetRunResult::new(g(&a[0]), g(&a[1])))],
        sets: vec![set!(set_origin_id, "originId", os()), set!(set_status_code, "statusCode", Is(Ty::U64))],
        gets: vec![get!(origin_id, "originId"), get!(status_code, "statusCode")],
    }));
    v.push(Box::new(Subject::<t::BuildTargetCleanCacheResult> {
        name: "BuildTargetCleanCacheResult",
        ty: R_CLEAN,
        ctors: vec![
            ctor("new", vec![("message", os()), ("cleaned", Is(Ty::Bool))], |a| t::BuildTargetCleanCacheResult::new(g(&a[0]), g(&a[1]))),
            ctor("new_simple", vec![("cleaned", Is(Ty::Bool))], |a| t::BuildTargetCleanCacheResult::new_simple(g(&a[0]))),
        ],
        sets: vec![set!(set_cleaned, "cleaned", Is(Ty::Bool)), set!(set_message, "message", os())],
        gets: vec![get!(message, "message"), get!(cleaned, "cleaned")],
    }));
    const ITEM_MODULES: Ty = Ty::Obj(&[req("target", TARGET), req("modules", Ty::Arr(&MODULE))]);
    const ITEM_SOURCES: Ty = Ty::Obj(&[req("target", TARGET), req("sources", Ty::Arr(&SOURCES))]);
    const ITEM_RESOURCES: Ty = Ty::Obj(&[req("target", TARGET), req("resources", STRS)]);
    const ITEM_DEPSOURCES: Ty = Ty::Obj(&[req("target", TARGET), req("sources", STRS)]);
    v.push(Box::new(Subject::<t::BuildTargetDependencyModulesResult> {
        name: "BuildTargetDependencyModulesResult",
        ty: R_MODULES,
        ctors: vec![
            ctor("new", vec![("items", Is(Ty::Arr(&ITEM_MODULES)))], |a| t::BuildTargetDependencyModulesResult::new(g(&a[0]))),
            ctor_rest("default", vec![], json!({"items": []}), |_| Default::default()),
        ],
        sets: list!(items_mut, "items", ITEM_MODULES),
        gets: vec![get!(items, "items")],
    }));
    v.push(Box::new(Subject::<t::DependencyModulesItem> {
        name: "DependencyModulesItem",
        ty: ITEM_MODULES,
        ctors: vec![ctor("new", vec![("target", Is(TARGET)), ("modules", Is(Ty::Arr(&MODULE)))], |a| t::DependencyModulesItem::new(g(&a[0]), g(&a[1])))],
        sets: vec![set!(set_modules, "modules", Is(Ty::Arr(&MODULE)))],
        gets: vec![get!(target, "target"), get!(modules, "modules")],
    }));
    v.push(Box::new(Subject::<t::DependencyModule> {
        name: "DependencyModule",
        ty: MODULE,
        ctors: vec![
            ctor("new", vec![("name", s()), ("version", s()), ("dataKind", os()), ("data", Opt(Ty::Any))], |a| t::DependencyModule::new(g(&a[0]), g(&a[1]), g(&a[2]), g(&a[3]))),
            ctor("new_simple", vec![("name", s()), ("version", s())], |a| t::DependencyModule::new_simple(g(&a[0]), g(&a[1]))),
            ctor_rest("default", vec![], json!({"name": "", "version": ""}), |_| Default::default()),
        ],
        sets: vec![set!(set_name, "name", s()), set!(set_version, "version", s()), set!(set_data_kind, "dataKind", os())],
        gets: vec![get!(name, "name"), get!(version, "version"), get!(data_kind, "dataKind")],
    }));
    v.push(Box::new(Subject::<t::DependencySourcesItem> {
        name: "DependencySourcesItem",
        ty: ITEM_DEPSOURCES,
        ctors: vec![ctor("decoded", vec![("target", Is(TARGET)), ("sources", Is(STRS))], |a| g(&json!({"target": a[0], "sources": a[1]})))],
        sets: vec![set!(set_target, "target", Is(TARGET)), set!(set_sources, "sources", Is(STRS))],
        gets: vec![get!(target, "target"), get!(sources, "sources")],
    }));
    v.push(Box::new(Subject::<t::BuildTargetResourcesResult> {
        name: "BuildTargetResourcesResult",
        ty: R_RESOURCES,
        ctors: vec![ctor("new", vec![("items", Is(Ty::Arr(&ITEM_RESOURCES)))], |a| t::BuildTargetResourcesResult::new(g(&a[0])))],
        sets: list!(items_mut, "items", ITEM_RESOURCES),
        gets: vec![get!(items, "items")],
    }));
    v.push(Box::new(Subject::<t::Resources> {
        name: "Resources",
        ty: ITEM_RESOURCES,
        ctors: vec![ctor("new", vec![("target", Is(TARGET)), ("resources", Is(STRS))], |a| t::Resources::new(g(&a[0]), g(&a[1])))],
        sets: vec![set!(set_target, "target", Is(TARGET)), set!(set_resources, "resources", Is(STRS))],
        gets: vec![get!(target, "target"), get!(resources, "resources")],
    }));
    v.push(Box::new(Subject::<t::BuildTargetSourcesResult> {
        name: "BuildTargetSourcesResult",
        ty: R_SOURCES,
        ctors: vec![
            ctor("new", vec![("items", Is(Ty::Arr(&ITEM_SOURCES)))], |a| t::BuildTargetSourcesResult::new(g(&a[0]))),
            ctor_rest("default", vec![], json!({"items": []}), |_| Default::default()),
        ],
        sets: vec![set!(set_items, "items", Is(Ty::Arr(&ITEM_SOURCES)))],
        gets: vec![get!(items, "items")],
    }));
    v.push(Box::new(Subject::<t::SourcesCollection> {
        name: "SourcesCollection",
        ty: ITEM_SOURCES,
        ctors: vec![ctor("new", vec![("target", Is(TARGET)), ("sources", Is(Ty::Arr(&SOURCES)))], |a| t::SourcesCollection::new(g(&a[0]), g(&a[1])))],
        sets: vec![set!(set_target, "target", Is(TARGET)), set!(set_sources, "sources", Is(Ty::Arr(&SOURCES)))],
        gets: vec![get!(target, "target"), get!(sources, "sources")],
    }));
    v.push(Box::new(Subject::<t::Sources> {
        name: "Sources",
        ty: SOURCES,
        ctors: vec![ctor("new", vec![("uri", Is(Ty::Url)), ("kind", Is(Ty::Enum(1, 2))), ("generated", Is(Ty::Bool))], |a| t::Sources::new(g(&a[0]), g(&a[1]), g(&a[2])))],
        sets: vec![
            set!(set_kind, "kind", Is(Ty::Enum(1, 2))),
            set!(set_uri, "uri", Is(Ty::Url)),
            set!(set_generated, "generated", Is(Ty::Bool)),
        ],
        gets: vec![get!(kind, "kind"), get!(uri, "uri"), get!(generated, "generated")],
    }));
    v.push(Box::new(Subject::<t::DebugSessionStart> {
        name: "DebugSessionStart",
        ty: DEBUG_START,
        ctors: vec![
            ctor("new", vec![("targets", Is(TARGETS)), ("dataKind", s()), ("data", Opt(Ty::Any))], |a| t::DebugSessionStart::new(g(&a[0]), g(&a[1]), a[2].clone())),
            ctor("default", vec![], |_| Default::default()),
        ],
        sets: vec![
            set!(set_targets, "targets", Is(TARGETS)),
            set!(set_data_kind, "dataKind", s()),
            set!(set_data, "data", Opt(Ty::Any)),
        ],
        gets: vec![get!(targets, "targets"), get!(data_kind, "dataKind"), get!(data, "data")],
    }));
    v.push(Box::new(Subject::<t::DebugSessionStartResult> {
        name: "DebugSessionStartResult",
        ty: R_DEBUG,
        ctors: vec![ctor("new", vec![("uri", Is(Ty::Url))], |a| t::DebugSessionStartResult::new(g::<Url>(&a[0])))],
        sets: vec![],
        gets: vec![],
    }));
    macro_rules! messages {
        ($t:ident, $log:expr) => {
            v.push(Box::new(Subject::<t::$t> {
                name: stringify!($t),
                ty: SHOW,
                ctors: vec![
                    ctor("new", vec![("type", Is(Ty::Enum(1, 4))), ("message", s()), ("task", Opt(TASKID)), ("originId", os())], |a| {
                        t::$t::new(g(&a[0]), g::<String>(&a[1]), g(&a[2]), g(&a[3]))
                    }),
                    ctor_rest("error", vec![("message", s()), ("task", Opt(TASKID)), ("originId", os())], json!({"type": 1}), |a| {
                        t::$t::error(g::<String>(&a[0]), g(&a[1]), g(&a[2]))
                    }),
                    ctor_rest("warn", vec![("message", s()), ("task", Opt(TASKID)), ("originId", os())], json!({"type": 2}), |a| {
                        t::$t::warn(g::<String>(&a[0]), g(&a[1]), g(&a[2]))
                    }),
                    ctor_rest("info", vec![("message", s()), ("task", Opt(TASKID)), ("originId", os())], json!({"type": 3}), |a| {
                        t::$t::info(g::<String>(&a[0]), g(&a[1]), g(&a[2]))
                    }),
                    ctor_rest("log", vec![("message", s()), ("task", Opt(TASKID)), ("originId", os())], json!({"type": 4}), $log),
                    ctor_rest("default", vec![], json!({"type": 4, "message": ""}), |_| Default::default()),
                ],
                sets: vec![
                    field!(typ, "type", Is(Ty::Enum(1, 4))),
                    field!(message, "message", s()),
                    field!(task, "task", Opt(TASKID)),
                    field!(origin_id, "originId", os()),
                ],
                gets: vec![fget!(typ, "type"), fget!(message, "message"), fget!(task, "task"), fget!(origin_id, "originId")],
            }));
        };
    }
    messages!(ShowMessage, |a| t::ShowMessage::log(g::<String>(&a[0]), g(&a[1]), g(&a[2])));
    messages!(LogMessage, |a| t::LogMessage::log::<String>(g::<String>(&a[0]), g(&a[1]), g(&a[2])));
    v.push(Box::new(Subject::<t::TaskId> {
        name: "TaskId",
        ty: TASKID,
        ctors: vec![
            ctor("new", vec![("id", s()), ("parents", Is(STRS))], |a| t::TaskId::new(g(&a[0]), g(&a[1]))),
            ctor("from String", vec![("id", s())], |a| t::TaskId::from(g::<String>(&a[0]))),
            ctor("from &str", vec![("id", s())], |a| t::TaskId::from(a[0].as_str().unwrap())),
            ctor("default", vec![], |_| Default::default()),
        ],
        sets: vec![Setter { name: "add_parent", member: "parents", arg: s(), how: How::Push, call: |x, v| x.add_parent(g(v)) }],
        gets: vec![],
    }));
    macro_rules! tasks {
        ($t:ident, $ty:expr, $more:expr, $moreget:expr, $new:expr) => {
            v.push(Box::new(Subject::<t::$t> {
                name: stringify!($t),
                ty: $ty,
                ctors: $new,
                sets: {
                    let mut v: Vec<Setter<t::$t>> = $more;
                    v.push(field!(task_id, "taskId", Is(TASKID)));
                    v.push(field!(event_time, "eventTime", Opt(Ty::U64)));
                    v.push(field!(message, "message", s()));
                    v.push(field!(data_kind, "dataKind", Is(Ty::DataKind)));
                    v.push(field!(data, "data", Opt(Ty::Any)));
                    v
                },
                gets: {
                    let mut v: Vec<Getter<t::$t>> = $moreget;
                    v.push(fget!(task_id, "taskId"));
                    v.push(fget!(event_time, "eventTime"));
                    v.push(fget!(message, "message"));
                    v.push(fget!(data_kind, "dataKind"));
                    v.push(fget!(data, "data"));
                    v
                },
            }));
        };
    }
    tasks!(
        TaskStart,
        TASK_START,
        vec![],
        vec![],
        vec![
            ctor("new", vec![("taskId", Is(TASKID))], |a| t::TaskStart::new(g::<t::TaskId>(&a[0]))),
            ctor("default", vec![], |_| Default::default()),
        ]
    );
    tasks!(
        TaskFinish,
        TASK_FINISH,
        vec![field!(status, "status", Is(Ty::Enum(1, 3)))],
        vec![fget!(status, "status")],
        vec![
            ctor("new", vec![("taskId", Is(TASKID))], |a| t::TaskFinish::new(g(&a[0]))),
            ctor("default", vec![], |_| Default::default()),
        ]
    );
    tasks!(
        TaskProgress,
        TASK_PROGRESS,
        vec![field!(total, "total", Opt(Ty::U32)), field!(progress, "progress", Opt(Ty::U32)), field!(unit, "unit", s())],
        vec![fget!(total, "total"), fget!(progress, "progress"), fget!(unit, "unit")],
        vec![ctor("default", vec![], |_| Default::default())]
    );
    const EVENT: Ty = Ty::Obj(&[req("target", TARGET), opt("kind", Ty::Enum(1, 3)), opt("data", Ty::Any)]);
    v.push(Box::new(Subject::<t::BuildTargetEvent> {
        name: "BuildTargetEvent",
        ty: EVENT,
        ctors: vec![
            ctor("new", vec![("target", Is(TARGET)), ("kind", Opt(Ty::Enum(1, 3))), ("data", Opt(Ty::Any))], |a| t::BuildTargetEvent::new(g(&a[0]), g(&a[1]), g(&a[2]))),
            ctor("new_simple", vec![("target", Is(TARGET))], |a| t::BuildTargetEvent::new_simple(g(&a[0]))),
        ],
        sets: vec![
            field!(target, "target", Is(TARGET)),
            field!(kind, "kind", Opt(Ty::Enum(1, 3))),
            field!(data, "data", Opt(Ty::Any)),
        ],
        gets: vec![fget!(target, "target"), fget!(kind, "kind"), fget!(data, "data")],
    }));
    v
}

pub struct C15;
impl Prop for C15 {
    type Case = C15Case;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "for each payload type with constructors or accessors: one constructor with generated arguments, then up to 7 generated setter, field or mutable-access calls; after every step all getters and the encoded document are compared with a map model; every constructor and setter singly with recognisable arguments first; non-trivial: two or more calls, or a constructor with two or more arguments"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(180_000, 12)
    }
    fn fixed(&self, _: Tier) -> Vec<C15Case> {
        subjects().iter().flat_map(|s| s.every()).collect()
    }
    fn strategy(&self, _: Tier) -> S<C15Case> {
        uni(subjects().iter().map(|s| (1, s.strategy())).collect())
    }
    fn run(&self, c: &C15Case, cx: &mut Cx) -> R {
        thread_local! { static S: Vec<Box<dyn AnySubject>> = subjects(); }
        S.with(|all| {
            let s = all.iter().find(|s| s.name() == c.ty).ok_or("no such type")?;
            s.run(c, cx)
        })
    }
}

// ---------------------------------------------------------------- C16

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum C16Case {
    /// a number given for an enumeration
    Num(usize, i128),
    /// any JSON given for a numeric enumeration
    Odd(usize, Value),
    /// a text given for a tag or a data kind
    Text(bool, String),
}
struct NumEnum {
    name: &'static str,
    hi: i64,
    /// decode, then tell which variant and the encoding
    f: fn(&str) -> Result<(i64, Value), String>,
    holder: fn(Value) -> Result<Value, String>,
}
macro_rules! num_enum {
    ($t:ident, $hi:expr, $holder:expr, $($v:ident = $n:expr),*) => {
        NumEnum {
            name: stringify!($t),
            hi: $hi,
            f: |text| {
                let x: t::$t = serde_json::from_str(text).map_err(|e| e.to_string())?;
                let n = match x { $( t::$t::$v => $n, )* };
                Ok((n, serde_json::to_value(&x).map_err(|e| e.to_string())?))
            },
            holder: $holder,
        }
    };
}
const NUM_ENUMS: &[NumEnum] = &[
    num_enum!(MessageType, 4, |v| {
        let x: t::ShowMessage = serde_json::from_value(json!({"type": v, "message": ""})).map_err(|e| e.to_string())?;
        Ok(j(&x)["type"].clone())
    }, Error = 1, Warning = 2, Info = 3, Log = 4),
    num_enum!(TaskStatus, 3, |v| {
        let x: t::TaskFinish = serde_json::from_value(json!({"status": v})).map_err(|e| e.to_string())?;
        Ok(j(&x)["status"].clone())
    }, Ok = 1, Error = 2, Cancelled = 3),
    num_enum!(SourceKind, 2, |v| {
        let x: t::Sources = serde_json::from_value(json!({"uri": "file:///a", "kind": v, "generated": true})).map_err(|e| e.to_string())?;
        Ok(j(&x)["kind"].clone())
    }, File = 1, Directory = 2),
    num_enum!(BuildTargetEventKind, 3, |v| {
        let x: t::BuildTargetDidChange = serde_json::from_value(json!({"changes": [{"target": {"uri": "file:///a"}, "kind": v}]})).map_err(|e| e.to_string())?;
        Ok(j(&x)["changes"][0]["kind"].clone())
    }, Created = 1, Changed = 2, Deleted = 3),
];
fn tag_name(x: &t::BuildTargetTag) -> (&'static str, Option<String>) {
    use t::BuildTargetTag::*;
    match x {
        Libary => ("library", None),
        Application => ("application", None),
        Test => ("test", None),
        IntegrationTest => ("integration-test", None),
        Benchmark => ("benchmark", None),
        NoIDE => ("no-ide", None),
        Manual => ("manual", None),
        Custom(s) => ("", Some(s.clone())),
    }
}
fn kind_name(x: &t::TaskDataKind) -> (&'static str, Option<String>) {
    use t::TaskDataKind::*;
    match x {
        CompileTask => ("compile-task", Option::None),
        CompileReport => ("compile-report", Option::None),
        TestTask => ("test-task", Option::None),
        TestReport => ("test-report", Option::None),
        TestStart => ("test-start", Option::None),
        TestFinish => ("test-finish", Option::None),
        Custom(s) => ("", Some(s.clone())),
        None => ("<none>", Option::None),
    }
}
const TAG_NAMES: &[&str] = &["library", "application", "test", "integration-test", "benchmark", "no-ide", "manual"];
const KIND_NAMES: &[&str] = &["compile-task", "compile-report", "test-task", "test-report", "test-start", "test-finish"];

pub struct C16;
impl Prop for C16 {
    type Case = C16Case;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "numbers (every one from -300 to 70000, then edges and arbitrary ones) and other JSON given for the four numeric enumerations alone and inside their messages; texts (all defined ones, near misses, arbitrary) given for tags and data kinds; non-trivial: a value outside the defined ones"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(120_000, 12)
    }
    fn fixed(&self, _: Tier) -> Vec<C16Case> {
        let mut v = vec![];
        for k in 0..NUM_ENUMS.len() {
            for n in -300..70_000 {
                v.push(C16Case::Num(k, n));
            }
        }
        for s in TAG_NAMES.iter().chain(KIND_NAMES) {
            for x in [s.to_string(), s.to_uppercase(), s.replace('-', "_"), format!("{s} "), format!(" {s}"), s.replace('-', ""), s[..s.len() - 1].into(), format!("{s}s")] {
                v.push(C16Case::Text(true, x.clone()));
                v.push(C16Case::Text(false, x));
            }
        }
        for s in ["", "Libary", "libary", "noIDE", "no-IDE", "NoIDE", "integrationTest", "none", "None", "null", "Custom", "scala-test", "compileTask"] {
            v.push(C16Case::Text(true, s.into()));
            v.push(C16Case::Text(false, s.into()));
        }
        v
    }
    fn strategy(&self, _: Tier) -> S<C16Case> {
        let n = uni(vec![
            (2, any::<i64>().prop_map(|x| x as i128).boxed()),
            (1, any::<u64>().prop_map(|x| x as i128).boxed()),
            // the same low bits as a defined code
            (3, (0u32..63, 0i128..5, any::<bool>()).prop_map(|(s, c, neg)| if neg { c - (1i128 << s) } else { c + (1i128 << s) }).boxed()),
        ]);
        let near = (select([TAG_NAMES, KIND_NAMES].concat()), gen::ix(), gen::text_char(), 0..4u8).prop_map(|(s, at, c, k)| {
            let i = at.index(s.len());
            match k {
                0 => format!("{}{c}{}", &s[..i], &s[i..]),
                1 => format!("{}{}", &s[..i], &s[i + 1..]),
                2 => format!("{}{c}{}", &s[..i], &s[i + 1..]),
                _ => s.to_string(),
            }
        });
        uni(vec![
            (4, (0..NUM_ENUMS.len(), n).prop_map(|(k, n)| C16Case::Num(k, n)).boxed()),
            (1, (0..NUM_ENUMS.len(), gen::json()).prop_map(|(k, v)| C16Case::Odd(k, v)).boxed()),
            (2, (any::<bool>(), gen::text()).prop_map(|(b, s)| C16Case::Text(b, s)).boxed()),
            (3, (any::<bool>(), near).prop_map(|(b, s)| C16Case::Text(b, s)).boxed()),
        ])
    }
    fn run(&self, c: &C16Case, cx: &mut Cx) -> R {
        match c {
            C16Case::Num(k, n) => {
                let e = &NUM_ENUMS[*k];
                let text = n.to_string();
                let legal = *n >= 1 && *n <= e.hi as i128;
                cx.nontrivial(!legal);
                cx.label(format!("{} {}", e.name, if legal { "code" } else { "other number" }));
                let v: Option<Value> = serde_json::from_str(&text).ok();
                match (e.f)(&text) {
                    Ok((variant, out)) => {
                        ensure!(legal, "{} accepts {n} as {variant}", e.name);
                        same("variant", &(variant as i128), n)?;
                        same("encoding", &out, &json!(*n as i64))?;
                    }
                    Err(err) => ensure!(!legal, "{} refuses {n}: {err}", e.name),
                }
                if let Some(v) = v {
                    match (e.holder)(v) {
                        Ok(out) => {
                            ensure!(legal, "a message accepts {n} for {}", e.name);
                            same("encoding in a message", &out, &json!(*n as i64))?;
                        }
                        Err(err) => ensure!(!legal, "a message refuses {n} for {}: {err}", e.name),
                    }
                }
                Ok(())
            }
            C16Case::Odd(k, v) => {
                let e = &NUM_ENUMS[*k];
                if let Some(n) = v.as_i64() {
                    return self.run(&C16Case::Num(*k, n as i128), cx);
                }
                cx.label(format!("{} other JSON", e.name));
                cx.nontrivial(true);
                if let Ok((n, _)) = (e.f)(&v.to_string()) {
                    fail!("{} accepts {v} as {n}", e.name);
                }
                Ok(())
            }
            C16Case::Text(tag, s) => {
                let names = if *tag { TAG_NAMES } else { KIND_NAMES };
                let known = names.contains(&s.as_str());
                cx.label(format!("{} {}", if *tag { "tag" } else { "data kind" }, if known { "defined" } else { "custom" }));
                cx.nontrivial(!known);
                let v = json!(s);
                let (got, out) = if *tag {
                    let x: t::BuildTargetTag = serde_json::from_value(v.clone()).map_err(|e| format!("tag {s:?} refused: {e}"))?;
                    let y: t::BuildTargetTag = serde_json::from_str(&v.to_string()).map_err(|e| format!("tag {s:?} refused: {e}"))?;
                    same("two routes", &tag_name(&x), &tag_name(&y))?;
                    (tag_name(&x), serde_json::to_value(&x).map_err(|e| e.to_string())?)
                } else {
                    let x: t::TaskDataKind = serde_json::from_value(v.clone()).map_err(|e| format!("data kind {s:?} refused: {e}"))?;
                    let y: t::TaskDataKind = serde_json::from_str(&v.to_string()).map_err(|e| format!("data kind {s:?} refused: {e}"))?;
                    same("two routes", &kind_name(&x), &kind_name(&y))?;
                    (kind_name(&x), serde_json::to_value(&x).map_err(|e| e.to_string())?)
                };
                let want = if known { (*names.iter().find(|n| **n == s).unwrap(), None) } else { ("", Some(s.clone())) };
                same("meaning", &got, &want)?;
                same("encoding", &out, &v)?;
                // a custom value made by the application
                if *tag && !known {
                    same("custom tag", &j(&t::BuildTargetTag::custom(s.clone())), &v)?;
                }
                let whole = if *tag {
                    let x: t::WorkspaceBuildTargetsResult = g(&json!({"targets": [{"id": {"uri": "file:///a"}, "tags": [s, "test", s], "capabilities": {"canCompile": true, "canTest": true, "canRun": true, "canDebug": true}, "languageIds": [], "dependencies": []}]}));
                    j(&x)["targets"][0]["tags"].clone()
                } else {
                    let x: t::TaskStart = g(&json!({"taskId": {"id": "a"}, "dataKind": s}));
                    j(&x)["dataKind"].clone()
                };
                same("inside a message", &whole, &if *tag { json!([s, "test", s]) } else { v })
            }
        }
    }
}

// ---------------------------------------------------------------- C21

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C21Case {
    /// components, as bytes
    parts: Vec<Vec<u8>>,
    trailing: bool,
    /// a URI of another machine instead: what precedes the path, what follows it
    #[serde(default)]
    elsewhere: Option<(String, String)>,
}
pub struct C21;
fn component() -> S<Vec<u8>> {
    let special = select(vec![
        "a b", "100%", "%20", "%", "%2", "%zz", "%41", "a%2Fb", "日本", "é", "e\u{301}", "🦀", "#x", "?q", "a#b?c", "a&b=c", "~", "-", "_", "...", "..a", ".a", "a.", "a:b", "[x]", "{x}", "\"", "<>", "`", "|", "^", ";", "@", "$", "!", "'", "(", ")", "*", "+", ",", "=", "con", "\t", "\n", "\u{7f}", "a;b", "%25", "%5C", "\u{feff}", "tmp", "home", "localhost", "file:", "http:",
    ]);
    uni(vec![
        (3, "[a-zA-Z0-9_.-]{1,10}".prop_map(String::into_bytes).boxed()),
        (4, special.prop_map(|s| s.as_bytes().to_vec()).boxed()),
        (3, gen::text().prop_map(String::into_bytes).boxed()),
        (2, vec(any::<u8>(), 1..8).boxed()),
        (1, vec(any::<u8>(), 100..250).boxed()),
    ])
    .prop_map(|b| {
        let b: Vec<u8> = b.into_iter().filter(|c| *c != b'/' && *c != 0).collect();
        // "." and ".." are not names of their own, a drive letter is Windows'
        if b.is_empty() || b == b"." || b == b".." || (b.len() == 2 && b[0].is_ascii_alphabetic() && (b[1] == b':' || b[1] == b'|')) {
            b"p".to_vec()
        } else {
            b
        }
    })
    .boxed()
}
impl Prop for C21 {
    type Case = C21Case;
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "absolute Unix paths of generated components (any bytes but / and NUL; percent signs, spaces, non-ASCII, non-UTF-8), turned into a root URI, then asked back from an initialize request, before and after a round trip through JSON text and through a message; URIs with a host, whose path is reported as written; non-trivial: a byte outside letters, digits and ._-"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(160_000, 12)
    }
    fn fixed(&self, _: Tier) -> Vec<C21Case> {
        let mut v = vec![C21Case { parts: vec![], trailing: false, elsewhere: None }];
        for b in 1..=255u8 {
            if b != b'/' && b != b'.' {
                v.push(C21Case { parts: vec![vec![b]], trailing: false, elsewhere: None });
                v.push(C21Case { parts: vec![b"a".to_vec(), vec![b'x', b, b'y']], trailing: false, elsewhere: None });
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> S<C21Case> {
        let before = select(vec!["vscode-remote://host", "http://example.org", "https://u:p@example.org:8080", "file://host", "ssh://[::1]:22", "x-y.z+1://h"]);
        let after = select(vec!["", "", "?q=/a/", "#f/", "?a#b"]);
        let elsewhere = prop::option::weighted(0.2, (before, after).prop_map(|(b, a)| (b.to_string(), a.to_string())));
        (vec(component(), 0..6), any::<bool>(), elsewhere).prop_map(|(parts, trailing, elsewhere)| C21Case { parts, trailing, elsewhere }).boxed()
    }
    fn run(&self, c: &C21Case, cx: &mut Cx) -> R {
        use std::os::unix::ffi::OsStringExt;
        let mut bytes = vec![];
        for p in &c.parts {
            bytes.push(b'/');
            bytes.extend_from_slice(p);
        }
        if bytes.is_empty() {
            bytes.push(b'/');
        }
        if let Some((before, after)) = &c.elsewhere {
            return elsewhere(before, &bytes, c.trailing, after, cx);
        }
        let path = std::path::PathBuf::from(std::ffi::OsString::from_vec(bytes.clone()));
        let made = if c.trailing { Url::from_directory_path(&path) } else { Url::from_file_path(&path) };
        let uri = match made {
            Ok(u) => u,
            Err(()) => {
                cx.label("no URI");
                return Ok(());
            }
        };
        // the URI names the path if its percent-decoding is the path (the URI library is not under test)
        let decoded = percent_decode(uri.path());
        let mut same_path = decoded == bytes;
        if c.trailing && decoded.len() > 1 && decoded.last() == Some(&b'/') {
            same_path |= decoded[..decoded.len() - 1] == bytes[..];
        }
        let stable = Url::parse(uri.as_str()).map_or(false, |u| u == uri);
        if !same_path || !stable || uri.scheme() != "file" {
            cx.label("the URI library changed the path");
            return Ok(());
        }
        let odd = bytes.iter().any(|b| !(b.is_ascii_alphanumeric() || b"/._-".contains(b)));
        cx.nontrivial(odd);
        cx.label(if std::str::from_utf8(&bytes).is_err() {
            "not UTF-8"
        } else if bytes.contains(&b'%') {
            "percent sign"
        } else if odd {
            "other special"
        } else {
            "plain"
        });
        let is = |x: &t::InitializeBuild, when: &str| -> R {
            let got = x.root_path();
            // a trailing slash does not name another directory
            ensure!(got.as_path() == path.as_path(), "root path {when} is {got:?}, the client named {path:?} ({uri})");
            Ok(())
        };
        let mut x = t::InitializeBuild::new_simple("c", "1", "2", uri.clone(), Default::default());
        is(&x, "as made")?;
        let text = serde_json::to_string(&x).map_err(|e| e.to_string())?;
        let y: t::InitializeBuild = serde_json::from_str(&text).map_err(|e| format!("{text} refused: {e}"))?;
        is(&y, "after a round trip")?;
        let m = bsp_server::Message::from((1.into(), y));
        let text = serde_json::to_string(&m).map_err(|e| e.to_string())?;
        match serde_json::from_str(&text).map_err(|e| format!("{text} refused: {e}"))? {
            bsp_server::Message::Request(bsp_server::Request::InitializeBuild(_, z)) => is(&z, "after a round trip as a message")?,
            m => fail!("an initialize request became {m:?}"),
        }
        x.set_root_uri(Url::parse("file:///other").unwrap());
        same("root path set anew", &x.root_path(), &std::path::PathBuf::from("/other"))?;
        x.set_root_uri(uri.clone());
        is(&x, "set back")
    }
}
/// A URI that names no file of this machine: its path as it is written.
fn elsewhere(before: &str, path: &[u8], slash: bool, after: &str, cx: &mut Cx) -> R {
    let mut uri = before.to_string();
    for b in path {
        match b {
            b if b.is_ascii_alphanumeric() || b"/._-~".contains(b) => uri.push(*b as char),
            b => uri.push_str(&format!("%{b:02X}")),
        }
    }
    if slash && !uri.ends_with('/') {
        uri.push('/');
    }
    let written = uri[before.len()..].to_string();
    uri.push_str(after);
    match Url::parse(&uri) {
        // the URI library may change it (default ports, dots)
        Ok(u) if u.as_str() == uri => {
            cx.label("elsewhere");
            cx.nontrivial(written.contains('%') || slash);
            let x = t::InitializeBuild::new_simple("c", "1", "2", u, Default::default());
            let text = serde_json::to_string(&x).map_err(|e| e.to_string())?;
            let y: t::InitializeBuild = serde_json::from_str(&text).map_err(|e| format!("{text} refused: {e}"))?;
            for x in [x, y] {
                same(&format!("root path of {uri}"), &x.root_path().as_os_str(), &std::ffi::OsStr::new(&written))?;
            }
            Ok(())
        }
        _ => {
            cx.label("the URI library changed the path");
            Ok(())
        }
    }
}
fn percent_decode(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let (Some(h), Some(l)) = ((b[i + 1] as char).to_digit(16), (b[i + 2] as char).to_digit(16)) {
                out.push((h * 16 + l) as u8);
                i += 3;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    out
}
