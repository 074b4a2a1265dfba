//! Independent model of the protocol: message shapes, payload schemas and normal forms.
//! Nothing here calls the library.
use serde::{Deserialize, Serialize};
use serde_json::{Map, Value};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
#[serde(untagged)]
pub enum Id {
    I(i32),
    S(String),
}

impl Id {
    pub fn json(&self) -> Value {
        match self {
            Id::I(i) => Value::from(*i),
            Id::S(s) => Value::from(s.clone()),
        }
    }
    pub fn of(v: &Value) -> Option<Id> {
        match v {
            Value::String(s) => Some(Id::S(s.clone())),
            Value::Number(n) => n.as_i64().and_then(|i| i32::try_from(i).ok()).map(Id::I),
            _ => None,
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct ErrM {
    pub code: i32,
    pub message: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<Value>,
}

/// A message as it stands on the wire. `params: None` means the member is left out.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Msg {
    Req { id: Id, method: String, params: Params },
    Note { method: String, params: Params },
    Ok { id: Id, result: Value },
    Err { id: Id, error: ErrM },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Params {
    Absent,
    Is(Value),
}

impl Params {
    pub fn value(&self) -> Value {
        match self {
            Params::Absent => Value::Null,
            Params::Is(v) => v.clone(),
        }
    }
}

/// What a message means, in a form both sides can be compared in.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Norm {
    Request { id: Value, variant: String, method: String, params: Value },
    Notification { variant: String, method: String, params: Value },
    Success { id: Value, result: Value },
    Failure { id: Value, code: i64, message: String, data: Value },
    /// neither result nor error, or both
    Odd { id: Value, result: Option<Value>, error: Option<Value> },
}

impl Norm {
    pub fn kind(&self) -> &'static str {
        match self {
            Norm::Request { .. } => "request",
            Norm::Notification { .. } => "notification",
            _ => "response",
        }
    }
    pub fn is_exit(&self) -> bool {
        matches!(self, Norm::Notification { variant, .. } if variant == "build/exit")
    }
}

// ---------------------------------------------------------------- schemas

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ty {
    Str,
    Bool,
    U32,
    /// numbers; those lo..=hi have a meaning, others are kept as they are
    Open(i64, i64),
    U64,
    Url,
    /// any non-null JSON value, preserved exactly
    Any,
    /// numbers lo..=hi
    Enum(i64, i64),
    /// build target tag
    Tag,
    /// task data kind
    DataKind,
    /// i32 or string
    NumOrStr,
    Arr(&'static Ty),
    Obj(&'static [F]),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum D {
    EmptyStr,
    EmptyArr,
    NoLanguages,
    NoTaskId,
    One,
}

impl D {
    pub fn json(self) -> Value {
        match self {
            D::EmptyStr => "".into(),
            D::EmptyArr => Value::Array(vec![]),
            D::NoLanguages => serde_json::json!({"languageIds": []}),
            D::NoTaskId => serde_json::json!({"id": ""}),
            D::One => 1.into(),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum P {
    Req,
    /// absent and null mean the same
    Opt,
    /// absent means the default; null is not a value
    Def(D),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct F {
    pub name: &'static str,
    pub ty: Ty,
    pub p: P,
}

pub const fn req(name: &'static str, ty: Ty) -> F {
    F { name, ty, p: P::Req }
}
pub const fn opt(name: &'static str, ty: Ty) -> F {
    F { name, ty, p: P::Opt }
}
pub const fn def(name: &'static str, ty: Ty, d: D) -> F {
    F { name, ty, p: P::Def(d) }
}

pub const STRS: Ty = Ty::Arr(&Ty::Str);
pub const TARGET: Ty = Ty::Obj(&[req("uri", Ty::Url)]);
pub const TARGETS: Ty = Ty::Arr(&TARGET);
pub const DOC: Ty = Ty::Obj(&[req("uri", Ty::Url)]);
pub const LANGS: Ty = Ty::Obj(&[req("languageIds", STRS)]);
pub const TASKID: Ty = Ty::Obj(&[
    def("id", Ty::Str, D::EmptyStr),
    def("parents", STRS, D::EmptyArr),
]);
pub const POS: Ty = Ty::Obj(&[req("line", Ty::U32), req("character", Ty::U32)]);
pub const RANGE: Ty = Ty::Obj(&[req("start", POS), req("end", POS)]);
pub const LOCATION: Ty = Ty::Obj(&[req("uri", Ty::Url), req("range", RANGE)]);
pub const DIAGNOSTIC: Ty = Ty::Obj(&[
    req("range", RANGE),
    opt("severity", Ty::Open(1, 4)),
    opt("code", Ty::NumOrStr),
    opt("codeDescription", Ty::Obj(&[req("href", Ty::Url)])),
    opt("source", Ty::Str),
    req("message", Ty::Str),
    opt(
        "relatedInformation",
        Ty::Arr(&Ty::Obj(&[req("location", LOCATION), req("message", Ty::Str)])),
    ),
    opt("tags", Ty::Arr(&Ty::Open(1, 2))),
    opt("data", Ty::Any),
]);
pub const BT_CAPS: Ty = Ty::Obj(&[
    req("canCompile", Ty::Bool),
    req("canTest", Ty::Bool),
    req("canRun", Ty::Bool),
    req("canDebug", Ty::Bool),
]);
pub const SERVER_CAPS: Ty = Ty::Obj(&[
    opt("compileProvider", LANGS),
    opt("testProvider", LANGS),
    opt("runProvider", LANGS),
    opt("debugProvider", LANGS),
    opt("inverseSourcesProvider", Ty::Bool),
    opt("dependencySourcesProvider", Ty::Bool),
    opt("dependencyModulesProvider", Ty::Bool),
    opt("resourcesProvider", Ty::Bool),
    opt("canReload", Ty::Bool),
    opt("buildTargetChangedProvider", Ty::Bool),
]);
pub const BUILD_TARGET: Ty = Ty::Obj(&[
    req("id", TARGET),
    opt("displayName", Ty::Str),
    opt("baseDirectory", Ty::Str),
    req("tags", Ty::Arr(&Ty::Tag)),
    req("capabilities", BT_CAPS),
    req("languageIds", STRS),
    req("dependencies", TARGETS),
]);
pub const SOURCES: Ty = Ty::Obj(&[
    req("uri", Ty::Url),
    req("kind", Ty::Enum(1, 2)),
    req("generated", Ty::Bool),
]);

pub const INITIALIZE: Ty = Ty::Obj(&[
    req("displayName", Ty::Str),
    def("version", Ty::Str, D::EmptyStr),
    def("bspVersion", Ty::Str, D::EmptyStr),
    req("rootUri", Ty::Url),
    def("capabilities", LANGS, D::NoLanguages),
    opt("data", Ty::Any),
]);
pub const JUST_TARGETS: Ty = Ty::Obj(&[req("targets", TARGETS)]);
pub const JUST_DOC: Ty = Ty::Obj(&[req("textDocument", DOC)]);
pub const DEBUG_START: Ty = Ty::Obj(&[
    def("targets", TARGETS, D::EmptyArr),
    def("dataKind", Ty::Str, D::EmptyStr),
    opt("data", Ty::Any),
]);
pub const RUN: Ty = Ty::Obj(&[
    req("target", TARGET),
    opt("originId", Ty::Str),
    opt("arguments", Ty::Str),
    opt("dataKind", Ty::Str),
    opt("data", Ty::Any),
]);
pub const COMPILE: Ty = Ty::Obj(&[
    req("target", TARGET),
    opt("originId", Ty::Str),
    opt("arguments", Ty::Str),
]);
pub const SHOW: Ty = Ty::Obj(&[
    req("type", Ty::Enum(1, 4)),
    req("message", Ty::Str),
    opt("task", TASKID),
    opt("originId", Ty::Str),
]);
pub const DIAGNOSTICS: Ty = Ty::Obj(&[
    req("textDocument", DOC),
    req("buildTarget", TARGET),
    opt("originId", Ty::Str),
    req("diagnostics", Ty::Arr(&DIAGNOSTIC)),
    req("reset", Ty::Bool),
]);
pub const TASK_START: Ty = Ty::Obj(&[
    def("taskId", TASKID, D::NoTaskId),
    opt("eventTime", Ty::U64),
    def("message", Ty::Str, D::EmptyStr),
    opt("dataKind", Ty::DataKind),
    opt("data", Ty::Any),
]);
pub const TASK_FINISH: Ty = Ty::Obj(&[
    def("taskId", TASKID, D::NoTaskId),
    opt("eventTime", Ty::U64),
    def("message", Ty::Str, D::EmptyStr),
    def("status", Ty::Enum(1, 3), D::One),
    opt("dataKind", Ty::DataKind),
    opt("data", Ty::Any),
]);
pub const TASK_PROGRESS: Ty = Ty::Obj(&[
    def("taskId", TASKID, D::NoTaskId),
    opt("eventTime", Ty::U64),
    def("message", Ty::Str, D::EmptyStr),
    opt("total", Ty::U32),
    opt("progress", Ty::U32),
    def("unit", Ty::Str, D::EmptyStr),
    opt("dataKind", Ty::DataKind),
    opt("data", Ty::Any),
]);
pub const DID_CHANGE: Ty = Ty::Obj(&[req(
    "changes",
    Ty::Arr(&Ty::Obj(&[
        req("target", TARGET),
        opt("kind", Ty::Enum(1, 3)),
        opt("data", Ty::Any),
    ])),
)]);

pub const R_INITIALIZE: Ty = Ty::Obj(&[
    req("displayName", Ty::Str),
    req("version", Ty::Str),
    req("bspVersion", Ty::Str),
    req("capabilities", SERVER_CAPS),
    opt("data", Ty::Any),
]);
pub const R_TARGETS: Ty = Ty::Obj(&[req("targets", Ty::Arr(&BUILD_TARGET))]);
pub const R_SOURCES: Ty = Ty::Obj(&[req(
    "items",
    Ty::Arr(&Ty::Obj(&[req("target", TARGET), req("sources", Ty::Arr(&SOURCES))])),
)]);
pub const R_TEST: Ty = Ty::Obj(&[
    opt("originId", Ty::Str),
    req("statusCode", Ty::U64),
    opt("dataKind", Ty::Str),
    opt("data", Ty::Any),
]);
pub const R_RUN: Ty = Ty::Obj(&[opt("originId", Ty::Str), req("statusCode", Ty::U64)]);
pub const R_RESOURCES: Ty = Ty::Obj(&[req(
    "items",
    Ty::Arr(&Ty::Obj(&[req("target", TARGET), req("resources", STRS)])),
)]);
pub const MODULE: Ty = Ty::Obj(&[
    req("name", Ty::Str),
    req("version", Ty::Str),
    opt("dataKind", Ty::Str),
    opt("data", Ty::Any),
]);
pub const R_MODULES: Ty = Ty::Obj(&[req(
    "items",
    Ty::Arr(&Ty::Obj(&[req("target", TARGET), req("modules", Ty::Arr(&MODULE))])),
)]);
pub const R_CLEAN: Ty = Ty::Obj(&[opt("message", Ty::Str), req("cleaned", Ty::Bool)]);
pub const R_DEPSOURCES: Ty = Ty::Obj(&[req(
    "items",
    Ty::Arr(&Ty::Obj(&[req("target", TARGET), req("sources", STRS)])),
)]);
pub const R_DEBUG: Ty = Ty::Obj(&[req("uri", Ty::Url)]);

/// Request methods with parameters.
pub const REQUESTS: &[(&str, Ty)] = &[
    ("build/initialize", INITIALIZE),
    ("buildTarget/dependencyModules", JUST_TARGETS),
    ("debugSession/start", DEBUG_START),
    ("buildTarget/sources", JUST_TARGETS),
    ("buildTarget/inverseSources", JUST_DOC),
    ("buildTarget/dependencySources", JUST_DOC),
    ("buildTarget/resources", JUST_TARGETS),
    ("buildTarget/run", RUN),
    ("buildTarget/compile", COMPILE),
    ("buildTarget/test", RUN),
    ("buildTarget/cleanCache", JUST_TARGETS),
];
/// Request methods without parameters.
pub const BARE_REQUESTS: &[&str] = &["build/shutdown", "workspace/buildTargets", "workspace/reload"];
pub const NOTES: &[(&str, Ty)] = &[
    ("build/showMessage", SHOW),
    ("build/logMessage", SHOW),
    ("build/publishDiagnostics", DIAGNOSTICS),
    ("build/taskStart", TASK_START),
    ("build/taskProgress", TASK_PROGRESS),
    ("build/taskFinish", TASK_FINISH),
    ("buildTarget/didChange", DID_CHANGE),
];
pub const BARE_NOTES: &[&str] = &["build/exit", "build/initialized"];
pub const RESULTS: &[(&str, Ty)] = &[
    ("InitializeBuildResult", R_INITIALIZE),
    ("WorkspaceBuildTargetsResult", R_TARGETS),
    ("BuildTargetSourcesResult", R_SOURCES),
    ("BuildTargetTestResult", R_TEST),
    ("BuildTargetRunResult", R_RUN),
    ("BuildTargetCompileResult", R_TEST),
    ("BuildTargetResourcesResult", R_RESOURCES),
    ("BuildTargetDependencyModulesResult", R_MODULES),
    ("BuildTargetCleanCacheResult", R_CLEAN),
    ("BuildTargetInverseSourcesResult", JUST_TARGETS),
    ("BuildTargetDependencySourcesResult", R_DEPSOURCES),
    ("DebugSessionStartResult", R_DEBUG),
];

pub fn request_schema(method: &str) -> Option<Ty> {
    REQUESTS.iter().find(|(m, _)| *m == method).map(|(_, t)| *t)
}
pub fn note_schema(method: &str) -> Option<Ty> {
    NOTES.iter().find(|(m, _)| *m == method).map(|(_, t)| *t)
}
pub fn is_typed_request(method: &str) -> bool {
    BARE_REQUESTS.contains(&method) || request_schema(method).is_some()
}
pub fn is_typed_note(method: &str) -> bool {
    BARE_NOTES.contains(&method) || note_schema(method).is_some()
}

/// Normal form of a document under a schema: optional members that are null and members at
/// their default are dropped. Unknown members are kept (they are differences).
pub fn norm(ty: &Ty, v: &Value) -> Value {
    match (ty, v) {
        (Ty::Arr(t), Value::Array(a)) => a.iter().map(|x| norm(t, x)).collect(),
        (Ty::Obj(fs), Value::Object(o)) => {
            let mut out = Map::new();
            for (k, x) in o {
                match fs.iter().find(|f| f.name == k) {
                    None => {
                        out.insert(k.clone(), x.clone());
                    }
                    Some(f) => {
                        if f.p == P::Opt && x.is_null() {
                            continue;
                        }
                        let n = norm(&f.ty, x);
                        if let P::Def(d) = f.p {
                            if n == norm(&f.ty, &d.json()) {
                                continue;
                            }
                        }
                        out.insert(k.clone(), n);
                    }
                }
            }
            Value::Object(out)
        }
        _ => v.clone(),
    }
}

impl Msg {
    pub fn wire(&self) -> Value {
        let mut o = Map::new();
        let put = |o: &mut Map<String, Value>, p: &Params| {
            if let Params::Is(v) = p {
                o.insert("params".into(), v.clone());
            }
        };
        match self {
            Msg::Req { id, method, params } => {
                o.insert("id".into(), id.json());
                o.insert("method".into(), method.clone().into());
                put(&mut o, params);
            }
            Msg::Note { method, params } => {
                o.insert("method".into(), method.clone().into());
                put(&mut o, params);
            }
            Msg::Ok { id, result } => {
                o.insert("id".into(), id.json());
                o.insert("result".into(), result.clone());
            }
            Msg::Err { id, error } => {
                o.insert("id".into(), id.json());
                let mut e = Map::new();
                e.insert("code".into(), error.code.into());
                e.insert("message".into(), error.message.clone().into());
                if let Some(d) = &error.data {
                    e.insert("data".into(), d.clone());
                }
                o.insert("error".into(), e.into());
            }
        }
        Value::Object(o)
    }

    pub fn wire_rpc(&self) -> Value {
        let mut w = self.wire();
        w["jsonrpc"] = "2.0".into();
        w
    }

    pub fn norm(&self) -> Norm {
        match self {
            Msg::Req { id, method, params } => norm_request(id.json(), method, params.value()),
            Msg::Note { method, params } => norm_note(method, params.value()),
            Msg::Ok { id, result } => Norm::Success { id: id.json(), result: result.clone() },
            Msg::Err { id, error } => Norm::Failure {
                id: id.json(),
                code: error.code as i64,
                message: error.message.clone(),
                data: error.data.clone().unwrap_or(Value::Null),
            },
        }
    }

    pub fn is_exit(&self) -> bool {
        self.norm().is_exit()
    }
}

pub fn norm_request(id: Value, method: &str, params: Value) -> Norm {
    let (variant, params) = if BARE_REQUESTS.contains(&method) {
        (method, Value::Null)
    } else if let Some(t) = request_schema(method) {
        (method, norm(&t, &params))
    } else {
        ("custom", params)
    };
    Norm::Request { id, variant: variant.into(), method: method.into(), params }
}

pub fn norm_note(method: &str, params: Value) -> Norm {
    let (variant, params) = if BARE_NOTES.contains(&method) {
        (method, Value::Null)
    } else if let Some(t) = note_schema(method) {
        (method, norm(&t, &params))
    } else {
        ("custom", params)
    };
    Norm::Notification { variant: variant.into(), method: method.into(), params }
}
