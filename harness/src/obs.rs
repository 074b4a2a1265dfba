//! Between the model's messages and the library's.
use crate::model::*;
use bsp_server::{types as t, Message, Notification, Request, RequestId, Response, ResponseError};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;
use std::collections::HashSet;
use std::sync::Mutex;

/// The library wants `&'static str` method names.
pub fn intern(s: &str) -> &'static str {
    static T: Mutex<Option<HashSet<&'static str>>> = Mutex::new(None);
    let mut g = T.lock().unwrap_or_else(|e| e.into_inner());
    let set = g.get_or_insert_with(HashSet::new);
    if let Some(x) = set.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    set.insert(l);
    l
}

pub fn rid(id: &Id) -> RequestId {
    match id {
        Id::I(i) => RequestId::from(*i),
        Id::S(s) => RequestId::from(s.clone()),
    }
}
pub fn rid_json(id: &RequestId) -> Value {
    serde_json::to_value(id).unwrap_or(Value::Null)
}

fn p<T: DeserializeOwned>(v: Value) -> Result<T, String> {
    serde_json::from_value(v.clone()).map_err(|e| format!("the library refuses parameters {}: {e}", crate::engine::cut(&v.to_string(), 300)))
}

pub fn build_request(id: RequestId, method: &str, params: Value) -> Result<Request, String> {
    Ok(match method {
        "build/initialize" => Request::InitializeBuild(id, p(params)?),
        "build/shutdown" => Request::Shutdown(id),
        "workspace/buildTargets" => Request::WorkspaceBuildTargets(id),
        "workspace/reload" => Request::WorkspaceReload(id),
        "buildTarget/dependencyModules" => Request::BuildTargetDependencyModules(id, p(params)?),
        "debugSession/start" => Request::DebugSessionStart(id, p(params)?),
        "buildTarget/sources" => Request::BuildTargetSources(id, p(params)?),
        "buildTarget/inverseSources" => Request::TextDocumentInverseSources(id, p(params)?),
        "buildTarget/dependencySources" => Request::BuildTargetDependencySources(id, p(params)?),
        "buildTarget/resources" => Request::BuildTargetResources(id, p(params)?),
        "buildTarget/run" => Request::BuildTargetRun(id, p(params)?),
        "buildTarget/compile" => Request::BuildTargetCompile(id, p(params)?),
        "buildTarget/test" => Request::BuildTargetTest(id, p(params)?),
        "buildTarget/cleanCache" => Request::BuildTargetCleanCache(id, p(params)?),
        m => Request::Custom(id, intern(m), params),
    })
}
pub fn build_note(method: &str, params: Value) -> Result<Notification, String> {
    Ok(match method {
        "build/exit" => Notification::Exit,
        "build/initialized" => Notification::Initialized,
        "build/showMessage" => Notification::ShowMessage(p(params)?),
        "build/logMessage" => Notification::LogMessage(p(params)?),
        "build/publishDiagnostics" => Notification::PublishDiagnostics(p(params)?),
        "build/taskStart" => Notification::TaskStart(p(params)?),
        "build/taskFinish" => Notification::TaskFinish(p(params)?),
        "build/taskProgress" => Notification::TaskProgress(p(params)?),
        "buildTarget/didChange" => Notification::BuildTargetDidChange(p(params)?),
        m => Notification::Custom(intern(m), params),
    })
}
pub fn build(m: &Msg) -> Result<Message, String> {
    Ok(match m {
        Msg::Req { id, method, params } => Message::Request(build_request(rid(id), method, params.value())?),
        Msg::Note { method, params } => Message::Notification(build_note(method, params.value())?),
        Msg::Ok { id, result } => Message::Response(Response { id: rid(id), result: Some(result.clone()), error: None }),
        Msg::Err { id, error } => Message::Response(Response {
            id: rid(id),
            result: None,
            error: Some(ResponseError { code: error.code, message: error.message.clone(), data: error.data.clone() }),
        }),
    })
}
pub fn build_all(ms: &[Msg]) -> Result<Vec<Message>, String> {
    ms.iter().map(build).collect()
}

fn v<T: Serialize>(x: &T) -> Value {
    serde_json::to_value(x).unwrap_or_else(|e| Value::String(format!("<does not encode: {e}>")))
}

pub fn observe_request(r: &Request) -> Norm {
    use Request::*;
    let (id, variant, params): (&RequestId, &str, Value) = match r {
        InitializeBuild(i, x) => (i, "build/initialize", v::<t::InitializeBuild>(x)),
        Shutdown(i) => (i, "build/shutdown", Value::Null),
        WorkspaceBuildTargets(i) => (i, "workspace/buildTargets", Value::Null),
        WorkspaceReload(i) => (i, "workspace/reload", Value::Null),
        BuildTargetDependencyModules(i, x) => (i, "buildTarget/dependencyModules", v(x)),
        DebugSessionStart(i, x) => (i, "debugSession/start", v(x)),
        BuildTargetSources(i, x) => (i, "buildTarget/sources", v(x)),
        TextDocumentInverseSources(i, x) => (i, "buildTarget/inverseSources", v(x)),
        BuildTargetDependencySources(i, x) => (i, "buildTarget/dependencySources", v(x)),
        BuildTargetResources(i, x) => (i, "buildTarget/resources", v(x)),
        BuildTargetRun(i, x) => (i, "buildTarget/run", v(x)),
        BuildTargetCompile(i, x) => (i, "buildTarget/compile", v(x)),
        BuildTargetTest(i, x) => (i, "buildTarget/test", v(x)),
        BuildTargetCleanCache(i, x) => (i, "buildTarget/cleanCache", v(x)),
        Custom(i, m, x) => {
            return Norm::Request { id: rid_json(i), variant: "custom".into(), method: m.to_string(), params: x.clone() }
        }
    };
    let params = match request_schema(variant) {
        Some(ty) => norm(&ty, &params),
        None => params,
    };
    Norm::Request { id: rid_json(id), variant: variant.into(), method: variant.into(), params }
}
pub fn observe_note(n: &Notification) -> Norm {
    use Notification::*;
    let (variant, params) = match n {
        Exit => ("build/exit", Value::Null),
        Initialized => ("build/initialized", Value::Null),
        ShowMessage(x) => ("build/showMessage", v(x)),
        LogMessage(x) => ("build/logMessage", v(x)),
        PublishDiagnostics(x) => ("build/publishDiagnostics", v(x)),
        TaskStart(x) => ("build/taskStart", v(x)),
        TaskFinish(x) => ("build/taskFinish", v(x)),
        TaskProgress(x) => ("build/taskProgress", v(x)),
        BuildTargetDidChange(x) => ("buildTarget/didChange", v(x)),
        Custom(m, x) => return Norm::Notification { variant: "custom".into(), method: m.to_string(), params: x.clone() },
    };
    let params = match note_schema(variant) {
        Some(ty) => norm(&ty, &params),
        None => params,
    };
    Norm::Notification { variant: variant.into(), method: variant.into(), params }
}
pub fn observe_response(r: &Response) -> Norm {
    match (&r.result, &r.error) {
        (Some(x), None) => Norm::Success { id: rid_json(&r.id), result: x.clone() },
        (None, Some(e)) => Norm::Failure {
            id: rid_json(&r.id),
            code: e.code as i64,
            message: e.message.clone(),
            data: e.data.clone().unwrap_or(Value::Null),
        },
        (a, b) => Norm::Odd { id: rid_json(&r.id), result: a.clone(), error: b.as_ref().map(v) },
    }
}
pub fn observe(m: &Message) -> Norm {
    match m {
        Message::Request(r) => observe_request(r),
        Message::Response(r) => observe_response(r),
        Message::Notification(n) => observe_note(n),
    }
}
