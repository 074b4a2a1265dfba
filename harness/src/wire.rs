//! Reference framing and JSON spelling, independent of the library.
use crate::model::*;
use serde::de::{MapAccess, Visitor};
use serde::{Deserialize, Deserializer, Serialize};
use serde_json::Value;
use std::fmt;

/// Small deterministic generator used to expand one generated salt into spelling choices.
pub struct Salt(u64);
impl Salt {
    pub fn new(s: u64) -> Salt {
        Salt(s)
    }
    pub fn next(&mut self) -> u64 {
        if self.0 == 0 {
            return 0;
        }
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 11
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

/// Writes a JSON value in one of its many equivalent spellings; salt 0 is the compact one.
pub fn spell(v: &Value, salt: u64) -> String {
    let mut out = String::new();
    let mut s = Salt::new(salt);
    go(v, &mut s, &mut out);
    out
}

fn ws(s: &mut Salt, out: &mut String) {
    match s.below(14) {
        1 => out.push(' '),
        2 => out.push_str("\r\n"),
        3 => out.push('\t'),
        4 => out.push_str("\n  "),
        _ => {}
    }
}

fn string(x: &str, s: &mut Salt, out: &mut String) {
    out.push('"');
    let loud = s.below(3) == 1;
    for c in x.chars() {
        let escape = loud && s.below(4) == 1;
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '/' if escape => out.push_str("\\/"),
            '\n' if !escape => out.push_str("\\n"),
            '\r' if !escape => out.push_str("\\r"),
            '\t' if !escape => out.push_str("\\t"),
            c if (c as u32) < 0x20 || escape => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    if s.below(2) == 1 {
                        out.push_str(&format!("\\u{:04X}", u));
                    } else {
                        out.push_str(&format!("\\u{:04x}", u));
                    }
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

fn go(v: &Value, s: &mut Salt, out: &mut String) {
    ws(s, out);
    match v {
        Value::String(x) => string(x, s, out),
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                go(x, s, out);
            }
            ws(s, out);
            out.push(']');
        }
        Value::Object(o) => {
            let mut es: Vec<_> = o.iter().collect();
            for i in (1..es.len()).rev() {
                let j = s.below(i as u64 + 1) as usize;
                if s.0 != 0 {
                    es.swap(i, j);
                }
            }
            out.push('{');
            for (i, (k, x)) in es.into_iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(s, out);
                string(k, s, out);
                ws(s, out);
                out.push(':');
                go(x, s, out);
            }
            ws(s, out);
            out.push('}');
        }
        other => out.push_str(&other.to_string()),
    }
    ws(s, out);
}

pub fn frame(body: &[u8]) -> Vec<u8> {
    let mut f = format!("Content-Length: {}\r\n\r\n", body.len()).into_bytes();
    f.extend_from_slice(body);
    f
}

pub fn frame_msg(m: &Msg) -> Vec<u8> {
    frame(m.wire_rpc().to_string().as_bytes())
}

/// An object with its members in order, so duplicates are visible.
pub struct Members(pub Vec<(String, Value)>);
impl<'de> Deserialize<'de> for Members {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Members;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("an object")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<Members, A::Error> {
                let mut out = vec![];
                while let Some(e) = m.next_entry()? {
                    out.push(e);
                }
                Ok(Members(out))
            }
        }
        d.deserialize_map(V)
    }
}

/// Strict reading of one emitted body.
pub fn norm_of_body(body: &[u8], envelope: bool) -> Result<Norm, String> {
    let text = std::str::from_utf8(body).map_err(|e| format!("body is not UTF-8: {e}"))?;
    let Members(ms) = serde_json::from_str(text).map_err(|e| format!("body is not a JSON object: {e}"))?;
    let mut get: std::collections::BTreeMap<String, Value> = Default::default();
    for (k, v) in ms {
        if get.insert(k.clone(), v).is_some() {
            return Err(format!("duplicate member {k:?}"));
        }
    }
    let rpc = get.remove("jsonrpc");
    if envelope && rpc != Some("2.0".into()) {
        return Err(format!("jsonrpc member is {rpc:?}"));
    }
    if !envelope && rpc.is_some() {
        return Err("unexpected jsonrpc member".into());
    }
    let id = get.remove("id");
    let method = get.remove("method");
    let params = get.remove("params");
    let result = get.remove("result");
    let error = get.remove("error");
    if let Some(k) = get.keys().next() {
        return Err(format!("unexpected member {k:?}"));
    }
    if let Some(id) = &id {
        if Id::of(id).is_none() {
            return Err(format!("id is {id}"));
        }
    }
    match (id, method) {
        (id, Some(Value::String(m))) => {
            if result.is_some() || error.is_some() {
                return Err("method together with result or error".into());
            }
            let p = params.unwrap_or(Value::Null);
            Ok(match id {
                Some(id) => {
                    if BARE_REQUESTS.contains(&m.as_str()) && !p.is_null() {
                        return Err(format!("{m} with params"));
                    }
                    norm_request(id, &m, p)
                }
                None => {
                    if BARE_NOTES.contains(&m.as_str()) && !p.is_null() {
                        return Err(format!("{m} with params"));
                    }
                    norm_note(&m, p)
                }
            })
        }
        (Some(id), None) => {
            if params.is_some() {
                return Err("response with params".into());
            }
            match (result, error) {
                (Some(result), None) => Ok(Norm::Success { id, result }),
                (None, Some(e)) => {
                    let o = e.as_object().ok_or("error is not an object")?;
                    if let Some(k) = o.keys().find(|k| !["code", "message", "data"].contains(&k.as_str())) {
                        return Err(format!("unexpected error member {k:?}"));
                    }
                    Ok(Norm::Failure {
                        id,
                        code: o.get("code").and_then(Value::as_i64).ok_or("error code")?,
                        message: o.get("message").and_then(Value::as_str).ok_or("error message")?.into(),
                        data: o.get("data").cloned().unwrap_or(Value::Null),
                    })
                }
                _ => Err("a response needs exactly one of result and error".into()),
            }
        }
        (_, m) => Err(format!("method is {m:?}")),
    }
}

/// Splits emitted bytes into frame bodies, accepting nothing but `Content-Length: N` frames.
pub fn strict_frames(mut b: &[u8]) -> Result<Vec<Vec<u8>>, String> {
    let mut out = vec![];
    while !b.is_empty() {
        let (len, used) = strict_header(b)?.ok_or_else(|| format!("stream ends inside a header: {:?}", show(b)))?;
        b = &b[used..];
        if b.len() < len {
            return Err(format!("frame {}: {} body bytes declared, {} left", out.len(), len, b.len()));
        }
        out.push(b[..len].to_vec());
        b = &b[len..];
    }
    Ok(out)
}

/// Header of the frame at the start of `b`: (length, header size); None if incomplete.
pub fn strict_header(b: &[u8]) -> Result<Option<(usize, usize)>, String> {
    const P: &[u8] = b"Content-Length: ";
    let n = b.len().min(P.len());
    if b[..n] != P[..n] {
        return Err(format!("not a frame header: {:?}", show(b)));
    }
    if b.len() <= P.len() {
        return Ok(None);
    }
    let digits = b[P.len()..].iter().take_while(|c| c.is_ascii_digit()).count();
    if digits > 12 {
        return Err(format!("length too long: {:?}", show(b)));
    }
    let rest = &b[P.len() + digits..];
    const E: &[u8] = b"\r\n\r\n";
    let n = rest.len().min(E.len());
    if rest[..n] != E[..n] || (digits == 0 && !rest.is_empty()) {
        return Err(format!("bad header end: {:?}", show(b)));
    }
    if rest.len() < E.len() {
        return Ok(None);
    }
    let len = std::str::from_utf8(&b[P.len()..P.len() + digits]).unwrap().parse().map_err(|e| format!("{e}"))?;
    Ok(Some((len, P.len() + digits + 4)))
}

pub fn show(b: &[u8]) -> String {
    let n = b.len().min(80);
    format!("{}{}", String::from_utf8_lossy(&b[..n]), if b.len() > n { "..." } else { "" })
}

/// Reads the frames of `b` as messages; the last may be cut off.
pub fn norms_of_prefix(mut b: &[u8]) -> Result<Vec<Norm>, String> {
    let mut out = vec![];
    while let Some((len, used)) = strict_header(b)? {
        if b.len() < used + len {
            break;
        }
        out.push(norm_of_body(&b[used..used + len], true)?);
        b = &b[used + len..];
    }
    Ok(out)
}

/// Reads every frame of `b` as a message.
pub fn norms_of_stream(b: &[u8]) -> Result<Vec<Norm>, String> {
    strict_frames(b)?
        .iter()
        .enumerate()
        .map(|(i, f)| norm_of_body(f, true).map_err(|e| format!("frame {i}: {e}: {}", show(f))))
        .collect()
}

/// One incoming frame with everything about its spelling.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct FrameM {
    pub msg: Msg,
    /// extra unknown top-level members
    pub extra: Vec<(String, Value)>,
    pub salt: u64,
    /// header fields before and after Content-Length
    pub before: Vec<(String, String)>,
    pub after: Vec<(String, String)>,
    /// pad the body with spaces up to this many bytes
    pub pad: usize,
}

impl FrameM {
    pub fn plain(msg: Msg) -> FrameM {
        FrameM { msg, extra: vec![], salt: 0, before: vec![], after: vec![], pad: 0 }
    }
    pub fn body(&self) -> Vec<u8> {
        let mut v = self.msg.wire_rpc();
        for (k, x) in &self.extra {
            v[k.as_str()] = x.clone();
        }
        let mut b = spell(&v, self.salt).into_bytes();
        if b.len() < self.pad {
            let n = self.pad - b.len();
            if self.salt % 2 == 0 {
                b.extend(std::iter::repeat(b' ').take(n));
            } else {
                let mut p = vec![b' '; n];
                p.extend(b);
                b = p;
            }
        }
        b
    }
    pub fn bytes(&self) -> Vec<u8> {
        let body = self.body();
        let mut out = vec![];
        for (k, v) in &self.before {
            out.extend_from_slice(format!("{k}: {v}\r\n").as_bytes());
        }
        out.extend_from_slice(format!("Content-Length: {}\r\n", body.len()).as_bytes());
        for (k, v) in &self.after {
            out.extend_from_slice(format!("{k}: {v}\r\n").as_bytes());
        }
        out.extend_from_slice(b"\r\n");
        out.extend_from_slice(&body);
        out
    }
}
