//! Properties of the byte streams: framing, teardown, concurrency, whole sessions.
use crate::engine::*;
use crate::gen::{self, uni, S};
use crate::model::*;
use crate::scen::*;
use crate::wire::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use std::time::Duration;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::io::Read;

pub fn tr(stdio: u32) -> S<Tr> {
    uni(vec![(10, Just(Tr::Connect).boxed()), (10, Just(Tr::Listen).boxed()), (stdio, Just(Tr::Stdio).boxed())])
}
const ALL: [Tr; 3] = [Tr::Connect, Tr::Listen, Tr::Stdio];
fn norms(ms: &[Msg]) -> Vec<Norm> {
    ms.iter().map(Msg::norm).collect()
}
fn io(what: &'static str) -> impl Fn(std::io::Error) -> Fail {
    move |e| format!("{what}: {e}").into()
}
fn non_ascii(v: &impl Serialize) -> bool {
    serde_json::to_string(v).map_or(false, |s| !s.is_ascii())
}
/// Reads exactly n frames.
pub fn read_norms(r: &mut impl Read, n: usize) -> Result<Vec<Norm>, Fail> {
    let mut out = vec![];
    for i in 0..n {
        match read_norm(r) {
            Ok(Some(m)) => out.push(m),
            Ok(None) => return Err(format!("stream ended after {i} of {n} messages").into()),
            Err(e) => return Err(format!("message {i}: {e}").into()),
        }
    }
    Ok(out)
}
pub fn volume(total: usize, each: usize, base: i32) -> Vec<Msg> {
    (0..(total / each.max(1)).max(1)).map(|i| gen::blob(i as u8, base + i as i32, each)).collect()
}

// ---------------------------------------------------------------- C01

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C01Case {
    tr: Tr,
    msgs: Vec<Msg>,
    via: u8,
    /// the peer half-closes before it reads anything
    early: bool,
}
pub struct C01;
impl Prop for C01 {
    type Case = C01Case;
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "generated sequences of messages of every kind (sizes empty to megabytes, all of Unicode) sent by every send operation over a client socket, a server socket or a child's stdio; every byte the peer gets until end of file is parsed as strict frames and compared; non-trivial: non-ASCII text or a body above 8 KiB"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(18_000, 10)
    }
    fn fixed(&self, t: Tier) -> Vec<C01Case> {
        let mut v = vec![];
        for tr in ALL {
            v.push(C01Case { tr, msgs: vec![], via: 0, early: true });
            for n in [0, 1, 4096, 8192, 65536, 1 << 20, 6 << 20] {
                v.push(C01Case { tr, msgs: vec![gen::blob(0, 1, n), gen::blob(1, 2, 3), gen::blob(2, 3, n)], via: 0, early: n % 3 == 0 });
            }
            v.push(C01Case { tr, msgs: (0..t.n(500, 20) as i32).map(|i| gen::blob(i as u8, i, i as usize)).collect(), via: 3, early: true });
        }
        v
    }
    fn strategy(&self, t: Tier) -> S<C01Case> {
        let big = t.n(1 << 18, 8) as usize;
        let uni_text = (gen::id(), gen::long_text(1 << 15)).prop_map(|(id, s)| Msg::Ok { id, result: Value::from(s) }).boxed();
        let m = uni(vec![(12, gen::msg()), (1, gen::exit()), (2, gen::sized(1 << 14)), (1, gen::sized(big)), (2, uni_text)]);
        (tr(3), vec(m, 0..8), any::<u8>(), any::<bool>())
            .prop_map(|(tr, msgs, via, early)| C01Case { tr, msgs, via, early })
            .boxed()
    }
    fn run(&self, c: &C01Case, cx: &mut Cx) -> R {
        cx.label(format!("{:?}", c.tr));
        let expected = norms(&c.msgs);
        let big = c.msgs.iter().any(|m| m.wire().to_string().len() > 8192);
        cx.nontrivial(big || non_ascii(&c.msgs));
        cx.label_if(big, "above 8 KiB");
        cx.label_if(c.msgs.iter().any(|m| non_ascii(m)), "non-ASCII");
        let (mut peer, mut app) = start(c.tr, cx)?;
        if c.early {
            peer.w.close();
        }
        app.post(Cmd::Send(c.msgs.clone(), c.via));
        app.post(Cmd::Drop);
        app.post(Cmd::Join);
        app.post(Cmd::Quit);
        let mut seen = vec![];
        if !c.early {
            // everything arrives while the connection is still joined
            seen = read_norms(&mut peer.r, c.msgs.len())?;
            peer.w.close();
        }
        let bytes = peer.read_all().map_err(io("reading"))?;
        sent(app.wait(), c.msgs.len())?;
        want(app.wait(), Ev::Done, "dropping")?;
        want(app.wait(), Ev::Joined(Ok(())), "joining")?;
        app.quit()?;
        seen.extend(norms_of_stream(&bytes)?);
        same_seq("on the stream", &seen, &expected)
    }
}

// ---------------------------------------------------------------- C02

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C02Case {
    tr: Tr,
    frames: Vec<FrameM>,
    cuts: Vec<usize>,
    /// received in groups of these sizes
    groups: Vec<usize>,
}
pub struct C02;
impl Prop for C02 {
    type Case = C02Case;
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "generated frames (any message, JSON spelling, member order, unknown members, header fields before and after the length, padding) cut into generated pieces and fed over TCP or stdio, then a half-close; received messages, end of stream and join compared with the model; non-trivial: at least two frames, and pieces that do not coincide with frames, or another spelling than the compact one"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(21_000, 10)
    }
    fn fixed(&self, _: Tier) -> Vec<C02Case> {
        let mut v = vec![];
        for tr in ALL {
            v.push(C02Case { tr, frames: vec![], cuts: vec![1], groups: vec![] });
            for d in -3i64..4 {
                // frames ending around the size of a read buffer
                let base = FrameM::plain(gen::blob(1, 1, 0)).bytes().len() as i64;
                let n = (8192 - base + d - 3).max(0) as usize;
                let frames = vec![FrameM::plain(gen::blob(1, 1, n)), FrameM::plain(gen::blob(2, 2, 5)), FrameM::plain(gen::blob(0, 3, 8192))];
                v.push(C02Case { tr, frames, cuts: vec![usize::MAX >> 1], groups: vec![] });
            }
            let all: Vec<FrameM> = gen::all_methods()
                .into_iter()
                .filter(|m| *m != "build/exit" && !is_typed_request(m))
                .map(|m| FrameM::plain(Msg::Req { id: Id::I(1), method: m.into(), params: Params::Absent }))
                .collect();
            v.push(C02Case { tr, frames: all, cuts: vec![1], groups: vec![1] });
        }
        v
    }
    fn strategy(&self, t: Tier) -> S<C02Case> {
        let big = t.n(1 << 18, 8) as usize;
        let m = uni(vec![(12, gen::msg()), (1, gen::sized(1 << 14)), (1, gen::sized(big))]);
        let f = uni(vec![(3, gen::frame_of(m.clone())), (1, gen::plain_frame(m))]);
        (tr(3), vec(f, 0..9), gen::cuts(), uni(vec![(2, Just(vec![]).boxed()), (1, vec(1usize..4, 1..4).boxed())]))
            .prop_map(|(tr, frames, cuts, groups)| C02Case { tr, frames, cuts, groups })
            .boxed()
    }
    fn run(&self, c: &C02Case, cx: &mut Cx) -> R {
        cx.label(format!("{:?}", c.tr));
        let expected: Vec<Norm> = c.frames.iter().map(|f| f.msg.norm()).collect();
        let bytes: Vec<u8> = c.frames.iter().flat_map(|f| f.bytes()).collect();
        let spelled = c.frames.iter().any(|f| f.salt != 0 || !f.before.is_empty() || !f.after.is_empty() || f.pad > 0);
        let small = c.cuts[0] < bytes.len();
        cx.nontrivial(c.frames.len() > 1 && (spelled || small));
        cx.label_if(spelled, "spelled differently");
        cx.label_if(small, "cut");
        cx.label_if(c.frames.iter().any(|f| !f.before.is_empty()), "fields before the length");
        cx.label_if(c.frames.iter().any(|f| !f.after.is_empty()), "fields after the length");
        let (mut peer, mut app) = start(c.tr, cx)?;
        let mut parts = vec![];
        let mut left = expected.len();
        let mut k = 0;
        while !c.groups.is_empty() && left > 0 {
            let n = c.groups[k % c.groups.len()].min(left);
            app.post(Cmd::RecvN(n));
            parts.push(n);
            left -= n;
            k += 1;
        }
        app.post(Cmd::RecvAll);
        app.post(Cmd::Drop);
        app.post(Cmd::Join);
        app.post(Cmd::Quit);
        peer.w.write_cut(&bytes, &c.cuts).map_err(io("writing"))?;
        peer.w.close();
        let mut all = vec![];
        for _ in parts {
            all.extend(got(app.wait())?.0);
        }
        let (rest, ended) = got(app.wait())?;
        all.extend(rest);
        same_seq("received", &all, &expected)?;
        ensure!(ended, "no end of stream");
        want(app.wait(), Ev::Done, "dropping")?;
        want(app.wait(), Ev::Joined(Ok(())), "joining")?;
        app.quit()?;
        let out = peer.read_all().map_err(io("reading"))?;
        ensure!(out.is_empty(), "bytes out of nowhere: {}", show(&out));
        Ok(())
    }
}

// ---------------------------------------------------------------- C03

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Fault {
    /// a header line that is none
    Line(Vec<u8>),
    /// header lines before it, a bad length
    Length(Vec<(String, String)>, String),
    /// header without a length
    NoLength(Vec<(String, String)>),
    /// a well-framed body that is no message
    Body(Vec<u8>),
    /// brackets
    Nested(u8, usize),
    /// nested params of a proper request: may be delivered or refused
    NestedParams(usize),
    /// a frame cut at this point, counted from its end
    Cut(FrameM, gen::Ix),
    /// declared length off by this much
    Off(FrameM, i64),
    /// a declared length without a body to match
    Huge(String, Vec<u8>),
    /// a header line of this many bytes, unfinished
    EndlessLine(usize),
    /// this many header lines, then the end
    ManyLines(usize),
    /// a frame with one header line (or the empty one) ended by a bare line feed, and this put before it
    Feed(FrameM, gen::Ix, String),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C03Case {
    tr: Tr,
    frames: Vec<FrameM>,
    fault: Fault,
    tail: Vec<FrameM>,
    cuts: Vec<usize>,
    /// the peer stays connected until the application has seen the end
    stay: bool,
}
#[derive(PartialEq)]
enum Join {
    Fails,
    Any,
    Fine,
}
impl Fault {
    /// bytes; whether join must fail; whether the bytes that follow can belong to it
    fn bytes(&self) -> (Vec<u8>, Join, bool) {
        let lines = |ls: &[(String, String)]| -> String { ls.iter().map(|(k, v)| format!("{k}: {v}\r\n")).collect() };
        match self {
            Fault::Line(b) => (b.clone(), Join::Fails, false),
            Fault::Length(ls, l) => (format!("{}Content-Length: {l}\r\n\r\n", lines(ls)).into_bytes(), Join::Fails, false),
            Fault::NoLength(ls) => (format!("{}\r\n", lines(ls)).into_bytes(), Join::Fails, false),
            Fault::Body(b) => (frame(b), Join::Fails, false),
            Fault::Nested(k, n) => {
                let b = match k % 4 {
                    0 => "[".repeat(*n),
                    1 => "[".repeat(*n) + &"]".repeat(*n),
                    2 => "{\"id\":".repeat(*n),
                    _ => "{\"params\":".repeat(*n) + "1" + &"}".repeat(*n),
                };
                (frame(b.as_bytes()), Join::Fails, false)
            }
            Fault::NestedParams(n) => {
                let b = format!("{{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"x\",\"params\":{}{}}}", "[".repeat(*n), "]".repeat(*n));
                (frame(b.as_bytes()), Join::Any, true)
            }
            Fault::Cut(f, at) => {
                let b = f.bytes();
                let head = b.len() - f.body().len();
                let k = at.index(b.len());
                let join = if k == 0 {
                    Join::Fine
                } else if k < head {
                    Join::Any
                } else {
                    Join::Fails
                };
                (b[..k].to_vec(), join, true)
            }
            Fault::Off(f, d) => {
                let body = f.body();
                let n = (body.len() as i64 + d).max(0);
                let mut b = format!("Content-Length: {n}\r\n\r\n").into_bytes();
                b.extend(body);
                (b, Join::Fails, *d > 0)
            }
            Fault::Huge(n, b) => {
                let mut x = format!("Content-Length: {n}\r\n\r\n").into_bytes();
                x.extend(b);
                (x, Join::Fails, true)
            }
            Fault::EndlessLine(n) => ("H".repeat(*n).into_bytes(), Join::Any, true),
            Fault::ManyLines(n) => ("H: v\r\n".repeat(*n).into_bytes(), Join::Any, true),
            Fault::Feed(f, at, more) => {
                let b = f.bytes();
                let head = b.len() - f.body().len();
                let ends: Vec<usize> = (0..head).filter(|i| b[*i] == b'\r' && b[*i + 1] == b'\n').collect();
                let k = ends[at.index(ends.len())];
                let mut out = b[..k].to_vec();
                out.extend(more.bytes());
                out.extend(&b[k + 1..]);
                (out, Join::Fails, false)
            }
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Fault::Line(_) => "bad header line",
            Fault::Length(..) => "bad length",
            Fault::NoLength(_) => "no length",
            Fault::Body(_) => "body is no message",
            Fault::Nested(..) => "deep nesting",
            Fault::NestedParams(_) => "deep params",
            Fault::Cut(..) => "cut",
            Fault::Off(..) => "wrong length",
            Fault::Huge(..) => "huge length",
            Fault::EndlessLine(_) => "endless header line",
            Fault::ManyLines(_) => "endless header",
            Fault::Feed(..) => "bare line feed",
        }
    }
}
const BAD_LINES: &[&[u8]] = &[
    b"garbage\r\n",
    b"Content-Length\r\n",
    b"{\"jsonrpc\":\"2.0\"}\r\n",
    b"\xff\xfe: x\r\n",
    b"X: \xff\r\n",
    b"Content-Length: 2\n\n{}",
    b"Content-Length: 30\n\n{\"method\":\"a\",\"params\":[1,2,3]}",
    b"X\xc3: 1\r\n",
    b"\n",
    b"GET / HTTP/1.1\r\n",
    b"Content-Length 5\r\n",
];
const BAD_LENGTHS: &[&str] = &[
    "", "abc", "-1", "1.5", "0x10", "1e3", "12 34", "99999999999999999999999999", "\u{ff15}", "-0", "five", "1,000", "NaN", "18446744073709551616", "2;", "--2",
];
const BAD_BODIES: &[&[u8]] = &[
    b"", b" ", b"{}", b"[]", b"null", b"1", b"\"x\"", b"true", b"{\"jsonrpc\":\"2.0\"}", b"{\"foo\":1}", b"{\"method\":5}",
    b"{\"id\":null}", b"{\"method\":null,\"params\":{}}", b"{\"id\":{},\"result\":1}", b"{", b"{\"method\":\"x\"", b"{\"method\":\"x\"}}", b"{\"method\":\"x\"},",
    b"{\"method\":\"x\"} {\"method\":\"y\"}", b"\xff", b"{\"method\":\"\xff\"}", b"{\"method\":\"x\",\"params\":\"\xc3\"}", b"{\"method\":\"x\",\"params\":\"\xed\xa0\x80\"}",
    b"{\"method\":\"\\ud800\"}", b"{'method':'x'}", b"{\"method\":\"x\",}", b"\xef\xbb\xbf{\"method\":\"x\"}", b"{\"method\":\"a\nb\"}", b"{\"result\":1}", b"{\"error\":{\"code\":1,\"message\":\"m\"}}",
    b"{\"method\":\"x\"}\x00", b"{\"params\":[]}", b"{\"id\":\"x\",\"error\":{\"code\":1}}", b"{\"id\":1,\"error\":{\"message\":\"m\"}}", b"{\"id\":1,\"error\":5}", b"{\"method\":\"x\",\"params\":01}", b"{\"method\":\"x\",\"params\":nul}",
    b"{\"method\":\"build/taskStart\",\"params\":7}", b"{\"method\":\"build/showMessage\",\"params\":{\"type\":9,\"message\":\"m\"}}", b"{\"method\":\"build/logMessage\"}", b"not json", b"Content-Length: 2\r\n\r\n{}",
];
pub struct C03;
impl Prop for C03 {
    type Case = C03Case;
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "valid frames, then one generated fault (header line, length, body bytes, nesting, declared length too small, too large or absurd, a cut at any byte), then more frames, in generated pieces over TCP and stdio; delivered messages, end of stream, join and process exit compared with the model, in a process with limited memory; every case is non-trivial that has a frame before the fault or bytes after it"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(24_000, 10)
    }
    fn fixed(&self, _: Tier) -> Vec<C03Case> {
        let f = |i| FrameM::plain(gen::blob(1, i, 3));
        let mut v = vec![];
        let mut add = |tr: Tr, fault: Fault, stay: bool, n: usize| {
            v.push(C03Case { tr, frames: (0..n as i32).map(f).collect(), fault, tail: vec![f(90), f(91)], cuts: vec![usize::MAX >> 1], stay });
        };
        for (i, b) in BAD_LINES.iter().enumerate() {
            add(ALL[i % 2], Fault::Line(b.to_vec()), true, 1);
        }
        for (i, b) in BAD_LENGTHS.iter().enumerate() {
            add(ALL[i % 2], Fault::Length(vec![], b.to_string()), true, 1);
        }
        for (i, b) in BAD_BODIES.iter().enumerate() {
            add(ALL[i % 2], Fault::Body(b.to_vec()), true, 1);
        }
        for n in ["18446744073709551615", "9223372036854775807", "9223372036854775808", "1099511627776", "68719476736", "4294967295", "2147483648"] {
            for tr in ALL {
                add(tr, Fault::Huge(n.into(), b"{\"method\":\"x\"}".to_vec()), false, 1);
                add(tr, Fault::Huge(n.into(), vec![]), false, 0);
            }
        }
        for k in 0..4 {
            for n in [130, 1000, 100_000] {
                add(ALL[k as usize % 3], Fault::Nested(k, n), false, 1);
            }
        }
        for n in [100, 126, 127, 128, 129, 5000, 1_000_000] {
            add(Tr::Connect, Fault::NestedParams(n), false, 1);
        }
        for (k, more) in ["", "0", "7", " ", "\r\r"].iter().enumerate() {
            for i in 0..2 {
                add(ALL[k % 2], Fault::Feed(f(5), gen::Ix::at(i, 2), more.to_string()), true, 1);
            }
        }
        add(Tr::Connect, Fault::EndlessLine(5 << 20), false, 1);
        add(Tr::Connect, Fault::ManyLines(1 << 18), false, 1);
        // every cut of a small frame
        let small = FrameM { msg: gen::blob(0, 1, 1), extra: vec![], salt: 0, before: vec![("A".into(), "b".into())], after: vec![("C".into(), "d".into())], pad: 0 };
        let len = small.bytes().len();
        for k in 0..len {
            let at = gen::Ix::at(k, len);
            v.push(C03Case { tr: ALL[k % 2], frames: vec![f(1)], fault: Fault::Cut(small.clone(), at), tail: vec![], cuts: vec![5], stay: false });
        }
        v
    }
    fn strategy(&self, _: Tier) -> S<C03Case> {
        let fr = gen::frame_of(uni(vec![(5, gen::msg()), (1, gen::sized(1 << 14))]));
        let hs = vec(("[A-Za-z-]{1,8}", "[ -~]{0,9}"), 0..3)
            .prop_map(|v| v.into_iter().map(|(k, x)| (if k.eq_ignore_ascii_case("content-length") { "X".to_string() } else { k }, x)).collect::<Vec<_>>())
            .boxed();
        // bytes that are no message, whatever they are: never an object with a method or an outcome
        let mangled = (gen::msg(), any::<u64>(), vec((gen::ix(), any::<u8>()), 1..4)).prop_map(|(m, s, edits)| {
            let mut b = spell(&m.wire_rpc(), s).into_bytes();
            for (at, x) in edits {
                let i = at.index(b.len());
                b[i] = x;
            }
            b
        });
        let junk = vec(any::<u8>(), 0..60).boxed();
        let cut_body = (gen::msg(), any::<u64>(), gen::ix()).prop_map(|(m, s, at)| {
            // a JSON text cut short is never a JSON text
            let t = spell(&m.wire_rpc(), s);
            let t = t.trim();
            t.as_bytes()[..at.index(t.len())].to_vec()
        });
        let other = gen::json().prop_map(|v| match v {
            Value::Object(o) => Value::Object(o.into_iter().filter(|(k, _)| k != "method" && k != "id").collect()),
            Value::Array(a) => Value::Array(a.into_iter().chain([json!(1), json!(2), json!(3), json!(4)]).collect()),
            v => v,
        });
        let body = uni(vec![
            (3, select(BAD_BODIES.to_vec()).prop_map(|b| b.to_vec()).boxed()),
            (3, mangled.boxed()),
            (2, junk.clone()),
            (3, cut_body.boxed()),
            (3, other.prop_map(|v| v.to_string().into_bytes()).boxed()),
        ])
        // decided here by an independent reading of the bytes
        .prop_map(|b| if no_message(&b) { b } else { b"{\"method\":".to_vec() });
        let line = uni(vec![
            (3, select(BAD_LINES.to_vec()).prop_map(|b| b.to_vec()).boxed()),
            (
                2,
                vec(any::<u8>().prop_map(|b| if b == b'\n' || b == b':' || b == b'\r' { b'.' } else { b }), 1..40)
                    .prop_map(|mut b| {
                        b.extend(b"\r\n");
                        b
                    })
                    .boxed(),
            ),
        ]);
        let length = uni(vec![
            (2, select(BAD_LENGTHS.to_vec()).prop_map(String::from).boxed()),
            (2, "[a-z-][0-9a-z]{0,8}".boxed()),
            (1, "[0-9]{1,4}[a-zA-Z.,;_][0-9]{0,3}".boxed()),
            (1, "[2-9][0-9]{19,40}".boxed()),
        ]);
        let fault = uni(vec![
            (3, line.prop_map(Fault::Line).boxed()),
            (3, (hs.clone(), length).prop_map(|(h, l)| Fault::Length(h, l)).boxed()),
            (2, hs.prop_map(Fault::NoLength).boxed()),
            (8, body.prop_map(Fault::Body).boxed()),
            (1, (any::<u8>(), 128usize..3000).prop_map(|(k, n)| Fault::Nested(k, n)).boxed()),
            (1, (90usize..140).prop_map(Fault::NestedParams).boxed()),
            (8, (fr.clone(), gen::ix()).prop_map(|(f, i)| Fault::Cut(f, i)).boxed()),
            (3, (fr.clone(), (1i64..40)).prop_map(|(mut f, d)| {
                f.salt = 0;
                f.pad = 0;
                Fault::Off(f, -d)
            }).boxed()),
            (2, (fr.clone(), (1i64..4000)).prop_map(|(f, d)| Fault::Off(f, d)).boxed()),
            (2, (any::<u64>().prop_map(|n| (n | (1 << 33)).to_string()), junk).prop_map(|(n, b)| Fault::Huge(n, b)).boxed()),
            (1, (1usize..40_000).prop_map(Fault::EndlessLine).boxed()),
            (1, (1usize..2000).prop_map(Fault::ManyLines).boxed()),
            (3, (fr.clone(), gen::ix(), uni(vec![(1, Just(String::new()).boxed()), (2, "[0-9]".boxed()), (1, "[ -~]".boxed())])).prop_map(|(f, i, m)| Fault::Feed(f, i, m)).boxed()),
        ]);
        let tail_frame = gen::plain_frame(uni(vec![(4, gen::msg()), (1, gen::exit())]));
        (tr(2), vec(fr, 0..5), fault, vec(tail_frame, 0..3), gen::cuts(), any::<bool>())
            .prop_map(|(tr, frames, fault, tail, cuts, stay)| C03Case { tr, frames, fault, tail, cuts, stay })
            .boxed()
    }
    fn run(&self, c: &C03Case, cx: &mut Cx) -> R {
        let (fault, join, open_ended) = c.fault.bytes();
        // a child reports what it received as JSON, and that must not be too deep itself
        let tr = if matches!(c.fault, Fault::NestedParams(_)) && c.tr == Tr::Stdio { Tr::Connect } else { c.tr };
        cx.label(c.fault.name());
        cx.label(format!("{tr:?}"));
        let mut bytes: Vec<u8> = c.frames.iter().flat_map(|f| f.bytes()).collect();
        bytes.extend(&fault);
        if !open_ended {
            let mut tail: Vec<u8> = c.tail.iter().flat_map(|f| f.bytes()).collect();
            tail.truncate(16_000);
            cx.nontrivial(!tail.is_empty());
            bytes.extend(tail);
        }
        cx.nontrivial(!c.frames.is_empty());
        let stay = c.stay && !open_ended;
        cx.label_if(stay, "peer stays");
        let expected: Vec<Norm> = c.frames.iter().map(|f| f.msg.norm()).collect();
        let (mut peer, mut app) = start(tr, cx)?;
        app.post(Cmd::RecvAll);
        app.post(Cmd::Drop);
        app.post(Cmd::Join);
        app.post(Cmd::Quit);
        // the application may stop reading early
        let _ = peer.w.write_cut(&bytes, &c.cuts);
        if !stay {
            peer.w.close();
        }
        let (mut all, ended) = got(app.wait())?;
        if let (Fault::NestedParams(_), true) = (&c.fault, all.len() == expected.len() + 1) {
            let m = all.pop().unwrap();
            ensure!(m.kind() == "request", "the deep request became {}", cut(&format!("{m:?}"), 200));
        }
        same_seq("received", &all, &expected)?;
        ensure!(ended, "no end of stream");
        want(app.wait(), Ev::Done, "dropping")?;
        match (app.wait(), join) {
            (Ev::Joined(Ok(())), Join::Fails) => fail!("joining reports success after: {}", cut(&String::from_utf8_lossy(&fault), 300)),
            (Ev::Joined(Err(e)), Join::Fine) => fail!("joining reports {e} after a clean end"),
            (Ev::Joined(_), _) => {}
            (e, _) => fail!("joining: {e:?}"),
        }
        peer.w.close();
        app.quit()
    }
}
/// Bytes that no reading of JSON-RPC takes for a message.
fn no_message(b: &[u8]) -> bool {
    let text = match std::str::from_utf8(b) {
        Ok(t) => t,
        Err(_) => return true,
    };
    match serde_json::from_str::<Value>(text) {
        Err(_) => true,
        Ok(Value::Object(o)) => !o.contains_key("method") && !o.contains_key("id"),
        Ok(Value::Array(a)) => a.len() > 3,
        Ok(_) => true,
    }
}

// ---------------------------------------------------------------- C10

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C10Case {
    tr: Tr,
    frames: Vec<FrameM>,
    exit: FrameM,
    tail: Vec<u8>,
    cuts: Vec<usize>,
    after: Vec<Msg>,
    /// the peer half-closes with the exit
    close: bool,
}
fn alike() -> S<Msg> {
    let near = select(vec!["exit", "build/Exit", "build/exit ", " build/exit", "build/exi", "build/exits", "Build/exit", "build/shutdown", "workspace/exit", "build/exit\u{0}", "$/exit", "build.exit"]);
    uni(vec![
        (2, (gen::id(), gen::params_any()).prop_map(|(id, params)| Msg::Req { id, method: "build/exit".into(), params }).boxed()),
        (2, (near.clone(), gen::params_any()).prop_map(|(m, params)| Msg::Note { method: m.into(), params }).boxed()),
        (1, (gen::id(), near, gen::params_any()).prop_map(|(id, m, params)| Msg::Req { id, method: m.into(), params }).boxed()),
        (1, gen::id().prop_map(|id| Msg::Ok { id, result: json!({"method": "build/exit"}) }).boxed()),
        (1, gen::id().prop_map(|id| Msg::Req { id, method: "build/shutdown".into(), params: Params::Absent }).boxed()),
    ])
}
pub struct C10;
impl Prop for C10 {
    type Case = C10Case;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "streams of generated frames and look-alikes of exit, then exit in a generated spelling, then frames or junk, with the peer staying connected; delivered messages, end of stream, the reading thread's result, and sending afterwards compared with the model; non-trivial: a look-alike before exit or bytes after it"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(18_000, 10)
    }
    fn fixed(&self, _: Tier) -> Vec<C10Case> {
        let exit = |params| FrameM::plain(Msg::Note { method: "build/exit".into(), params });
        let mut v = vec![];
        for tr in ALL {
            for p in [Params::Absent, Params::Is(Value::Null), Params::Is(json!({})), Params::Is(json!([1])), Params::Is(json!({"method": "x"}))] {
                for close in [false, true] {
                    v.push(C10Case {
                        tr,
                        frames: vec![FrameM::plain(Msg::Req { id: Id::I(1), method: "build/exit".into(), params: Params::Absent })],
                        exit: exit(p.clone()),
                        tail: frame_msg(&gen::blob(1, 5, 5)),
                        cuts: vec![usize::MAX >> 1],
                        after: vec![gen::blob(2, 1, 10)],
                        close,
                    });
                }
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> S<C10Case> {
        let m = uni(vec![(3, gen::msg()), (2, alike())]);
        let f = uni(vec![(2, gen::frame_of(m.clone())), (1, gen::plain_frame(m.clone()))]);
        let exit = gen::frame_of(gen::exit());
        let tail = uni(vec![
            (1, Just(vec![]).boxed()),
            (3, vec(gen::plain_frame(m), 0..3).prop_map(|f| f.iter().flat_map(|f| f.bytes()).collect::<Vec<u8>>()).boxed()),
            (1, gen::exit().prop_map(|e| frame_msg(&e)).boxed()),
            (2, vec(any::<u8>(), 1..60).boxed()),
            (1, Just(b"garbage\r\n\r\n".to_vec()).boxed()),
        ])
        .prop_map(|mut t| {
            t.truncate(12_000);
            t
        });
        (tr(3), vec(f, 0..5), exit, tail, gen::cuts(), vec(gen::msg(), 0..3), prop::bool::weighted(0.25))
            .prop_map(|(tr, frames, exit, tail, cuts, after, close)| C10Case { tr, frames, exit, tail, cuts, after, close })
            .boxed()
    }
    fn run(&self, c: &C10Case, cx: &mut Cx) -> R {
        cx.label(format!("{:?}", c.tr));
        let mut expected: Vec<Norm> = c.frames.iter().map(|f| f.msg.norm()).collect();
        expected.push(c.exit.msg.norm());
        let mut bytes: Vec<u8> = c.frames.iter().flat_map(|f| f.bytes()).collect();
        bytes.extend(c.exit.bytes());
        bytes.extend(&c.tail);
        let like = c.frames.iter().any(|f| f.msg.wire().to_string().contains("xit"));
        cx.nontrivial(like || !c.tail.is_empty());
        cx.label_if(like, "look-alikes");
        cx.label_if(!c.tail.is_empty(), "bytes after exit");
        cx.label_if(!c.close, "peer stays");
        let (mut peer, mut app) = start(c.tr, cx)?;
        app.post(Cmd::RecvAll);
        app.post(Cmd::JoinReader);
        app.post(Cmd::Send(c.after.clone(), 0));
        peer.w.write_cut(&bytes, &c.cuts).map_err(io("writing"))?;
        if c.close {
            peer.w.close();
        }
        let (all, ended) = got(app.wait())?;
        same_seq("received", &all, &expected)?;
        ensure!(ended, "no end of stream");
        want(app.wait(), Ev::Joined(Ok(())), "joining the reader")?;
        let seen = read_norms(&mut peer.r, c.after.len())?;
        sent(app.wait(), c.after.len())?;
        same_seq("sent afterwards", &seen, &norms(&c.after))?;
        want(app.call(Cmd::Drop), Ev::Done, "dropping")?;
        want(app.call(Cmd::JoinWriter), Ev::Joined(Ok(())), "joining the writer")?;
        peer.w.close();
        app.quit()
    }
}

// ---------------------------------------------------------------- C11

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum End {
    /// reads to the end, half-closes after writing
    Reads,
    /// reads to the end, half-closes only once it has read everything that was sent
    ReadsFirst,
    /// sends exit, and closes once the application is joined
    Exit,
    /// goes away without reading
    Gone,
    /// goes away after reading this many frames
    GoneAfter(usize),
    /// goes away, and only then does the application send
    GoneBefore,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C11Case {
    tr: Tr,
    frames: Vec<FrameM>,
    cuts: Vec<usize>,
    out: Vec<Msg>,
    /// messages received before anything is sent
    first: usize,
    /// order of taking things down
    steps: Vec<u8>,
    end: End,
}
/// what a peer that goes away writes at most, so that writing cannot block
const GONE_BYTES: usize = 30_000;
pub struct C11;
impl C11 {
    /// The teardown, as commands that cannot wait for themselves.
    fn script(c: &C11Case) -> Vec<Cmd> {
        let mut v = vec![];
        // a peer that waits for our output before it goes away: nothing may wait for its end, or for more than it
        // wrote, before that output is sent
        let waits = matches!(c.end, End::GoneAfter(_));
        let short = waits && c.frames.iter().map(|f| f.bytes().len()).sum::<usize>() > GONE_BYTES;
        if c.first > 0 && !short {
            v.push(Cmd::RecvN(c.first));
        }
        let ends = c.end != End::ReadsFirst && c.end != End::Exit;
        let (mut sent, mut tx, mut rx, mut joined) = (false, true, true, false);
        for s in &c.steps {
            match s % 9 {
                0 | 1 if !sent => {
                    sent = true;
                    v.push(Cmd::Send(c.out.clone(), *s / 9));
                }
                2 if !sent => {
                    sent = true;
                    v.push(Cmd::SendBg(c.out.clone()));
                    v.push(Cmd::WaitBg);
                }
                3 if rx && ends && (sent || !waits) => v.push(Cmd::RecvAll),
                4 if rx => {
                    v.push(Cmd::DropReceiver);
                    rx = false;
                }
                5 if tx && sent => {
                    v.push(Cmd::DropSender);
                    tx = false;
                }
                6 if !rx && ends && !joined && (sent || !waits) => v.push(Cmd::JoinReader),
                7 if !tx => {
                    v.push(Cmd::JoinWriter);
                    joined = false;
                }
                8 if rx && c.first < c.frames.len() && (sent || !short) => v.push(Cmd::RecvN(1)),
                _ => {}
            }
        }
        if !sent {
            v.push(Cmd::Send(c.out.clone(), 0));
        }
        // at most the frames there are, unless the stream ends
        let mut left = c.frames.len().saturating_sub(c.first);
        v.retain(|c| match c {
            Cmd::RecvN(1) if left == 0 => false,
            Cmd::RecvN(1) => {
                left -= 1;
                true
            }
            _ => true,
        });
        v.push(Cmd::Drop);
        v.push(Cmd::Join);
        v
    }
}
impl Prop for C11 {
    type Case = C11Case;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "generated orders of receiving, sending (in the foreground or background), dropping either half or the connection and joining, against a peer that reads and half-closes early or late, sends exit, or goes away at a generated point, over TCP and stdio; results of joining, absence of panics and of blocking, and every byte the peer got compared with what was accepted; non-trivial: messages both ways, or a peer that goes away"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(18_000, 10)
    }
    fn fixed(&self, _: Tier) -> Vec<C11Case> {
        let mut v = vec![];
        for tr in ALL {
            for end in [End::Reads, End::ReadsFirst, End::Exit, End::Gone, End::GoneAfter(1), End::GoneBefore] {
                for steps in [vec![], vec![4u8, 0, 5, 6, 7], vec![0, 5, 7, 4, 6], vec![3, 0, 4], vec![8, 4, 6, 0], vec![2, 5, 4, 7, 6]] {
                    v.push(C11Case {
                        tr,
                        frames: (0..4).map(|i| FrameM::plain(gen::blob(1, i, 20))).collect(),
                        cuts: vec![usize::MAX >> 1],
                        out: (0..6).map(|i| gen::blob(i as u8, i, 30)).collect(),
                        first: 0,
                        steps,
                        end: end.clone(),
                    });
                }
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> S<C11Case> {
        let m = uni(vec![(8, gen::msg()), (1, gen::sized(1 << 14))]);
        let out = uni(vec![(6, vec(m.clone(), 0..6).boxed()), (1, vec(gen::sized(1 << 16), 1..12).boxed())]);
        let end = uni(vec![
            (5, Just(End::Reads).boxed()),
            (3, Just(End::ReadsFirst).boxed()),
            (3, Just(End::Exit).boxed()),
            (2, Just(End::Gone).boxed()),
            (2, (0usize..5).prop_map(End::GoneAfter).boxed()),
            (2, Just(End::GoneBefore).boxed()),
        ]);
        (tr(3), vec(gen::plain_frame(m), 0..6), gen::cuts(), out, 0usize..6, vec(any::<u8>(), 0..10), end)
            .prop_map(|(tr, frames, cuts, out, first, steps, end)| C11Case { tr, first: first.min(frames.len()), frames, cuts, out, steps, end })
            .boxed()
    }
    fn run(&self, c: &C11Case, cx: &mut Cx) -> R {
        cx.label(format!("{:?}", c.tr));
        cx.label(format!("{:?}", c.end).split('(').next().unwrap().to_string());
        let gone = matches!(c.end, End::Gone | End::GoneAfter(_) | End::GoneBefore);
        cx.nontrivial(gone || (!c.frames.is_empty() && !c.out.is_empty()));
        let mut bytes: Vec<u8> = c.frames.iter().flat_map(|f| f.bytes()).collect();
        let mut expected_in: Vec<Norm> = c.frames.iter().map(|f| f.msg.norm()).collect();
        if c.end == End::Exit {
            let exit = Msg::Note { method: "build/exit".into(), params: Params::Absent };
            expected_in.push(exit.norm());
            bytes.extend(frame_msg(&exit));
        }
        let script = C11::script(c);
        let (mut peer, mut app) = start(c.tr, cx)?;
        // ---- the peer
        let mut events = vec![];
        let mut wire: Vec<u8> = vec![];
        let mut wire_norms: Vec<Norm> = vec![];
        let mut full = true;
        match &c.end {
            End::Reads | End::ReadsFirst | End::Exit => {
                for s in &script {
                    app.post(s.clone());
                }
                app.post(Cmd::Quit);
                let Peer { mut w, mut r } = peer;
                let n = c.out.len();
                let first = c.end == End::ReadsFirst;
                let (cuts, bytes) = (&c.cuts, &bytes);
                std::thread::scope(|s| -> R {
                    let (dtx, drx) = crossbeam_channel::bounded::<()>(0);
                    let end = &c.end;
                    let writer = s.spawn(move || {
                        let r = w.write_cut(bytes, cuts);
                        match end {
                            End::Reads => w.close(),
                            // stays connected until told
                            _ => {
                                let _ = drx.recv();
                                w.close();
                            }
                        }
                        r
                    });
                    if first {
                        let mut bad: Option<Fail> = None;
                        while wire_norms.len() < n && full {
                            match read_norm(&mut r) {
                                Ok(Some(m)) => wire_norms.push(m),
                                Ok(None) => full = false,
                                // it closed with bytes of ours unread
                                Err(e) if cut_off(&e, c.tr) => full = false,
                                Err(e) => {
                                    bad = Some(format!("read by the peer: {e}").into());
                                    break;
                                }
                            }
                        }
                        if let Some(f) = bad {
                            drop(dtx);
                            let _ = writer.join();
                            return Err(f);
                        }
                        drop(dtx);
                    } else if c.end == End::Exit {
                        // joining needs no close; the rest is read when the application is done
                        let res = read_rest(&mut r, c.tr, &mut wire, &script, &mut app, &mut events);
                        drop(dtx);
                        let _ = writer.join();
                        return res.map(|f| full = f);
                    } else {
                        drop(dtx);
                    }
                    let res = match r.read_to_end(&mut wire) {
                        Ok(_) => Ok(()),
                        // the application closed with bytes of ours unread
                        Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset => {
                            full = false;
                            Ok(())
                        }
                        Err(e) => Err(Fail::from(format!("reading: {e}"))),
                    };
                    for _ in events.len()..script.len() {
                        events.push(app.wait());
                    }
                    // frees a writer nobody reads from
                    if app.is_child() {
                        app.post(Cmd::Quit);
                    }
                    let _ = writer.join();
                    res
                })?;
            }
            End::Gone | End::GoneAfter(_) => {
                for s in &script {
                    app.post(s.clone());
                }
                app.post(Cmd::Quit);
                let _ = peer.w.write_cut(&bytes[..bytes.len().min(GONE_BYTES)], &c.cuts);
                if let End::GoneAfter(k) = &c.end {
                    for _ in 0..(*k).min(c.out.len()) {
                        match read_norm(&mut peer.r) {
                            Ok(Some(n)) => wire_norms.push(n),
                            Ok(None) => break,
                            Err(e) => {
                                // the application may have closed on our unread bytes
                                if cut_off(&e, c.tr) {
                                    break;
                                }
                                return Err(format!("read by the peer: {e}").into());
                            }
                        }
                    }
                }
                drop(peer);
                full = false;
            }
            End::GoneBefore => {
                let _ = peer.w.write_cut(&bytes[..bytes.len().min(GONE_BYTES)], &c.cuts);
                drop(peer);
                for s in &script {
                    app.post(s.clone());
                }
                app.post(Cmd::Quit);
                full = false;
            }
        }
        for _ in events.len()..script.len() {
            events.push(app.wait());
        }
        app.quit()?;
        // ---- judgement
        let mut received = vec![];
        let mut accepted = 0;
        let mut sending_failed = None;
        for (s, e) in script.iter().zip(&events) {
            match (s, e) {
                (_, Ev::Panicked(p)) => fail!("{s:?} panicked: {p}"),
                (_, Ev::Died(p)) => fail!("the application died: {p}"),
                (Cmd::RecvN(_) | Cmd::RecvAll, Ev::Got(v, _)) => received.extend(v.clone()),
                (Cmd::Send(..) | Cmd::WaitBg, Ev::Sent(n, err)) => {
                    accepted += n;
                    sending_failed = sending_failed.or(err.clone());
                }
                (Cmd::Join | Cmd::JoinReader | Cmd::JoinWriter, Ev::Joined(r)) => {
                    if let (Err(e), false) = (r, gone) {
                        fail!("{s:?} failed though the peer did nothing wrong: {e}");
                    }
                }
                _ => {}
            }
        }
        // what was received is a start of what was sent
        ensure!(received.len() <= expected_in.len(), "{} messages received of {}", received.len(), expected_in.len());
        same_seq("received", &received, &expected_in[..received.len()])?;
        let expected = norms(&c.out);
        if !gone {
            ensure!(sending_failed.is_none() && accepted == expected.len(), "sending failed: {accepted} of {}, {sending_failed:?}", expected.len());
        }
        let unread = received.len() < expected_in.len();
        if !gone && !unread {
            ensure!(full, "the connection was cut after {} of {} messages though nothing was left unread", wire_norms.len(), expected.len());
            cx.label("everything checked");
            wire_norms.extend(norms_of_stream(&wire)?);
            same_seq("the peer got", &wire_norms, &expected)
        } else if gone {
            let n = wire_norms.len().min(expected.len());
            same_seq("the peer got", &wire_norms, &expected[..n])
        } else {
            cx.label("left unread by the application");
            let (n, _) = frames_prefix(&wire)?;
            wire_norms.extend(n);
            let n = wire_norms.len().min(expected.len());
            same_seq("the peer got", &wire_norms, &expected[..n])?;
            // a TCP socket closed with bytes unread is reset, which may discard what is still on its way
            ensure!(!full || c.tr != Tr::Stdio || n == expected.len(), "the peer got {n} of {} messages", expected.len());
            Ok(())
        }
    }
}
/// A TCP socket closed with bytes of the peer unread is reset, which discards what is on its way, in the middle of a
/// frame if need be; whether the peer's reading or writing end is told is a matter of chance.
fn cut_off(e: &str, tr: Tr) -> bool {
    tr != Tr::Stdio && ["read:", "inside a body", "stream ends inside"].iter().any(|p| e.starts_with(p))
}
/// Reads to the end while the application goes on; a child ends its output only when it exits.
fn read_rest(r: &mut PeerR, tr: Tr, wire: &mut Vec<u8>, script: &[Cmd], app: &mut App, events: &mut Vec<Ev>) -> Result<bool, Fail> {
    let mut full = true;
    std::thread::scope(|s| {
        let h = s.spawn(|| {
            let mut v = vec![];
            let e = r.read_to_end(&mut v);
            (v, e)
        });
        for _ in 0..script.len() {
            events.push(app.wait());
        }
        if tr == Tr::Stdio {
            app.post(Cmd::Quit);
        }
        let (v, e) = h.join().unwrap();
        *wire = v;
        match e {
            Ok(_) => {}
            Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset => full = false,
            Err(e) => return Err(Fail::from(format!("reading: {e}"))),
        }
        Ok(full)
    })
}
/// Whole frames at the start of the bytes, the rest being the start of one.
fn frames_prefix(mut b: &[u8]) -> Result<(Vec<Norm>, usize), Fail> {
    let mut out = vec![];
    while let Some((len, used)) = strict_header(b)? {
        if b.len() < used + len {
            break;
        }
        out.push(norm_of_body(&b[used..used + len], true)?);
        b = &b[used + len..];
        if b.is_empty() {
            break;
        }
    }
    Ok((out, b.len()))
}

// ---------------------------------------------------------------- C17

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C17Case {
    tr: Tr,
    threads: Vec<Vec<(u8, Value, usize)>>,
    cuts: Vec<usize>,
}
pub struct C17;
impl Prop for C17 {
    type Case = C17Case;
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "2 to 8 threads released together, each sending its own generated messages (small and up to hundreds of kilobytes) through a clone of the sender, while the peer reads in generated pieces; frames strict, each message once, each thread's in order; non-trivial: at least two threads with two messages each"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(10_000, 15)
    }
    fn fixed(&self, _: Tier) -> Vec<C17Case> {
        ALL.iter()
            .flat_map(|&tr| [10usize, 3000, 70_000].map(|n| C17Case { tr, threads: (0..8).map(|t| (0..30).map(|i| ((i * 7 % 48) as u8, json!(t), n * (i % 2))).collect()).collect(), cuts: vec![4096] }))
            .collect()
    }
    fn strategy(&self, _: Tier) -> S<C17Case> {
        let size = uni(vec![(6, (0usize..40).boxed()), (3, gen::boundary_len(1 << 14)), (1, gen::boundary_len(1 << 17))]);
        let one = (any::<u8>(), gen::json(), size);
        (tr(2), vec(vec(one, 0..12), 2..9), gen::cuts()).prop_map(|(tr, threads, cuts)| C17Case { tr, threads, cuts }).boxed()
    }
    fn run(&self, c: &C17Case, cx: &mut Cx) -> R {
        cx.label(format!("{:?}", c.tr));
        cx.nontrivial(c.threads.iter().filter(|t| t.len() > 1).count() > 1);
        let all: Vec<Vec<Msg>> = c
            .threads
            .iter()
            .enumerate()
            .map(|(t, ms)| {
                ms.iter()
                    .enumerate()
                    .map(|(i, (k, v, n))| {
                        let id = Id::S(format!("{t}.{i}"));
                        let pad = gen::bulk(k / 4, *n);
                        let body = || if k / 24 % 2 == 0 { pad.clone() } else { json!([v, pad]) };
                        match k % 4 {
                            0 => Msg::Req { id, method: "custom/c".into(), params: Params::Is(body()) },
                            1 => Msg::Note { method: "custom/n".into(), params: Params::Is(json!({"tag": format!("{t}.{i}"), "v": v, "p": pad})) },
                            2 => Msg::Err { id, error: ErrM { code: i as i32, message: format!("{t}"), data: Some(body()) } },
                            _ => Msg::Ok { id, result: body() },
                        }
                    })
                    .collect()
            })
            .collect();
        let total: usize = all.iter().map(Vec::len).sum();
        let (mut peer, mut app) = start(c.tr, cx)?;
        peer.w.close();
        app.post(Cmd::Producers(all.clone()));
        app.post(Cmd::Drop);
        app.post(Cmd::Join);
        app.post(Cmd::Quit);
        let mut bytes = vec![];
        let mut buf = vec![0; 1 << 16];
        let mut k = 0;
        loop {
            let n = if k < 2000 { c.cuts[k % c.cuts.len()].clamp(1, buf.len()) } else { buf.len() };
            match peer.r.read(&mut buf[..n]) {
                Ok(0) => break,
                Ok(n) => bytes.extend_from_slice(&buf[..n]),
                Err(e) => fail!("reading: {e}"),
            }
            k += 1;
        }
        sent(app.wait(), total)?;
        want(app.wait(), Ev::Done, "dropping")?;
        want(app.wait(), Ev::Joined(Ok(())), "joining")?;
        app.quit()?;
        let seen = norms_of_stream(&bytes)?;
        ensure!(seen.len() == total, "{} messages arrived of {total}", seen.len());
        let mut next = vec![0; all.len()];
        let mut switches = 0;
        let mut last = usize::MAX;
        for n in &seen {
            let tag = match n {
                Norm::Request { id, .. } | Norm::Success { id, .. } | Norm::Failure { id, .. } => id.clone(),
                Norm::Notification { params, .. } => params["tag"].clone(),
                n => fail!("unexpected {n:?}"),
            };
            let t: usize = tag.as_str().and_then(|t| t.split('.').next()?.parse().ok()).unwrap_or(usize::MAX);
            ensure!(t < all.len(), "unexpected {tag}");
            match all[t].get(next[t]) {
                Some(m) => same("next of its thread", n, &m.norm())?,
                None => fail!("a message of thread {t} too many: {tag}"),
            }
            next[t] += 1;
            switches += (t != last) as u64;
            last = t;
        }
        cx.label_if(switches > all.len() as u64, "interleaved");
        Ok(())
    }
}

// ---------------------------------------------------------------- C22

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C22Case {
    tr: Tr,
    early: Vec<Msg>,
    init: Value,
    result: Value,
    msgs: Vec<Msg>,
    lockstep: bool,
    cuts: Vec<usize>,
}
pub struct C22;
/// What the documented server answers.
fn answer(m: &Msg) -> Option<Norm> {
    let (id, method, params) = match m {
        Msg::Req { id, method, params } => (id.json(), method.as_str(), params.value()),
        _ => return None,
    };
    let result = match method {
        "workspace/buildTargets" => json!({"targets": []}),
        "buildTarget/sources" => json!({ "items": params["targets"].as_array().map_or(0, Vec::len) }),
        "buildTarget/compile" => json!({ "statusCode": 1, "originId": params["originId"] }),
        m if m.starts_with("echo/") => params,
        m => return Some(Norm::Failure { id, code: -32601, message: format!("no {m}"), data: Value::Null }),
    };
    Some(Norm::Success { id, result })
}
impl Prop for C22 {
    type Case = C22Case;
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "whole sessions of the documented server: messages before initialize, the handshake, generated requests, notifications and responses, shutdown and exit; pipelined in generated pieces or in lock-step, over TCP and stdio; every response compared with a model of the server, what the server saw with what was sent, joins on both sides; non-trivial: at least three requests in the session"
    }
    /// mostly waiting for delayed acknowledgements
    fn threads(&self) -> usize {
        32
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(6_000, 10)
    }
    fn fixed(&self, _: Tier) -> Vec<C22Case> {
        let mut v = vec![];
        for tr in ALL {
            for lockstep in [true, false] {
                let mut msgs: Vec<Msg> = vec![];
                for m in gen::all_methods() {
                    if BARE_REQUESTS.contains(&m) && m != "build/shutdown" || is_typed_note(m) {
                        msgs.push(Msg::Req { id: Id::I(msgs.len() as i32), method: m.into(), params: Params::Absent });
                    }
                }
                msgs.extend((0..300).map(|i| Msg::Req { id: Id::I(i), method: "echo/x".into(), params: Params::Is(json!("y".repeat(i as usize * 7))) }));
                v.push(C22Case { tr, early: vec![], init: json!({"displayName": "c", "rootUri": "file:///"}), result: Value::Null, msgs, lockstep, cuts: vec![1000] });
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> S<C22Case> {
        let echo = (gen::id(), gen::text(), uni(vec![(3, gen::params_any()), (1, gen::long_text(1 << 15).prop_map(|s| Params::Is(s.into())).boxed())]))
            .prop_map(|(id, t, params)| Msg::Req { id, method: format!("echo/{t}"), params });
        let known = (gen::id(), select(vec![3usize, 8, 99]), gen::doc(JUST_TARGETS), gen::doc(COMPILE)).prop_map(|(id, k, a, b)| match k {
            3 => Msg::Req { id, method: "buildTarget/sources".into(), params: Params::Is(a) },
            8 => Msg::Req { id, method: "buildTarget/compile".into(), params: Params::Is(b) },
            _ => Msg::Req { id, method: "workspace/buildTargets".into(), params: Params::Absent },
        });
        let m = uni(vec![(4, gen::request()), (3, echo.boxed()), (3, known.boxed()), (3, gen::note()), (1, gen::response())]).prop_map(|m| match m {
            Msg::Req { id, method, params } if method == "build/shutdown" => Msg::Req { id, method: "workspace/reload".into(), params },
            m => m,
        });
        let early = uni(vec![
            (3, Just(vec![]).boxed()),
            (
                1,
                vec(uni(vec![(1, gen::request()), (1, gen::note())]), 0..3)
                    .prop_map(|v| v.into_iter().filter(|m| !matches!(m, Msg::Req { method, .. } if method == "build/initialize")).collect())
                    .boxed(),
            ),
        ]);
        (tr(3), early, gen::doc(INITIALIZE), gen::results(), vec(m, 0..14), any::<bool>(), gen::cuts())
            .prop_map(|(tr, early, init, result, msgs, lockstep, cuts)| C22Case { tr, early, init, result, msgs, lockstep, cuts })
            .boxed()
    }
    fn run(&self, c: &C22Case, cx: &mut Cx) -> R {
        cx.label(format!("{:?}", c.tr));
        cx.label(if c.lockstep { "lock-step" } else { "pipelined" });
        let strip = |n: Norm| match n {
            Norm::Failure { id, code: -32002, .. } => Norm::Failure { id, code: -32002, message: String::new(), data: Value::Null },
            n => n,
        };
        let init_id = Id::S("init".into());
        let end_id = Id::I(-7);
        let mut script: Vec<(Msg, Option<Norm>)> = vec![];
        for m in &c.early {
            let r = match m {
                Msg::Req { id, .. } => Some(Norm::Failure { id: id.json(), code: -32002, message: String::new(), data: Value::Null }),
                _ => None,
            };
            script.push((m.clone(), r));
        }
        script.push((
            Msg::Req { id: init_id.clone(), method: "build/initialize".into(), params: Params::Is(c.init.clone()) },
            Some(Norm::Success { id: init_id.json(), result: c.result.clone() }),
        ));
        script.push((Msg::Note { method: "build/initialized".into(), params: Params::Absent }, None));
        script.extend(c.msgs.iter().map(|m| (m.clone(), answer(m))));
        let shutdown = Msg::Req { id: end_id.clone(), method: "build/shutdown".into(), params: Params::Absent };
        script.push((shutdown.clone(), Some(Norm::Success { id: end_id.json(), result: Value::Null })));
        script.push((Msg::Note { method: "build/exit".into(), params: Params::Absent }, None));
        let replies: Vec<Norm> = script.iter().filter_map(|s| s.1.clone()).collect();
        cx.nontrivial(c.msgs.iter().filter(|m| matches!(m, Msg::Req { .. })).count() > 2);
        let mut seen: Vec<Norm> = norms(&c.msgs);
        seen.push(shutdown.norm());

        let (peer, mut app) = start(c.tr, cx)?;
        app.post(Cmd::Serve(c.result.clone()));
        app.post(Cmd::Drop);
        app.post(Cmd::Join);
        app.post(Cmd::Quit);
        let Peer { mut w, mut r } = peer;
        let mut heard: Vec<Norm> = vec![];
        if c.lockstep {
            for (m, reply) in &script {
                w.write(&frame_msg(m)).map_err(io("client writing"))?;
                if let Some(want) = reply {
                    let n = read_norms(&mut r, 1)?.pop().map(strip);
                    same("response", &n.as_ref(), &Some(want))?;
                    heard.extend(n);
                }
            }
        } else {
            let bytes: Vec<u8> = script.iter().flat_map(|(m, _)| frame_msg(m)).collect();
            std::thread::scope(|s| -> R {
                let (cuts, w) = (&c.cuts, &mut w);
                let h = s.spawn(move || w.write_cut(&bytes, cuts));
                let res = read_norms(&mut r, replies.len());
                // a server that gave up makes writing fail; report what was heard first
                let wr = h.join().unwrap();
                heard = res?.into_iter().map(strip).collect();
                wr.map_err(io("client writing"))
            })?;
        }
        same_seq("responses", &heard, &replies)?;
        // the server joins although the client has not closed
        match app.wait() {
            Ev::Served(Ok(s)) => same_seq("seen by the server", &s, &seen)?,
            e => fail!("serving: {}", cut(&format!("{e:?}"), 400)),
        }
        want(app.wait(), Ev::Done, "dropping")?;
        want(app.wait(), Ev::Joined(Ok(())), "joining")?;
        app.quit()?;
        let mut rest = vec![];
        r.read_to_end(&mut rest).map_err(io("reading"))?;
        ensure!(rest.is_empty(), "more than the responses was sent: {}", show(&rest));
        drop(w);
        Ok(())
    }
}

// ---------------------------------------------------------------- C25

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Talk {
    /// the peer sends, the application sends it back
    Echo,
    /// the peer asks, the application answers with results of these sizes
    Ask(Vec<usize>),
    /// the application sends first
    Ping,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C25Case {
    tr: Tr,
    frames: Vec<FrameM>,
    cuts: Vec<usize>,
    talk: Talk,
    /// seconds in which nobody says anything, before each message and inside it
    #[serde(default)]
    idle: u64,
}
pub struct C25;
impl Prop for C25 {
    type Case = C25Case;
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "strict lock-step exchanges, started by either side, of generated messages with sizes around every buffer size, over TCP and stdio: nothing is written until the previous message has been read completely; a run in which every thread sleeps is a violation; non-trivial: at least two rounds with a body of 4 KiB or more"
    }
    /// mostly waiting for delayed acknowledgements
    fn threads(&self) -> usize {
        32
    }
    fn patience(&self) -> Duration {
        Duration::from_secs(2 * LONG + 15)
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(8_000, 10)
    }
    fn fixed(&self, _: Tier) -> Vec<C25Case> {
        let mut v = vec![];
        for tr in ALL {
            for talk in [Talk::Echo, Talk::Ping] {
                v.push(C25Case { tr, frames: vec![FrameM::plain(gen::blob(0, 1, 50))], cuts: vec![usize::MAX >> 1], talk, idle: LONG });
            }
        }
        for tr in ALL {
            for n in [0, 1, 1023, 1024, 4095, 4096, 8100, 8191, 8192, 8193, 16384, 65535, 65536, 131072, 1 << 20] {
                for talk in [Talk::Echo, Talk::Ping, Talk::Ask(vec![n, 0, n])] {
                    v.push(C25Case { tr, frames: (0..3).map(|i| FrameM::plain(gen::blob(0, i, n))).collect(), cuts: vec![usize::MAX >> 1], talk, idle: 0 });
                }
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> S<C25Case> {
        let m = uni(vec![(4, gen::msg()), (3, gen::sized(1 << 15)), (1, gen::sized(1 << 18))]);
        let f = uni(vec![(1, gen::plain_frame(m.clone())), (1, gen::frame_of(m))]);
        let talk = uni(vec![(2, Just(Talk::Echo).boxed()), (1, Just(Talk::Ping).boxed()), (1, vec(gen::boundary_len(1 << 17), 1..5).prop_map(Talk::Ask).boxed())]);
        (tr(3), vec(f, 1..6), gen::cuts(), talk)
            .prop_map(|(tr, mut frames, cuts, talk)| {
                if let Talk::Ask(s) = &talk {
                    frames.truncate(s.len());
                    for (i, f) in frames.iter_mut().enumerate() {
                        if !matches!(f.msg, Msg::Req { .. }) {
                            f.msg = gen::blob(0, i as i32, 10);
                        }
                    }
                }
                C25Case { tr, frames, cuts, talk, idle: 0 }
            })
            .boxed()
    }
    fn run(&self, c: &C25Case, cx: &mut Cx) -> R {
        cx.label(format!("{:?}", c.tr));
        cx.label(format!("{:?}", c.talk).split('(').next().unwrap().to_string());
        let big = c.frames.iter().filter(|f| f.body().len() >= 4096).count();
        cx.nontrivial(c.frames.len() > 1 && big > 0 || c.idle > 0);
        cx.label_if(c.idle > 0, "idle for long");
        let idle = || std::thread::sleep(Duration::from_secs(c.idle));
        let (mut peer, mut app) = start(c.tr, cx)?;
        let n = c.frames.len();
        match &c.talk {
            Talk::Echo => app.post(Cmd::Echo(n)),
            Talk::Ask(s) => app.post(Cmd::Answer(s[..n.min(s.len())].to_vec())),
            Talk::Ping => {}
        }
        for (i, f) in c.frames.iter().enumerate() {
            let want_norm = f.msg.norm();
            idle();
            match &c.talk {
                Talk::Echo => {
                    let bytes = f.bytes();
                    let (a, b) = bytes.split_at(if c.idle > 0 { bytes.len() / 2 } else { 0 });
                    peer.w.write_cut(a, &c.cuts).map_err(io("writing"))?;
                    idle();
                    peer.w.write_cut(b, &c.cuts).map_err(io("writing"))?;
                    let back = read_norms(&mut peer.r, 1)?;
                    same_seq("sent back", &back, &[want_norm])?;
                }
                Talk::Ask(s) => {
                    peer.w.write_cut(&f.bytes(), &c.cuts).map_err(io("writing"))?;
                    let back = read_norms(&mut peer.r, 1)?;
                    let id = match &f.msg {
                        Msg::Req { id, .. } => id.json(),
                        _ => Value::Null,
                    };
                    same_seq("answer", &back, &[Norm::Success { id, result: json!("r".repeat(s[i])) }])?;
                }
                Talk::Ping => {
                    app.post(Cmd::Send(vec![f.msg.clone()], i as u8));
                    let back = read_norms(&mut peer.r, 1)?;
                    same_seq("sent", &back, &[want_norm.clone()])?;
                    sent(app.wait(), 1)?;
                    app.post(Cmd::Recv);
                    peer.w.write_cut(&f.bytes(), &c.cuts).map_err(io("writing"))?;
                    let (g, _) = got(app.wait())?;
                    same_seq("received", &g, &[want_norm])?;
                }
            }
        }
        if !matches!(c.talk, Talk::Ping) {
            let (g, ended) = got(app.wait())?;
            same_seq("received", &g, &c.frames.iter().map(|f| f.msg.norm()).collect::<Vec<_>>())?;
            ensure!(!ended, "the exchange ended early");
        }
        peer.w.close();
        want(app.call(Cmd::Drop), Ev::Done, "dropping")?;
        want(app.call(Cmd::Join), Ev::Joined(Ok(())), "joining")?;
        app.quit()
    }
}

// ---------------------------------------------------------------- C26

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C26Case {
    tr: Tr,
    /// outgoing: total volume and size of each message
    out: (usize, usize),
    inc: (usize, usize),
    mixed: Vec<Msg>,
    /// which side stalls: the peer's reading, the application's receiving, one after the other
    stall: u8,
    cuts: Vec<usize>,
    /// how many seconds it stalls at least
    #[serde(default)]
    hold: u64,
}
/// Seconds in which nothing happens, longer than any usual timeout.
const LONG: u64 = 32;
pub struct C26;
impl Prop for C26 {
    type Case = C26Case;
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "one direction held up (the peer does not read, or the application does not receive) with a generated volume waiting in it, while generated messages pass in the other; then the stalled side resumes and everything held back is compared; a run in which every thread sleeps is a violation; non-trivial: the waiting volume exceeds every buffer in between (64 KiB of pipe, about 10 MiB of socket buffers), so that the held-up thread really blocks"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.n(420, 10)
    }
    fn threads(&self) -> usize {
        8
    }
    fn patience(&self) -> Duration {
        Duration::from_secs(LONG + 15)
    }
    fn fixed(&self, _: Tier) -> Vec<C26Case> {
        let mut v = vec![];
        for tr in ALL {
            for stall in 0..3 {
                let vol = if tr == Tr::Stdio { 1 << 19 } else { 14 << 20 };
                let vol = if stall == 1 && tr == Tr::Listen { 0 } else { vol };
                v.push(C26Case { tr, out: (vol, 50_000), inc: (vol, 50_000), mixed: vec![gen::blob(0, 1, 5)], stall, cuts: vec![usize::MAX >> 1], hold: LONG });
            }
        }
        for tr in ALL {
            for stall in 0..3 {
                let vol = if tr == Tr::Stdio { 1 << 19 } else { 14 << 20 };
                v.push(C26Case { tr, out: (vol, 50_000), inc: (vol, 50_000), mixed: vec![gen::blob(0, 1, 5)], stall, cuts: vec![usize::MAX >> 1], hold: 0 });
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> S<C26Case> {
        let each = select(vec![1_000usize, 8_192, 60_000, 300_000, 2_000_000]);
        let mixed = vec(uni(vec![(4, gen::msg()), (1, gen::sized(1 << 14))]), 1..8);
        (tr(14), prop::bool::weighted(0.5), each.clone(), each, 0u8..3, mixed, gen::cuts(), 0usize..(1 << 19))
            .prop_map(|(tr, big, a, b, stall, mixed, cuts, small)| {
                let vol = match (tr, big) {
                    (Tr::Stdio, true) => (1 << 20) + small,
                    (_, true) => (14 << 20) + small,
                    (_, false) => small,
                };
                let each = |e: usize| e.max(vol / 4000);
                C26Case { tr, out: (vol, each(a)), inc: (vol, each(b)), mixed, stall, cuts, hold: 0 }
            })
            .boxed()
    }
    fn run(&self, c: &C26Case, cx: &mut Cx) -> R {
        cx.label(format!("{:?}", c.tr));
        let limit = if c.tr == Tr::Stdio { 200_000 } else { 12 << 20 };
        cx.nontrivial(c.out.0 > limit || c.hold > 0);
        cx.label_if(c.hold > 0, "held up for long");
        let hold = || std::thread::sleep(Duration::from_secs(c.hold));
        let mixed = norms(&c.mixed);
        let (peer, mut app) = start(c.tr, cx)?;
        let Peer { mut w, mut r } = peer;
        match c.stall % 3 {
            0 => {
                cx.label("peer does not read");
                let out = volume(c.out.0, c.out.1, 1000);
                want(app.call(Cmd::SendBg(out.clone())), Ev::Done, "starting to send")?;
                // and yet everything the peer sends is received
                app.post(Cmd::RecvN(c.mixed.len()));
                let bytes: Vec<u8> = c.mixed.iter().flat_map(frame_msg).collect();
                w.write_cut(&bytes, &c.cuts).map_err(io("writing"))?;
                let (g, _) = got(app.wait())?;
                same_seq("received meanwhile", &g, &mixed)?;
                let inc = volume(c.inc.0.min(1 << 20), c.inc.1, 5000);
                app.post(Cmd::RecvN(inc.len()));
                let bytes: Vec<u8> = inc.iter().flat_map(frame_msg).collect();
                w.write(&bytes).map_err(io("writing"))?;
                let (g, _) = got(app.wait())?;
                same_seq("received meanwhile", &g, &norms(&inc))?;
                hold();
                // the peer resumes
                app.post(Cmd::WaitBg);
                let seen = read_norms(&mut r, out.len())?;
                sent(app.wait(), out.len())?;
                same_seq("held back", &seen, &norms(&out))?;
            }
            1 => {
                cx.label("application does not receive");
                let inc = volume(c.inc.0, c.inc.1, 1000);
                let bytes: Vec<u8> = inc.iter().flat_map(frame_msg).collect();
                std::thread::scope(|s| -> R {
                    let wr = &mut w;
                    let (bytes, cuts) = (&bytes, &c.cuts);
                    let h = s.spawn(move || wr.write_cut(bytes, cuts));
                    let mut go = || -> R {
                        app.post(Cmd::Send(c.mixed.clone(), 0));
                        let seen = read_norms(&mut r, c.mixed.len())?;
                        sent(app.wait(), c.mixed.len())?;
                        same_seq("sent meanwhile", &seen, &mixed)?;
                        let out = volume(c.out.0.min(1 << 20), c.out.1, 5000);
                        app.post(Cmd::Send(out.clone(), 1));
                        let seen = read_norms(&mut r, out.len())?;
                        sent(app.wait(), out.len())?;
                        same_seq("sent meanwhile", &seen, &norms(&out))
                    };
                    let res = go();
                    hold();
                    // the application resumes
                    app.post(Cmd::RecvN(inc.len()));
                    let g = got(app.wait());
                    h.join().unwrap().map_err(io("writing"))?;
                    res?;
                    same_seq("held back", &g?.0, &norms(&inc))
                })?;
            }
            _ => {
                cx.label("both at once");
                let out = volume(c.out.0, c.out.1, 1000);
                let inc = volume(c.inc.0, c.inc.1, 2000);
                want(app.call(Cmd::SendBg(out.clone())), Ev::Done, "starting to send")?;
                let bytes: Vec<u8> = inc.iter().flat_map(frame_msg).collect();
                std::thread::scope(|s| -> R {
                    let wr = &mut w;
                    let (bytes, cuts) = (&bytes, &c.cuts);
                    let h = s.spawn(move || wr.write_cut(bytes, cuts));
                    hold();
                    // only the application's receiving resumes
                    app.post(Cmd::RecvN(inc.len()));
                    let g = got(app.wait());
                    h.join().unwrap().map_err(io("writing"))?;
                    same_seq("received", &g?.0, &norms(&inc))
                })?;
                app.post(Cmd::WaitBg);
                let seen = read_norms(&mut r, out.len())?;
                sent(app.wait(), out.len())?;
                same_seq("held back", &seen, &norms(&out))?;
            }
        }
        w.close();
        want(app.call(Cmd::Drop), Ev::Done, "dropping")?;
        want(app.call(Cmd::Join), Ev::Joined(Ok(())), "joining")?;
        app.quit()?;
        let mut rest = vec![];
        r.read_to_end(&mut rest).map_err(io("reading"))?;
        ensure!(rest.is_empty(), "more was sent: {}", show(&rest));
        Ok(())
    }
}
