//! Runs application code against the library on one side of a transport while the case plays the peer.
//! The application obeys commands one at a time, in a thread (TCP) or in a child process (stdio).
use crate::engine::{guard, Fail};
use crate::model::*;
use crate::obs;
use bsp_server::{Connection, IoThreads, Message, Notification, Request};
use crossbeam_channel as ch;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::io::{self, BufRead, BufReader, Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::os::unix::net::{UnixListener, UnixStream};
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Tr {
    /// the application connects
    Connect,
    /// the application listens
    Listen,
    Stdio,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Cmd {
    /// receive one message
    Recv,
    /// receive up to n messages
    RecvN(usize),
    /// receive until end-of-stream
    RecvAll,
    /// send, through one of the ways of sending
    Send(Vec<Msg>, u8),
    /// send with limits
    Timed(Vec<(Msg, How)>),
    /// receive n messages, holding on to nothing, and send each straight back
    Spin(usize),
    /// what this process holds on to
    Mem,
    /// start measuring
    Meter,
    /// receive n messages and drop them; what it cost
    Cost(usize),
    /// send, measuring
    CostOf(Vec<Msg>),
    /// several threads receiving through clones of the receiver, in one way each, up to a number of messages
    Consumers(Vec<(u8, Option<usize>)>),
    /// send messages of a size, numbered from a start, until one is not accepted in time
    Fill { kind: u8, from: usize, each: usize, most: usize, ms: u64 },
    /// do nothing for so many milliseconds
    Idle(u64),
    /// send from a background thread
    SendBg(Vec<Msg>),
    WaitBg,
    /// receive n messages, sending each straight back
    Echo(usize),
    /// answer as many requests, with results of the given sizes
    Answer(Vec<usize>),
    /// several threads sending through clones of the sender
    Producers(Vec<Vec<Msg>>),
    /// drop the connection
    Drop,
    DropSender,
    DropReceiver,
    JoinReader,
    JoinWriter,
    Join,
    Initialize(Value),
    /// receive until a request, then handle_shutdown on it
    Shutdown,
    /// the documented server: initialize, loop, shutdown
    Serve(Value),
    Quit,
}

/// Ways of sending, with limits in milliseconds.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum How {
    Plain,
    Try,
    Timeout(u64),
    Deadline(i64),
}
/// Outcome of a send: 0 accepted, 1 refused, 2 refused as disconnected.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Tm {
    pub result: u8,
    /// the message came back unchanged
    pub back: bool,
    pub micros: u64,
}
/// Bytes allocated, threads, file descriptors.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub struct Held {
    pub bytes: i64,
    pub threads: usize,
    pub files: usize,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Ev {
    Ready,
    Got(Vec<Norm>, /*ended*/ bool),
    /// number accepted, first refusal
    Sent(usize, Option<String>),
    Done,
    Timed(Vec<Tm>),
    Mem(Held),
    /// messages, bytes in use at most and allocated in total, microseconds of processor time
    Cost(usize, i64, i64, u64),
    /// what each consumer got, and whether it saw the end
    Many(Vec<(Vec<Norm>, bool)>),
    Joined(Result<(), String>),
    Init(Result<Value, String>),
    /// None: no request came
    Shut(Option<Result<bool, String>>),
    /// what the server's loop saw
    Served(Result<Vec<Norm>, String>),
    Panicked(String),
    /// the application process ended
    Died(String),
}

pub struct AppState {
    conn: Option<Connection>,
    tx: Option<ch::Sender<Message>>,
    rx: Option<ch::Receiver<Message>>,
    threads: Option<IoThreads>,
    reader: Option<std::thread::JoinHandle<io::Result<()>>>,
    writer: Option<std::thread::JoinHandle<io::Result<()>>>,
    bg: Vec<std::thread::JoinHandle<(usize, Option<String>)>>,
    meter: Option<Meter>,
}

impl AppState {
    pub fn new(conn: Connection, threads: Option<IoThreads>) -> AppState {
        AppState { conn: Some(conn), tx: None, rx: None, threads, reader: None, writer: None, bg: vec![], meter: None }
    }
    fn sender(&self) -> Option<&ch::Sender<Message>> {
        self.conn.as_ref().map(|c| &c.sender).or(self.tx.as_ref())
    }
    fn receiver(&self) -> Option<&ch::Receiver<Message>> {
        self.conn.as_ref().map(|c| &c.receiver).or(self.rx.as_ref())
    }
    fn recv(&self, n: usize) -> Ev {
        let rx = match self.receiver() {
            Some(r) => r,
            None => return Ev::Got(vec![], true),
        };
        let mut out = vec![];
        while out.len() < n {
            match rx.recv() {
                Ok(m) => out.push(obs::observe(&m)),
                Err(_) => return Ev::Got(out, true),
            }
        }
        Ev::Got(out, false)
    }
    fn take_threads(&mut self) {
        if let Some(t) = self.threads.take() {
            self.reader = Some(t.reader);
            self.writer = Some(t.writer);
        }
    }
    fn split(&mut self) {
        if let Some(Connection { sender, receiver }) = self.conn.take() {
            self.tx = Some(sender);
            self.rx = Some(receiver);
        }
    }
    pub fn step(&mut self, c: Cmd) -> Ev {
        match guard(|| self.step1(c)) {
            Ok(e) => e,
            Err(p) => Ev::Panicked(p),
        }
    }
    fn step1(&mut self, c: Cmd) -> Ev {
        match c {
            Cmd::Recv => self.recv(1),
            Cmd::RecvN(n) => self.recv(n),
            Cmd::RecvAll => self.recv(usize::MAX),
            Cmd::Send(ms, via) => {
                let ms = match obs::build_all(&ms) {
                    Ok(m) => m,
                    Err(e) => return Ev::Sent(0, Some(e)),
                };
                let (mut n, mut err) = (0, None);
                for (k, m) in ms.into_iter().enumerate() {
                    let far = Duration::from_secs(100_000);
                    let r = match (&self.conn, via.wrapping_add(k as u8) % 4) {
                        (Some(c), 0) => c.send(m).map_err(|e| e.to_string()),
                        (Some(c), 1) => c.send_timeout(m, far).map_err(|e| e.to_string()),
                        (Some(c), 2) => c.send_deadline(m, Instant::now() + far).map_err(|e| e.to_string()),
                        _ => match self.sender() {
                            Some(s) => s.send(m).map_err(|e| e.to_string()),
                            None => Err("no sender".into()),
                        },
                    };
                    match r {
                        Ok(()) => n += 1,
                        Err(e) => {
                            err.get_or_insert(e);
                        }
                    }
                }
                Ev::Sent(n, err)
            }
            Cmd::Timed(ops) => {
                let mut out = vec![];
                for (m, how) in ops {
                    let msg = match obs::build(&m) {
                        Ok(m) => m,
                        Err(e) => return Ev::Sent(0, Some(e)),
                    };
                    let c = match &self.conn {
                        Some(c) => c,
                        None => return Ev::Sent(0, Some("no connection".into())),
                    };
                    let t0 = Instant::now();
                    let r: Result<(), (u8, Message)> = match how {
                        How::Plain => c.send(msg).map_err(|e| (2, e.0)),
                        How::Try => c.try_send(msg).map_err(|e| match e {
                            ch::TrySendError::Full(m) => (1, m),
                            ch::TrySendError::Disconnected(m) => (2, m),
                        }),
                        How::Timeout(ms) => c.send_timeout(msg, Duration::from_millis(ms)).map_err(timed),
                        How::Deadline(ms) => {
                            let d = if ms >= 0 { Some(t0 + Duration::from_millis(ms as u64)) } else { t0.checked_sub(Duration::from_millis(-ms as u64)) };
                            c.send_deadline(msg, d.unwrap_or(t0)).map_err(timed)
                        }
                    };
                    let micros = t0.elapsed().as_micros() as u64;
                    let (result, back) = match r {
                        Ok(()) => (0, false),
                        Err((k, b)) => (k, obs::observe(&b) == m.norm()),
                    };
                    out.push(Tm { result, back, micros });
                }
                Ev::Timed(out)
            }
            Cmd::Spin(n) => {
                for k in 0..n {
                    let m = match self.receiver().map(|r| r.recv()) {
                        Some(Ok(m)) => m,
                        _ => return Ev::Sent(k, Some("end of stream".into())),
                    };
                    if let Some(Err(e)) = self.sender().map(|s| s.send(m)) {
                        return Ev::Sent(k, Some(e.to_string()));
                    }
                }
                Ev::Sent(n, None)
            }
            Cmd::Mem => Ev::Mem(settled()),
            Cmd::Meter => {
                self.meter = Some(meter());
                Ev::Done
            }
            Cmd::Cost(n) => {
                let m = self.meter.take().unwrap_or_else(meter);
                let mut k = 0;
                while k < n && self.receiver().map_or(false, |r| r.recv().is_ok()) {
                    k += 1;
                }
                let (peak, total, cpu) = m.read();
                Ev::Cost(k, peak, total, cpu)
            }
            Cmd::CostOf(ms) => {
                let built = match obs::build_all(&ms) {
                    Ok(m) => m,
                    Err(e) => return Ev::Sent(0, Some(e)),
                };
                let n = built.len();
                let m = meter();
                let (k, _) = match self.sender() {
                    Some(s) => send_all(s, built),
                    None => (0, None),
                };
                // until it is written
                self.conn = None;
                self.tx = None;
                self.rx = None;
                self.take_threads();
                if let Some(w) = self.writer.take() {
                    let _ = w.join();
                }
                let (peak, total, cpu) = m.read();
                Ev::Cost(if k == n { n } else { 0 }, peak, total, cpu)
            }
            Cmd::Fill { kind, from, each, most, ms } => {
                let c = match &self.conn {
                    Some(c) => c,
                    None => return Ev::Sent(0, Some("no connection".into())),
                };
                for k in 0..most {
                    let m = match obs::build(&crate::gen::one_of(kind, from + k, each)) {
                        Ok(m) => m,
                        Err(e) => return Ev::Sent(k, Some(e)),
                    };
                    match c.send_timeout(m, Duration::from_millis(ms)) {
                        Ok(()) => {}
                        Err(ch::SendTimeoutError::Timeout(_)) => return Ev::Sent(k, Some("timed out".into())),
                        Err(ch::SendTimeoutError::Disconnected(_)) => return Ev::Sent(k, Some("disconnected".into())),
                    }
                }
                Ev::Sent(most, None)
            }
            Cmd::Idle(ms) => {
                std::thread::sleep(Duration::from_millis(ms));
                Ev::Done
            }
            Cmd::Consumers(ways) => {
                let hs: Vec<_> = ways
                    .into_iter()
                    .filter_map(|(how, limit)| {
                        let r = self.receiver()?.clone();
                        Some(std::thread::spawn(move || consume(&r, how, limit.unwrap_or(usize::MAX))))
                    })
                    .collect();
                let mut out = vec![];
                for h in hs {
                    match h.join() {
                        Ok(x) => out.push(x),
                        Err(_) => return Ev::Panicked("a consumer".into()),
                    }
                }
                Ev::Many(out)
            }
            Cmd::SendBg(ms) => {
                let ms = match obs::build_all(&ms) {
                    Ok(m) => m,
                    Err(e) => return Ev::Sent(0, Some(e)),
                };
                if let Some(s) = self.sender().cloned() {
                    self.bg.push(std::thread::spawn(move || send_all(&s, ms)));
                }
                Ev::Done
            }
            Cmd::WaitBg => {
                let (mut n, mut err) = (0, None);
                for h in std::mem::take(&mut self.bg) {
                    let (k, e) = h.join().unwrap_or((0, Some("sender thread panicked".into())));
                    n += k;
                    err = err.or(e);
                }
                Ev::Sent(n, err)
            }
            Cmd::Echo(n) => {
                let mut out = vec![];
                for _ in 0..n {
                    let m = match self.receiver().map(|r| r.recv()) {
                        Some(Ok(m)) => m,
                        _ => return Ev::Got(out, true),
                    };
                    out.push(obs::observe(&m));
                    if let Some(s) = self.sender() {
                        if s.send(m).is_err() {
                            return Ev::Got(out, true);
                        }
                    }
                }
                Ev::Got(out, false)
            }
            Cmd::Answer(sizes) => {
                let mut out = vec![];
                for n in sizes {
                    let m = match self.receiver().map(|r| r.recv()) {
                        Some(Ok(m)) => m,
                        _ => return Ev::Got(out, true),
                    };
                    out.push(obs::observe(&m));
                    if let Message::Request(r) = m {
                        let resp = bsp_server::Response::ok(r.id().clone(), "r".repeat(n));
                        if self.sender().map_or(true, |s| s.send(resp.into()).is_err()) {
                            return Ev::Got(out, true);
                        }
                    }
                }
                Ev::Got(out, false)
            }
            Cmd::Producers(all) => {
                let mut built = vec![];
                for ms in &all {
                    match obs::build_all(ms) {
                        Ok(m) => built.push(m),
                        Err(e) => return Ev::Sent(0, Some(e)),
                    }
                }
                let barrier = std::sync::Arc::new(std::sync::Barrier::new(built.len().max(1)));
                let hs: Vec<_> = built
                    .into_iter()
                    .filter_map(|ms| {
                        let s = self.sender()?.clone();
                        let b = barrier.clone();
                        Some(std::thread::spawn(move || {
                            b.wait();
                            send_all(&s, ms)
                        }))
                    })
                    .collect();
                let (mut n, mut err) = (0, None);
                for h in hs {
                    let (k, e) = h.join().unwrap_or((0, Some("sender thread panicked".into())));
                    n += k;
                    err = err.or(e);
                }
                Ev::Sent(n, err)
            }
            Cmd::Drop => {
                self.conn = None;
                self.tx = None;
                self.rx = None;
                Ev::Done
            }
            Cmd::DropSender => {
                self.split();
                self.tx = None;
                Ev::Done
            }
            Cmd::DropReceiver => {
                self.split();
                self.rx = None;
                Ev::Done
            }
            Cmd::JoinReader => {
                self.take_threads();
                match self.reader.take() {
                    Some(h) => joined(h),
                    None => Ev::Done,
                }
            }
            Cmd::JoinWriter => {
                self.take_threads();
                match self.writer.take() {
                    Some(h) => joined(h),
                    None => Ev::Done,
                }
            }
            Cmd::Join => match (self.threads.take(), self.reader.take(), self.writer.take()) {
                (Some(t), _, _) => Ev::Joined(t.join().map_err(|e| e.to_string())),
                (None, Some(r), Some(w)) => Ev::Joined(IoThreads { reader: r, writer: w }.join().map_err(|e| e.to_string())),
                (None, Some(r), None) => joined(r),
                (None, None, Some(w)) => joined(w),
                _ => Ev::Done,
            },
            Cmd::Initialize(result) => match &self.conn {
                Some(c) => Ev::Init(
                    c.initialize(|_| result)
                        .map(|p| serde_json::to_value(p).unwrap_or(Value::Null))
                        .map_err(|e| e.to_string()),
                ),
                None => Ev::Done,
            },
            Cmd::Shutdown => {
                let c = match &self.conn {
                    Some(c) => c,
                    None => return Ev::Done,
                };
                for m in &c.receiver {
                    if let Message::Request(r) = m {
                        return Ev::Shut(Some(c.handle_shutdown(&r).map_err(|e| e.to_string())));
                    }
                }
                Ev::Shut(None)
            }
            Cmd::Serve(result) => match &self.conn {
                Some(c) => Ev::Served(serve(c, result)),
                None => Ev::Done,
            },
            Cmd::Quit => Ev::Done,
        }
    }
}

fn timed(e: ch::SendTimeoutError<Message>) -> (u8, Message) {
    match e {
        ch::SendTimeoutError::Timeout(m) => (1, m),
        ch::SendTimeoutError::Disconnected(m) => (2, m),
    }
}
/// What the process holds once what is under way has come to rest.
pub fn settled() -> Held {
    let mut last = held();
    let mut same = 0;
    for _ in 0..400 {
        std::thread::sleep(Duration::from_millis(5));
        let h = held();
        same = if h == last { same + 1 } else { 0 };
        last = h;
        if same == 6 {
            break;
        }
    }
    last
}
pub fn held() -> Held {
    let count = |p: &str| std::fs::read_dir(p).map_or(0, |d| d.count());
    Held { bytes: crate::LIVE.load(SeqCst) as i64, threads: count("/proc/self/task"), files: count("/proc/self/fd") }
}

pub struct Meter(isize, isize, u64);
pub fn meter() -> Meter {
    crate::METER.store(true, SeqCst);
    let live = crate::LIVE.load(SeqCst);
    crate::PEAK.store(live, SeqCst);
    Meter(live, crate::TOTAL.load(SeqCst), cpu())
}
impl Meter {
    /// At most in use, allocated in total, microseconds of processor time.
    pub fn read(&self) -> (i64, i64, u64) {
        let c = cpu();
        ((crate::PEAK.load(SeqCst) - self.0) as i64, (crate::TOTAL.load(SeqCst) - self.1) as i64, c - self.2)
    }
}
/// Processor time of this process, in microseconds.
fn cpu() -> u64 {
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    unsafe { clock_gettime(2, &mut t) };
    t[0] as u64 * 1_000_000 + t[1] as u64 / 1000
}

/// Receives up to n messages, in one of the ways there are.
fn consume(r: &ch::Receiver<Message>, how: u8, n: usize) -> (Vec<Norm>, bool) {
    let mut out = vec![];
    let see = |m: Message, out: &mut Vec<Norm>| out.push(obs::observe(&m));
    let mut k = 0u64;
    while out.len() < n {
        k += 1;
        let next = match how % 6 {
            0 => r.recv().map_err(|_| true),
            1 => r.try_recv().map_err(|e| e == ch::TryRecvError::Disconnected),
            2 => r.recv_timeout(Duration::from_micros(k * 37 % 3000)).map_err(|e| e == ch::RecvTimeoutError::Disconnected),
            3 => r.iter().next().ok_or(true),
            4 => match r.try_iter().next() {
                Some(m) => Ok(m),
                // says nothing about the end
                None => r.recv_timeout(Duration::from_millis(1)).map_err(|e| e == ch::RecvTimeoutError::Disconnected),
            },
            _ => {
                let never = ch::never::<Message>();
                let r2 = r.clone();
                ch::select! {
                    recv(r) -> m => m.map_err(|_| true),
                    recv(r2) -> m => m.map_err(|_| true),
                    recv(never) -> m => m.map_err(|_| true),
                }
            }
        };
        match next {
            Ok(m) => see(m, &mut out),
            Err(true) => return (out, true),
            Err(false) => std::thread::yield_now(),
        }
    }
    (out, false)
}

/// The server of the documentation.
fn serve(c: &Connection, result: Value) -> Result<Vec<Norm>, String> {
    let mut seen = vec![];
    c.initialize(|_| result).map_err(|e| e.to_string())?;
    for m in &c.receiver {
        seen.push(obs::observe(&m));
        match m {
            Message::Request(r) => {
                if c.handle_shutdown(&r).map_err(|e| e.to_string())? {
                    return Ok(seen);
                }
                let resp = match &r {
                    Request::WorkspaceBuildTargets(id) => {
                        c.send((id.clone(), serde_json::json!({"targets": []})))
                    }
                    Request::BuildTargetSources(id, p) => c.send((id.clone(), serde_json::json!({ "items": p.targets().len() }))),
                    Request::BuildTargetCompile(id, p) => c.send((id.clone(), serde_json::json!({ "statusCode": 1, "originId": p.origin_id() }))),
                    Request::Custom(id, m, p) if m.starts_with("echo/") => c.send((id.clone(), p.clone())),
                    r => c.send(bsp_server::Response::method_not_found(r.id().clone(), format!("no {}", r.method()))),
                };
                resp.map_err(|e| e.to_string())?;
            }
            Message::Notification(Notification::Exit) => return Err("exit without shutdown".into()),
            _ => {}
        }
    }
    Err("end of stream".into())
}

fn joined(h: std::thread::JoinHandle<io::Result<()>>) -> Ev {
    match h.join() {
        Ok(r) => Ev::Joined(r.map_err(|e| e.to_string())),
        Err(e) => Ev::Panicked(format!(
            "transport thread: {}",
            e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        )),
    }
}

fn send_all(s: &ch::Sender<Message>, ms: Vec<Message>) -> (usize, Option<String>) {
    let (mut n, mut err) = (0, None);
    for m in ms {
        match s.send(m) {
            Ok(()) => n += 1,
            Err(e) => {
                err.get_or_insert(e.to_string());
            }
        }
    }
    (n, err)
}

// ---------------------------------------------------------------- driver side

enum Link {
    Thread { tx: ch::Sender<Cmd> },
    Child { ctl: UnixStream, child: Child },
}
pub struct App {
    link: Link,
    rx: ch::Receiver<Ev>,
}

impl App {
    /// Starts a command without waiting for it.
    pub fn post(&mut self, c: Cmd) {
        match &mut self.link {
            Link::Thread { tx } => {
                let _ = tx.send(c);
            }
            Link::Child { ctl, .. } => {
                let mut b = serde_json::to_vec(&c).unwrap();
                b.push(b'\n');
                let _ = ctl.write_all(&b);
            }
        }
    }
    pub fn wait(&mut self) -> Ev {
        self.rx.recv().unwrap_or(Ev::Died("no more events".into()))
    }
    pub fn try_wait(&mut self, d: Duration) -> Option<Ev> {
        self.rx.recv_timeout(d).ok()
    }
    pub fn call(&mut self, c: Cmd) -> Ev {
        self.post(c);
        self.wait()
    }
    pub fn is_child(&self) -> bool {
        matches!(self.link, Link::Child { .. })
    }
    /// Ends the application; a child's exit status must be clean.
    pub fn quit(mut self) -> Result<(), Fail> {
        self.post(Cmd::Quit);
        if let Link::Child { child, .. } = &mut self.link {
            let st = child.wait().map_err(|e| format!("wait: {e}"))?;
            if !st.success() {
                return Err(format!("application process ended with {st}").into());
            }
        }
        Ok(())
    }
}
impl Drop for App {
    fn drop(&mut self) {
        if let Link::Child { child, .. } = &mut self.link {
            let _ = child.kill();
            let _ = child.wait();
        }
    }
}

pub enum PeerW {
    Tcp(TcpStream),
    Pipe(Option<std::process::ChildStdin>),
}
pub enum PeerR {
    Tcp(TcpStream),
    Pipe(std::process::ChildStdout),
}
impl Read for PeerR {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        loop {
            let r = match self {
                PeerR::Tcp(s) => s.read(b),
                PeerR::Pipe(s) => s.read(b),
            };
            match r {
                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                r => return r,
            }
        }
    }
}
impl PeerW {
    pub fn write(&mut self, b: &[u8]) -> io::Result<()> {
        match self {
            PeerW::Tcp(s) => s.write_all(b),
            PeerW::Pipe(Some(s)) => s.write_all(b),
            PeerW::Pipe(None) => Err(io::ErrorKind::BrokenPipe.into()),
        }
    }
    /// Writes in pieces of the given sizes, letting the reader run in between now and then.
    pub fn write_cut(&mut self, b: &[u8], cuts: &[usize]) -> io::Result<()> {
        let mut at = 0;
        let mut k = 0;
        while at < b.len() {
            let mut n = cuts[k % cuts.len()].max(1);
            // tiny pieces of huge streams only at the start
            if k > 600 {
                n = n.max(1 << 14);
            }
            let end = at.saturating_add(n).min(b.len());
            self.write(&b[at..end])?;
            at = end;
            k += 1;
            if k % 8 == 0 && k < 400 {
                std::thread::yield_now();
            }
        }
        Ok(())
    }
    pub fn dup(&self) -> io::Result<PeerW> {
        match self {
            PeerW::Tcp(s) => s.try_clone().map(PeerW::Tcp),
            PeerW::Pipe(_) => Err(io::ErrorKind::Unsupported.into()),
        }
    }
    /// Close both ways.
    pub fn shut(&mut self) {
        match self {
            PeerW::Tcp(s) => {
                let _ = s.shutdown(Shutdown::Both);
            }
            PeerW::Pipe(p) => *p = None,
        }
    }
    /// Half-close.
    pub fn close(&mut self) {
        match self {
            PeerW::Tcp(s) => {
                let _ = s.shutdown(Shutdown::Write);
            }
            PeerW::Pipe(p) => *p = None,
        }
    }
}
pub struct Peer {
    pub w: PeerW,
    pub r: PeerR,
}
impl Peer {
    pub fn read_all(&mut self) -> io::Result<Vec<u8>> {
        let mut v = vec![];
        self.r.read_to_end(&mut v)?;
        Ok(v)
    }
}
/// Reads exactly one frame; None at a clean end.
pub fn read_frame(r: &mut impl Read) -> Result<Option<Vec<u8>>, String> {
    let mut head = vec![];
    loop {
        if let Some((n, _)) = crate::wire::strict_header(&head)? {
            let mut b = vec![0; n.min(1 << 28)];
            r.read_exact(&mut b).map_err(|e| format!("inside a body: {e}"))?;
            return Ok(Some(b));
        }
        let mut c = [0];
        match r.read(&mut c) {
            Ok(0) if head.is_empty() => return Ok(None),
            Ok(0) => return Err(format!("stream ends inside a header: {:?}", crate::wire::show(&head))),
            Ok(_) => head.push(c[0]),
            Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
            Err(e) => return Err(format!("read: {e}")),
        }
    }
}
pub fn read_norm(r: &mut impl Read) -> Result<Option<Norm>, String> {
    match read_frame(r)? {
        None => Ok(None),
        Some(b) => crate::wire::norm_of_body(&b, true).map(Some).map_err(|e| format!("{e}: {}", crate::wire::show(&b))),
    }
}

static PORT: AtomicU32 = AtomicU32::new(0);

pub fn inconclusive(e: impl std::fmt::Display) -> Fail {
    Fail { what: e.to_string(), sig: None, inconclusive: true }
}

/// An address of this process's own, below the ephemeral ports; those run out when connections linger.
pub fn local(net: u8, slot: usize) -> std::net::SocketAddr {
    let n = PORT.fetch_add(1, SeqCst);
    let pid = std::process::id();
    std::net::SocketAddr::from(([127, net + ((pid >> 8) & 0x3f) as u8, (pid & 0xff) as u8, 1 + slot as u8], 10_000 + (n % 20_000) as u16))
}

fn app_thread(mk: impl FnOnce() -> io::Result<(Connection, IoThreads)> + Send + 'static) -> App {
    app_of(move || mk().map(|(c, t)| (c, Some(t))))
}
/// Both ends of an in-memory pair.
pub fn start_memory() -> Result<(App, App), Fail> {
    let (a, b) = Connection::memory();
    let mut x = app_of(move || Ok((a, None)));
    let mut y = app_of(move || Ok((b, None)));
    ready(&mut x)?;
    ready(&mut y)?;
    Ok((x, y))
}
/// Two library endpoints that talk to each other; the first listens or connects.
pub fn start_direct(listens: bool, cx: &crate::engine::Cx) -> Result<(App, App), Fail> {
    let addr = local(1, cx.slot);
    let mut l = app_thread(move || Connection::listen(addr));
    let t0 = Instant::now();
    let mut c = app_thread(move || loop {
        match Connection::connect(addr) {
            Err(e) if e.kind() == io::ErrorKind::ConnectionRefused && t0.elapsed() < Duration::from_secs(20) => std::thread::sleep(Duration::from_micros(200)),
            r => return r,
        }
    });
    ready(&mut l)?;
    ready(&mut c)?;
    Ok(if listens { (l, c) } else { (c, l) })
}
fn app_of(mk: impl FnOnce() -> io::Result<(Connection, Option<IoThreads>)> + Send + 'static) -> App {
    let (ctx, crx) = ch::unbounded::<Cmd>();
    let (etx, erx) = ch::unbounded::<Ev>();
    std::thread::spawn(move || {
        let made = guard(mk);
        let mut st = match made {
            Ok(Ok((c, t))) => AppState::new(c, t),
            Ok(Err(e)) => {
                let _ = etx.send(Ev::Died(format!("cannot connect: {e}")));
                return;
            }
            Err(p) => {
                let _ = etx.send(Ev::Panicked(p));
                return;
            }
        };
        let _ = etx.send(Ev::Ready);
        for c in crx {
            if matches!(c, Cmd::Quit) {
                return;
            }
            let e = st.step(c);
            if etx.send(e).is_err() {
                return;
            }
        }
    });
    App { link: Link::Thread { tx: ctx }, rx: erx }
}

pub fn start(tr: Tr, cx: &crate::engine::Cx) -> Result<(Peer, App), Fail> {
    match tr {
        Tr::Connect => {
            let t0 = Instant::now();
            let (l, addr) = loop {
                let addr = local(65, cx.slot);
                match TcpListener::bind(addr) {
                    Ok(l) => break (l, addr),
                    Err(_) if t0.elapsed() < Duration::from_secs(60) => std::thread::sleep(Duration::from_millis(5)),
                    Err(e) => return Err(inconclusive(e)),
                }
            };
            let mut app = app_thread(move || Connection::connect(addr));
            let (s, _) = l.accept().map_err(inconclusive)?;
            ready(&mut app)?;
            tcp(s).map(|p| (p, app))
        }
        Tr::Listen => {
            let addr = local(1, cx.slot);
            let mut app = app_thread(move || Connection::listen(addr));
            let t0 = Instant::now();
            let s = loop {
                match TcpStream::connect(addr) {
                    Ok(s) => break s,
                    Err(_) if t0.elapsed() < Duration::from_secs(20) => {
                        if let Some(e) = app.try_wait(Duration::from_micros(200)) {
                            return Err(format!("listen: {e:?}").into());
                        }
                    }
                    Err(e) => return Err(inconclusive(format!("nobody listens: {e}"))),
                }
            };
            ready(&mut app)?;
            tcp(s).map(|p| (p, app))
        }
        Tr::Stdio => {
            let n = PORT.fetch_add(1, SeqCst);
            let path = cx.dir.join(format!("c{}-{}", std::process::id(), n));
            let l = UnixListener::bind(&path).map_err(inconclusive)?;
            let exe = std::env::current_exe().map_err(inconclusive)?;
            let mut child = Command::new(exe)
                .arg("stdio-child")
                .arg(&path)
                .arg(cx.extra)
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .map_err(inconclusive)?;
            let (ctl, _) = l.accept().map_err(inconclusive)?;
            let _ = std::fs::remove_file(&path);
            let w = PeerW::Pipe(child.stdin.take());
            let r = PeerR::Pipe(child.stdout.take().unwrap());
            let (etx, erx) = ch::unbounded::<Ev>();
            let rd = ctl.try_clone().map_err(inconclusive)?;
            std::thread::spawn(move || {
                for line in BufReader::new(rd).split(b'\n') {
                    let e = match line {
                        Ok(l) => serde_json::from_slice(&l).unwrap_or_else(|e| Ev::Died(format!("event: {e}"))),
                        Err(e) => Ev::Died(e.to_string()),
                    };
                    if etx.send(e).is_err() {
                        return;
                    }
                }
                let _ = etx.send(Ev::Died("application process ended".into()));
            });
            let mut app = App { link: Link::Child { ctl, child }, rx: erx };
            ready(&mut app)?;
            Ok((Peer { w, r }, app))
        }
    }
}
fn ready(app: &mut App) -> Result<(), Fail> {
    match app.wait() {
        Ev::Ready => Ok(()),
        e => Err(format!("starting the connection: {e:?}").into()),
    }
}
fn tcp(s: TcpStream) -> Result<Peer, Fail> {
    let _ = s.set_nodelay(true);
    let r = s.try_clone().map_err(inconclusive)?;
    Ok(Peer { w: PeerW::Tcp(s), r: PeerR::Tcp(r) })
}

/// The child process of the stdio transport.
pub fn stdio_child(path: &str) {
    let ctl = UnixStream::connect(PathBuf::from(path)).expect("control socket");
    let mut out = ctl.try_clone().unwrap();
    let (ctx, crx) = ch::unbounded::<Cmd>();
    let (etx, erx) = ch::unbounded::<Ev>();
    std::thread::spawn(move || {
        for line in BufReader::new(ctl).split(b'\n') {
            match line.ok().and_then(|l| serde_json::from_slice::<Cmd>(&l).ok()) {
                Some(c) => {
                    if ctx.send(c).is_err() {
                        return;
                    }
                }
                None => break,
            }
        }
        // the driver is gone
        if !matches!(ctx.send(Cmd::Quit), Ok(())) {
            std::process::exit(0)
        }
        std::thread::sleep(Duration::from_secs(2));
        std::process::exit(9);
    });
    let ev = std::thread::spawn(move || {
        for e in erx {
            let mut b = serde_json::to_vec(&e).unwrap();
            b.push(b'\n');
            if out.write_all(&b).is_err() {
                return;
            }
        }
    });
    let (c, t) = Connection::stdio();
    let mut st = AppState::new(c, Some(t));
    let _ = etx.send(Ev::Ready);
    for c in crx {
        if matches!(c, Cmd::Quit) {
            break;
        }
        let e = st.step(c);
        let _ = etx.send(e);
    }
    drop(etx);
    let _ = ev.join();
    std::process::exit(0);
}

// ---------------------------------------------------------------- expectations

pub fn want(got: Ev, want: Ev, what: &str) -> Result<(), Fail> {
    if got == want {
        Ok(())
    } else {
        Err(format!(
            "{what}: got {} expected {}",
            crate::engine::cut(&format!("{got:?}"), 700),
            crate::engine::cut(&format!("{want:?}"), 700)
        )
        .into())
    }
}
/// Compares sequences of messages, reporting the first difference.
pub fn same_seq(what: &str, got: &[Norm], want: &[Norm]) -> Result<(), Fail> {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g != w {
            return Err(format!(
                "{what}: message {i} is {} expected {}",
                crate::engine::cut(&format!("{g:?}"), 600),
                crate::engine::cut(&format!("{w:?}"), 600)
            )
            .into());
        }
    }
    if got.len() != want.len() {
        return Err(format!("{what}: {} messages, expected {}", got.len(), want.len()).into());
    }
    Ok(())
}
pub fn got(e: Ev) -> Result<(Vec<Norm>, bool), Fail> {
    match e {
        Ev::Got(v, b) => Ok((v, b)),
        e => Err(format!("receiving: {e:?}").into()),
    }
}
pub fn sent(e: Ev, n: usize) -> Result<(), Fail> {
    want(e, Ev::Sent(n, None), "sending")
}
