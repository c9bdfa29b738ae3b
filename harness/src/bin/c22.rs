//! C22: websocket connections. The client side is written by hand on plain sockets, so that it controls
//! fragmentation, pacing, garbage and every way of going away.
use std::collections::{BTreeMap, HashSet};
use std::net::SocketAddr;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::os::fd::AsRawFd;
use std::sync::Arc;
use std::time::Duration;

use serde::{Deserialize, Serialize};
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
use tokio::net::TcpStream;

use hv::*;
use hydra::*;
use hydra_websockets::*;

// ---------------------------------------------------------------------------------------------
// The handler
// ---------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
enum Do {
    Text(String),
    Binary(Vec<u8>),
    Ping(Vec<u8>),
    Close(u16, String),
    /// The callback returns an error.
    Fail(String),
    Panic,
    /// The handler's process exits itself.
    Exit(String),
    /// A message to the handler's own process.
    Tell(u64),
    Nap(u64),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Program {
    seq: u64,
    run: Vec<Do>,
    pad: String,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Info {
    from: u64,
    seq: u64,
    run: Vec<Do>,
}

#[derive(Clone, Debug, PartialEq)]
enum What {
    Init(Pid),
    /// Kind and content.
    Handle(&'static str, u64, usize),
    Info(u64, u64),
    System(String),
    Terminate(String),
    Dropped,
}

fn log() -> &'static Log<(u64, What)> {
    static L: std::sync::OnceLock<Log<(u64, What)>> = std::sync::OnceLock::new();
    L.get_or_init(Log::new)
}

struct Handler {
    id: u64,
    mode: String,
    pid: Option<Pid>,
}

impl Drop for Handler {
    fn drop(&mut self) {
        log().push((self.id, What::Dropped));
    }
}

impl Handler {
    async fn run(&mut self, run: Vec<Do>) -> Result<Option<WebsocketCommands>, ExitReason> {
        if run.is_empty() {
            return Ok(None);
        }
        // A first command can be given in any of these ways.
        let mut commands = WebsocketCommands::default();
        for (n, d) in run.into_iter().enumerate() {
            match d {
                Do::Text(t) if n == 0 => commands = WebsocketCommands::with_send(t),
                Do::Close(code, reason) if n == 0 => commands = WebsocketCommands::with_close(CloseCode::from(code), reason),
                Do::Text(t) => commands.send(t),
                Do::Binary(b) => commands.send(b),
                Do::Ping(b) => commands.send(WebsocketMessage::Ping(b.into())),
                Do::Close(code, reason) => commands.close(CloseCode::from(code), reason),
                Do::Fail(reason) => return Err(ExitReason::from(reason)),
                Do::Panic => expected_panic("handler"),
                Do::Exit(reason) => {
                    Process::exit(Process::current(), ExitReason::from(reason));
                    std::future::pending::<()>().await;
                }
                Do::Tell(seq) => Process::send(Process::current(), Info { from: 0, seq, run: vec![] }),
                Do::Nap(ms) => tokio::time::sleep(Duration::from_millis(ms)).await,
            }
        }
        Ok(Some(commands))
    }
}

impl WebsocketHandler for Handler {
    type Message = Info;

    fn accept(_address: SocketAddr, request: &WebsocketRequest, response: WebsocketResponse) -> Result<(WebsocketResponse, Self), ExitReason> {
        // /ID/MODE
        let mut parts = request.uri().path().trim_start_matches('/').splitn(2, '/');
        let id = parts.next().and_then(|p| p.parse().ok()).unwrap_or(0);
        let mode = parts.next().unwrap_or("").to_string();
        match mode.as_str() {
            "refuse" => Err(ExitReason::from("refused")),
            "accept-panic" => expected_panic("accept"),
            _ => Ok((response, Handler { id, mode, pid: None })),
        }
    }

    async fn websocket_init(&mut self) -> Result<Option<WebsocketCommands>, ExitReason> {
        self.pid = Some(Process::current());
        if self.mode.contains("trap") {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
        }
        log().push((self.id, What::Init(Process::current())));
        if self.mode.contains("init-fail") {
            return Err(ExitReason::from("init"));
        }
        if self.mode.contains("init-panic") {
            expected_panic("init");
        }
        if self.mode.contains("init-close") {
            let mut c = WebsocketCommands::with_send("hello");
            c.close(CloseCode::from(4001), "init");
            return Ok(Some(c));
        }
        if self.mode.contains("hello") {
            return Ok(Some(WebsocketCommands::with_send("hello")));
        }
        Ok(None)
    }

    async fn websocket_handle(&mut self, message: WebsocketMessage) -> Result<Option<WebsocketCommands>, ExitReason> {
        if self.pid != Some(Process::current()) {
            violation("handler-moves-between-processes", json!({"id": self.id}));
        }
        let (kind, data): (_, Vec<u8>) = match &message {
            WebsocketMessage::Text(t) => ("text", t.as_str().as_bytes().to_vec()),
            WebsocketMessage::Binary(b) => ("binary", b.to_vec()),
            WebsocketMessage::Ping(b) => ("ping", b.to_vec()),
            WebsocketMessage::Pong(b) => ("pong", b.to_vec()),
            WebsocketMessage::Close(c) => ("close", c.as_ref().map(|c| format!("{} {}", u16::from(c.code), c.reason)).unwrap_or_default().into_bytes()),
            WebsocketMessage::Frame(_) => ("frame", vec![]),
        };
        log().push((self.id, What::Handle(kind, hash_of(&data), data.len())));
        match kind {
            "text" | "binary" => match serde_json::from_slice::<Program>(&data) {
                Ok(p) => self.run(p.run).await,
                Err(_) => Ok(None),
            },
            // What an echoing handler does.
            "close" if self.mode.contains("answer-close") => Ok(Some(WebsocketCommands::with_send("bye"))),
            "close" if self.mode.contains("echo-close") => Ok(Some(WebsocketCommands::with_send(message))),
            _ => Ok(None),
        }
    }

    async fn websocket_info(&mut self, info: Message<Info>) -> Result<Option<WebsocketCommands>, ExitReason> {
        match info {
            Message::User(info) => {
                log().push((self.id, What::Info(info.from, info.seq)));
                self.run(info.run).await
            }
            Message::System(SystemMessage::Exit(_, reason)) => {
                log().push((self.id, What::System(format!("{reason:?}"))));
                Ok(None)
            }
            Message::System(_) => Ok(None),
        }
    }

    async fn terminate(&mut self, reason: ExitReason) {
        log().push((self.id, What::Terminate(format!("{reason:?}"))));
        if self.mode.contains("slow-end") {
            tokio::time::sleep(Duration::from_millis(5)).await;
        }
    }
}

// ---------------------------------------------------------------------------------------------
// The client
// ---------------------------------------------------------------------------------------------

fn frame(fin: bool, opcode: u8, data: &[u8], mask: Option<u32>) -> Vec<u8> {
    let mut out = vec![(if fin { 0x80 } else { 0 }) | opcode];
    let bit = if mask.is_some() { 0x80 } else { 0 };
    match data.len() {
        n if n < 126 => out.push(bit | n as u8),
        n if n < 65536 => {
            out.push(bit | 126);
            out.extend((n as u16).to_be_bytes());
        }
        n => {
            out.push(bit | 127);
            out.extend((n as u64).to_be_bytes());
        }
    }
    match mask {
        Some(m) => {
            let m = m.to_be_bytes();
            out.extend(m);
            out.extend(data.iter().enumerate().map(|(i, b)| b ^ m[i % 4]));
        }
        None => out.extend(data),
    }
    out
}

/// What came back, in order.
#[derive(Clone, Debug, PartialEq)]
enum In {
    Text(String),
    Binary(Vec<u8>),
    Ping(Vec<u8>),
    Pong(Vec<u8>),
    Close(u16, String),
    /// End of the connection: orderly or reset.
    End(bool),
    Bad(String),
}

async fn read_frames<R: AsyncReadExt + Unpin>(mut r: R, sink: Log<In>, slow: u64) {
    let mut partial: Option<(u8, Vec<u8>)> = None;
    loop {
        let mut head = [0u8; 2];
        if let Err(e) = r.read_exact(&mut head).await {
            // The end of a TLS stream need not be announced.
            sink.push(In::End(cfg!(feature = "tls") || e.kind() == std::io::ErrorKind::UnexpectedEof));
            return;
        }
        let mut len = (head[1] & 0x7f) as u64;
        let body = async {
            if len == 126 {
                len = r.read_u16().await? as u64;
            } else if len == 127 {
                len = r.read_u64().await?;
            }
            let mut data = vec![0; len.min(1 << 26) as usize];
            r.read_exact(&mut data).await?;
            Ok::<_, std::io::Error>(data)
        }
        .await;
        let Ok(data) = body else {
            sink.push(In::End(false));
            return;
        };
        if slow > 0 {
            tokio::time::sleep(Duration::from_micros(slow)).await;
        }
        if head[1] & 0x80 != 0 || head[0] & 0x70 != 0 {
            sink.push(In::Bad("masked or reserved bits".into()));
        }
        let (fin, op) = (head[0] & 0x80 != 0, head[0] & 15);
        match op {
            8 => {
                let code = if data.len() >= 2 { u16::from_be_bytes([data[0], data[1]]) } else { 1005 };
                sink.push(In::Close(code, String::from_utf8_lossy(data.get(2..).unwrap_or(&[])).into()));
            }
            9 => {
                sink.push(In::Ping(data));
            }
            10 => {
                sink.push(In::Pong(data));
            }
            0..=2 => {
                let (first, mut whole) = match (op, partial.take()) {
                    (0, Some(p)) => p,
                    (0, None) => {
                        sink.push(In::Bad("continuation of nothing".into()));
                        return;
                    }
                    (_, _) => (op, vec![]),
                };
                whole.extend(data);
                if !fin {
                    partial = Some((first, whole));
                } else if first == 1 {
                    sink.push(match String::from_utf8(whole) {
                        Ok(t) => In::Text(t),
                        Err(_) => In::Bad("text is not utf-8".into()),
                    });
                } else {
                    sink.push(In::Binary(whole));
                }
            }
            _ => {
                sink.push(In::Bad(format!("opcode {op}")));
            }
        }
    }
}

/// Writes in pieces.
async fn dribble<W: AsyncWriteExt + Unpin>(w: &mut W, bytes: &[u8], rng: &mut Rng, fine: bool) -> bool {
    if !fine {
        return w.write_all(bytes).await.is_ok();
    }
    let mut at = 0;
    while at < bytes.len() {
        let n = if rng.chance(1, 3) { 1 } else { rng.range(1, 40 + bytes.len() as u64 / 8) as usize }.min(bytes.len() - at);
        if w.write_all(&bytes[at..at + n]).await.is_err() || w.flush().await.is_err() {
            return false;
        }
        at += n;
        if rng.chance(1, 4) {
            tokio::task::yield_now().await;
        } else if rng.chance(1, 20) {
            tokio::time::sleep(Duration::from_micros(300)).await;
        }
    }
    true
}

/// The upgrade request; returns the status code.
async fn upgrade<S: AsyncRead + AsyncWrite + Unpin>(s: &mut S, path: &str, rng: &mut Rng, fine: bool) -> Option<u16> {
    let request = format!(
        "GET {path} HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n"
    );
    if !dribble(s, request.as_bytes(), rng, fine).await {
        return None;
    }
    let mut got = Vec::new();
    while !got.ends_with(b"\r\n\r\n") {
        match s.read_u8().await {
            Ok(b) => got.push(b),
            Err(_) => return None,
        }
    }
    let text = String::from_utf8_lossy(&got).to_string();
    let code = text.split(' ').nth(1)?.parse().ok()?;
    if code == 101 && !text.contains("s3pPLMBiTxaQ9kYGzzhZRbK+xOo=") {
        violation("wrong-handshake-answer", json!({"text": text}));
    }
    Some(code)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Finish {
    /// The client closes.
    Close(Option<(u16, String)>),
    Fin,
    Reset,
    /// Breaks the protocol.
    Garbage(u64),
    /// One frame larger than allowed (in a message that is not), or else a message of allowed frames.
    Oversize(bool),
    /// The handler ends in answer to a frame (or to a message, if the flag is set).
    Handler(Do, bool),
    /// Somebody else ends the handler's process.
    Outside(ExitKind),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum ExitKind {
    Kill,
    Custom,
}

#[derive(Clone, Debug)]
enum Out {
    Program { text: bool, program: Program, cuts: Vec<usize>, ping_between: bool },
    Ping(Vec<u8>),
    Pong(Vec<u8>),
}

#[derive(Clone, Debug)]
struct Spec {
    id: u64,
    mode: String,
    frames: Vec<Out>,
    /// Messages from other processes: per sender.
    infos: Vec<Vec<Info>>,
    finish: Finish,
    /// Frames sent after the one that ends the handler.
    late: u64,
    fine: bool,
    slow: u64,
    /// Silent for so long, before the frame of this number.
    pause: Option<(usize, Duration)>,
}

static NEXT: AtomicU64 = AtomicU64::new(1);

fn random_do(rng: &mut Rng, tag: &str, i: u64, tells: &mut u64) -> Do {
    match rng.below(8) {
        0..=2 => Do::Text(format!("{tag}.{i}:{}", rng.string(3))),
        3..=4 => {
            let n = *rng.pick(&[0usize, 1, 125, 126, 300]);
            let mut b = format!("{tag}.{i}:").into_bytes();
            b.extend(rng.bytes(n));
            Do::Binary(b)
        }
        5 => Do::Ping(format!("{tag}.{i}").into_bytes()),
        6 => {
            *tells += 1;
            Do::Tell(*tells)
        }
        _ => Do::Nap(rng.below(2)),
    }
}

/// What a client may send.
#[derive(Clone, Copy, Debug)]
struct Limits {
    message: Option<usize>,
    frame: Option<usize>,
    handshake: Option<Duration>,
}

impl Limits {
    fn random(rng: &mut Rng) -> Self {
        let message = *rng.pick(&[Some(4096usize), Some(65536), None]);
        let frame = match rng.below(5) {
            0 => message,
            1 => None,
            2 => Some(100_000),
            3 => Some(512),
            _ => Some(rng.range(400, 4000) as usize),
        };
        Limits { message, frame, handshake: None }
    }

    fn most(&self) -> usize {
        self.message.unwrap_or(65536)
    }
}

/// The sizes of the frames a message of the given size is sent in.
fn cuts(len: usize, pieces: u64, limits: Limits, rng: &mut Rng) -> Vec<usize> {
    let mut out = Vec::new();
    let mut left = len;
    for _ in 1..pieces {
        let n = rng.usize(left + 1);
        out.push(n);
        left -= n;
    }
    out.push(left);
    let Some(most) = limits.frame else { return out };
    out.into_iter()
        .flat_map(|mut n| {
            let mut parts = Vec::new();
            while n > most {
                parts.push(most);
                n -= most;
            }
            parts.push(n);
            parts
        })
        .collect()
}

fn random_spec(rng: &mut Rng, limits: Limits) -> Spec {
    let limit = limits.most();
    let id = NEXT.fetch_add(1, SeqCst);
    let mut tells = 0;
    let mut frames = Vec::new();
    for seq in 0..rng.below(12) {
        frames.push(match rng.below(8) {
            0 => Out::Ping(format!("p{seq}").into_bytes()),
            1 => Out::Pong(format!("q{seq}").into_bytes()),
            _ => {
                let run = (0..rng.below(4)).map(|i| random_do(rng, &format!("f{seq}"), i, &mut tells)).collect();
                let size = if rng.chance(1, 5) { rng.below(limit as u64 / 8) as usize } else { rng.usize(20) };
                let mut program = Program { seq, run, pad: rng.string(size) };
                let mut len = serde_json::to_vec(&program).unwrap().len();
                if len > limit {
                    program = Program { seq, run: Vec::new(), pad: String::new() };
                    len = serde_json::to_vec(&program).unwrap().len();
                }
                if rng.chance(1, 8) {
                    // Exactly as large as one frame or one message may be.
                    let to = if rng.bool() { limit } else { limits.frame.unwrap_or(limit).min(limit) };
                    if to > len {
                        program.pad.push_str(&"e".repeat(to - len));
                        len = to;
                    }
                }
                let pieces = if rng.chance(1, 3) { rng.range(2, 5) } else { 1 };
                Out::Program { text: rng.bool(), program, cuts: cuts(len, pieces, limits, rng), ping_between: rng.chance(1, 4) }
            }
        });
    }
    let infos = (0..rng.below(3))
        .map(|sender| {
            (0..rng.range(1, 6))
                .map(|seq| Info {
                    from: sender + 1,
                    seq,
                    run: (0..rng.below(3))
                        .map(|i| match random_do(rng, &format!("i{}.{seq}", sender + 1), i, &mut 0) {
                            Do::Tell(_) => Do::Nap(0),
                            d => d,
                        })
                        .collect(),
                })
                .collect()
        })
        .collect();
    let code = *rng.pick(&[1000u16, 1001, 3000, 4999]);
    let finish = match rng.below(12) {
        0..=2 => Finish::Close(if rng.chance(3, 4) { Some((code, rng.string(4))) } else { None }),
        3 => Finish::Fin,
        4 => Finish::Reset,
        5 => Finish::Garbage(rng.below(5)),
        6 => match (limits.frame, limits.message) {
            (Some(f), m) if m.is_none_or(|m| f < m) && (m.is_none() || rng.bool()) => Finish::Oversize(true),
            (_, Some(_)) => Finish::Oversize(false),
            _ => Finish::Fin,
        },
        7..=9 => Finish::Handler(
            match rng.below(6) {
                0..=2 => Do::Close(code, rng.string(3)),
                3 => Do::Fail(rng.pick(&["failed", "shutdown", ""]).to_string()),
                4 => Do::Panic,
                _ => Do::Exit("left".into()),
            },
            rng.chance(1, 3),
        ),
        _ => Finish::Outside(*rng.pick(&[ExitKind::Kill, ExitKind::Custom])),
    };
    let mut mode = String::from("m");
    for (word, num, den) in [("hello", 1, 3), ("trap", 1, 4), ("slow-end", 1, 4), ("answer-close", 1, 6), ("echo-close", 1, 6)] {
        if rng.chance(num, den) {
            mode.push('-');
            mode.push_str(word);
        }
    }
    Spec { id, mode, frames, infos, finish, late: if rng.bool() { 0 } else { rng.range(1, 4) }, fine: rng.chance(1, 3), slow: *rng.pick(&[0, 0, 0, 200]), pause: None }
}

fn describe(s: &Spec) -> Value {
    json!({"id": s.id, "mode": s.mode, "finish": format!("{:?}", s.finish), "frames": s.frames.iter().map(|f| format!("{f:?}").chars().take(160).collect::<String>()).collect::<Vec<_>>(),
           "infos": s.infos.iter().map(|l| l.len()).collect::<Vec<_>>(), "late": s.late, "fine": s.fine})
}

/// The result of one connection, judged afterwards.
struct Served {
    spec: Spec,
    received: Vec<In>,
    down: Option<String>,
    gone: bool,
    opened: bool,
}

async fn dial(port: u16) -> Option<TcpStream> {
    for _ in 0..500 {
        if let Ok(s) = TcpStream::connect(("127.0.0.1", port)).await {
            let _ = s.set_nodelay(true);
            return Some(s);
        }
        tokio::time::sleep(Duration::from_millis(10)).await;
    }
    None
}

trait Io: AsyncRead + AsyncWrite + Unpin + Send {}
impl<T: AsyncRead + AsyncWrite + Unpin + Send> Io for T {}

struct Conn {
    io: Box<dyn Io>,
    fd: i32,
}

async fn connect(port: u16, limit: Option<Duration>) -> Option<Conn> {
    let began = std::time::Instant::now();
    let Some(s) = dial(port).await else {
        violation("does-not-accept", json!({"port": port}));
        return None;
    };
    let fd = s.as_raw_fd();
    match secured(s).await {
        Ok(io) => Some(Conn { io, fd }),
        Err(_) if limit.is_some_and(|l| began.elapsed() * 2 >= l) => {
            inconclusive("too slow for the time limit");
            None
        }
        Err(e) => {
            violation("tls-handshake-fails", json!({"error": e}));
            None
        }
    }
}

#[cfg(not(feature = "tls"))]
async fn secured(s: TcpStream) -> Result<Box<dyn Io>, String> {
    Ok(Box::new(s))
}

#[cfg(feature = "tls")]
async fn secured(s: TcpStream) -> Result<Box<dyn Io>, String> {
    use tokio_native_tls::native_tls;
    let c = native_tls::TlsConnector::builder().danger_accept_invalid_certs(true).danger_accept_invalid_hostnames(true).build().unwrap();
    match tokio_native_tls::TlsConnector::from(c).connect("localhost", s).await {
        Ok(s) => Ok(Box::new(s)),
        Err(e) => Err(format!("{e:?}")),
    }
}

/// The server's configuration, with a certificate where one is needed.
fn config_at(address: SocketAddr) -> WebsocketServerConfig {
    let c = WebsocketServerConfig::new(address);
    #[cfg(feature = "tls")]
    let c = if address.port() % 2 == 0 {
        c.tls_pkcs8(include_bytes!("../../tls/cert.pem").as_slice(), include_bytes!("../../tls/key.pem").as_slice())
    } else {
        c.tls_pkcs12(include_bytes!("../../tls/identity.p12").as_slice(), "secret")
    };
    c
}

fn encode_program(p: &Program, text: bool, cuts: &[usize], ping_between: bool, rng: &mut Rng, pings: &mut Vec<Vec<u8>>) -> Vec<Vec<u8>> {
    let data = serde_json::to_vec(p).unwrap();
    assert_eq!(cuts.iter().sum::<usize>(), data.len());
    let op = if text { 1 } else { 2 };
    let mut out = Vec::new();
    let mut at = 0;
    for (i, n) in cuts.iter().enumerate() {
        let last = i + 1 == cuts.len();
        out.push(frame(last, if i == 0 { op } else { 0 }, &data[at..at + n], Some(rng.next() as u32)));
        at += n;
        if !last && ping_between {
            let b = format!("b{}.{i}", p.seq).into_bytes();
            out.push(frame(true, 9, &b, Some(rng.next() as u32)));
            pings.push(b);
        }
    }
    out
}

/// The same, in a single frame.
fn encode_whole(p: &Program, rng: &mut Rng) -> Vec<u8> {
    frame(true, 1, &serde_json::to_vec(p).unwrap(), Some(rng.next() as u32))
}

async fn serve(port: u16, spec: Spec, limits: Limits, mut rng: Rng) -> Option<Served> {
    let Some(Conn { io: mut s, fd }) = connect(port, limits.handshake).await else { return None };
    let path = format!("/{}/{}", spec.id, spec.mode);
    let began = std::time::Instant::now();
    match tokio::time::timeout(Duration::from_secs(30), upgrade(&mut s, &path, &mut rng, spec.fine)).await {
        Ok(Some(101)) => {}
        _ if limits.handshake.is_some_and(|l| began.elapsed() * 3 >= l) => {
            inconclusive("too slow for the time limit");
            return None;
        }
        other => {
            violation("handshake-fails", json!({"spec": describe(&spec), "got": format!("{other:?}")}));
            return None;
        }
    }
    let (r, mut w) = tokio::io::split(s);
    let received: Log<In> = Log::new();
    let reader = tokio::spawn(read_frames(r, received.clone(), spec.slow));
    // The handler's process, once it is there.
    let id = spec.id;
    let is_init = move |e: &(u64, What)| e.0 == id && matches!(e.1, What::Init(_));
    if !eventually(move || log().any(is_init)).await {
        violation("handler-not-started", describe(&spec));
        return None;
    }
    let pid = log().snapshot().into_iter().find_map(|e| match e {
        (i, What::Init(p)) if i == id => Some(p),
        _ => None,
    })?;
    let watching = Arc::new(std::sync::Mutex::new(None));
    let (ready_tx, ready_rx) = tokio::sync::oneshot::channel();
    {
        let watching = watching.clone();
        Process::spawn(async move {
            let reference = Process::monitor(pid);
            let _ = ready_tx.send(());
            loop {
                if let Message::System(SystemMessage::ProcessDown(_, r, reason)) = Process::receive::<()>().await {
                    if r == reference {
                        *watching.lock().unwrap() = Some(format!("{reason:?}"));
                        return;
                    }
                }
            }
        });
    }
    let _ = ready_rx.await;
    let senders: Vec<_> = spec
        .infos
        .iter()
        .cloned()
        .map(|list| {
            let mut r = rng.fork();
            let (tx, rx) = tokio::sync::oneshot::channel();
            Process::spawn(async move {
                for info in list {
                    Process::send(pid, info);
                    if r.chance(1, 3) {
                        tokio::task::yield_now().await;
                    }
                }
                let _ = tx.send(());
            });
            rx
        })
        .collect();
    let mut pings = Vec::new();
    for (i, f) in spec.frames.iter().map(Some).chain([None]).enumerate() {
        if let Some((at, pause)) = spec.pause {
            if at == i || f.is_none() && at > i {
                tokio::time::sleep(pause).await;
            }
        }
        let Some(f) = f else { break };
        let parts = match f {
            Out::Program { text, program, cuts, ping_between } => encode_program(program, *text, cuts, *ping_between, &mut rng, &mut pings),
            Out::Ping(b) => vec![frame(true, 9, b, Some(rng.next() as u32))],
            Out::Pong(b) => vec![frame(true, 10, b, Some(rng.next() as u32))],
        };
        for part in parts {
            if !dribble(&mut w, &part, &mut rng, spec.fine).await {
                break;
            }
        }
        if rng.chance(1, 5) {
            tokio::task::yield_now().await;
        }
    }
    for rx in senders {
        let _ = rx.await;
    }
    let mut hold = None;
    match &spec.finish {
        Finish::Close(c) => {
            let mut data = Vec::new();
            if let Some((code, reason)) = c {
                data.extend(code.to_be_bytes());
                data.extend(reason.as_bytes());
            }
            dribble(&mut w, &frame(true, 8, &data, Some(rng.next() as u32)), &mut rng, spec.fine).await;
            hold = Some(w);
        }
        Finish::Fin => {
            let _ = w.shutdown().await;
            hold = Some(w);
        }
        Finish::Reset => {
            reader.abort();
            linger(fd);
            drop(w);
            // The other half, with the connection.
            let _ = reader.await;
        }
        Finish::Garbage(kind) => {
            let bytes = match kind {
                0 => frame(true, 1, b"not masked", None),
                1 => frame(true, 3, b"reserved opcode", Some(7)),
                2 => frame(true, 1, &[0xff, 0xfe, 0xfd], Some(9)),
                3 => frame(true, 0, b"continues nothing", Some(3)),
                _ => {
                    let mut f = frame(true, 1, b"reserved bits", Some(3));
                    f[0] |= 0x40;
                    f
                }
            };
            dribble(&mut w, &bytes, &mut rng, spec.fine).await;
            hold = Some(w);
        }
        Finish::Oversize(in_a_frame) => {
            let mut p = Program { seq: 9999, run: vec![Do::Text("too big".into())], pad: String::new() };
            let len = serde_json::to_vec(&p).unwrap().len();
            let to = if *in_a_frame { limits.frame.unwrap() + 1 } else { limits.most() + 1 };
            let more = if rng.bool() { 0 } else { rng.usize(to) };
            // A single frame too large stays within what a message may be.
            let to = if *in_a_frame { (to + more).min(limits.most().max(to)) } else { to + more };
            p.pad = "x".repeat(to.saturating_sub(len));
            let len = serde_json::to_vec(&p).unwrap().len();
            let parts = if *in_a_frame {
                vec![encode_whole(&p, &mut rng)]
            } else {
                let pieces = rng.range(1, 3);
                encode_program(&p, true, &cuts(len, pieces, limits, &mut rng), false, &mut rng, &mut pings)
            };
            for part in parts {
                if !dribble(&mut w, &part, &mut rng, false).await {
                    break;
                }
            }
            hold = Some(w);
        }
        Finish::Handler(d, by_info) => {
            let run = vec![Do::Text("last".into()), d.clone(), Do::Text("never".into())];
            if *by_info {
                let (tx, rx) = tokio::sync::oneshot::channel();
                let late = spec.late;
                Process::spawn(async move {
                    Process::send(pid, Info { from: 90, seq: 0, run });
                    for seq in 0..late {
                        Process::send(pid, Info { from: 90, seq: 1 + seq, run: vec![Do::Text("never".into())] });
                    }
                    let _ = tx.send(());
                });
                let _ = rx.await;
            } else {
                let p = Program { seq: 9000, run, pad: String::new() };
                let mut all: Vec<u8> = encode_whole(&p, &mut rng);
                for seq in 0..spec.late {
                    let p = Program { seq: 9001 + seq, run: vec![Do::Text("never".into())], pad: String::new() };
                    all.extend(encode_whole(&p, &mut rng));
                }
                let _ = w.write_all(&all).await;
            }
            hold = Some(w);
        }
        Finish::Outside(kind) => {
            let reason = match kind {
                ExitKind::Kill => ExitReason::Kill,
                ExitKind::Custom => ExitReason::from("outside"),
            };
            let trapping = spec.mode.contains("trap");
            if trapping && *kind == ExitKind::Custom {
                // Only a message to it; it is ended afterwards.
                Process::spawn(async move {
                    Process::exit(pid, reason);
                    tokio::time::sleep(Duration::from_millis(5)).await;
                    Process::exit(pid, ExitReason::Kill);
                });
            } else {
                Process::spawn(async move { Process::exit(pid, reason) });
            }
            hold = Some(w);
        }
    }
    // However it ended, the handler goes, and the connection with it.
    let gone = eventually(move || log().any(|e| e.0 == id && e.1 == What::Dropped) && !in_list(pid)).await;
    let wd = watching.clone();
    let reported = eventually(move || wd.lock().unwrap().is_some()).await;
    if !reported {
        violation("end-of-handler-not-reported", describe(&spec));
    }
    if !matches!(spec.finish, Finish::Reset) {
        let rc = received.clone();
        if !eventually(move || rc.any(|i| matches!(i, In::End(_)))).await {
            violation("connection-stays-open", describe(&spec));
        }
    }
    drop(hold);
    let down = watching.lock().unwrap().clone();
    Some(Served { spec, received: received.snapshot(), down, gone, opened: true })
}

fn in_list(pid: Pid) -> bool {
    Process::list().contains(&pid)
}

/// A reset instead of an orderly end.
fn linger(fd: i32) -> bool {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe { libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of::<libc::linger>() as u32) == 0 }
}

fn judge(s: &Served) {
    evaluated(1);
    let spec = &s.spec;
    let events: Vec<What> = log().snapshot().into_iter().filter(|e| e.0 == spec.id).map(|e| e.1).collect();
    let detail = || {
        json!({"spec": describe(spec), "down": s.down, "events": events.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>(),
               "received": s.received.iter().map(|i| format!("{i:?}").chars().take(80).collect::<String>()).collect::<Vec<_>>()})
    };
    if !s.opened {
        return;
    }
    check(s.gone, "handler-outlives-its-connection", detail);
    check(events.iter().filter(|e| matches!(e, What::Init(_))).count() == 1 && matches!(events.first(), Some(What::Init(_))), "init-first-and-once", detail);

    // Frames: in order, once, intact.
    let mut want: Vec<(&'static str, u64, usize)> = Vec::new();
    let mut pongs_due: Vec<Vec<u8>> = Vec::new();
    for f in &spec.frames {
        match f {
            Out::Program { text, program, cuts, ping_between } => {
                let data = serde_json::to_vec(program).unwrap();
                if *ping_between {
                    for i in 0..cuts.len() - 1 {
                        let b = format!("b{}.{i}", program.seq).into_bytes();
                        want.push(("ping", hash_of(&b), b.len()));
                        pongs_due.push(b);
                    }
                }
                want.push((if *text { "text" } else { "binary" }, hash_of(&data), data.len()));
            }
            Out::Ping(b) => {
                want.push(("ping", hash_of(b), b.len()));
                pongs_due.push(b.clone());
            }
            Out::Pong(b) => want.push(("pong", hash_of(b), b.len())),
        }
    }
    match &spec.finish {
        Finish::Close(c) => {
            let data = c.as_ref().map(|(code, reason)| format!("{code} {reason}")).unwrap_or_default().into_bytes();
            want.push(("close", hash_of(&data), data.len()));
        }
        Finish::Handler(d, false) => {
            let p = Program { seq: 9000, run: vec![Do::Text("last".into()), d.clone(), Do::Text("never".into())], pad: String::new() };
            let data = serde_json::to_vec(&p).unwrap();
            want.push(("text", hash_of(&data), data.len()));
        }
        _ => {}
    }
    let handled: Vec<(&'static str, u64, usize)> = events
        .iter()
        .filter_map(|e| match e {
            What::Handle(k, h, n) => Some((*k, *h, *n)),
            _ => None,
        })
        .collect();
    // All of them, where the handler was not ended (or its answers refused) before.
    let exact = matches!(spec.finish, Finish::Close(_) | Finish::Handler(_, false));
    if exact {
        check(handled == want, "frames-handled", || json!({"case": detail(), "want": format!("{want:?}")}));
    } else {
        check(want.starts_with(&handled), "frames-handled", || json!({"case": detail(), "want": format!("{want:?}")}));
    }

    // Messages of each sender: in order, once; all of them unless it ended earlier.
    let mut by: BTreeMap<u64, Vec<u64>> = BTreeMap::new();
    for e in &events {
        if let What::Info(from, seq) = e {
            by.entry(*from).or_default().push(*seq);
        }
    }
    for (from, seqs) in &by {
        let first = if *from == 0 { 1 } else { 0 };
        let good = seqs.iter().enumerate().all(|(i, s)| *s == i as u64 + first);
        check(good, "messages-handled", || json!({"case": detail(), "from": from, "seqs": seqs}));
    }
    if let Some(seqs) = by.get(&90) {
        check(seqs.len() == 1, "runs-on-after-its-end", detail);
    }
    if matches!(spec.finish, Finish::Handler(_, true)) {
        for list in &spec.infos {
            let n = by.get(&list[0].from).map(|l| l.len()).unwrap_or(0);
            check(n == list.len(), "messages-handled", || json!({"case": detail(), "from": list[0].from, "handled": n}));
        }
    }

    // Nothing happens after the end; terminate is called once where it must be, last.
    let ends: Vec<(usize, String)> = events
        .iter()
        .enumerate()
        .filter_map(|(i, e)| match e {
            What::Terminate(r) => Some((i, r.clone())),
            _ => None,
        })
        .collect();
    let abrupt = matches!(&spec.finish, Finish::Outside(_) | Finish::Handler(Do::Panic | Do::Exit(_), _));
    check(ends.len() <= 1, "terminated-twice", detail);
    if !abrupt {
        check(ends.len() == 1, "not-terminated", detail);
    }
    if let Some((i, reason)) = ends.first() {
        check(events[i + 1..] == [What::Dropped], "runs-on-after-its-end", detail);
        check(s.down.as_ref() == Some(reason), "exit-reason-differs", detail);
        if let Finish::Handler(Do::Fail(r), _) = &spec.finish {
            check(*reason == format!("{:?}", ExitReason::from(r.as_str())), "exit-reason-differs", detail);
        }
    }
    match &spec.finish {
        Finish::Outside(kind) => {
            let trapping = spec.mode.contains("trap");
            let want = if *kind == ExitKind::Kill || trapping { ExitReason::Kill } else { ExitReason::from("outside") };
            if ends.is_empty() {
                check(s.down == Some(format!("{want:?}")), "exit-reason-differs", detail);
            }
        }
        Finish::Handler(Do::Exit(r), _) => {
            check(s.down == Some(format!("{:?}", ExitReason::from(r.as_str()))), "exit-reason-differs", detail);
        }
        _ => {}
    }

    // What the client got: answers to frames in order, answers to messages in order, pongs in order.
    check(!s.received.iter().any(|i| matches!(i, In::Bad(_))), "bad-frames-sent", detail);
    check(!s.received.iter().any(|i| matches!(i, In::Text(t) if t == "never" || t == "too big")), "carries-on-after-its-end", detail);
    let close_at = s.received.iter().position(|i| matches!(i, In::Close(..)));
    if let Some(at) = close_at {
        check(s.received[at + 1..].iter().all(|i| matches!(i, In::End(_))), "frames-after-close", detail);
    }
    let text_of = |i: &In| match i {
        In::Text(t) => Some(t.clone().into_bytes()),
        In::Binary(b) | In::Ping(b) => Some(b.clone()),
        _ => None,
    };
    let mut due: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
    let mut count_of = |key: String, run: &Vec<Do>| {
        for d in run {
            match d {
                Do::Text(t) => due.entry(key.clone()).or_default().push(t.clone().into_bytes()),
                Do::Binary(b) | Do::Ping(b) => due.entry(key.clone()).or_default().push(b.clone()),
                _ => {}
            }
        }
    };
    for f in &spec.frames {
        if let Out::Program { program, .. } = f {
            count_of("f".into(), &program.run);
        }
    }
    for list in &spec.infos {
        for i in list {
            count_of(format!("i{}", i.from), &i.run);
        }
    }
    let mut got: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
    for i in &s.received {
        let Some(b) = text_of(i) else { continue };
        let head = String::from_utf8_lossy(&b[..b.len().min(4)]).to_string();
        let key = if matches!(&b[..], b"hello" | b"last" | b"bye" | b"never") {
            continue;
        } else if let Some(rest) = head.strip_prefix('i') {
            format!("i{}", rest.split('.').next().unwrap_or(""))
        } else {
            "f".into()
        };
        got.entry(key).or_default().push(b);
    }
    // All answers arrive where the client neither went away nor was cut off.
    // (Later frames the handler never reads make the system reset the connection.)
    let quiet = match &spec.finish {
        Finish::Close(_) => true,
        Finish::Handler(Do::Close(..), false) => spec.late == 0,
        Finish::Handler(Do::Close(..), true) => handled.len() == want.len(),
        _ => false,
    };
    let all_frames = quiet && exact;
    let all_infos = quiet && matches!(spec.finish, Finish::Handler(_, true));
    for (key, list) in &due {
        let g = got.get(key).cloned().unwrap_or_default();
        let whole = (key == "f" && all_frames) || (key != "f" && all_infos);
        let ok = if whole { g == *list } else { list.starts_with(&g) };
        check(ok, "answers-to-the-client", || json!({"case": detail(), "key": key, "want": list.len(), "got": g.len()}));
    }
    for key in got.keys() {
        check(due.contains_key(key), "answers-to-the-client", || json!({"case": detail(), "key": key}));
    }
    let pongs: Vec<Vec<u8>> = s
        .received
        .iter()
        .filter_map(|i| match i {
            In::Pong(b) => Some(b.clone()),
            _ => None,
        })
        .collect();
    let ok = if all_frames { pongs == pongs_due } else { pongs_due.starts_with(&pongs) };
    check(ok, "pongs", || json!({"case": detail(), "want": pongs_due.len(), "got": pongs.len()}));
    let hellos: Vec<usize> = s.received.iter().enumerate().filter(|(_, i)| **i == In::Text("hello".into())).map(|(i, _)| i).collect();
    if spec.mode.contains("hello") && quiet {
        check(hellos == [0], "greeting-first", detail);
    }
    if quiet {
        if let Finish::Handler(Do::Close(code, reason), _) = &spec.finish {
            let told = close_at.map(|at| s.received[at].clone());
            check(told == Some(In::Close(*code, reason.clone())), "client-not-told", detail);
            check(s.received.contains(&In::Text("last".into())), "answers-to-the-client", detail);
        }
        if let Finish::Close(_) = &spec.finish {
            check(close_at.is_some(), "close-not-answered", detail);
        }
    }
    let shape: HashSet<&str> = events
        .iter()
        .map(|e| match e {
            What::Init(_) => "init",
            What::Handle(k, ..) => k,
            What::Info(..) => "info",
            What::System(_) => "system",
            What::Terminate(_) => "terminate",
            What::Dropped => "dropped",
        })
        .collect();
    let mut shape: Vec<_> = shape.into_iter().collect();
    shape.sort();
    let finish = match &spec.finish {
        Finish::Close(c) => format!("close {}", c.is_some()),
        Finish::Handler(d, i) => format!("handler {} {i}", format!("{d:?}").split('(').next().unwrap()),
        f => format!("{f:?}"),
    };
    cover(&(finish.clone(), spec.mode.clone(), shape, handled.len().min(6), s.received.len().min(8), s.received.last().map(|l| format!("{l:?}"))));
    hv::count("frames handled", handled.len() as u64);
    hv::count("frames received by clients", s.received.len() as u64);
    sample(&finish, detail);
}

// ---------------------------------------------------------------------------------------------
// Scenarios
// ---------------------------------------------------------------------------------------------

fn free_port() -> u16 {
    std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port()
}

async fn start_server(config: impl Fn(SocketAddr) -> WebsocketServerConfig) -> Option<(Pid, u16)> {
    for _ in 0..20 {
        let port = free_port();
        let c = config(SocketAddr::from(([127, 0, 0, 1], port)));
        let started = in_process(async move { WebsocketServer::<Handler>::new(c).start(GenServerOptions::new()).await }).await;
        match started {
            Some(Ok(pid)) => return Some((pid, port)),
            Some(Err(r)) if r == "address_in_use" => continue,
            other => {
                violation("server-does-not-start", json!({"got": format!("{other:?}")}));
                return None;
            }
        }
    }
    inconclusive("no free port");
    None
}

async fn closed(port: u16) -> bool {
    for _ in 0..500 {
        match TcpStream::connect(("127.0.0.1", port)).await {
            Err(_) => return true,
            Ok(_) => tokio::time::sleep(Duration::from_millis(10)).await,
        }
    }
    false
}

fn connections(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    log().take();
    let rt = if rng.chance(1, 5) { runtime(&mut rng) } else { runtime_threads(4) };
    rt.block_on(async {
        let limits = Limits::random(&mut rng);
        let Some((server, port)) = start_server(move |a| config_at(a).max_message_size(limits.message).max_frame_size(limits.frame)).await else { return };
        for _ in 0..rng.range(1, 3) {
            let n = *rng.pick(&[1u64, 3, 8, 20]);
            let tasks: Vec<_> = (0..n)
                .map(|_| {
                    let spec = random_spec(&mut rng, limits);
                    let r = rng.fork();
                    tokio::spawn(serve(port, spec, limits, r))
                })
                .collect();
            let mut pids = HashSet::new();
            for t in tasks {
                match t.await {
                    Ok(Some(s)) => judge(&s),
                    Ok(None) => {}
                    Err(_) => inconclusive("client task failed"),
                }
            }
            for (id, e) in log().snapshot() {
                if let What::Init(p) = e {
                    check(pids.insert(p), "two-connections-one-process", || json!({"id": id}));
                }
            }
            if violations_so_far() > 0 {
                break;
            }
        }
        end_server(server, port, &mut rng).await;
    });
    rt.shutdown_timeout(Duration::from_secs(2));
}

async fn end_server(server: Pid, port: u16, rng: &mut Rng) {
    match rng.below(3) {
        0 => kill(server),
        1 => {
            Process::spawn(async move {
                let _ = WebsocketServer::<Handler>::stop(server, ExitReason::from("done"), None).await;
            });
        }
        _ => {
            // The server traps exits, so only its parent's exit or a kill ends it.
            kill(server);
        }
    }
    let gone = eventually(move || !in_list(server)).await;
    check(gone, "server-does-not-end", || json!({}));
    check(closed(port).await, "accepts-after-its-end", || json!({"port": port}));
    evaluated(1);
}

/// Handshakes that fail in every way, while a good client is being served.
fn handshakes(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    log().take();
    let rt = runtime(&mut rng);
    rt.block_on(async {
        let timeout = Duration::from_millis(if cfg!(feature = "tls") { rng.range(700, 1200) } else { rng.range(150, 300) });
        let limits = Limits { message: Some(65536), frame: Some(16 << 20), handshake: Some(timeout) };
        let Some((server, port)) = start_server(move |a| config_at(a).handshake_timeout(timeout).max_message_size(limits.message)).await else { return };
        let mut tasks = Vec::new();
        for _ in 0..rng.range(4, 16) {
            let mut r = rng.fork();
            tasks.push(tokio::spawn(async move {
                let id = NEXT.fetch_add(1, SeqCst);
                let began = std::time::Instant::now();
                let Some(Conn { io: mut s, .. }) = connect(port, Some(timeout)).await else { return };
                let kind = r.below(9);
                let answer: Option<u16> = match kind {
                    0 | 1 => upgrade(&mut s, &format!("/{id}/refuse"), &mut r, kind == 1).await,
                    2 => upgrade(&mut s, &format!("/{id}/accept-panic"), &mut r, false).await,
                    k => {
                        let bytes: Vec<u8> = match k {
                            3 => format!("GET /{id}/plain HTTP/1.1\r\nHost: x\r\n\r\n").into_bytes(),
                            4 => format!("GET /{id}/nokey HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\n\r\n").into_bytes(),
                            5 => r.bytes(200),
                            6 => format!("GET /{id}/cut HTTP/1.1\r\nHost: x\r\nUpgr").into_bytes(),
                            7 => Vec::new(),
                            _ => format!("POST /{id}/post HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n").into_bytes(),
                        };
                        if r.chance(1, 4) {
                            // Goes away in the middle.
                            let _ = s.write_all(&bytes).await;
                            return;
                        }
                        let _ = s.write_all(&bytes).await;
                        None
                    }
                };
                check(answer != Some(101), "refused-handshake-accepted", || json!({"kind": kind}));
                if kind <= 1 && began.elapsed() * 3 < timeout {
                    check(answer.is_some_and(|c| c >= 400), "refusal-not-answered", || json!({"answer": answer}));
                }
                // The connection ends.
                let mut rest = Vec::new();
                let ended = tokio::time::timeout(Duration::from_secs(30), s.read_to_end(&mut rest)).await.is_ok();
                check(ended, "failed-handshake-stays-open", || json!({"kind": kind}));
                let took = began.elapsed();
                if kind == 7 || kind == 6 {
                    check(took + Duration::from_millis(15) >= timeout, "handshake-cut-short", || json!({"took": format!("{took:?}"), "limit": format!("{timeout:?}")}));
                }
                check(!log().any(|e| e.0 == id), "handler-after-refused-handshake", || json!({"kind": kind}));
                evaluated(1);
                cover(&("handshake", kind, answer, rest.len().min(1)));
            }));
        }
        let specs: Vec<_> = (0..rng.range(1, 3)).map(|_| random_spec(&mut rng, limits)).collect();
        let good: Vec<_> = specs
            .into_iter()
            .map(|mut spec| {
                // Within the time limit, for sure.
                spec.fine = false;
                let r = rng.fork();
                tokio::spawn(serve(port, spec, limits, r))
            })
            .collect();
        for t in tasks {
            if t.await.is_err() {
                inconclusive("client task failed");
            }
        }
        for t in good {
            if let Ok(Some(s)) = t.await {
                judge(&s);
            }
        }
        stalls(port, timeout, &mut rng).await;
        // A second server cannot have the same address, and does not disturb the first.
        let again = in_process(async move {
            WebsocketServer::<Handler>::new(config_at(SocketAddr::from(([127, 0, 0, 1], port)))).start(GenServerOptions::new()).await
        })
        .await;
        check(again == Some(Err(ExitReason::from("address_in_use"))), "address-taken-twice", || json!({"got": format!("{again:?}")}));
        let spec = random_spec(&mut rng, limits);
        let r = rng.fork();
        if let Some(s) = serve(port, Spec { fine: false, ..spec }, limits, r).await {
            judge(&s);
        }
        end_server(server, port, &mut rng).await;
    });
    rt.shutdown_timeout(Duration::from_secs(2));
}

/// Clients that are silent for long once they are connected, longer than the handshake may take: it is no limit for
/// what comes after it.
fn patience(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    log().take();
    let rt = runtime_threads(4);
    rt.block_on(async {
        let timeout = Duration::from_millis(rng.range(1000, 2000));
        let mut limits = Limits::random(&mut rng);
        limits.handshake = Some(timeout);
        let Some((server, port)) = start_server(move |a| config_at(a).handshake_timeout(timeout).max_message_size(limits.message).max_frame_size(limits.frame)).await else { return };
        let tasks: Vec<_> = (0..rng.range(10, 30))
            .map(|_| {
                let mut spec = random_spec(&mut rng, limits);
                spec.fine = false;
                spec.pause = Some((rng.usize(spec.frames.len() + 1), Duration::from_millis(rng.range(1200, 4500))));
                let r = rng.fork();
                count("silent clients", 1);
                tokio::spawn(serve(port, spec, limits, r))
            })
            .collect();
        for t in tasks {
            match t.await {
                Ok(Some(s)) => judge(&s),
                Ok(None) => {}
                Err(_) => inconclusive("client task failed"),
            }
        }
        end_server(server, port, &mut rng).await;
    });
    rt.shutdown_timeout(Duration::from_secs(2));
}

/// A client that is slow in one part of the greeting and silent in the next is cut off in time all the same.
async fn stalls(port: u16, limit: Duration, rng: &mut Rng) {
    let part = rng.range(60, 80);
    let mut took = Vec::new();
    // On a loaded machine one alone says nothing.
    for _ in 0..5 {
        let began = std::time::Instant::now();
        let Some(s) = dial(port).await else { return };
        if cfg!(feature = "tls") {
            tokio::time::sleep(limit * part as u32 / 100).await;
        }
        if let Ok(mut s) = secured(s).await {
            let _ = s.write_all(b"GET /0/cut HTTP/1.1\r\nHos").await;
            let mut rest = Vec::new();
            if tokio::time::timeout(Duration::from_secs(30), s.read_to_end(&mut rest)).await.is_err() {
                violation("failed-handshake-stays-open", json!({"part": part}));
                return;
            }
        }
        let t = began.elapsed();
        evaluated(1);
        let most = if cfg!(feature = "tls") { limit * (100 + part as u32 / 2) / 100 + Duration::from_millis(100) } else { limit * 2 + Duration::from_millis(500) };
        if t < most {
            return;
        }
        took.push(format!("{t:?}"));
    }
    violation("handshake-limit-exceeded", json!({"limit": format!("{limit:?}"), "part": part, "took": took}));
}

/// Handlers that end while starting.
fn beginnings(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    log().take();
    let rt = runtime(&mut rng);
    rt.block_on(async {
        let Some((server, port)) = start_server(config_at).await else { return };
        let tasks: Vec<_> = (0..rng.range(1, 8))
            .map(|_| {
                let mut r = rng.fork();
                tokio::spawn(async move {
                    let id = NEXT.fetch_add(1, SeqCst);
                    let kind = *r.pick(&["init-fail", "init-close", "init-panic"]);
                    let mode = if r.bool() { format!("{kind}-trap") } else { kind.to_string() };
                    let Some(Conn { io: mut s, .. }) = connect(port, None).await else { return };
                    let answer = upgrade(&mut s, &format!("/{id}/{mode}"), &mut r, false).await;
                    if answer != Some(101) {
                        violation("handshake-fails", json!({"mode": mode, "got": format!("{answer:?}")}));
                        return;
                    }
                    let received: Log<In> = Log::new();
                    let _ = tokio::time::timeout(Duration::from_secs(60), read_frames(&mut s, received.clone(), 0)).await;
                    let gone = eventually(move || log().any(|e| e.0 == id && e.1 == What::Dropped)).await;
                    let events: Vec<What> = log().snapshot().into_iter().filter(|e| e.0 == id).map(|e| e.1).collect();
                    let got = received.snapshot();
                    let d = || json!({"mode": mode, "events": format!("{events:?}"), "received": format!("{got:?}")});
                    evaluated(1);
                    check(gone, "handler-outlives-its-connection", d);
                    match kind {
                        "init-close" => {
                            check(got == [In::Text("hello".into()), In::Close(4001, "init".into()), In::End(true)], "client-not-told", d);
                            check(events.iter().filter(|e| matches!(e, What::Terminate(_))).count() == 1, "not-terminated", d);
                        }
                        "init-fail" => {
                            check(matches!(&got[..], [In::End(_)]), "connection-stays-open", d);
                            check(events.iter().filter(|e| matches!(e, What::Terminate(_))).count() == 1, "not-terminated", d);
                        }
                        _ => {
                            check(matches!(&got[..], [In::End(_)]), "connection-stays-open", d);
                        }
                    }
                    cover(&("beginning", mode.clone(), got.len()));
                })
            })
            .collect();
        for t in tasks {
            if t.await.is_err() {
                inconclusive("client task failed");
            }
        }
        end_server(server, port, &mut rng).await;
    });
    rt.shutdown_timeout(Duration::from_secs(2));
}

/// Large messages both ways.
fn volume(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    log().take();
    let rt = runtime(&mut rng);
    rt.block_on(async {
        let Some((server, port)) = start_server(config_at).await else { return };
        static BYTES: AtomicUsize = AtomicUsize::new(0);
        // Unless configured otherwise, a frame may have 16 MiB, a message 64.
        let limits = Limits { message: Some(64 << 20), frame: Some(16 << 20), handshake: None };
        let mut spec = random_spec(&mut rng, Limits { message: Some(65536), frame: Some(65536), handshake: None });
        spec.frames.clear();
        spec.infos.clear();
        for seq in 0..rng.range(1, 4) {
            let n = *rng.pick(&[65535usize, 65536, 70_000, 400_000]);
            let mut back = format!("f{seq}.0:").into_bytes();
            back.extend(rng.bytes(n / 4));
            BYTES.fetch_add(n, SeqCst);
            let program = Program { seq, run: vec![Do::Binary(back)], pad: rng.string(n) };
            let len = serde_json::to_vec(&program).unwrap().len();
            let pieces = rng.range(1, 4);
            spec.frames.push(Out::Program { text: rng.bool(), program, cuts: cuts(len, pieces, limits, &mut rng), ping_between: rng.bool() });
        }
        spec.finish = match rng.below(8) {
            0 => Finish::Oversize(true),
            1..=3 => Finish::Close(None),
            _ => Finish::Handler(Do::Close(1000, "ok".into()), false),
        };
        if rng.chance(1, 8) {
            // As much as a frame may have, and somewhat more in two.
            let mut program = Program { seq: 99, run: Vec::new(), pad: String::new() };
            let len = serde_json::to_vec(&program).unwrap().len();
            let to = (16 << 20) + if rng.bool() { 0 } else { rng.usize(1 << 20) };
            program.pad = "v".repeat(to - len);
            spec.frames.push(Out::Program { text: false, program, cuts: cuts(to, 1, limits, &mut rng), ping_between: false });
        }
        spec.late = 0;
        spec.fine = false;
        let r = rng.fork();
        if let Some(s) = serve(port, spec, limits, r).await {
            judge(&s);
        }
        hv::count("large bytes", BYTES.swap(0, SeqCst) as u64);
        end_server(server, port, &mut rng).await;
    });
    rt.shutdown_timeout(Duration::from_secs(2));
}

fn main() {
    allow_panic("Websocket closed without close frame");
    run(
        "C22",
        &[
            scenario("connections", 5, connections),
            scenario("handshakes", 1, handshakes),
            scenario("beginnings", 1, beginnings),
            scenario("volume", 1, volume),
            scenario("patience", 1, patience),
        ],
    );
}
