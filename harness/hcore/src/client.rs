//! A front-end: runs the real core's message loop in a thread and talks to it over in-memory pipes.
use serde_json::{json, Value};
use std::io::{self, BufRead, Read, Write};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::sync::Mutex;
use std::thread::JoinHandle;
use std::time::{Duration, Instant};

use xi_core_lib::XiCore;
use xi_rpc::RpcLoop;

static PANIC: Mutex<Option<String>> = Mutex::new(None);

/// Panics of any thread of the core are remembered; the driver reports them.
pub fn watch_panics() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{}", info).replace('\n', " ");
        if std::env::var("VERIF_PANICS").is_ok() {
            eprintln!("{}\n{}", s, std::backtrace::Backtrace::force_capture());
        }
        let mut p = PANIC.lock().unwrap_or_else(|e| e.into_inner());
        if p.is_none() {
            *p = Some(s.chars().take(300).collect());
        }
    }));
}

extern "C" {
    fn inotify_init1(flags: i32) -> i32;
    fn close(fd: i32) -> i32;
}

/// The system allows only so many file watchers at a time; the core cannot start without one.
pub fn wait_for_watchers() {
    for _ in 0..600 {
        let fds: Vec<i32> = (0..6).map(|_| unsafe { inotify_init1(0) }).collect();
        for &fd in fds.iter().filter(|&&fd| fd >= 0) {
            unsafe { close(fd) };
        }
        if fds.iter().all(|&fd| fd >= 0) {
            return;
        }
        std::thread::sleep(Duration::from_millis(200));
    }
}

pub fn take_panic() -> Option<String> {
    PANIC.lock().unwrap_or_else(|e| e.into_inner()).take()
}

struct ChanReader {
    rx: Receiver<Vec<u8>>,
    buf: Vec<u8>,
    pos: usize,
}

impl Read for ChanReader {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        let n = {
            let b = self.fill_buf()?;
            let n = b.len().min(out.len());
            out[..n].copy_from_slice(&b[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}

impl BufRead for ChanReader {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.pos >= self.buf.len() {
            match self.rx.recv() {
                Ok(b) => {
                    self.buf = b;
                    self.pos = 0;
                }
                Err(_) => return Ok(&[]),
            }
        }
        Ok(&self.buf[self.pos..])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}

struct ChanWriter {
    tx: Sender<Value>,
    buf: Vec<u8>,
}

impl Write for ChanWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.buf.extend_from_slice(b);
        while let Some(k) = self.buf.iter().position(|&c| c == b'\n') {
            let line: Vec<u8> = self.buf.drain(..=k).collect();
            let v = serde_json::from_slice(&line).unwrap_or_else(|_| {
                json!({"garbage": String::from_utf8_lossy(&line).into_owned()})
            });
            let _ = self.tx.send(v);
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub struct Core {
    tx: Option<Sender<Vec<u8>>>,
    rx: Receiver<Value>,
    next_id: usize,
    th: Option<JoinHandle<bool>>,
    /// notifications received so far and not yet taken
    pub notes: Vec<Value>,
    pub patience: Duration,
    /// answer questions badly, in ways that follow from this number
    pub garble: u64,
}

#[derive(Debug, Clone)]
pub enum Fail {
    Panic(String),
    Hang,
    Ended,
}

impl Core {
    pub fn start() -> Core {
        let (itx, irx) = channel();
        let (otx, orx) = channel();
        wait_for_watchers();
        let _ = take_panic();
        let th = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                let mut state = XiCore::new();
                let mut rpc = RpcLoop::new(ChanWriter { tx: otx, buf: Vec::new() });
                rpc.mainloop(move || ChanReader { rx: irx, buf: Vec::new(), pos: 0 }, &mut state).is_ok()
            })
            .unwrap();
        Core { tx: Some(itx), rx: orx, next_id: 0, th: Some(th), notes: Vec::new(), patience: Duration::from_secs(30), garble: 0 }
    }

    pub fn raw(&mut self, line: &str) {
        if let Some(tx) = &self.tx {
            let mut b = line.as_bytes().to_vec();
            b.push(b'\n');
            let _ = tx.send(b);
        }
    }

    pub fn notify(&mut self, method: &str, params: Value) {
        self.raw(&json!({"method": method, "params": params}).to_string());
    }

    fn incoming(&mut self, v: Value) -> Option<Value> {
        if v.get("method").is_some() {
            if let Some(id) = v.get("id").cloned() {
                // the only request a front-end gets: measure text
                let res: Vec<Value> = v["params"]
                    .as_array()
                    .map(|a| {
                        a.iter()
                            .map(|r| {
                                json!(r["strings"]
                                    .as_array()
                                    .map(|s| s.iter().map(|x| width(x.as_str().unwrap_or(""))).collect::<Vec<f64>>())
                                    .unwrap_or_default())
                            })
                            .collect()
                    })
                    .unwrap_or_default();
                let mut answer = json!({"id": id, "result": res});
                if self.garble > 0 {
                    self.garble = self.garble.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) | 1;
                    match (self.garble >> 33) % 8 {
                        0 => answer = json!({"id": id, "error": {"code": 1, "message": "no"}}),
                        1 => answer = json!({"id": id, "result": null}),
                        2 => answer = json!({"id": id, "result": []}),
                        3 => answer = json!({"id": id, "result": [["x"]]}),
                        4 => answer = json!({"id": id, "result": [[-1e300, 1e300], [0.0]]}),
                        5 => answer = json!({"id": id, "result": [[1, 2, 3, 4, 5, 6, 7, 8, 9], [1], [2], [3]]}),
                        6 => answer = json!({"id": id, "error": 3}),
                        _ => {}
                    }
                }
                self.raw(&answer.to_string());
            } else {
                self.notes.push(v);
            }
            None
        } else {
            Some(v)
        }
    }

    /// Send a request and wait for its response (the whole message); notifications are collected.
    pub fn request(&mut self, method: &str, params: Value) -> Result<Value, Fail> {
        let id = self.next_id;
        self.next_id += 1;
        self.raw(&json!({"id": id, "method": method, "params": params}).to_string());
        let end = Instant::now() + self.patience;
        loop {
            match self.rx.recv_timeout(Duration::from_millis(20)) {
                Ok(v) => {
                    if let Some(r) = self.incoming(v) {
                        if r["id"].as_u64() == Some(id as u64) {
                            return Ok(r);
                        }
                        self.notes.push(json!({"stray": r}));
                    }
                }
                Err(RecvTimeoutError::Timeout) => {
                    if let Some(p) = take_panic() {
                        return Err(Fail::Panic(p));
                    }
                    if Instant::now() > end {
                        return Err(Fail::Hang);
                    }
                }
                Err(RecvTimeoutError::Disconnected) => {
                    return Err(match take_panic() {
                        Some(p) => Fail::Panic(p),
                        None => Fail::Ended,
                    });
                }
            }
        }
    }

    /// Take in whatever arrives within the time.
    pub fn listen(&mut self, d: Duration) {
        let end = Instant::now() + d;
        loop {
            let now = Instant::now();
            if now >= end {
                return;
            }
            match self.rx.recv_timeout(end - now) {
                Ok(v) => {
                    if let Some(r) = self.incoming(v) {
                        self.notes.push(json!({"stray": r}));
                    }
                }
                Err(_) => return,
            }
        }
    }

    pub fn take(&mut self) -> Vec<Value> {
        std::mem::replace(&mut self.notes, Vec::new())
    }

    /// Close the connection; the core must end by itself.
    pub fn finish(mut self) -> Result<(), Fail> {
        self.tx = None;
        let end = Instant::now() + self.patience;
        let th = self.th.take().unwrap();
        while !th.is_finished() {
            if Instant::now() > end {
                return Err(Fail::Hang);
            }
            while self.rx.try_recv().is_ok() {}
            std::thread::sleep(Duration::from_micros(200));
        }
        let r = th.join();
        match (take_panic(), r) {
            (Some(p), _) => Err(Fail::Panic(p)),
            (None, Err(_)) => Err(Fail::Panic("thread".into())),
            _ => Ok(()),
        }
    }
}

/// what the front-end says a piece of text measures
pub fn width(s: &str) -> f64 {
    s.chars().map(|c| if c == 'i' { 1.0 } else if c as u32 > 0x2000 { 4.0 } else { 2.0 }).sum()
}

pub fn cps(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}

pub fn text(c: &[u32]) -> String {
    c.iter().map(|&x| std::char::from_u32(x).unwrap()).collect()
}

pub fn fail_event(f: &Fail, what: &str) -> Value {
    match f {
        Fail::Panic(p) => json!({"op": "panic", "what": what, "msg": p}),
        Fail::Hang => json!({"op": "hang", "what": what, "msg": ""}),
        Fail::Ended => json!({"op": "ended", "what": what, "msg": ""}),
    }
}
