//! Drives the real RPC loop through a scripted peer, a scripted handler and scripted other
//! threads, and records everything that can be observed in one global order.
use serde::Deserialize;
use serde_json::{json, Value};
use std::collections::{HashMap, VecDeque};
use std::io::{self, BufRead, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};
use std::thread;
use std::time::{Duration, Instant};
use vcommon::{quiet_panics, Args, Rng, Trace};
use xi_rpc::{Error, Handler, Peer, ReadError, RemoteError, RpcCtx, RpcLoop, RpcPeer};

const PATIENCE: Duration = Duration::from_secs(15);

/// Everything the run knows, under the lock of the log: an event is logged and counted at once.
struct State {
    trace: Option<Trace>,
    start: Instant,
    line: usize,
    // counters for "quiet"
    main_in: usize,
    main_done: usize,
    read: usize,
    pushed: usize,
    owed: usize,
    calls: usize,
    done: usize,
    toks: usize,
    ran: usize,
    ext: usize,
    ext_done: usize,
    notes: usize,
    asked: Vec<(u64, usize)>, // id on the wire, label
    answered: Vec<bool>,
    stopped: bool,
    broken: bool,
    returned: bool,
    step: usize,
    ended: bool,
    next_tok: usize,
    progs: HashMap<usize, Vec<Value>>,
    changes: u64,
}

struct Run {
    s: Mutex<State>,
    cv: Condvar,
    net: Mutex<VecDeque<Chunk>>,
    netcv: Condvar,
}

enum Chunk {
    Line(Vec<u8>),
    Eof,
}

impl Run {
    fn log(&self, v: Value) {
        self.with(|s| s.log(v))
    }
    fn with<T>(&self, f: impl FnOnce(&mut State) -> T) -> T {
        let mut s = self.s.lock().unwrap_or_else(|e| e.into_inner());
        let r = f(&mut s);
        s.changes += 1;
        self.cv.notify_all();
        r
    }
    /// wait until `f` says so; false when nothing changed for too long
    fn wait(&self, limit: Duration, f: impl Fn(&State) -> bool) -> bool {
        let mut s = self.s.lock().unwrap_or_else(|e| e.into_inner());
        let mut seen = s.changes;
        let mut since = Instant::now();
        loop {
            if f(&s) {
                return true;
            }
            if s.changes != seen {
                seen = s.changes;
                since = Instant::now();
            } else if since.elapsed() >= limit {
                return false;
            }
            s = self.cv.wait_timeout(s, Duration::from_millis(50)).unwrap_or_else(|e| e.into_inner()).0;
        }
    }
    fn push(&self, bytes: Option<Vec<u8>>) {
        let mut q = self.net.lock().unwrap();
        q.push_back(match bytes {
            Some(b) => Chunk::Line(b),
            None => Chunk::Eof,
        });
        self.netcv.notify_all();
    }
}

impl State {
    fn log(&mut self, v: Value) {
        if self.ended {
            return;
        }
        self.line += 1;
        if let Some(t) = self.trace.as_mut() {
            t.log(v);
        }
    }
    fn now(&self) -> u64 {
        self.start.elapsed().as_micros() as u64
    }
}

// ------------------------------------------------------------------ the two ends of the wire

struct NetReader {
    run: Arc<Run>,
    cur: Vec<u8>,
    at: usize,
    given: usize,
    whole: bool,
    eof: bool,
    chunk: usize,
}

impl Read for NetReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let b = self.fill_buf()?;
        let n = b.len().min(buf.len());
        buf[..n].copy_from_slice(&b[..n]);
        self.consume(n);
        Ok(n)
    }
}

impl BufRead for NetReader {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.at == self.cur.len() && !self.eof {
            if self.whole {
                // the reader asks for more: it is through with all earlier lines
                self.whole = false;
                let n = self.given;
                self.run.with(|s| {
                    s.read = n;
                    s.log(json!({"op": "rd", "n": n}))
                });
            }
            let mut q = self.run.net.lock().unwrap();
            loop {
                match q.pop_front() {
                    Some(Chunk::Line(b)) => {
                        self.whole = b.last() == Some(&b'\n');
                        self.cur = b;
                        self.at = 0;
                        self.given += 1;
                        break;
                    }
                    Some(Chunk::Eof) => {
                        self.eof = true;
                        self.cur.clear();
                        self.at = 0;
                        break;
                    }
                    None => q = self.run.netcv.wait(q).unwrap(),
                }
            }
        }
        let end = self.cur.len().min(self.at + self.chunk);
        Ok(&self.cur[self.at..end])
    }
    fn consume(&mut self, n: usize) {
        self.at += n;
    }
}

struct NetWriter {
    run: Arc<Run>,
    buf: Vec<u8>,
}

impl Write for NetWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        for (i, &c) in b.iter().enumerate() {
            self.buf.push(c);
            if c == b'\n' {
                let line = std::mem::replace(&mut self.buf, Vec::new());
                if !self.line(&line) {
                    return Err(io::Error::new(io::ErrorKind::BrokenPipe, "broken"));
                }
                return Ok(i + 1);
            }
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl NetWriter {
    fn line(&mut self, line: &[u8]) -> bool {
        let v: Value = match serde_json::from_slice(line) {
            Ok(v) => v,
            Err(_) => {
                self.run.log(json!({"op": "out", "k": "garbage", "text": String::from_utf8_lossy(line)}));
                return true;
            }
        };
        self.run.with(|s| {
            let ok = !s.broken;
            let id = v["id"].as_u64();
            match (v["method"].as_str(), id) {
                (Some("q"), Some(id)) => {
                    let c = v["params"]["c"].as_u64().unwrap_or(0) as usize;
                    if ok {
                        s.asked.push((id, c));
                        s.answered.push(false);
                    }
                    s.log(json!({"op": "out", "k": "call", "id": id.to_string(), "c": c, "ok": ok}));
                }
                (Some("note"), None) => {
                    s.log(json!({"op": "out", "k": "note", "c": v["params"]["c"], "ok": ok}));
                }
                (None, Some(id)) => {
                    let o = v.as_object().unwrap();
                    let r = match (o.get("result"), o.get("error")) {
                        (Some(r), None) => format!("ok:{}", r),
                        (None, Some(e)) => format!("err:{}", e["code"]),
                        _ => "neither".to_string(),
                    };
                    s.owed = s.owed.saturating_sub(1);
                    s.log(json!({"op": "out", "k": "resp", "id": id.to_string(), "r": r, "ok": ok}));
                }
                _ => s.log(json!({"op": "out", "k": "garbage", "text": v.to_string()})),
            }
            ok
        })
    }
}

// ------------------------------------------------------------------ programs

#[derive(Deserialize)]
#[serde(tag = "method", content = "params", rename_all = "lowercase")]
enum Ask {
    R { n: usize, prog: Vec<Value> },
}

#[derive(Deserialize)]
#[serde(tag = "method", content = "params", rename_all = "lowercase")]
enum Tell {
    N { n: usize, prog: Vec<Value> },
}

struct H(Arc<Run>);

fn result_str(r: &Result<Value, Error>) -> String {
    match r {
        Ok(v) => format!("v:{}", v),
        Err(Error::RemoteError(RemoteError::Custom { code, .. })) => format!("err:{}", code),
        Err(Error::RemoteError(e)) => format!("odd:{:?}", e),
        Err(Error::Io(_)) => "io".into(),
        Err(Error::PeerDisconnect) => "gone".into(),
        Err(Error::InvalidResponse) => "invalid".into(),
    }
}

fn ask_async(run: &Arc<Run>, peer: &RpcPeer, depth: u64) {
    let c = run.with(|s| {
        s.calls += 1;
        let c = s.calls;
        s.log(json!({"op": "call", "c": c}));
        c
    });
    let (r2, p2) = (run.clone(), peer.clone());
    peer.send_rpc_request_async(
        "q",
        &json!({ "c": c }),
        Box::new(move |r: Result<Value, Error>| {
            if depth > 0 {
                ask_async(&r2, &p2, depth - 1);
            }
            r2.with(|s| {
                s.done += 1;
                s.log(json!({"op": "done", "c": c, "r": result_str(&r)}))
            });
        }),
    );
}

/// None: went through; Some(true): answer with an error
fn exec(run: &Arc<Run>, peer: &RpcPeer, prog: &[Value], ext: bool) -> bool {
    let mut fail = false;
    for a in prog {
        let k = a[0].as_str().unwrap_or("");
        let n = a[1].as_u64().unwrap_or(0);
        match k {
            "sync" => {
                let c = run.with(|s| {
                    s.calls += 1;
                    let c = s.calls;
                    s.log(json!({"op": "call", "c": c}));
                    c
                });
                let r = peer.send_rpc_request("q", &json!({ "c": c }));
                run.with(|s| {
                    s.done += 1;
                    s.log(json!({"op": "done", "c": c, "r": result_str(&r)}))
                });
            }
            "async" => ask_async(run, peer, n),
            "idle" | "timer" => {
                let (tok, after) = run.with(|s| {
                    s.next_tok += 1;
                    s.toks += 1;
                    let tok = s.next_tok;
                    if let Some(p) = a[2].as_array() {
                        s.progs.insert(tok, p.clone());
                    }
                    let due = if k == "timer" { s.now() + n * 1000 } else { 0 };
                    s.log(json!({"op": "sb", "k": k, "tok": tok, "due": due}));
                    (tok, s.start + Duration::from_micros(due))
                });
                if k == "timer" {
                    peer.schedule_timer(after, tok);
                } else {
                    peer.schedule_idle(tok);
                }
                run.log(json!({"op": "se", "tok": tok}));
            }
            "pend" if !ext => {
                run.log(json!({"op": "pb"}));
                let r = peer.request_is_pending();
                run.log(json!({"op": "pe", "r": r}));
            }
            "note" => {
                let c = run.with(|s| {
                    s.notes += 1;
                    let c = s.notes;
                    s.log(json!({"op": "nb", "c": c}));
                    c
                });
                peer.send_rpc_notification("note", &json!({ "c": c }));
                run.log(json!({"op": "ne", "c": c}));
            }
            "sleep" => thread::sleep(Duration::from_millis(n)),
            // until the driver is n steps further and everything it sent is read (or for a while)
            "hold" => {
                let goal = run.with(|s| s.step) + n as usize;
                run.wait(Duration::from_millis(60), |s| s.step >= goal && (s.read >= s.pushed || s.stopped));
            }
            "err" => fail = true,
            "panic" => {
                run.with(|s| {
                    s.stopped = true;
                    s.log(json!({"op": "panics"}))
                });
                panic!("scripted");
            }
            _ => {}
        }
    }
    fail
}

impl Handler for H {
    type Notification = Tell;
    type Request = Ask;
    fn handle_notification(&mut self, ctx: &RpcCtx, rpc: Tell) {
        let Tell::N { n, prog } = rpc;
        self.0.log(json!({"op": "hb", "n": n, "k": "ntf"}));
        exec(&self.0, ctx.get_peer(), &prog, false);
        self.0.with(|s| {
            s.main_done += 1;
            s.log(json!({"op": "he", "n": n, "r": "none"}))
        });
    }
    fn handle_request(&mut self, ctx: &RpcCtx, rpc: Ask) -> Result<Value, RemoteError> {
        let Ask::R { n, prog } = rpc;
        self.0.log(json!({"op": "hb", "n": n, "k": "req"}));
        let fail = exec(&self.0, ctx.get_peer(), &prog, false);
        self.0.with(|s| {
            s.main_done += 1;
            s.log(json!({"op": "he", "n": n, "r": if fail { format!("err:{}", n) } else { format!("ok:{}", n) }}))
        });
        if fail {
            Err(RemoteError::custom(n as i64, "scripted", None))
        } else {
            Ok(json!(n))
        }
    }
    fn idle(&mut self, ctx: &RpcCtx, token: usize) {
        let prog = self.0.with(|s| {
            let t = s.now();
            s.log(json!({"op": "ib", "tok": token, "t": t}));
            s.progs.get(&token).cloned().unwrap_or_default()
        });
        exec(&self.0, ctx.get_peer(), &prog, false);
        self.0.with(|s| {
            s.ran += 1;
            s.log(json!({"op": "ie", "tok": token}))
        });
    }
}

// ------------------------------------------------------------------ the driver

fn has_panic(p: &Value) -> bool {
    p.as_array().map(|a| a.iter().any(|x| x[0] == "panic")).unwrap_or(false)
}

/// plays one scenario; false when it got stuck
fn play(trace: Trace, sc: &Value, ix: usize) -> (Option<Trace>, bool) {
    let run = Arc::new(Run {
        s: Mutex::new(State {
            trace: Some(trace),
            start: Instant::now(),
            line: 0,
            main_in: 0,
            main_done: 0,
            read: 0,
            pushed: 0,
            owed: 0,
            calls: 0,
            done: 0,
            toks: 0,
            ran: 0,
            ext: 0,
            ext_done: 0,
            notes: 0,
            asked: vec![],
            answered: vec![],
            stopped: false,
            broken: false,
            returned: false,
            step: 0,
            ended: false,
            next_tok: 0,
            progs: HashMap::new(),
            changes: 0,
        }),
        cv: Condvar::new(),
        net: Mutex::new(VecDeque::new()),
        netcv: Condvar::new(),
    });
    run.log(json!({"op": "new", "ix": ix, "script": sc.to_string()}));
    let mut looper = RpcLoop::new(NetWriter { run: run.clone(), buf: vec![] });
    let peer: RpcPeer = Box::new(looper.get_raw_peer());
    let chunk = sc["chunk"].as_u64().unwrap_or(1 << 20) as usize;
    let main = {
        let run = run.clone();
        thread::spawn(move || {
            let r2 = run.clone();
            let res = catch_unwind(AssertUnwindSafe(|| {
                looper.mainloop(
                    move || NetReader { run: r2, cur: vec![], at: 0, given: 0, whole: false, eof: false, chunk },
                    &mut H(run.clone()),
                )
            }));
            let r = match res {
                Ok(Ok(())) => "ok",
                Ok(Err(ReadError::Disconnect)) => "odd",
                Ok(Err(_)) => "err",
                Err(_) => "panic",
            };
            run.with(|s| {
                s.returned = true;
                s.log(json!({"op": "ret", "r": r}))
            });
        })
    };
    let mut exts = vec![];
    let mut closed = false; // nothing can be sent any more
    let mut last_line: Vec<usize> = vec![];
    let mut good = true;
    let answer = |j: usize, how: &str, run: &Arc<Run>, last: &mut Vec<usize>| -> bool {
        let pick = run.with(|s| {
            if how == "again" {
                return last.last().map(|&i| (s.asked[i].0, s.asked[i].1, i));
            }
            let open: Vec<usize> = (0..s.asked.len()).filter(|&i| !s.answered[i]).collect();
            if open.is_empty() {
                return None;
            }
            let i = open[j % open.len()];
            s.answered[i] = true;
            Some((s.asked[i].0, s.asked[i].1, i))
        });
        let (id, c, i) = match pick {
            Some(x) => x,
            None => return false,
        };
        last.push(i);
        let (line, n) = run.with(|s| {
            s.pushed += 1;
            let n = s.pushed;
            let (line, want) = match how {
                "err" => (json!({"id": id, "error": {"code": n, "message": "no"}}), format!("err:{}", n)),
                "odd" => (json!({"id": id, "error": "what"}), "odd".into()),
                "both" => (json!({"id": id, "result": n, "error": {"code": n, "message": "no"}}), "invalid".into()),
                "none" => (json!({"id": id, "x": 1}), "invalid".to_string()),
                "null" => (json!({"id": id, "result": null}), "v:null".to_string()),
                _ => (json!({"id": id, "result": n}), format!("v:{}", n)),
            };
            s.log(json!({"op": "in", "n": n, "k": "answer", "c": c, "r": want, "id": ""}));
            (line.to_string() + "\n", n)
        });
        let _ = n;
        run.push(Some(line.into_bytes()));
        true
    };
    let empty = vec![];
    for st in sc["steps"].as_array().unwrap_or(&empty) {
        run.with(|s| s.step += 1);
        let t = st["t"].as_str().unwrap_or("");
        let nl = if st["crlf"] == true { "\r\n" } else { "\n" };
        match t {
            "req" | "ntf" | "badreq" | "badntf" | "junk" | "weird" | "stray" if !closed => {
                let line = run.with(|s| {
                    s.pushed += 1;
                    let n = s.pushed;
                    let id: u64 = match n % 5 {
                        0 => u64::max_value() - n as u64,
                        1 => (n as u64) << 33,
                        2 => 0,
                        _ => n as u64,
                    };
                    let prog = if st["do"].is_array() { st["do"].clone() } else { json!([]) };
                    let mut rid = String::new();
                    let v = match t {
                        "req" => {
                            s.owed += 1;
                            s.main_in += 1;
                            rid = id.to_string();
                            json!({"id": id, "method": "r", "params": {"n": n, "prog": prog}})
                        }
                        "ntf" => {
                            s.main_in += 1;
                            json!({"method": "n", "params": {"n": n, "prog": prog}})
                        }
                        "badreq" => {
                            s.owed += 1;
                            rid = id.to_string();
                            match st["how"].as_u64().unwrap_or(0) % 3 {
                                0 => json!({"id": id, "method": "nope", "params": {}}),
                                1 => json!({"id": id, "method": "r", "params": [1]}),
                                _ => json!({"id": id, "method": "n", "params": {"n": n, "prog": prog}}),
                            }
                        }
                        "badntf" => json!({"method": "nope", "params": {"n": n}}),
                        "stray" => json!({"id": 999_983 + n, "result": 1}),
                        "weird" => match st["how"].as_u64().unwrap_or(0) % 3 {
                            0 => json!({"id": "abc", "result": 1}),
                            1 => json!({"id": -3, "error": 1}),
                            _ => json!({"id": null}),
                        },
                        _ => json!([1, 2]),
                    };
                    if has_panic(&prog) || t == "junk" || t == "badntf" || t == "weird" {
                        s.stopped = true;
                    }
                    s.log(json!({"op": "in", "n": n, "k": t, "id": rid, "c": 0, "r": ""}));
                    if t == "junk" && st["how"].as_u64().unwrap_or(0) % 3 == 1 {
                        "{\"id\": 1, nonsense".to_string()
                    } else if t == "junk" && st["how"].as_u64().unwrap_or(0) % 3 == 2 {
                        String::new()
                    } else {
                        v.to_string()
                    }
                });
                let bytes = (line + nl).into_bytes();
                run.push(Some(bytes));
            }
            "ans" if !closed => {
                let how = st["how"].as_str().unwrap_or("v");
                if how != "again" {
                    run.wait(Duration::from_millis(30), |s| s.answered.iter().any(|a| !a) || s.stopped || s.broken);
                }
                answer(st["j"].as_u64().unwrap_or(0) as usize, how, &run, &mut last_line);
            }
            "eof" if !closed => {
                closed = true;
                run.with(|s| {
                    s.pushed += 1;
                    s.stopped = true;
                    let n = s.pushed;
                    s.log(json!({"op": "in", "n": n, "k": "eof", "id": "", "c": 0, "r": ""}))
                });
                run.push(None);
            }
            "brk" => run.with(|s| {
                s.broken = true;
                s.log(json!({"op": "brk"}))
            }),
            "ext" => {
                let (r, p, prog) = (run.clone(), peer.clone(), st["do"].as_array().cloned().unwrap_or_default());
                run.with(|s| s.ext += 1);
                exts.push(thread::spawn(move || {
                    exec(&r, &p, &prog, true);
                    r.with(|s| s.ext_done += 1);
                }));
            }
            "sleep" => thread::sleep(Duration::from_millis(st["ms"].as_u64().unwrap_or(1))),
            "read" => {
                run.wait(Duration::from_millis(60), |s| s.read >= s.pushed || s.stopped);
            }
            "settle" => {
                if !settle(&run, &answer, &mut last_line) {
                    good = false;
                    break;
                }
            }
            _ => {}
        }
    }
    run.with(|s| s.step += 1000);
    good = good && settle(&run, &answer, &mut last_line);
    if good {
        if !closed {
            run.with(|s| {
                s.pushed += 1;
                s.stopped = true;
                let n = s.pushed;
                s.log(json!({"op": "in", "n": n, "k": "eof", "id": "", "c": 0, "r": ""}))
            });
            run.push(None);
        }
        good = run.wait(PATIENCE, |s| s.returned && s.done >= s.calls && s.ext_done >= s.ext);
        if good {
            // whoever asks now is told that nobody is there
            let (r, p) = (run.clone(), peer.clone());
            run.with(|s| s.ext += 1);
            thread::spawn(move || {
                exec(&r, &p, &[json!(["sync"]), json!(["async", 1])], true);
                r.with(|s| s.ext_done += 1);
            });
            good = run.wait(PATIENCE, |s| s.done >= s.calls && s.ext_done >= s.ext);
        }
    }
    let tr = run.with(|s| {
        if good {
            s.log(json!({"op": "end"}));
        } else {
            let st = format!(
                "messages {}/{}, answers owed {}, calls {}/{}, tasks {}/{}, threads {}/{}, returned {}",
                s.main_done, s.main_in, s.owed, s.done, s.calls, s.ran, s.toks, s.ext_done, s.ext, s.returned
            );
            s.log(json!({"op": "stuck", "what": st}));
        }
        s.ended = true;
        s.trace.take()
    });
    if good {
        let _ = main.join();
        for e in exts {
            let _ = e.join();
        }
    }
    (tr, good)
}

/// answers everything and waits until all is quiet
fn settle<F>(run: &Arc<Run>, answer: &F, last: &mut Vec<usize>) -> bool
where
    F: Fn(usize, &str, &Arc<Run>, &mut Vec<usize>) -> bool,
{
    let t0 = Instant::now();
    let mut seen = (0, Instant::now());
    loop {
        let (quiet, stopped, open, changes) = run.with(|s| {
            s.changes -= 1;
            (
                s.main_done >= s.main_in
                    && s.owed == 0
                    && s.done >= s.calls
                    && s.ran >= s.toks
                    && s.ext_done >= s.ext
                    && s.read >= s.pushed,
                s.stopped,
                s.answered.iter().any(|a| !a),
                s.changes,
            )
        });
        if stopped {
            return true; // the end will show
        }
        if quiet {
            run.log(json!({"op": "settled"}));
            return true;
        }
        if changes != seen.0 {
            seen = (changes, Instant::now());
        }
        if open {
            answer(0, "v", run, last);
        } else if seen.1.elapsed() > PATIENCE || t0.elapsed() > PATIENCE * 4 {
            return false;
        } else {
            thread::sleep(Duration::from_micros(500));
        }
    }
}

// ------------------------------------------------------------------ random scenarios

fn program(r: &mut Rng, ext: bool, depth: usize) -> Value {
    let mut p = vec![];
    let n = r.weighted(&[3, 5, 3, 2, 1]);
    for _ in 0..n {
        p.push(match r.weighted(&[5, 5, 5, 4, 2, 2, 3, 4, if ext { 0 } else { 2 }, 1]) {
            0 => json!(["sync"]),
            1 => json!(["async", r.weighted(&[4, 2, 1])]),
            2 if depth > 0 => json!(["idle", 0, program(r, ext, depth - 1)]),
            2 => json!(["idle", 0]),
            3 if depth > 0 => json!(["timer", r.below(12), program(r, ext, depth - 1)]),
            3 => json!(["timer", r.below(12)]),
            4 => json!(["pend"]),
            5 => json!(["sleep", r.below(4)]),
            6 => json!(["note"]),
            7 => json!(["hold", 1 + r.below(3)]),
            8 => json!(["err"]),
            _ if !ext && r.chance(15) => json!(["panic"]),
            _ => json!(["sleep", 0]),
        });
    }
    json!(p)
}

fn scenario(r: &mut Rng) -> Value {
    let n = r.range(2, 14);
    let mut steps = vec![];
    for _ in 0..n {
        let w = [9, 7, 2, 1, 1, 1, 1, 8, 1, 1, 4, 2, 3, 2];
        let mut s = match r.weighted(&w) {
            0 => json!({"t": "req", "do": program(r, false, 1)}),
            1 => json!({"t": "ntf", "do": program(r, false, 1)}),
            2 => json!({"t": "badreq", "how": r.below(3)}),
            3 if r.chance(30) => json!({"t": "badntf"}),
            4 if r.chance(30) => json!({"t": "junk", "how": r.below(3)}),
            5 if r.chance(30) => json!({"t": "weird", "how": r.below(3)}),
            6 => json!({"t": "stray"}),
            7 => json!({"t": "ans", "j": r.below(4), "how": *r.pick(&["v", "v", "v", "err", "both", "none", "null", "again"])}),
            8 if r.chance(40) => json!({"t": "eof"}),
            9 if r.chance(40) => json!({"t": "brk"}),
            10 => json!({"t": "ext", "do": program(r, true, 1)}),
            11 => json!({"t": "settle"}),
            12 => json!({"t": "read"}),
            _ => json!({"t": "sleep", "ms": r.below(8)}),
        };
        if r.chance(10) {
            s["crlf"] = json!(true);
        }
        steps.push(s);
    }
    let mut sc = json!({ "steps": steps });
    if r.chance(20) {
        sc["chunk"] = json!(1 + r.below(9));
    }
    sc
}

fn main() {
    let (cmd, a) = Args::parse();
    quiet_panics();
    let scripts: Vec<Value> = match cmd.as_str() {
        "rpc" => {
            let mut r = Rng::new(a.num("seed", 1) as u64);
            (0..a.num("traces", 50)).map(|_| scenario(&mut r)).collect()
        }
        "rpc-replay" => std::fs::read_to_string(a.str("in", ""))
            .expect("scripts")
            .lines()
            .map(|l| serde_json::from_str(l).expect("script"))
            .collect(),
        _ => {
            eprintln!("unknown command {}", cmd);
            std::process::exit(2);
        }
    };
    let mut tr = Trace::create(&a.str("out", "/dev/stdout"));
    let mut bad = 0;
    for (ix, sc) in scripts.iter().enumerate() {
        let (t, good) = play(tr, sc, ix);
        tr = t.expect("trace");
        bad += !good as usize;
        if bad >= 2 {
            break; // each costs a long wait; one would do
        }
    }
    std::process::exit(0);
}
