//! A core with plugins whose side of the protocol this driver plays: what they are told, what
//! they may ask, and what their edits, styles and annotations do while other things happen.
use crate::client::*;
use crate::edit::Scratch;
use serde_json::{json, Value};
use std::collections::{HashMap, VecDeque};
use std::fs;
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::net::{UnixListener, UnixStream};
use std::path::{Path, PathBuf};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};
use vcommon::{Args, Rng, Trace};

pub const NP: usize = 3;
const STACKS: &[&[&str]] = &[&["a"], &["b"], &["c"], &["d"], &["a", "c"], &["b", "d"], &["e"], &["c", "a"]];

/// what runs as the plugin's program: connects its two ends to the driver
pub fn relay(exe: &Path) {
    let s = match UnixStream::connect(exe.parent().unwrap().join("sock")) {
        Ok(s) => s,
        Err(_) => return,
    };
    let mut up = s.try_clone().unwrap();
    std::thread::spawn(move || {
        let mut b = [0u8; 65536];
        let mut i = std::io::stdin();
        while let Ok(n) = i.read(&mut b) {
            if n == 0 || up.write_all(&b[..n]).is_err() {
                break;
            }
        }
        let _ = up.shutdown(std::net::Shutdown::Write);
    });
    let mut down = s;
    let mut b = [0u8; 65536];
    let mut o = std::io::stdout();
    while let Ok(n) = down.read(&mut b) {
        if n == 0 || o.write_all(&b[..n]).is_err() || o.flush().is_err() {
            break;
        }
    }
    std::process::exit(0);
}

struct Plug {
    listener: UnixListener,
    conn: Option<(UnixStream, Receiver<Value>)>,
    pid: u64,
    next: u64,
    /// updates not acknowledged: request id, view, revision
    pending: VecDeque<(Value, usize, u64)>,
    mirror: Vec<Vec<char>>,
    stack: Vec<Value>,
    /// updates since the last look
    got: Vec<Value>,
    info: Vec<Value>,
    garbage: bool,
}

impl Plug {
    fn accept(&mut self) -> bool {
        let end = Instant::now() + Duration::from_secs(20);
        loop {
            match self.listener.accept() {
                Ok((s, _)) => {
                    s.set_nonblocking(false).unwrap();
                    let r = s.try_clone().unwrap();
                    let (tx, rx) = channel();
                    std::thread::spawn(move || {
                        for l in BufReader::new(r).lines() {
                            let l = match l {
                                Ok(l) => l,
                                Err(_) => break,
                            };
                            let v = serde_json::from_str(&l).unwrap_or_else(|_| json!({"garbage": l}));
                            if tx.send(v).is_err() {
                                break;
                            }
                        }
                    });
                    self.conn = Some((s, rx));
                    self.next = 0;
                    return true;
                }
                Err(_) if Instant::now() < end => std::thread::sleep(Duration::from_micros(300)),
                Err(_) => return false,
            }
        }
    }

    fn send(&mut self, v: Value) {
        if let Some((s, _)) = &mut self.conn {
            let _ = s.write_all(format!("{}\n", v).as_bytes());
        }
    }

    fn close(&mut self) {
        if let Some((s, _)) = self.conn.take() {
            let _ = s.shutdown(std::net::Shutdown::Both);
        }
        self.pending.clear();
    }
}

struct View {
    id: String,
    tokens: Vec<u64>,
    /// number of the first revision
    first: usize,
    texts: Vec<Vec<char>>,
    groups: Vec<i64>,
    lines: Vec<Option<(String, Vec<i64>)>>,
    annots: Vec<Value>,
    nscopes: [usize; NP],
    last: char,
}

struct Sys {
    core: Core,
    plugs: Vec<Plug>,
    views: Vec<View>,
    styles: HashMap<i64, Vec<i64>>,
}

fn theme(n: i64) -> String {
    let c = |k: i64| format!("#{:02X}0{}00", n, k);
    let item = |s: &str, body: String| {
        format!("<dict><key>name</key><string>{0}</string><key>scope</key><string>{0}</string><key>settings</key><dict>{1}</dict></dict>", s, body)
    };
    let fg = |k| format!("<key>foreground</key><string>{}</string>", c(k));
    let bg = |k| format!("<key>background</key><string>{}</string>", c(k));
    let fs = |s: &str| format!("<key>fontStyle</key><string>{}</string>", s);
    format!(
        "<?xml version=\"1.0\" encoding=\"UTF-8\"?><!DOCTYPE plist PUBLIC \"-//Apple//DTD PLIST 1.0//EN\" \"http://www.apple.com/DTDs/PropertyList-1.0.dtd\"><plist version=\"1.0\"><dict><key>name</key><string>T{}</string><key>settings</key><array><dict><key>settings</key><dict>{}</dict></dict>{}{}{}{}</array></dict></plist>",
        n,
        fg(9),
        item("a", fg(1)),
        item("b", fg(2) + &fs("bold")),
        item("c", fs("italic")),
        item("d", bg(3) + &fs("underline"))
    )
}

fn blen(t: &[char], n: usize) -> usize {
    t[..n].iter().map(|c| c.len_utf8()).sum()
}

fn chars(v: &Value) -> Vec<char> {
    v.as_array().map(|a| a.iter().map(|c| std::char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()).unwrap_or_default()
}

fn cp(t: &[char]) -> Vec<u32> {
    t.iter().map(|&c| c as u32).collect()
}

fn apply(t: &[char], d: &Value) -> Option<Vec<char>> {
    let s: String = t.iter().collect();
    if d["base_len"].as_u64()? as usize != s.len() {
        return None;
    }
    let mut o = String::new();
    for e in d["els"].as_array()? {
        if let Some(c) = e.get("copy") {
            o.push_str(s.get(c[0].as_u64()? as usize..c[1].as_u64()? as usize)?);
        } else {
            o.push_str(e["insert"].as_str()?);
        }
    }
    Some(o.chars().collect())
}

impl Sys {
    fn start(dir: &Path, docs: &[String]) -> Result<(Sys, Value), Value> {
        let _ = fs::remove_dir_all(dir);
        fs::create_dir_all(dir.join("conf/themes")).unwrap();
        for n in 1..3 {
            fs::write(dir.join(format!("conf/themes/T{}.tmTheme", n)), theme(n)).unwrap();
        }
        fs::write(dir.join("conf/preferences.xiconfig"), "use_tab_stops = false\nautodetect_whitespace = false\n").unwrap();
        let me = std::env::current_exe().unwrap();
        let mut plugs = Vec::new();
        for k in 0..NP {
            let d = dir.join(format!("conf/plugins/p{}", k));
            fs::create_dir_all(&d).unwrap();
            std::os::unix::fs::symlink(&me, d.join("relay")).unwrap();
            let listener = UnixListener::bind(d.join("sock")).unwrap();
            listener.set_nonblocking(true).unwrap();
            fs::write(
                d.join("manifest.toml"),
                format!("name = \"p{}\"\nversion = \"0.0.0\"\nscope = \"global\"\nexec_path = \"{}\"\nactivations = [\"autorun\"]\ncommands = []\n",
                    k, d.join("relay").display()),
            )
            .unwrap();
            plugs.push(Plug { listener, conn: None, pid: 0, next: 0, pending: VecDeque::new(), mirror: vec![], stack: vec![], got: vec![], info: vec![], garbage: false });
        }
        let mut core = Core::start();
        core.notify("client_started", json!({"config_dir": dir.join("conf")}));
        core.notify("set_theme", json!({"theme_name": "T1"}));
        let mut s = Sys { core, plugs, views: vec![], styles: HashMap::new() };
        for k in 0..NP {
            if !s.plugs[k].accept() || !s.init(k) {
                return Err(json!({"op": "hang", "what": "plugin start", "msg": ""}));
            }
        }
        for (k, d) in docs.iter().enumerate() {
            let p = dir.join(format!("d{}.txt", k));
            fs::write(&p, d).unwrap();
            let r = s.core.request("new_view", json!({"file_path": p})).map_err(|f| fail_event(&f, "new_view"))?;
            let id = r["result"].as_str().unwrap_or("").to_string();
            s.core.notify("edit", json!({"view_id": id, "method": "scroll", "params": [0, 300]}));
            let t: Vec<char> = d.chars().collect();
            for p in s.plugs.iter_mut() {
                p.mirror.push(t.clone());
            }
            s.views.push(View {
                id, tokens: vec![], first: if t.is_empty() { 1 } else { 2 }, texts: vec![t], groups: vec![], lines: vec![], annots: vec![],
                nscopes: [0; NP], last: '-',
            });
        }
        for v in 0..docs.len() {
            s.text(v).map_err(|f| fail_event(&f, "contents"))?;
        }
        for k in 0..NP {
            s.barrier(k, 0).map_err(|f| fail_event(&f, "plugin"))?;
        }
        // buffers are introduced once the core has nothing else to do
        let end = Instant::now() + Duration::from_secs(5);
        while s.plugs.iter().any(|p| p.info.len() < docs.len()) && Instant::now() < end {
            for k in 0..NP {
                s.barrier(k, 0).map_err(|f| fail_event(&f, "plugin"))?;
            }
        }
        let infos: Vec<Value> = s.plugs.iter_mut().map(|p| Value::Array(p.info.drain(..).collect())).collect();
        for v in 0..docs.len() {
            let id = s.views[v].id.clone();
            if let Some(i) = infos[0].as_array().unwrap().iter().find(|i| i["views"][0] == json!(id)) {
                s.views[v].tokens.push(i["rev"].as_u64().unwrap_or(0));
            } else {
                s.views[v].tokens.push(u64::MAX);
            }
        }
        let info: Vec<Value> = infos.iter().map(|i| s.infos(i)).collect();
        let ev = json!({"op": "new", "docs": docs.iter().map(|d| cps(d)).collect::<Vec<_>>(),
            "pids": s.plugs.iter().map(|p| p.pid).collect::<Vec<_>>(), "info": info});
        Ok((s, ev))
    }

    fn infos(&self, i: &Value) -> Value {
        Value::Array(
            i.as_array()
                .unwrap()
                .iter()
                .map(|i| {
                    let v = self.views.iter().position(|w| json!([w.id]) == i["views"]);
                    json!({"v": v.map_or(0, |v| v + 1), "rev": v.map_or(0, |v| self.rev(v, i["rev"].as_u64().unwrap_or(0))),
                           "len": i["buf_size"], "lines": i["nb_lines"]})
                })
                .collect(),
        )
    }

    fn rev(&self, v: usize, tok: u64) -> usize {
        self.views[v].tokens.iter().position(|&t| t == tok).map_or(0, |k| k + self.views[v].first)
    }

    /// wait for the introduction
    fn init(&mut self, k: usize) -> bool {
        let end = Instant::now() + Duration::from_secs(20);
        while Instant::now() < end {
            let m = match &self.plugs[k].conn {
                Some((_, rx)) => rx.recv_timeout(Duration::from_millis(500)),
                None => return false,
            };
            if let Ok(m) = m {
                if m["method"] == "initialize" {
                    self.plugs[k].pid = m["params"]["plugin_id"].as_u64().unwrap_or(0);
                    self.plugs[k].info = m["params"]["buffer_info"].as_array().cloned().unwrap_or_default();
                    return true;
                }
            }
        }
        false
    }

    /// everything the core told plugin k is here afterwards
    fn ask(&mut self, k: usize, v: usize, method: &str, mut params: Value) -> Result<Value, Fail> {
        let id = self.plugs[k].next;
        self.plugs[k].next += 1;
        params["view_id"] = json!(self.views.get(v).map_or("view-id-999".to_string(), |w| w.id.clone()));
        params["plugin_id"] = json!(self.plugs[k].pid);
        self.plugs[k].send(json!({"id": id, "method": method, "params": params}));
        let end = Instant::now() + self.core.patience;
        loop {
            let m = match &self.plugs[k].conn {
                Some((_, rx)) => rx.recv_timeout(Duration::from_millis(20)),
                None => return Ok(Value::Null),
            };
            match m {
                Ok(m) if m.get("method").is_none() && m.get("id") == Some(&json!(id)) => return Ok(m),
                Ok(m) => self.incoming(k, m),
                Err(RecvTimeoutError::Timeout) => {
                    if let Some(p) = take_panic() {
                        return Err(Fail::Panic(p));
                    }
                    if Instant::now() > end {
                        return Err(Fail::Hang);
                    }
                }
                Err(RecvTimeoutError::Disconnected) => {
                    std::thread::sleep(Duration::from_millis(50));
                    return Err(take_panic().map_or(Fail::Ended, Fail::Panic));
                }
            }
        }
    }

    fn barrier(&mut self, k: usize, v: usize) -> Result<Value, Fail> {
        if self.plugs[k].conn.is_none() {
            return Ok(json!(-1));
        }
        let r = self.ask(k, v, "line_count", json!({}))?;
        Ok(r["result"].clone())
    }

    fn incoming(&mut self, k: usize, m: Value) {
        let p = &m["params"];
        match m["method"].as_str() {
            Some("update") => {
                let v = self.views.iter().position(|w| json!(w.id) == p["view_id"]);
                let v = match v {
                    Some(v) => v,
                    None => {
                        self.plugs[k].garbage = true;
                        return;
                    }
                };
                let tok = p["rev"].as_u64().unwrap_or(0);
                let t = apply(&self.plugs[k].mirror[v], &p["delta"]);
                let ok = t.is_some();
                let t = t.unwrap_or_default();
                if self.rev(v, tok) == 0 {
                    // only the plugin that is always there numbers the revisions
                    if k == 0 {
                        let w = &mut self.views[v];
                        w.tokens.push(tok);
                        w.texts.push(t.clone());
                        w.groups.push(p["undo_group"].as_i64().unwrap_or(-1));
                    }
                }
                self.plugs[k].pending.push_back((m["id"].clone(), v, tok));
                self.plugs[k].got.push(json!({"v": v + 1, "rev": tok, "ok": ok, "txt": cp(&t), "len": p["new_len"], "lines": p["new_line_count"],
                    "ug": p["undo_group"].as_i64().unwrap_or(-1), "et": p["edit_type"], "au": p["author"]}));
                self.plugs[k].mirror[v] = t;
            }
            Some("new_buffer") => {
                let b = p["buffer_info"].as_array().cloned().unwrap_or_default();
                self.plugs[k].info.extend(b);
            }
            Some("shutdown") => self.plugs[k].stack.push(json!("shutdown")),
            Some(_) => (),
            None => self.plugs[k].garbage = true,
        }
    }

    fn text(&mut self, v: usize) -> Result<String, Fail> {
        let r = self.core.request("debug_get_contents", json!({"view_id": self.views[v].id}))?;
        self.notes();
        Ok(r["result"].as_str().unwrap_or("\u{fffd}").to_string())
    }

    fn notes(&mut self) {
        for n in self.core.take() {
            let p = &n["params"];
            match n["method"].as_str().unwrap_or("") {
                "def_style" => {
                    let c = |k: &str| p[k].as_i64().map_or(-1, |x| x & 0xff_ffff);
                    let b = |k: &str| p[k].as_bool().map_or(-1, |x| x as i64);
                    self.styles.insert(
                        p["id"].as_i64().unwrap_or(-1),
                        vec![c("fg_color"), c("bg_color"), p["weight"].as_i64().unwrap_or(-1), b("underline"), b("italic")],
                    );
                }
                "update" => {
                    let w = match self.views.iter_mut().find(|w| json!(w.id) == p["view_id"]) {
                        Some(w) => w,
                        None => continue,
                    };
                    let mut new = Vec::new();
                    let mut old = 0;
                    for o in p["update"]["ops"].as_array().unwrap() {
                        let n = o["n"].as_u64().unwrap() as usize;
                        match o["op"].as_str().unwrap() {
                            "skip" => old += n,
                            "invalidate" => new.extend((0..n).map(|_| None)),
                            "copy" => {
                                new.extend((old..old + n).map(|k| w.lines.get(k).cloned().unwrap_or(None)));
                                old += n;
                            }
                            "ins" => {
                                for l in o["lines"].as_array().unwrap() {
                                    new.push(Some((
                                        l["text"].as_str().unwrap_or("").to_string(),
                                        l["styles"].as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default(),
                                    )));
                                }
                            }
                            "update" => {
                                for (k, l) in o["lines"].as_array().unwrap().iter().enumerate() {
                                    let mut x = w.lines.get(old + k).cloned().unwrap_or(None);
                                    if let (Some(x), Some(a)) = (&mut x, l["styles"].as_array()) {
                                        x.1 = a.iter().map(|x| x.as_i64().unwrap()).collect();
                                    }
                                    new.push(x);
                                }
                                old += n;
                            }
                            x => panic!("update operation {}", x),
                        }
                    }
                    w.lines = new;
                    w.annots = p["update"]["annotations"].as_array().cloned().unwrap_or_default();
                }
                _ => (),
            }
        }
    }

    /// what the front-end now shows of a view: text, styles per run of bytes, annotations
    fn shown(&mut self, v: usize) -> Value {
        let w = &self.views[v];
        let mut text = String::new();
        let mut runs: Vec<(usize, Vec<i64>)> = Vec::new();
        let mut whole = true;
        for l in &w.lines {
            let (t, st) = match l {
                Some(x) => x,
                None => {
                    whole = false;
                    continue;
                }
            };
            let mut per: Vec<Vec<i64>> = vec![vec![]; t.len()];
            let mut pos = 0i64;
            for tr in st.chunks(3) {
                pos += tr[0];
                if tr[2] >= 8 {
                    for b in pos..pos + tr[1] {
                        match per.get_mut(b as usize) {
                            // two styles on one character are one too many
                            Some(x) if x.is_empty() => *x = self.styles.get(&tr[2]).cloned().unwrap_or(vec![-9]),
                            Some(x) => *x = vec![-8],
                            None => whole = false,
                        }
                    }
                }
                pos += tr[1];
            }
            for (i, c) in t.char_indices() {
                let mut s = per[i].clone();
                if per[i..i + c.len_utf8()].iter().any(|x| *x != s) {
                    s = vec![-7];
                }
                match runs.last_mut() {
                    Some((n, x)) if *x == s => *n += 1,
                    _ => runs.push((1, s)),
                }
            }
            text.push_str(t);
        }
        let cs: Vec<char> = text.chars().collect();
        let starts: Vec<usize> = std::iter::once(0).chain(cs.iter().enumerate().filter(|(_, &c)| c == '\n').map(|(i, _)| i + 1)).collect();
        let off = |l: &Value, c: &Value| -> i64 {
            let (l, c) = (l.as_u64().unwrap_or(0) as usize, c.as_u64().unwrap_or(0) as usize);
            let s = match starts.get(l) {
                Some(&s) => s,
                None => return -1,
            };
            let mut b = 0;
            let mut k = s;
            while b < c && k < cs.len() {
                b += cs[k].len_utf8();
                k += 1;
            }
            if b == c { k as i64 } else { -1 }
        };
        let mut ann: Vec<Value> = Vec::new();
        for a in &w.annots {
            let ty = a["type"].as_str().unwrap_or("");
            if ty == "selection" || ty == "find" {
                continue;
            }
            let pay = a["payloads"].as_array().cloned().unwrap_or_default();
            let r: Vec<Value> = a["ranges"]
                .as_array()
                .unwrap()
                .iter()
                .enumerate()
                .map(|(k, r)| json!([off(&r[0], &r[1]), off(&r[2], &r[3]), pay.get(k).and_then(|x| x.as_i64()).unwrap_or(-1)]))
                .collect();
            ann.push(json!({"ty": ty, "r": r}));
        }
        json!({"v": v + 1, "whole": whole, "txt": cps(&text), "runs": runs.iter().map(|(n, s)| json!({"n": n, "s": s})).collect::<Vec<_>>(), "ann": ann})
    }

    /// oldest revision every plugin may still use
    fn floor(&self, v: usize) -> usize {
        let head = self.views[v].first + self.views[v].tokens.len() - 1;
        self.plugs.iter().flat_map(|p| p.pending.iter().filter(|x| x.1 == v).map(|x| self.rev(v, x.2).max(1) - 1)).min().unwrap_or(head)
    }

    fn run(&mut self, c: &Value) -> Result<Value, Value> {
        let err = |f: Fail, c: &Value| fail_event(&f, &c.to_string());
        let v = (c["v"].as_u64().unwrap_or(1) as usize - 1).min(self.views.len() - 1);
        let p = (c["p"].as_u64().unwrap_or(1) as usize - 1).min(NP - 1);
        let id = self.views[v].id.clone();
        let head = self.views[v].first + self.views[v].tokens.len() - 1;
        let t = self.views[v].texts.last().unwrap().clone();
        let mut ev = json!({"op": c["c"], "v": v + 1, "p": p + 1});
        let op = c["c"].as_str().unwrap();
        let view_id = json!(id);
        let mut look = false;
        let mut quiet = false;
        match op {
            "ins" | "bs" => {
                let mut at = c["at"].as_i64().unwrap();
                if at >= 0 || self.views[v].last == '-' {
                    at = at.max(0).min(t.len() as i64);
                    let line = t[..at as usize].iter().filter(|&&c| c == '\n').count();
                    let s = t[..at as usize].iter().rposition(|&c| c == '\n').map_or(0, |k| k + 1);
                    let col = blen(&t[s..], at as usize - s);
                    self.core.notify("edit", json!({"view_id": view_id, "method": "gesture", "params": {"line": line, "col": col, "ty": "point_select"}}));
                }
                ev["at"] = json!(at);
                ev["x"] = if op == "ins" { c["x"].clone() } else { json!([]) };
                if op == "ins" {
                    let x: String = chars(&c["x"]).into_iter().collect();
                    self.core.notify("edit", json!({"view_id": view_id, "method": "insert", "params": {"chars": x}}));
                } else {
                    self.core.notify("edit", json!({"view_id": view_id, "method": "delete_backward", "params": []}));
                }
                self.views[v].last = 'e';
            }
            "undo" | "redo" => {
                self.core.notify("edit", json!({"view_id": view_id, "method": op, "params": []}));
                self.views[v].last = '-';
            }
            "ack" => {
                let n = c["n"].as_u64().unwrap_or(1) as usize;
                let mut a = vec![];
                for _ in 0..n {
                    if let Some((id, w, r)) = self.plugs[p].pending.pop_front() {
                        a.push(json!([w + 1, self.rev(w, r)]));
                        if c["bad"] == json!(true) {
                            self.plugs[p].send(json!({"id": id, "error": {"code": 5, "message": "no"}}));
                        } else {
                            self.plugs[p].send(json!({"id": id, "result": c["res"].as_u64().unwrap_or(0)}));
                        }
                    }
                }
                ev["a"] = json!(a);
            }
            "pedit" => {
                let base = if c["rev"] == json!("unknown") { 0 } else { head.saturating_sub(c["lag"].as_u64().unwrap_or(0) as usize).max(self.floor(v)).min(head) };
                let b = if base == 0 { t.clone() } else { self.views[v].texts[base - self.views[v].first].clone() };
                let mut els = vec![];
                let mut wire = vec![];
                let mut pos = 0;
                for e in c["ed"].as_array().unwrap() {
                    let s = (e["s"].as_u64().unwrap() as usize).max(pos).min(b.len());
                    let n = (e["n"].as_u64().unwrap() as usize).min(b.len() - s);
                    if s > pos {
                        els.push(json!({"k": "c", "b": pos, "e": s, "ids": []}));
                        wire.push(json!({"copy": [blen(&b, pos), blen(&b, s)]}));
                    }
                    let x = chars(&e["x"]);
                    if !x.is_empty() {
                        els.push(json!({"k": "i", "b": 0, "e": 0, "ids": cp(&x)}));
                        wire.push(json!({"insert": x.iter().collect::<String>()}));
                    }
                    pos = s + n;
                }
                if pos < b.len() {
                    els.push(json!({"k": "c", "b": pos, "e": b.len(), "ids": []}));
                    wire.push(json!({"copy": [blen(&b, pos), blen(&b, b.len())]}));
                }
                let bad = c["bad"] == json!(true);
                let len = blen(&b, b.len()) + if bad { 1 } else { 0 };
                let tok = if base == 0 { 12345 } else { self.views[v].tokens[base - self.views[v].first] };
                let g = &self.views[v].groups;
                let grp = match c["g"].as_str().unwrap_or("none") {
                    "last" => g.last().cloned().unwrap_or(-1),
                    "prev" => g.iter().rev().find(|x| Some(*x) != g.last()).cloned().unwrap_or(-1),
                    _ => -1,
                };
                ev["base"] = json!(base);
                ev["els"] = json!(els);
                ev["bad"] = json!(bad);
                ev["prio"] = c["prio"].clone();
                ev["grp"] = json!(grp);
                let pid = self.plugs[p].pid;
                self.plugs[p].send(json!({"method": "edit", "params": {"view_id": view_id, "plugin_id": pid, "edit": {
                    "rev": tok, "delta": {"els": wire, "base_len": len}, "priority": c["prio"], "after_cursor": false,
                    "undo_group": if grp < 0 { Value::Null } else { json!(grp) }, "author": format!("p{}", p)}}}));
                self.views[v].last = '-';
            }
            "spans" | "annot" => {
                let base = if c["rev"] == json!("unknown") { 0 } else { head.saturating_sub(c["lag"].as_u64().unwrap_or(0) as usize).max(self.floor(v)).min(head) };
                let b = if base == 0 { t.clone() } else { self.views[v].texts[base - self.views[v].first].clone() };
                let s = (c["s"].as_u64().unwrap() as usize).min(b.len());
                let over = c["over"].as_u64().unwrap_or(0) as usize;
                // a range is too long only if it reaches beyond the end
                let n = if over > 0 { b.len() - s } else { (c["n"].as_u64().unwrap() as usize).min(b.len() - s) };
                let mut pos = 0;
                let mut sp = vec![];
                let mut wire = vec![];
                let s0 = blen(&b, s);
                let nsc = self.views[v].nscopes[p];
                for e in c["sp"].as_array().unwrap() {
                    let a = (pos + e["gap"].as_u64().unwrap() as usize).min(n);
                    let z = (a + e["n"].as_u64().unwrap() as usize).min(n);
                    if z <= a {
                        continue;
                    }
                    let id = if op == "annot" { e["d"].clone() } else if c["bad"] == json!(true) { json!(nsc) } else if nsc == 0 { continue } else { json!(e["d"].as_u64().unwrap() as usize % nsc) };
                    let mut w = json!({"start": blen(&b, s + a) - s0, "end": blen(&b, s + z) - s0 + if c["long"] == json!(true) { 1000 } else { 0 }});
                    w[if op == "annot" { "data" } else { "scope_id" }] = id.clone();
                    wire.push(w);
                    sp.push(json!({"s": a, "e": z, "d": id}));
                    pos = z;
                }
                let tok = if base == 0 { 12345 } else { self.views[v].tokens[base - self.views[v].first] };
                ev["base"] = json!(base);
                ev["s"] = json!(s);
                ev["n"] = json!(n);
                ev["sp"] = json!(sp);
                ev["bad"] = json!(base == 0 || over > 0 || ((c["long"] == json!(true) || (op == "spans" && c["bad"] == json!(true))) && !sp.is_empty()));
                let mut m = json!({"view_id": view_id, "plugin_id": self.plugs[p].pid, "start": s0, "len": blen(&b, s + n) - s0 + over, "spans": wire, "rev": tok});
                if op == "annot" {
                    m["annotation_type"] = json!({"Other": format!("t{}", self.plugs[p].pid)});
                    ev["ty"] = json!(format!("t{}", self.plugs[p].pid));
                }
                self.plugs[p].send(json!({"method": if op == "annot" { "update_annotations" } else { "update_spans" }, "params": m}));
            }
            "scopes" => {
                let ks: Vec<usize> = c["k"].as_array().unwrap().iter().map(|k| k.as_u64().unwrap() as usize).collect();
                let st: Vec<Vec<&str>> = ks.iter().map(|&k| if k == 0 { vec![] } else { STACKS[(k - 1) % STACKS.len()].to_vec() }).collect();
                self.views[v].nscopes[p] += st.len();
                ev["st"] = json!(st);
                let m = json!({"view_id": view_id, "plugin_id": self.plugs[p].pid, "scopes": st});
                self.plugs[p].send(json!({"method": "add_scopes", "params": m}));
            }
            "data" => {
                let base = if c["rev"] == json!("unknown") { 0 } else { head.saturating_sub(c["lag"].as_u64().unwrap_or(0) as usize).max(self.views[v].first) };
                let tok = if base == 0 { 12345 } else { self.views[v].tokens[base - self.views[v].first] };
                let line = c["unit"] == json!("line");
                let r = self
                    .ask(p, v, "get_data", json!({"start": c["s"], "unit": c["unit"], "max_size": c["max"], "rev": tok}))
                    .map_err(|f| err(f, c))?;
                let r = &r["result"];
                ev["base"] = json!(base);
                ev["line"] = json!(line);
                ev["s"] = c["s"].clone();
                ev["max"] = c["max"].clone();
                ev["res"] = if r["chunk"].is_string() {
                    json!([{"chunk": cps(r["chunk"].as_str().unwrap()), "off": r["offset"], "first": r["first_line"], "flo": r["first_line_offset"]}])
                } else {
                    json!([])
                };
            }
            "theme" => {
                self.core.notify("set_theme", json!({"theme_name": format!("T{}", c["n"])}));
                ev["n"] = c["n"].clone();
            }
            "status" => {
                let m = json!({"view_id": view_id, "plugin_id": self.plugs[p].pid, "key": "k", "value": "x", "alignment": "left"});
                self.plugs[p].send(json!({"method": "add_status_item", "params": m}));
            }
            "stop" | "kill" => {
                if self.plugs[p].conn.is_some() && p > 0 {
                    if op == "stop" {
                        self.core.notify("plugin", json!({"command": "stop", "view_id": view_id, "plugin_name": format!("p{}", p)}));
                        self.text(0).map_err(|f| err(f, c))?;
                        while let Some((id, _, _)) = self.plugs[p].pending.pop_front() {
                            self.plugs[p].send(json!({"id": id, "result": 0}));
                        }
                        self.barrier(p, v).map_err(|f| err(f, c))?;
                        ev["told"] = json!(self.plugs[p].stack.drain(..).count() == 1);
                        if c["late"] == json!(true) {
                            // the plugin still says something before it ends
                            let m = json!({"view_id": view_id, "plugin_id": self.plugs[p].pid, "scopes": [["a"]]});
                            self.plugs[p].send(json!({"method": "add_scopes", "params": m}));
                            let m = json!({"view_id": view_id, "plugin_id": self.plugs[p].pid, "start": 0, "len": blen(&t, t.len()), "rev": self.views[v].tokens.last().unwrap(),
                                           "spans": [{"start": 0, "end": blen(&t, t.len()), "scope_id": 0}]});
                            self.plugs[p].send(json!({"method": "update_spans", "params": m}));
                            let m = json!({"view_id": view_id, "plugin_id": self.plugs[p].pid, "key": "k", "value": "x", "alignment": "left"});
                            self.plugs[p].send(json!({"method": "add_status_item", "params": m}));
                            self.barrier(p, v).map_err(|f| err(f, c))?;
                        }
                        self.plugs[p].close();
                    } else {
                        self.core.take();
                        self.plugs[p].close();
                        let end = Instant::now() + Duration::from_secs(20);
                        while !self.core.notes.iter().any(|n| n["method"] == "plugin_stopped") && Instant::now() < end {
                            self.core.listen(Duration::from_millis(2));
                        }
                        self.notes();
                        ev["told"] = json!(Instant::now() < end);
                    }
                    self.plugs[p].got.clear();
                } else {
                    ev["op"] = json!("none");
                }
            }
            "start" => {
                if self.plugs[p].conn.is_none() {
                    self.core.notify("plugin", json!({"command": "start", "view_id": view_id, "plugin_name": format!("p{}", p)}));
                    if !self.plugs[p].accept() || !self.init(p) {
                        return Err(json!({"op": "hang", "what": "plugin start", "msg": ""}));
                    }
                    for w in 0..self.views.len() {
                        self.plugs[p].mirror[w] = self.views[w].texts.last().unwrap().clone();
                        self.views[w].nscopes[p] = 0;
                    }
                    let i: Vec<Value> = self.plugs[p].info.drain(..).collect();
                    ev["info"] = self.infos(&Value::Array(i));
                    ev["pid"] = json!(self.plugs[p].pid);
                } else {
                    ev["op"] = json!("none");
                }
            }
            "look" => look = true,
            "quiet" => quiet = true,
            x => panic!("{}", x),
        }
        // the plugin's message first, then whatever it caused
        let mut counts = vec![];
        if self.plugs[p].conn.is_some() {
            self.barrier(p, v).map_err(|f| err(f, c))?;
        }
        if look {
            self.core.notify("edit", json!({"view_id": view_id, "method": "request_lines", "params": [0, 300]}));
        }
        let text = self.text(v).map_err(|f| err(f, c))?;
        if quiet {
            let mut calm = 0;
            while calm < 3 {
                self.core.listen(Duration::from_millis(4));
                calm = if self.core.notes.iter().any(|n| n["method"] == "update") { 0 } else { calm + 1 };
                self.text(v).map_err(|f| err(f, c))?;
            }
        }
        for k in 0..NP {
            let n = self.barrier(k, v).map_err(|f| err(f, c))?;
            counts.push(n);
        }
        ev["text"] = json!(cps(&text));
        ev["counts"] = json!(counts);
        let mut upd: Vec<Vec<Value>> = self.plugs.iter_mut().map(|p| p.got.drain(..).collect()).collect();
        for u in upd.iter_mut().flat_map(|u| u.iter_mut()) {
            let r = self.rev(u["v"].as_u64().unwrap() as usize - 1, u["rev"].as_u64().unwrap());
            u["rev"] = json!(r);
        }
        ev["upd"] = json!(upd);
        ev["odd"] = json!(self.plugs.iter().any(|p| p.garbage));
        ev["shown"] = if look || quiet { json!([self.shown(v)]) } else { json!([]) };
        if let Some(p) = take_panic() {
            return Err(fail_event(&Fail::Panic(p), &c.to_string()));
        }
        Ok(ev)
    }
}

const ALPHA: &[&str] = &["a", "b", "c", "d", "e", "f", "g", "h", "é", "ß", "ø", "中", "文", "字", "\u{1F600}", "0", "1", "2", " ", "\n", "\n"];

pub struct Gen {
    r: Rng,
    mode: String,
    n: usize,
}

impl Gen {
    fn doc(&mut self) -> String {
        let n = *self.r.pick(&[0, 1, 3, 6, 10, 16]);
        (0..n).map(|_| *self.r.pick(ALPHA)).collect()
    }
    fn x(&mut self) -> Vec<u32> {
        let n = *self.r.pick(&[1, 1, 1, 2, 3]);
        let s: String = (0..n).map(|_| *self.r.pick(ALPHA)).collect();
        cps(&s)
    }
    fn cmd(&mut self, s: &Sys) -> Value {
        let r = &mut self.r;
        let v = if s.views.len() > 1 && r.chance(25) { 2 } else { 1 };
        let len = s.views[v - 1].texts.last().unwrap().len();
        let mut p = r.range(1, NP);
        if s.plugs[p - 1].conn.is_none() && !r.chance(40) {
            p = 1;
        }
        let styles = self.mode == "styles";
        let w: &[usize] = if styles {
            //ins cont bs undo redo ack pedit spans scopes annot data theme stop look
            &[14, 6, 8, 8, 5, 8, 8, 22, 4, 12, 1, 2, 2, 22]
        } else {
            &[22, 10, 10, 12, 6, 16, 20, 2, 1, 2, 10, 0, 3, 3]
        };
        let lag = *r.pick(&[0, 0, 0, 1, 1, 2, 3, 5]);
        match r.weighted(w) {
            0 => {
                let at = r.below(len + 1);
                let x = self.x();
                json!({"c": "ins", "v": v, "at": at, "x": x})
            }
            1 => {
                let x = self.x();
                json!({"c": "ins", "v": v, "at": -1, "x": x})
            }
            2 => {
                let at = if r.chance(40) { -1 } else { r.below(len + 1) as i64 };
                json!({"c": "bs", "v": v, "at": at})
            }
            3 => json!({"c": "undo", "v": v}),
            4 => json!({"c": "redo", "v": v}),
            5 => json!({"c": "ack", "p": p, "n": *r.pick(&[1, 1, 2, 3, 30]), "bad": r.chance(10), "res": r.below(9)}),
            6 => {
                let k = *r.pick(&[1, 1, 1, 2, 3]);
                let mut ed = vec![];
                let mut at = 0;
                for _ in 0..k {
                    at += self.r.below(len + 1);
                    let n = *self.r.pick(&[0, 0, 1, 2, 4]);
                    let x = if self.r.chance(70) { self.x() } else { vec![] };
                    ed.push(json!({"s": at, "n": n, "x": x}));
                    at += n;
                }
                let r = &mut self.r;
                let mut c = json!({"c": "pedit", "v": v, "p": p, "lag": lag, "ed": ed, "prio": *r.pick(&[0u32, 1, 65536, 65537, 131072]),
                                   "g": *r.pick(&["none", "none", "last", "prev"])});
                if r.chance(4) {
                    c["rev"] = json!("unknown");
                } else if r.chance(4) {
                    c["bad"] = json!(true);
                }
                c
            }
            k @ 7 | k @ 9 => {
                let (a, n) = match r.below(4) {
                    0 => (0, 1000),
                    1 => (r.below(len + 1), 1000),
                    _ => (r.below(len + 1), r.below(len + 1)),
                };
                let mut sp = vec![];
                for _ in 0..*r.pick(&[0, 1, 2, 3, 5]) {
                    self.n += 1;
                    let d = if k == 9 { self.n } else { r.below(8) };
                    sp.push(json!({"gap": *r.pick(&[0, 0, 1, 2]), "n": *r.pick(&[1, 1, 2, 3, 6]), "d": d}));
                }
                let mut c = json!({"c": if k == 7 { "spans" } else { "annot" }, "v": v, "p": p, "lag": lag, "s": a, "n": n, "sp": sp});
                match r.below(40) {
                    0 => c["rev"] = json!("unknown"),
                    1 => c["over"] = json!(*r.pick(&[1, 5, 1000])),
                    2 => c["long"] = json!(true),
                    3 => c["bad"] = json!(true),
                    _ => (),
                }
                c
            }
            8 => {
                let k: Vec<usize> = (0..r.range(1, 3))
                    .map(|_| {
                        let low = if r.chance(5) { 0 } else { 1 };
                        r.range(low, STACKS.len())
                    })
                    .collect();
                json!({"c": "scopes", "v": v, "p": p, "k": k})
            }
            10 => {
                let line = r.chance(40);
                let bytes = blen(s.views[v - 1].texts.last().unwrap(), len);
                let at = if line { r.below(6) } else { r.below(bytes + 3) };
                let mut c = json!({"c": "data", "v": v, "p": p, "lag": lag, "s": at, "unit": if line { "line" } else { "utf8" },
                                   "max": *r.pick(&[0usize, 1, 2, 4, 7, 100, 2000000])});
                if r.chance(5) {
                    c["rev"] = json!("unknown");
                }
                c
            }
            11 => json!({"c": "theme", "n": r.range(1, 2)}),
            12 => match r.below(6) {
                0 => json!({"c": "stop", "v": v, "p": 2, "late": r.chance(50)}),
                1 => json!({"c": "kill", "v": v, "p": 2}),
                2 => json!({"c": "status", "v": v, "p": p}),
                _ => json!({"c": "start", "v": v, "p": 2}),
            },
            _ => json!({"c": if r.chance(8) { "quiet" } else { "look" }, "v": v}),
        }
    }
}

fn session(t: &mut Trace, dir: &PathBuf, docs: &[String], script: Option<Vec<Value>>, steps: usize, g: &mut Gen) {
    t.doing("start");
    let (mut s, ev) = match Sys::start(dir, docs) {
        Ok(x) => x,
        Err(e) => {
            t.log(json!({"op": "new", "docs": [], "pids": [], "info": []}));
            t.log(e);
            return;
        }
    };
    t.log(ev);
    let n = script.as_ref().map_or(steps, |s| s.len());
    let styles = g.mode == "styles";
    let mut cmds = vec![];
    for k in 0..n + docs.len() {
        let c = if k >= n {
            json!({"c": "quiet", "v": k - n + 1})
        } else if let Some(s) = &script {
            s[k].clone()
        } else if styles && k < 2 {
            json!({"c": "scopes", "v": 1, "p": k + 1, "k": [1, 2, 3, 4, 5, 6]})
        } else {
            g.cmd(&s)
        };
        if c["c"] != json!("start") && c["c"] != json!("stop") && c["c"] != json!("kill") {
            let p = c["p"].as_u64().unwrap_or(1) as usize;
            if s.plugs[p - 1].conn.is_none() {
                continue;
            }
        }
        t.doing(&c.to_string());
        cmds.push(c.clone());
        match s.run(&c) {
            Ok(ev) => t.log(ev),
            Err(e) => {
                t.log(e);
                break;
            }
        }
    }
    if std::env::var("VERIF_SCRIPT").is_ok() {
        eprintln!("{}", json!({"docs": docs.iter().map(|d| cps(d)).collect::<Vec<_>>(), "cmds": cmds}));
    }
    for p in s.plugs.iter_mut() {
        p.close();
    }
    if let Err(f) = s.core.finish() {
        t.log(fail_event(&f, "end"));
    }
}

pub fn random(a: &Args) {
    watch_panics();
    let mut t = Trace::create(&a.str("out", "/dev/stdout"));
    let seed = a.num("seed", 1) as u64;
    let only = a.str("only", "");
    let d = Scratch::new();
    for n in 0..a.num("traces", 20) {
        if !only.is_empty() && only != n.to_string() {
            continue;
        }
        let mut g = Gen { r: Rng::new(seed * 1_000_003 + n as u64), mode: a.str("mode", "text"), n: 0 };
        let k = if g.r.chance(30) { 2 } else { 1 };
        let docs: Vec<String> = (0..k).map(|_| g.doc()).collect();
        session(&mut t, &d.0.join("s"), &docs, None, a.num("steps", 40), &mut g);
    }
}

pub fn replay(a: &Args) {
    watch_panics();
    let mut t = Trace::create(&a.str("out", "/dev/stdout"));
    let d = Scratch::new();
    let mut g = Gen { r: Rng::new(1), mode: "text".into(), n: 0 };
    for l in fs::read_to_string(a.str("in", "")).expect("scripts").lines() {
        if l.trim().is_empty() {
            continue;
        }
        let v: Value = serde_json::from_str(l).expect("script");
        let docs: Vec<String> = v["docs"].as_array().unwrap().iter().map(|d| chars(d).into_iter().collect()).collect();
        session(&mut t, &d.0.join("s"), &docs, Some(v["cmds"].as_array().unwrap().clone()), 0, &mut g);
    }
}
