//! One core with several views, a directory of documents other programs also write to, and the
//! configuration: what every message does to every view and every file.
use crate::client::*;
use crate::edit::Scratch;
use crate::fault;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::fs;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::PathBuf;
use std::time::{Duration, Instant, SystemTime};
use vcommon::{Args, Rng, Trace};

const BOM: &str = "\u{feff}";

struct V {
    id: String,
    open: bool,
}

pub struct Sys {
    core: Core,
    dir: PathBuf,
    views: Vec<V>,
    vers: HashMap<(String, i64, i64), usize>,
    nver: usize,
    stamp: u64,
    touched: HashMap<String, Instant>,
    last: Vec<String>,
}

fn strings(v: &Value) -> Value {
    let m: Map<String, Value> =
        v.as_object().map(|o| o.iter().map(|(k, x)| (k.clone(), Value::String(x.to_string()))).collect()).unwrap_or_default();
    Value::Object(m)
}

pub struct Setup {
    pub gen: Option<String>,
    pub rust: Option<String>,
    pub rustdef: String,
}

impl Sys {
    /// set: names of the files and settings that are there at the start
    pub fn start(dir: PathBuf, set: &Setup, files: &[Value]) -> (Sys, Value) {
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(dir.join("docs")).unwrap();
        let pl = dir.join("conf/plugins/langs");
        fs::create_dir_all(&pl).unwrap();
        let lang = |n: &str, e: &str| {
            format!("[[languages]]\nname = \"{}\"\nextensions = [\"{}\"]\nscope = \"source.{}\"\n", n, e, e)
        };
        fs::write(
            pl.join("manifest.toml"),
            format!(
                "name = \"langs\"\nversion = \"0.0.0\"\nscope = \"global\"\nexec_path = \"/nonexistent/none\"\nactivations = [\"autorun\"]\ncommands = []\n{}{}{}",
                lang("Plain Text", "txt"),
                lang("Rust", "rs"),
                lang("C", "c")
            ),
        )
        .unwrap();
        fs::write(pl.join("Rust.toml"), &set.rustdef).unwrap();
        if let Some(s) = &set.gen {
            fs::write(dir.join("conf/preferences.xiconfig"), s).unwrap();
        }
        if let Some(s) = &set.rust {
            fs::write(dir.join("conf/Rust.xiconfig"), s).unwrap();
        }
        let mut core = Core::start();
        core.notify("client_started", json!({"config_dir": dir.join("conf")}));
        let _ = core.request("debug_get_contents", json!({"view_id": "view-id-778"}));
        let _ = core.take();
        let mut s = Sys { core, dir, views: vec![], vers: HashMap::new(), nver: 0, stamp: 0, touched: HashMap::new(), last: vec![] };
        for f in files {
            s.external(f);
        }
        let fl = s.files();
        (s, json!({"op": "new", "files": fl}))
    }

    fn path(&self, p: &str) -> PathBuf {
        self.dir.join("docs").join(p)
    }

    fn files(&mut self) -> Value {
        let mut out = Vec::new();
        let mut todo = vec![(self.dir.join("docs"), String::new())];
        while let Some((d, pre)) = todo.pop() {
            let mut es: Vec<_> = fs::read_dir(&d).map(|r| r.flatten().collect()).unwrap_or_default();
            es.sort_by_key(|e: &fs::DirEntry| e.file_name());
            for e in es {
                let name = format!("{}{}", pre, e.file_name().to_string_lossy());
                let md = match fs::metadata(e.path()) {
                    Ok(m) => m,
                    Err(_) => continue,
                };
                if md.is_dir() {
                    out.push(json!({"p": name, "kind": "dir", "bom": false, "ok": true, "t": [], "ver": 0, "mode": 0}));
                    todo.push((e.path(), format!("{}/", name)));
                    continue;
                }
                let b = fs::read(e.path()).unwrap_or_default();
                let key = (name.clone(), md.mtime(), md.mtime_nsec());
                let n = self.nver + 1;
                let ver = *self.vers.entry(key).or_insert(n);
                self.nver = self.nver.max(ver);
                let bom = b.starts_with(BOM.as_bytes());
                let body = if bom { &b[3..] } else { &b[..] };
                let (ok, t) = match std::str::from_utf8(body) {
                    Ok(s) => (true, json!(cps(s))),
                    Err(_) => (false, json!(body)),
                };
                out.push(json!({"p": name, "kind": "file", "bom": bom, "ok": ok, "t": t, "ver": ver,
                                "mode": md.permissions().mode() & 0o777}));
            }
        }
        Value::Array(out)
    }

    /// another program does something to a file
    fn external(&mut self, c: &Value) {
        let name = c["p"].as_str().unwrap().to_string();
        let p = self.path(&name);
        self.stamp += 1;
        let when = SystemTime::UNIX_EPOCH + Duration::from_secs(1_000_000_000 + self.stamp);
        let set = |q: &PathBuf| {
            if let Ok(f) = fs::OpenOptions::new().write(true).open(q) {
                let _ = f.set_modified(when);
            }
        };
        match c["how"].as_str().unwrap() {
            how @ "write" | how @ "inplace" | how @ "prepare" => {
                let mut b: Vec<u8> = if c["bom"] == json!(true) { BOM.as_bytes().to_vec() } else { vec![] };
                if c["bad"] == json!(true) {
                    b.extend(&[0xff, 0xfe, 0x61]);
                } else {
                    b.extend(text(&c["x"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect::<Vec<_>>()).bytes());
                }
                if how == "inplace" {
                    // nobody may be about to read it
                    if self.touched.get(&name).map_or(false, |t| t.elapsed() < Duration::from_millis(300)) {
                        std::thread::sleep(Duration::from_millis(300));
                    }
                    let _ = fs::write(&p, &b);
                    set(&p);
                } else {
                    let q = self.dir.join("new");
                    fs::write(&q, &b).unwrap();
                    set(&q);
                    if how == "write" {
                        let _ = fs::rename(&q, &p);
                    }
                }
            }
            "mode" => {
                let _ = fs::set_permissions(&p, fs::Permissions::from_mode(c["m"].as_u64().unwrap() as u32));
            }
            "touch" => set(&p),
            "delete" => {
                let _ = fs::remove_file(&p);
                let _ = fs::remove_dir(&p);
            }
            "mkdir" => {
                let _ = fs::create_dir(&p);
            }
            x => panic!("{}", x),
        }
        self.touched.insert(name, Instant::now());
    }

    fn id(&self, v: &Value) -> String {
        match v.as_u64() {
            Some(k) if k >= 1 && (k as usize) <= self.views.len() && !self.views[k as usize - 1].id.is_empty() => {
                self.views[k as usize - 1].id.clone()
            }
            _ => "view-id-777".to_string(),
        }
    }

    /// the message of a command that is a notification
    fn message(&mut self, c: &Value) -> Vec<Value> {
        let v = self.id(&c["v"]);
        let ed = |m: &str, p: Value| json!({"method": "edit", "params": {"view_id": v, "method": m, "params": p}});
        match c["c"].as_str().unwrap() {
            "edit" => vec![
                ed("move_to_end_of_document", json!([])),
                ed("insert", json!({"chars": crate::session::ct(&c["x"])})),
            ],
            "close" => {
                if let Some(k) = c["v"].as_u64() {
                    if let Some(x) = self.views.get_mut((k as usize).wrapping_sub(1)) {
                        x.open = false;
                    }
                }
                vec![json!({"method": "close_view", "params": {"view_id": v}})]
            }
            "lang" => vec![json!({"method": "set_language", "params": {"view_id": v, "language_id": c["l"]}})],
            "config" => {
                let dom = match c["dom"].as_str().unwrap() {
                    "general" => json!("general"),
                    "lang" => json!({"language": c["l"]}),
                    _ => json!({"user_override": v}),
                };
                let mut ch = Map::new();
                for x in c["ch"].as_array().unwrap() {
                    ch.insert(x["k"].as_str().unwrap().to_string(), serde_json::from_str(x["v"].as_str().unwrap()).unwrap());
                }
                vec![json!({"method": "modify_user_config", "params": {"domain": dom, "changes": ch}})]
            }
            "save" => {
                let p = self.path(c["p"].as_str().unwrap());
                self.touched.insert(c["p"].as_str().unwrap().to_string(), Instant::now());
                vec![json!({"method": "save", "params": {"view_id": v, "file_path": p}})]
            }
            "fuzz" => {
                let l = c["line"].as_str().unwrap().replace("@V@", &v).replace("@D@", self.dir.to_str().unwrap());
                vec![serde_json::from_str(&l).unwrap()]
            }
            x => panic!("{}", x),
        }
    }

    /// the number the next view will get
    fn upcoming(&mut self) -> Result<usize, Fail> {
        let r = self.core.request("new_view", json!({}))?;
        let id = r["result"].as_str().unwrap_or("").to_string();
        self.opened(&id)?;
        self.core.notify("close_view", json!({ "view_id": id }));
        Ok(id.trim_start_matches("view-id-").parse::<usize>().unwrap_or(0) + 2)
    }

    pub fn command(&mut self, c: &Value) -> Result<Value, Fail> {
        let mut resp = json!([]);
        let mut fault = json!({"hit": false, "renamed": false, "calls": 0});
        if let Some(f) = c.get("fault").filter(|f| !f.is_null()) {
            let d = self.dir.join("docs");
            let q = self.dir.join("new");
            let p = self.path(c["p"].as_str().unwrap());
            let race = if f["how"] == "race" {
                let mut w = f.clone();
                w["how"] = json!("prepare");
                w["p"] = c["p"].clone();
                self.external(&w);
                Some((q.to_str().unwrap(), p.to_str().unwrap()))
            } else {
                None
            };
            fault::arm(d.to_str().unwrap(), f["at"].as_u64().unwrap() as usize, f["how"] == "crash", f["half"] == json!(true), race);
        }
        match c["c"].as_str().unwrap() {
            "open" => {
                let p = c["p"].as_str().unwrap();
                let params = if p.is_empty() { json!({}) } else { json!({"file_path": self.path(p)}) };
                let r = self.core.request("new_view", params)?;
                match r["result"].as_str() {
                    Some(id) => {
                        resp = json!([id]);
                        self.views.push(V { id: id.to_string(), open: true });
                        self.opened(id)?;
                    }
                    None => self.views.push(V { id: String::new(), open: false }),
                }
            }
            "batch" => {
                let mut lines = String::new();
                let mut wait = Vec::new();
                let mut next = if c["cs"].as_array().unwrap().iter().any(|x| x["c"] == "open") { self.upcoming()? } else { 0 };
                for x in c["cs"].as_array().unwrap() {
                    if x["c"] == "open" {
                        let p = x["p"].as_str().unwrap();
                        let params = if p.is_empty() { json!({}) } else { json!({"file_path": self.path(p)}) };
                        // identifiers of views and buffers are given out in turn
                        let id = format!("view-id-{}", next);
                        next += 2;
                        lines.push_str(&json!({"id": 900_000, "method": "new_view", "params": params}).to_string());
                        lines.push('\n');
                        wait.push(id.clone());
                        self.views.push(V { id, open: true });
                    } else {
                        for m in self.message(x) {
                            lines.push_str(&m.to_string());
                            lines.push('\n');
                        }
                    }
                }
                self.core.raw(lines.trim_end());
                let probe = self.views.iter().map(|v| v.id.clone()).next().unwrap_or_default();
                self.core.request("debug_get_contents", json!({ "view_id": probe }))?;
                let got: Vec<Value> = self.core.notes.iter().filter_map(|n| n.get("stray")).map(|n| n["result"].clone()).collect();
                if got != wait.iter().map(|x| json!(x)).collect::<Vec<_>>() {
                    return Ok(json!({"op": "stop"}));
                }
                for id in wait {
                    if self.views.iter().any(|v| v.id == id && v.open) {
                        self.opened(&id)?;
                    }
                }
                let strays: Vec<Value> = self.core.notes.iter().filter(|n| n.get("stray").is_some()).map(|n| n["stray"]["result"].clone()).collect();
                resp = Value::Array(strays);
                self.core.notes.retain(|n| n.get("stray").is_none());
            }
            "ext" => self.external(c),
            "wait" => self.core.listen(Duration::from_millis(260)),
            "ask" => {
                // a request about any view
                let v = self.id(&c["v"]);
                let m = c["m"].as_str().unwrap();
                let r = match m {
                    "cut" | "copy" => self.core.request("edit", json!({"view_id": v, "method": m, "params": []}))?,
                    _ => self.core.request(m, json!({ "view_id": v }))?,
                };
                resp = json!([if r.get("error").is_some() { "error" } else { "ok" }]);
            }
            _ => {
                for m in self.message(c) {
                    if m.get("params").is_none() {
                        continue;
                    }
                    self.core.notify(m["method"].as_str().unwrap(), m["params"].clone());
                }
            }
        }
        if c.get("fault").map_or(false, |f| !f.is_null()) {
            let r = self.core.request("debug_get_contents", json!({"view_id": "view-id-778"}));
            let (hit, before, calls) = fault::disarm();
            fault = json!({"hit": hit, "renamed": before, "calls": calls});
            r?;
        }
        let mut o = self.observe()?;
        o["resp"] = resp;
        o["fault"] = fault;
        o["op"] = json!("cmd");
        o["cmd"] = c.clone();
        Ok(o)
    }

    /// wait until the core has finished setting up this view
    fn opened(&mut self, id: &str) -> Result<(), Fail> {
        let end = Instant::now() + self.core.patience;
        let done = |notes: &[Value]| {
            notes
                .iter()
                .position(|n| n["method"] == "available_plugins" && n["params"]["view_id"] == id)
                .map_or(false, |k| notes[k..].iter().any(|n| n["method"] == "update" && n["params"]["view_id"] == id))
        };
        while !done(&self.core.notes) {
            if let Some(p) = take_panic() {
                return Err(Fail::Panic(p));
            }
            if Instant::now() > end {
                return Err(Fail::Hang);
            }
            self.core.listen(Duration::from_millis(1));
        }
        Ok(())
    }

    fn observe(&mut self) -> Result<Value, Fail> {
        let mut vs = Vec::new();
        let ids: Vec<(String, bool)> = self.views.iter().map(|v| (v.id.clone(), v.open)).collect();
        if ids.is_empty() || ids.iter().all(|x| x.0.is_empty()) {
            self.core.request("debug_get_contents", json!({"view_id": "view-id-778"}))?;
        }
        let mut states = Vec::new();
        for (id, _) in ids.iter() {
            if id.is_empty() {
                states.push((false, json!([]), json!({})));
                continue;
            }
            let r = self.core.request("debug_get_contents", json!({ "view_id": id }))?;
            let g = self.core.request("get_config", json!({ "view_id": id }))?;
            match r["result"].as_str() {
                Some(t) if g.get("result").is_some() => states.push((true, json!(cps(t)), strings(&g["result"]))),
                _ => states.push((false, json!([]), json!({}))),
            }
        }
        let fl = self.files();
        let notes = self.core.take();
        let mut alerts = 0;
        for ((id, _), (open, t, cfg)) in ids.iter().zip(states) {
            let mut ann = Vec::new();
            let mut lang = Vec::new();
            let mut pri = Vec::new();
            for n in &notes {
                if n["params"]["view_id"] != json!(id) {
                    continue;
                }
                match n["method"].as_str().unwrap_or("") {
                    "config_changed" => ann.push(strings(&n["params"]["changes"])),
                    "language_changed" => lang.push(n["params"]["language_id"].clone()),
                    "update" => pri.push(n["params"]["update"]["pristine"].clone()),
                    _ => {}
                }
            }
            vs.push(json!({"id": id, "open": open, "text": t, "cfg": cfg, "ann": ann, "lang": lang, "pri": pri}));
        }
        for n in &notes {
            if n["method"] == "alert" {
                alerts += 1;
            }
        }
        self.last = vs.iter().map(|v| v["text"].to_string()).collect();
        Ok(json!({"views": vs, "files": fl, "alerts": alerts}))
    }
}

// ------------------------------------------------------------------------------ random sessions

struct Gen {
    r: Rng,
    mode: String,
}

const DOCS: &[&str] = &["", "a", "a\n", "  a\n    b\n", "\ta\n", "a\r\n", "  a\r\n  b\r\n", "é\n", "a\nb", "a\r\nb", "x\n\n", "\u{1F600}"];
const NAMES: &[&str] = &["a.txt", "b.rs", "m", "d.c"];

impl Gen {
    fn changes(&mut self) -> Value {
        let n = self.r.range(1, 3);
        let mut out: Vec<Value> = Vec::new();
        let mut used = Vec::new();
        for _ in 0..n {
            let k = *self.r.pick(&["tab_size", "tab_size", "wrap_width", "font_face", "line_ending", "translate_tabs_to_spaces",
                                   "autodetect_whitespace", "custom", "other", "font_size", "surrounding_pairs", "word_wrap", "save_with_newline"]);
            if used.contains(&k) {
                continue;
            }
            used.push(k);
            let num = self.r.range(1, 9).to_string();
            let (v, ty) = if self.r.chance(25) {
                ("null".to_string(), "null")
            } else if self.r.chance(9) {
                match self.r.below(5) {
                    0 => ("-3".to_string(), "neg"),
                    1 => ("0".to_string(), "zero"),
                    2 => ("\"x\"".to_string(), "str"),
                    3 => ("true".to_string(), "bool"),
                    _ => ("2.5".to_string(), "float"),
                }
            } else {
                match k {
                    "tab_size" | "font_size" => (num, "pos"),
                    "wrap_width" => (self.r.pick(&["0", "7", "20"]).to_string(), "zero"),
                    "font_face" => (format!("\"f{}\"", num), "str"),
                    "line_ending" => (self.r.pick(&["\"\\n\"", "\"\\r\\n\""]).to_string(), "str"),
                    "surrounding_pairs" => (self.r.pick(&["[]", "[[\"a\",\"b\"]]"]).to_string(), "pairs"),
                    "custom" | "other" => (self.r.pick(&["1", "2", "\"s\""]).to_string(), "pos"),
                    _ => (self.r.pick(&["true", "false"]).to_string(), "bool"),
                }
            };
            let ty = if v == "7" || v == "20" { "pos" } else { ty };
            out.push(json!({"k": k, "v": v, "ty": ty}));
        }
        Value::Array(out)
    }

    fn view(&mut self, s: &Sys) -> usize {
        if s.views.is_empty() || self.r.chance(if self.mode == "fuzz" { 8 } else { 2 }) {
            return 0;
        }
        let open: Vec<usize> = (0..s.views.len()).filter(|&k| s.views[k].open).collect();
        if open.is_empty() || self.r.chance(if self.mode == "fuzz" { 10 } else { 3 }) {
            return self.r.range(1, s.views.len());
        }
        *self.r.pick(&open) + 1
    }

    fn name(&mut self) -> String {
        if self.r.chance(5) {
            return self.r.pick(&["none/x.txt", "dir", "a.txt.swp"]).to_string();
        }
        self.r.pick(NAMES).to_string()
    }

    fn one(&mut self, s: &Sys, batch: bool) -> Value {
        let v = self.view(s);
        let nopen = s.views.iter().filter(|v| v.open).count();
        //       open close edit save ext config lang wait batch ask fuzz
        let mut w: [usize; 11] = match self.mode.as_str() {
            "cfg" => [12, 6, 3, 6, 0, 50, 14, 0, 12, 2, 0],
            "save" => [14, 5, 25, 30, 22, 3, 1, 4, 2, 1, 0],
            _ => [6, 4, 5, 2, 2, 8, 3, 0, 6, 6, 60],
        };
        if batch {
            w[3] = 0;
            w[4] = 0;
            w[7] = 0;
            w[8] = 0;
            w[9] = 0;
        }
        if nopen >= 4 {
            w[0] = 0;
        }
        if s.views.len() >= 9 {
            w[0] = 0;
        }
        match self.r.weighted(&w) {
            0 => {
                let p = if self.r.chance(25) { String::new() } else { self.name() };
                let mut c = json!({"c": "open", "p": p});
                if self.mode == "save" && !batch && !p.is_empty() && self.r.chance(15) {
                    c["fault"] = json!({"at": self.r.range(1, 3), "how": "race", "x": cps(*self.r.pick(DOCS)), "bom": self.r.chance(20)});
                }
                c
            }
            1 => json!({"c": "close", "v": v}),
            2 => {
                let x = *self.r.pick(&["x", "é", "\n", "y", "\r\n", " "]);
                json!({"c": "edit", "v": v, "x": cps(x)})
            }
            3 => {
                let p = self.name();
                let mut c = json!({"c": "save", "v": v, "p": p});
                if self.mode == "save" && self.r.chance(30) {
                    c["fault"] = match self.r.below(10) {
                        0 | 1 | 2 => json!({"at": self.r.range(1, 9), "how": "race", "x": cps(*self.r.pick(DOCS)), "bom": false}),
                        3 => json!({"at": self.r.range(1, 7), "how": "crash", "half": self.r.chance(40)}),
                        _ => json!({"at": self.r.range(1, 7), "how": "fail", "half": self.r.chance(40)}),
                    };
                }
                c
            }
            4 => {
                let p = self.name();
                match self.r.weighted(&[8, 3, 2, 2, 1]) {
                    k @ 0 | k @ 1 => {
                        let x = *self.r.pick(DOCS);
                        json!({"c": "ext", "p": p, "how": if k == 0 { "write" } else { "inplace" }, "x": cps(x),
                               "bom": self.r.chance(30), "bad": self.r.chance(10)})
                    }
                    2 => json!({"c": "ext", "p": p, "how": "delete"}),
                    3 => json!({"c": "ext", "p": p, "how": "touch"}),
                    _ => json!({"c": "ext", "p": p, "how": "mode", "m": *self.r.pick(&[0o600, 0o644, 0o755, 0o640])}),
                }
            }
            5 => {
                let dom = *self.r.pick(&["general", "lang", "view", "view"]);
                let l = *self.r.pick(&["Rust", "C", "Plain Text", "Nothing"]);
                json!({"c": "config", "dom": dom, "l": l, "v": v, "ch": self.changes()})
            }
            6 => json!({"c": "lang", "v": v, "l": *self.r.pick(&["Rust", "C", "Plain Text", "Nothing"])}),
            7 => json!({"c": "wait"}),
            8 => {
                let n = self.r.range(2, 4);
                let mut cs = Vec::new();
                let mut news = 0;
                for _ in 0..n {
                    let mut c = self.one(s, true);
                    if c["c"] == "open" {
                        // a path that cannot be opened gives no view
                        if c["p"] == "none/x.txt" || c["p"] == "dir" || self.mode != "cfg" {
                            c["p"] = json!("");
                        }
                        news += 1;
                    } else if news > 0 && c.get("v").is_some() && self.r.chance(60) {
                        c["v"] = json!(s.views.len() + self.r.range(1, news));
                    }
                    cs.push(c);
                }
                json!({"c": "batch", "cs": cs})
            }
            9 => json!({"c": "ask", "v": v, "m": *self.r.pick(&["cut", "copy", "get_config", "debug_get_contents"])}),
            _ => self.fuzz(v),
        }
    }

    fn number(&mut self) -> Value {
        match self.r.below(12) {
            0 => json!(u64::MAX),
            1 => json!(i64::MAX),
            2 => json!(1u64 << 32),
            3 => json!(1u64 << 63),
            4 => json!(1000),
            5 => json!(33),
            _ => json!(self.r.below(6)),
        }
    }
    fn signed(&mut self) -> Value {
        match self.r.below(10) {
            0 => json!(i64::MIN),
            1 => json!(i64::MAX),
            2 => json!(-1),
            3 => json!(-5),
            4 => json!(1000),
            _ => json!(self.r.below(8)),
        }
    }
    fn small(&mut self) -> String {
        self.r.pick(&["a", "", "\n", "é", "(", "\r\n", "a b", "\t", "[", "\u{1F1E6}", "x\ny", "99999999999999999999", "-", "e\u{301}", "\u{0}"]).to_string()
    }

    /// any message at all
    fn fuzz(&mut self, v: usize) -> Value {
        let simple = [
            "delete_forward", "delete_backward", "delete_word_forward", "delete_word_backward", "delete_to_end_of_paragraph",
            "delete_to_beginning_of_line", "insert_newline", "insert_tab", "move_up", "move_up_and_modify_selection", "move_down",
            "move_down_and_modify_selection", "move_left", "move_backward", "move_left_and_modify_selection", "move_right",
            "move_forward", "move_right_and_modify_selection", "move_word_left", "move_word_left_and_modify_selection",
            "move_word_right", "move_word_right_and_modify_selection", "move_to_beginning_of_paragraph",
            "move_to_beginning_of_paragraph_and_modify_selection", "move_to_end_of_paragraph",
            "move_to_end_of_paragraph_and_modify_selection", "move_to_left_end_of_line",
            "move_to_left_end_of_line_and_modify_selection", "move_to_right_end_of_line",
            "move_to_right_end_of_line_and_modify_selection", "move_to_beginning_of_document",
            "move_to_beginning_of_document_and_modify_selection", "move_to_end_of_document",
            "move_to_end_of_document_and_modify_selection", "scroll_page_up", "page_up_and_modify_selection", "scroll_page_down",
            "page_down_and_modify_selection", "select_all", "add_selection_above", "add_selection_below", "yank", "transpose",
            "undo", "redo", "find_all", "debug_rewrap", "debug_wrap_width", "debug_print_spans", "debug_toggle_comment", "uppercase",
            "lowercase", "capitalize", "reindent", "indent", "outdent", "replace_next", "replace_all", "selection_for_replace",
            "selection_into_lines", "duplicate_line", "increase_number", "decrease_number", "collapse_selections",
        ];
        let arg = ["insert", "paste", "scroll", "resize", "goto_line", "request_lines", "click", "drag", "gesture", "find", "multi_find",
                   "find_next", "find_previous", "highlight_find", "selection_for_find", "replace", "request_hover",
                   "toggle_recording", "play_recording", "clear_recording", "gesture", "scroll", "resize", "insert", "paste", "find"];
        let name = |g: &mut Gen| (*g.r.pick(&["r", "s"])).to_string();
        let (m, p) = if self.r.chance(38) {
            (self.r.pick(&simple).to_string(), json!([]))
        } else {
            let m = *self.r.pick(&arg);
            let p = match m {
                "insert" | "paste" => json!({"chars": self.small()}),
                "scroll" | "request_lines" => json!([self.signed(), self.signed()]),
                "resize" => {
                    let vals = [0.0, 1.0, 10.0, 33.5, -5.0, 1e300, 200.0, 2.0];
                    json!({"width": *self.r.pick(&vals), "height": *self.r.pick(&vals)})
                }
                "goto_line" => json!({"line": self.number()}),
                "click" | "drag" => {
                    let f = self.r.below(5);
                    let mut a = vec![self.number(), self.number(), json!(f)];
                    if m == "click" {
                        a.push(json!(self.r.below(5)));
                    }
                    json!(a)
                }
                "gesture" => {
                    let g = *self.r.pick(&["point", "word", "line"]);
                    let ty = match self.r.below(5) {
                        0 | 1 => json!({"select": {"granularity": g, "multi": self.r.chance(50)}}),
                        2 => json!({"select_extend": {"granularity": g}}),
                        3 => json!("drag"),
                        _ => json!(*self.r.pick(&["point_select", "toggle_sel", "range_select", "line_select", "word_select",
                                                  "multi_line_select", "multi_word_select"])),
                    };
                    json!({"line": self.number(), "col": self.number(), "ty": ty})
                }
                "find" => json!({"chars": self.small(), "case_sensitive": self.r.chance(50), "regex": self.r.chance(50),
                                 "whole_words": self.r.chance(30)}),
                "multi_find" => {
                    let n = self.r.below(4);
                    let q: Vec<Value> = (0..n)
                        .map(|_| {
                            let id = if self.r.chance(50) { Value::Null } else { self.number() };
                            json!({"id": id, "chars": self.small(), "case_sensitive": self.r.chance(50), "regex": self.r.chance(50)})
                        })
                        .collect();
                    json!({ "queries": q })
                }
                "find_next" | "find_previous" => json!({"wrap_around": self.r.chance(50), "allow_same": self.r.chance(50),
                    "modify_selection": *self.r.pick(&["none", "set", "add", "add_removing_current"])}),
                "highlight_find" => json!({"visible": self.r.chance(50)}),
                "selection_for_find" => json!({"case_sensitive": self.r.chance(50)}),
                "replace" => json!({"chars": self.small(), "preserve_case": self.r.chance(50)}),
                "request_hover" => {
                    let pos = if self.r.chance(40) { Value::Null } else { json!({"line": self.number(), "column": self.number()}) };
                    json!({"request_id": self.number(), "position": pos})
                }
                "toggle_recording" => {
                    if self.r.chance(40) {
                        json!({})
                    } else {
                        json!({"recording_name": name(self)})
                    }
                }
                _ => json!({"recording_name": name(self)}),
            };
            (m.to_string(), p)
        };
        let line = match self.r.below(26) {
            0 => json!({"method": "set_theme", "params": {"theme_name": *self.r.pick(&["InspiredGitHub", "base16-eighties.dark", "none"])}}),
            1 => json!({"method": "tracing_config", "params": {"enabled": false}}),
            2 => json!({"method": "save_trace", "params": {"destination": *self.r.pick(&["@D@/trace.json", "@D@/no/such"]), "frontend_samples": []}}),
            3 => json!({"method": "plugin", "params": {"command": *self.r.pick(&["start", "stop"]), "view_id": "@V@", "plugin_name": *self.r.pick(&["langs", "zz"])}}),
            4 => json!({"method": "plugin", "params": {"command": "plugin_rpc", "view_id": "@V@", "receiver": "langs",
                        "rpc": {"method": "x", "params": {}, "rpc_type": "notification"}}}),
            5 => {
                // settings at the edge of what is accepted
                let ch = match self.r.below(9) {
                    0 => json!({"tab_size": *self.r.pick(&[32u64, 33, 40, 100])}),
                    1 => json!({"wrap_width": *self.r.pick(&[1u64, 2, 1 << 40])}),
                    2 | 8 => json!({"word_wrap": true, "wrap_width": 0}),
                    3 => json!({"line_ending": *self.r.pick(&["", "\r", "ab", "\n"])}),
                    4 => json!({"surrounding_pairs": [["", ""], ["a", ""], ["x", "yy"]]}),
                    5 => json!({"word_wrap": false, "wrap_width": 5}),
                    6 => json!({"font_size": 0, "font_face": ""}),
                    _ => json!({"use_tab_stops": self.r.chance(50), "translate_tabs_to_spaces": self.r.chance(50)}),
                };
                json!({"method": "modify_user_config", "params": {"domain": {"user_override": "@V@"}, "changes": ch}})
            }
            _ => json!({"method": "edit", "params": {"view_id": "@V@", "method": m, "params": p}}),
        };
        json!({"c": "fuzz", "v": v, "line": line.to_string()})
    }
}

fn session(t: &mut Trace, dir: PathBuf, set: &Setup, files: &[Value], info: Value, script: Option<Vec<Value>>, steps: usize, g: &mut Gen) {
    t.doing("start");
    let (mut s, ev) = Sys::start(dir.clone(), set, files);
    t.log(crate::session::merge(ev, info));
    if g.mode == "fuzz" && script.is_none() && g.r.chance(50) {
        s.core.garble = g.r.range(1, 1 << 30) as u64;
    }
    let n = script.as_ref().map_or(steps, |v| v.len());
    for k in 0..n {
        let c = match &script {
            Some(v) => v[k].clone(),
            None => g.one(&s, false),
        };
        t.doing(&c.to_string());
        let crash = c["fault"]["how"] == "crash";
        match s.command(&c) {
            Ok(ev) => {
                if ev["op"] == "stop" {
                    break;
                }
                let long = s.last.iter().any(|x| x.len() > 1500);
                t.log(ev);
                if long || crash {
                    break;
                }
            }
            Err(f) => {
                let _ = fault::disarm();
                let mut ev = fail_event(&f, &c.to_string());
                ev["cmd"] = c;
                t.log(ev);
                let _ = fs::remove_dir_all(&dir);
                return;
            }
        }
    }
    t.doing("finish");
    match s.core.finish() {
        Ok(()) => t.log(json!({"op": "end"})),
        Err(f) => t.log(fail_event(&f, "finish")),
    }
    let _ = fs::remove_dir_all(&dir);
}

/// settings in the files of the user, with their parts as the specification sees them
fn setups(k: usize) -> (Setup, Value) {
    let p = |k: &str, v: &str| json!({"k": k, "v": v, "ty": "pos"});
    match k {
        0 => (Setup { gen: None, rust: None, rustdef: "tab_size = 3\n".into() }, json!({"gen": [], "rust": [], "rustdef": [p("tab_size", "3")]})),
        1 => (
            Setup { gen: Some("tab_size = 5\nwrap_width = 7\n".into()), rust: Some("tab_size = 6\n".into()), rustdef: "tab_size = 3\nfont_size = 9\n".into() },
            json!({"gen": [p("tab_size", "5"), p("wrap_width", "7")], "rust": [p("tab_size", "6")], "rustdef": [p("tab_size", "3"), p("font_size", "9")]}),
        ),
        2 => (
            // neither the file of the user nor the one of the language is acceptable
            Setup { gen: Some("tab_size = 0\nwrap_width = 7\n".into()), rust: Some("tab_size = \"x\"\n".into()), rustdef: "font_size = 9\n".into() },
            json!({"gen": [], "rust": [], "rustdef": [p("font_size", "9")]}),
        ),
        3 => (
            Setup { gen: Some("autodetect_whitespace = false\n".into()), rust: Some("custom = 4\n".into()), rustdef: "custom = 3\n".into() },
            json!({"gen": [json!({"k": "autodetect_whitespace", "v": "false", "ty": "bool"})], "rust": [p("custom", "4")], "rustdef": [p("custom", "3")]}),
        ),
        _ => (
            Setup { gen: None, rust: None, rustdef: "tab_size = \"x\"\nfont_size = 9\n".into() },
            json!({"gen": [], "rust": [], "rustdef": []}),
        ),
    }
}

pub fn random(a: &Args) {
    watch_panics();
    let mut t = Trace::create(&a.str("out", "/dev/stdout"));
    let seed = a.num("seed", 1) as u64;
    let only = a.str("only", "");
    let d = Scratch::new();
    for n in 0..a.num("traces", 20) {
        if !only.is_empty() && only != n.to_string() {
            continue;
        }
        let mut g = Gen { r: Rng::new(seed * 1_000_003 + n as u64), mode: a.str("mode", "save") };
        let k = if g.mode == "cfg" { g.r.below(5) } else { 0 };
        let (set, info) = setups(k);
        let mut files = Vec::new();
        for name in NAMES {
            if g.r.chance(60) {
                let x = *g.r.pick(DOCS);
                files.push(json!({"p": name, "how": "write", "x": cps(x), "bom": g.r.chance(25), "bad": g.mode == "save" && g.r.chance(5)}));
            }
        }
        files.push(json!({"p": "dir", "how": "mkdir"}));
        if g.r.chance(50) {
            files.push(json!({"p": "a.txt.swp", "how": "write", "x": [115]}));
        }
        session(&mut t, d.0.join("s"), &set, &files, info, None, a.num("steps", 25), &mut g);
    }
}

/// {"setup": 0, "files": [..], "cmds": [..]}
pub fn replay(a: &Args) {
    watch_panics();
    let mut t = Trace::create(&a.str("out", "/dev/stdout"));
    let d = Scratch::new();
    let mut g = Gen { r: Rng::new(1), mode: "save".into() };
    for l in fs::read_to_string(a.str("in", "")).expect("scripts").lines() {
        if l.trim().is_empty() {
            continue;
        }
        let v: Value = serde_json::from_str(l).expect("script");
        let (set, info) = setups(v["setup"].as_u64().unwrap_or(0) as usize);
        session(&mut t, d.0.join("s"), &set, v["files"].as_array().unwrap(), info, Some(v["cmds"].as_array().unwrap().clone()), 0, &mut g);
    }
}
