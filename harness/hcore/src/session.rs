//! One view of one core, as a front-end sees it: commands in their abstract form (as the
//! specification names them) are put on the wire, and everything that comes back is decoded.
use crate::client::*;
use serde_json::{json, Map, Value};
use std::path::PathBuf;
use std::time::{Duration, Instant};

pub struct Session {
    pub core: Core,
    pub view: String,
    pub text: String,
    /// selection as last announced: line, column of both ends of each region
    pub sel: Vec<[usize; 4]>,
    pub dir: PathBuf,
    /// work can be left for when the core is idle
    pub wraps: bool,
    /// this many times idle at least
    pub rounds: usize,
    /// ask for all lines after every command of a burst
    pub asks: bool,
    /// a view of another buffer, wrapped in its own way, that is given every insertion first
    rival: Option<String>,
}

#[derive(Clone)]
pub struct Cfg {
    pub tab: usize,
    pub tr: bool,
    pub stops: bool,
    pub le: String,
    pub pairs: Vec<(String, String)>,
    pub wrap: usize,
    pub word_wrap: bool,
    pub rival: Option<(usize, bool)>,
    /// the specification does not merge recorded insertions that could surround a selection
    pub strict: bool,
}

impl Cfg {
    pub fn plain() -> Cfg {
        let p = |a: &str, b: &str| (a.to_string(), b.to_string());
        Cfg {
            tab: 4,
            tr: true,
            stops: true,
            le: "\n".into(),
            pairs: vec![p("\"", "\""), p("'", "'"), p("{", "}"), p("[", "]")],
            wrap: 0,
            word_wrap: false,
            rival: None,
            strict: false,
        }
    }
    pub fn event(&self) -> Value {
        json!({"tab": self.tab, "tr": self.tr, "stops": self.stops, "le": cps(&self.le), "wrap": self.wrap,
               "word": self.word_wrap, "strict": self.strict, "rival": self.rival.map_or(json!([]), |(n, w)| json!([n, w])),
               "pairs": self.pairs.iter().map(|(a, b)| json!([cps(a), cps(b)])).collect::<Vec<_>>()})
    }
    pub fn table(&self) -> Value {
        json!({"tab_size": self.tab, "translate_tabs_to_spaces": self.tr, "use_tab_stops": self.stops,
               "line_ending": self.le, "autodetect_whitespace": false, "wrap_width": self.wrap,
               "word_wrap": self.word_wrap, "save_with_newline": false,
               "surrounding_pairs": self.pairs.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>()})
    }
}

pub fn ct(v: &Value) -> String {
    v.as_array().map(|a| a.iter().map(|c| std::char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()).unwrap_or_default()
}

/// the source of a regular expression given by its atoms
pub fn regex_of(re: &Value) -> String {
    let mut s = String::new();
    for a in re.as_array().unwrap() {
        if a["anchor"].as_bool().unwrap() {
            s.push('^');
            continue;
        }
        let neg = a["neg"].as_bool().unwrap();
        let set = ct(&a["set"]);
        let esc = |c: char| match c {
            '\n' => "\\n".to_string(),
            '\r' => "\\r".to_string(),
            c if "\\.+*?()|[]{}^$#&-~".contains(c) => format!("\\{}", c),
            c => c.to_string(),
        };
        if neg && set.is_empty() {
            s.push('.');
        } else if neg {
            s.push_str(&format!("[^{}\\n]", set.chars().map(esc).collect::<String>()));
        } else if set.chars().count() == 1 {
            s.push_str(&esc(set.chars().next().unwrap()));
        } else {
            s.push_str(&format!("[{}]", set.chars().map(esc).collect::<String>()));
        }
        let (mn, mx) = (a["mn"].as_i64().unwrap(), a["mx"].as_i64().unwrap());
        s.push_str(&match (mn, mx) {
            (1, 1) => "".into(),
            (0, 1) => "?".into(),
            (0, -1) => "*".into(),
            (1, -1) => "+".into(),
            (a, -1) => format!("{{{},}}", a),
            (a, b) => format!("{{{},{}}}", a, b),
        });
    }
    s
}

fn query(q: &Value, multi: bool) -> Value {
    let chars = if q["isre"].as_bool().unwrap() { regex_of(&q["re"]) } else { ct(&q["pat"]) };
    let mut v = json!({"chars": chars, "case_sensitive": q["cs"], "regex": q["isre"], "whole_words": q["ww"]});
    if multi {
        v["id"] = if q["id"] == 0 { Value::Null } else { q["id"].clone() };
    }
    v
}

/// abstract command -> method and parameters inside "edit"
pub fn wire(e: &Value) -> (String, Value) {
    let none = json!([]);
    let s = |m: &str| (m.to_string(), json!([]));
    let modi = |m: &str, e: &Value| {
        if e["mod"].as_bool().unwrap() {
            format!("{}_and_modify_selection", m)
        } else {
            m.to_string()
        }
    };
    match e["c"].as_str().unwrap() {
        "insert" => ("insert".into(), json!({"chars": ct(&e["x"])})),
        "paste" => ("paste".into(), json!({"chars": ct(&e["x"])})),
        "newline" => s("insert_newline"),
        "tab" => s("insert_tab"),
        "bs" => s("delete_backward"),
        "del" => s(match e["m"].as_str().unwrap() {
            "right" => "delete_forward",
            "word_right" => "delete_word_forward",
            "word_left" => "delete_word_backward",
            "par_kill" => "delete_to_end_of_paragraph",
            "line_start" => "delete_to_beginning_of_line",
            x => panic!("{}", x),
        }),
        "upper" => s("uppercase"),
        "lower" => s("lowercase"),
        "dup" => s("duplicate_line"),
        "number" => s(if e["up"].as_bool().unwrap() { "increase_number" } else { "decrease_number" }),
        c @ "indent" | c @ "outdent" | c @ "capitalize" | c @ "transpose" | c @ "yank" | c @ "undo" | c @ "redo"
        | c @ "replace_next" | c @ "replace_all" | c @ "select_all" | c @ "find_all" => s(c),
        "move" => {
            let m = match e["m"].as_str().unwrap() {
                "left" => "move_left",
                "right" => "move_right",
                "word_left" => "move_word_left",
                "word_right" => "move_word_right",
                "line_start" => "move_to_left_end_of_line",
                "line_end" => "move_to_right_end_of_line",
                "up" => "move_up",
                "down" => "move_down",
                "page_up" => return s(if e["mod"].as_bool().unwrap() { "page_up_and_modify_selection" } else { "scroll_page_up" }),
                "page_down" => return s(if e["mod"].as_bool().unwrap() { "page_down_and_modify_selection" } else { "scroll_page_down" }),
                "par_start" => "move_to_beginning_of_paragraph",
                "par_end" => "move_to_end_of_paragraph",
                "doc_start" => "move_to_beginning_of_document",
                "doc_end" => "move_to_end_of_document",
                x => panic!("{}", x),
            };
            (modi(m, e), none)
        }
        "add_above" => s("add_selection_above"),
        "add_below" => s("add_selection_below"),
        "scroll" => ("scroll".into(), json!([e["a"], e["b"]])),
        "request" => ("request_lines".into(), json!([e["a"], e["b"]])),
        "goto" => ("goto_line".into(), json!({"line": e["line"]})),
        "gesture" => {
            let ty = match e["ty"].as_str().unwrap() {
                "select" => json!({"select": {"granularity": e["g"], "multi": e["multi"]}}),
                "extend" => json!({"select_extend": {"granularity": e["g"]}}),
                _ => json!("drag"),
            };
            ("gesture".into(), json!({"line": e["line"], "col": e["col"], "ty": ty}))
        }
        "find" => ("find".into(), query(&e["q"], false)),
        "multi_find" => (
            "multi_find".into(),
            json!({"queries": e["qs"].as_array().unwrap().iter().map(|q| query(q, true)).collect::<Vec<_>>()}),
        ),
        "find_next" => (
            (if e["back"].as_bool().unwrap() { "find_previous" } else { "find_next" }).into(),
            json!({"wrap_around": e["wrap"], "allow_same": false, "modify_selection": e["how"]}),
        ),
        "hl" => ("highlight_find".into(), json!({"visible": e["v"]})),
        "sel_find" => ("selection_for_find".into(), json!({"case_sensitive": e["cs"]})),
        "set_replace" => ("replace".into(), json!({"chars": ct(&e["x"]), "preserve_case": false})),
        "sel_replace" => s("selection_for_replace"),
        "into_lines" => s("selection_into_lines"),
        "collapse" => s("collapse_selections"),
        "rec" => (
            "toggle_recording".into(),
            match e["name"].as_array().unwrap().get(0) {
                Some(n) => json!({ "recording_name": n }),
                None => json!({}),
            },
        ),
        "play" => ("play_recording".into(), json!({"recording_name": e["n"]})),
        "clear" => ("clear_recording".into(), json!({"recording_name": e["n"]})),
        "resize" => ("resize".into(), json!({"width": e["w"], "height": 100})),
        x => panic!("no wire form for {}", x),
    }
}

fn num(v: &Value) -> i64 {
    v.as_i64().unwrap_or(-1)
}

/// styles: relative triples to absolute ones
fn styles(v: &Value) -> Value {
    let a: Vec<i64> = v.as_array().map(|a| a.iter().map(num).collect()).unwrap_or_default();
    let mut ix = 0;
    let mut out = Vec::new();
    for t in a.chunks(3) {
        let start = ix + t[0];
        out.push(json!([start, t[1], t[2]]));
        ix = start + t[1];
    }
    Value::Array(out)
}

pub fn decode_update(u: &Value) -> Value {
    let mut ops = Vec::new();
    for o in u["ops"].as_array().map(|a| a.as_slice()).unwrap_or(&[]) {
        let lines: Vec<Value> = o["lines"]
            .as_array()
            .map(|a| {
                a.iter()
                    .map(|l| {
                        json!({"t": cps(l["text"].as_str().unwrap_or("")),
                               "c": l.get("cursor").cloned().unwrap_or(json!([])), "hc": l.get("cursor").is_some(),
                               "s": styles(&l["styles"]), "hs": l.get("styles").is_some(),
                               "ln": num(&l["ln"])})
                    })
                    .collect()
            })
            .unwrap_or_default();
        ops.push(json!({"op": o["op"], "n": num(&o["n"]), "ln": num(&o["ln"]), "lines": lines}));
    }
    let mut sel = json!([]);
    let mut find = Vec::new();
    let mut other = Vec::new();
    for a in u["annotations"].as_array().map(|a| a.as_slice()).unwrap_or(&[]) {
        let r = a["ranges"].clone();
        match a["type"].as_str() {
            Some("selection") => sel = r,
            Some("find") => find.push(r),
            _ => other.push(json!({"type": a["type"], "ranges": r, "payloads": a["payloads"]})),
        }
    }
    json!({"ops": ops, "pristine": u["pristine"], "sel": sel, "find": find, "other": other})
}

impl Session {
    /// Start a core with these general settings and open a view on this text (a file, unless empty).
    pub fn open(dir: PathBuf, text: &str, cfg: &Cfg) -> Result<(Session, Value), (Fail, Session)> {
        let mut core = Core::start();
        core.notify("client_started", json!({}));
        core.notify("modify_user_config", json!({"domain": "general", "changes": cfg.table()}));
        let mut s = Session { core, view: String::new(), text: text.to_string(), sel: vec![[0; 4]], dir, wraps: cfg.wrap > 0 || cfg.word_wrap, rounds: 0, asks: true, rival: None };
        match s.new_view(text).and_then(|v| s.add_rival(cfg).map(|_| v)) {
            Ok(v) => {
                let ev = json!({"op": "new", "text": cps(text), "cfg": cfg.event(), "resp": []});
                let ev = merge(ev, v);
                Ok((s, ev))
            }
            Err(f) => Err((f, s)),
        }
    }

    fn add_rival(&mut self, cfg: &Cfg) -> Result<(), Fail> {
        if let Some((wrap, word)) = cfg.rival {
            let r = self.core.request("new_view", json!({}))?;
            let v = r["result"].as_str().unwrap_or("none").to_string();
            let changes = json!({"wrap_width": wrap, "word_wrap": word});
            self.core.notify("modify_user_config", json!({"domain": {"user_override": v}, "changes": changes}));
            self.rival = Some(v);
        }
        Ok(())
    }

    fn tell_rival(&mut self, e: &Value) {
        if let (Some(v), true) = (&self.rival, e["c"] == "insert" || e["c"] == "paste") {
            let (m, p) = wire(e);
            let all = json!({"view_id": v, "method": m, "params": p});
            self.core.notify("edit", all);
        }
    }

    fn new_view(&mut self, text: &str) -> Result<Value, Fail> {
        let params = if text.is_empty() {
            json!({})
        } else {
            let p = self.dir.join("in.txt");
            std::fs::write(&p, text).expect("scratch file");
            json!({ "file_path": p })
        };
        let r = self.core.request("new_view", params)?;
        self.view = r["result"].as_str().unwrap_or("none").to_string();
        let end = Instant::now() + self.core.patience;
        while !self.core.notes.iter().any(|n| n["method"] == "update") {
            if let Some(p) = take_panic() {
                return Err(Fail::Panic(p));
            }
            if Instant::now() > end {
                return Err(Fail::Hang);
            }
            self.core.listen(Duration::from_millis(1));
        }
        self.settle()
    }

    /// Send one command and take in everything the core says about it.
    pub fn command(&mut self, e: &Value) -> Result<Value, Fail> {
        let mut resp = json!([]);
        match e["c"].as_str().unwrap() {
            c @ "cut" | c @ "copy" => {
                let r = self.core.request("edit", json!({"view_id": self.view, "method": c, "params": []}))?;
                resp = match r["result"].as_str() {
                    Some(t) => json!([[cps(t)]]),
                    None if r.get("result").is_some() => json!([[]]),
                    None => json!([[[1]]]),
                };
            }
            "wrap" => {
                let changes = json!({"wrap_width": e["cfg"]["wrap"], "word_wrap": e["cfg"]["word"]});
                self.core.notify("modify_user_config", json!({"domain": "general", "changes": changes}));
            }
            "save" => {
                let p = self.dir.join("out.txt");
                self.core.notify("save", json!({"view_id": self.view, "file_path": p}));
            }
            _ => {
                self.tell_rival(e);
                let (m, p) = wire(e);
                self.core.notify("edit", json!({"view_id": self.view, "method": m, "params": p}));
            }
        }
        let always = self.wraps;
        self.wraps |= e["c"] == "wrap" || e["c"] == "resize";
        let v = self.settle()?;
        if e["c"] != "wrap" {
            self.wraps = always;
        }
        Ok(merge(json!({"op": "cmd", "cmd": e, "resp": resp}), v))
    }

    /// Send commands without waiting in between, and ask for all lines after each.
    pub fn burst(&mut self, cmds: &[Value]) -> Result<Value, Fail> {
        for e in cmds {
            if e["c"] == "wrap" {
                let changes = json!({"wrap_width": e["cfg"]["wrap"], "word_wrap": e["cfg"]["word"]});
                self.core.notify("modify_user_config", json!({"domain": "general", "changes": changes}));
            } else {
                self.tell_rival(e);
                let (m, p) = wire(e);
                self.core.notify("edit", json!({"view_id": self.view, "method": m, "params": p}));
            }
            if self.asks {
                let p = json!([0, 1000000]);
                self.core.notify("edit", json!({"view_id": self.view, "method": "request_lines", "params": p}));
            }
        }
        let v = self.settle()?;
        Ok(merge(json!({"op": "burst", "cmds": cmds}), v))
    }

    /// how much was said about the view
    fn mine(&self) -> usize {
        self.core.notes.iter().filter(|n| n["params"]["view_id"] == json!(self.view)).count()
    }

    /// Wait until the core has handled everything (and a search it began is complete).
    fn settle(&mut self) -> Result<Value, Fail> {
        let r = self.core.request("debug_get_contents", json!({"view_id": self.view}))?;
        let text = r["result"].as_str().unwrap_or("\u{1}no text").to_string();
        // A search goes on whenever the core is idle, and so does the opening of views, in order.
        let mut late = false;
        if self.wraps || self.core.notes.iter().any(|n| n["method"] == "find_status") {
            let mut rounds = 0;
            loop {
                let before = self.mine();
                let r = self.core.request("new_view", json!({}))?;
                let other = r["result"].clone();
                let end = Instant::now() + self.core.patience;
                while !self.core.notes.iter().any(|n| n["method"] == "update" && n["params"]["view_id"] == other) {
                    if let Some(p) = take_panic() {
                        return Err(Fail::Panic(p));
                    }
                    if Instant::now() > end {
                        return Err(Fail::Hang);
                    }
                    self.core.listen(Duration::from_micros(200));
                }
                self.core.notify("close_view", json!({ "view_id": other }));
                if self.mine() == before && rounds >= self.rounds {
                    break;
                }
                rounds += 1;
                if rounds > 20 + self.rounds {
                    late = true;
                    break;
                }
            }
        }
        let mut upd = Vec::new();
        let mut scroll = Vec::new();
        let mut fstat = Vec::new();
        let mut rstat = Vec::new();
        let mut other = Vec::new();
        for n in self.core.take() {
            let p = &n["params"];
            if !p["view_id"].is_null() && p["view_id"] != json!(self.view) {
                continue;
            }
            match n["method"].as_str().unwrap_or("") {
                "update" => upd.push(decode_update(&p["update"])),
                "scroll_to" => scroll.push(json!([num(&p["line"]), num(&p["col"])])),
                "find_status" => {
                    let q = p["queries"].as_array().unwrap();
                    if !q.iter().any(|x| x["chars"].is_null() && x["case_sensitive"].is_null()) {
                        fstat.push(Value::Array(
                            q.iter()
                                .map(|x| {
                                    json!({"id": x["id"], "chars": cps(x["chars"].as_str().unwrap_or("")),
                                           "cs": x["case_sensitive"], "isre": x["is_regex"], "ww": x["whole_words"],
                                           "n": x["matches"], "lines": x["lines"]})
                                })
                                .collect(),
                        ));
                    }
                }
                "replace_status" => rstat.push(json!(cps(p["status"]["chars"].as_str().unwrap_or("")))),
                "def_style" | "available_plugins" | "config_changed" | "language_changed" | "available_themes"
                | "available_languages" => {}
                m => other.push(json!(m)),
            }
        }
        if let Some(u) = upd.last() {
            self.sel = u["sel"]
                .as_array()
                .unwrap()
                .iter()
                .map(|r| {
                    let g = |k: usize| num(&r[k]).max(0) as usize;
                    [g(0), g(1), g(2), g(3)]
                })
                .collect();
        }
        self.text = text;
        Ok(json!({"text": cps(&self.text), "upd": upd, "scroll": scroll, "fstat": fstat, "rstat": rstat, "other": other,
                  "late": late}))
    }
}

pub fn merge(a: Value, b: Value) -> Value {
    let mut m: Map<String, Value> = a.as_object().unwrap().clone();
    for (k, v) in b.as_object().unwrap() {
        m.insert(k.clone(), v.clone());
    }
    Value::Object(m)
}
