//! Random sessions with one view, and replay of sessions given as scripts.
use crate::client::*;
use crate::session::*;
use serde_json::{json, Value};
use vcommon::{Args, Rng, Trace};

const BITS: &[&str] = &[
    "a", "b", "ab", "abc", "B", "Ab", "é", "É", "ß", "_", "0", "7", "19", "-", "-1", "+", "x1", " ", "  ", "    ", "\t", "\n",
    "\n\n", "\r\n", "(", ")", "{", "}", "[", "]", "\"", "'", ".", ",", "a b", "ab ab", "aab", "\n    ", "\n\t",
];
const RARE: &[&str] = &[
    "\u{1F600}", "e\u{301}", "\u{1F468}\u{200D}\u{1F469}", "\u{1F1E6}\u{1F1E7}", "\u{1F1E6}", "1\u{FE0F}\u{20E3}", "\u{1F468}\u{1F3FD}",
    "\u{2764}\u{FE0F}", "中", "\u{301}", "\r", "\u{1F3F4}\u{E0067}\u{E007F}", "\u{2060}",
];

/// texts of which the specification knows where a line may be broken
static WRAP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
const WRAP_BITS: &[&str] = &[
    "a", "b", "ab", "abc", "B", "é", "ß", "_", "0", "7", "19", "-", "-1", " ", "  ", "    ", "\t", "\n", "\n\n", "\r\n", ".", ",",
    "a b", "ab ab", "aab", "i ii ", "hello wo", "中", "中中", "\n    ", "aaaaaaaaaaa", "a ", "b c d ", "x-y", "e f\n", "aa bb cc",
];
const WRAP_RARE: &[&str] = &["\r", "\u{2028}", "\u{c}", "\u{b}"];

pub struct Gen {
    pub r: Rng,
    mode: String,
    names: Vec<String>,
    nq: usize,
    recording: bool,
    redit: Value,
    edited: bool,
    queue: Vec<Value>,
}

fn some_text(r: &mut Rng, bits: usize) -> String {
    let mut s = String::new();
    let wrap = WRAP.load(std::sync::atomic::Ordering::Relaxed);
    for _ in 0..bits {
        if r.chance(if wrap { 3 } else { 12 }) {
            s.push_str(r.pick(if wrap { WRAP_RARE } else { RARE }));
        } else {
            s.push_str(r.pick(if wrap { WRAP_BITS } else { BITS }));
        }
    }
    s
}

fn atom(set: &[u32], neg: bool, mn: i64, mx: i64) -> Value {
    json!({"set": set, "neg": neg, "mn": mn, "mx": mx, "anchor": false})
}

impl Gen {
    pub fn new(seed: u64, mode: &str) -> Gen {
        Gen { r: Rng::new(seed), mode: mode.to_string(), names: vec!["x".into(), "y".into()], nq: 0, recording: false,
              redit: Value::Null, edited: false, queue: Vec::new() }
    }

    fn start_text(&mut self) -> String {
        let r = &mut self.r;
        match r.below(6) {
            0 => String::new(),
            1 => some_text(r, 3),
            2 | 3 => {
                let n = r.range(5, 20);
                some_text(r, n)
            }
            4 => {
                let n = r.range(1, 8);
                let mut s = String::new();
                for k in 0..n {
                    let ind = r.range(0, 5);
                    s.push_str(&" ".repeat(ind));
                    let b = r.range(0, 4);
                    s.push_str(&some_text(r, b).replace('\n', ""));
                    if k + 1 < n || r.chance(50) {
                        s.push('\n');
                    }
                }
                s
            }
            _ => {
                let n = r.range(10, 22);
                (0..n).map(|k| format!("l{}\n", k % 10)).collect()
            }
        }
    }

    fn cfg(&mut self) -> Cfg {
        let mut c = Cfg::plain();
        let r = &mut self.r;
        if r.chance(50) {
            c.tab = *r.pick(&[1, 2, 3, 4, 8]);
            c.tr = r.chance(60);
            c.stops = r.chance(60);
            c.le = if r.chance(25) { "\r\n".into() } else { "\n".into() };
        }
        if r.chance(10) {
            c.pairs.push(("a".into(), "b".into()));
        }
        if self.mode == "wrap" {
            self.wrap(&mut c);
            set_rival(&mut self.r, &mut c);
        }
        c
    }

    fn wrap(&mut self, c: &mut Cfg) {
        c.word_wrap = self.r.chance(30);
        c.wrap = if self.r.chance(12) { 0 } else { self.r.range(1, 14) };
    }

    fn piece(&mut self, text: &str) -> String {
        let r = &mut self.r;
        let cs: Vec<char> = text.chars().collect();
        if cs.is_empty() || r.chance(40) {
            let n = r.range(1, 2);
            return some_text(r, n);
        }
        let a = r.below(cs.len());
        let n = r.range(1, 3).min(cs.len() - a);
        cs[a..a + n].iter().collect()
    }

    fn query(&mut self, text: &str) -> Value {
        let id = if self.nq > 0 && self.r.chance(50) { self.r.range(1, self.nq + 1) } else { 0 };
        let cs = self.r.chance(50);
        let ww = self.r.chance(15);
        if self.r.chance(40) {
            let n = self.r.range(1, 3);
            let mut re = Vec::new();
            let mut need = true;
            let mut stars = false;
            for k in 0..n {
                if k == 0 && self.r.chance(15) {
                    re.push(json!({"set": [], "neg": false, "mn": 1, "mx": 1, "anchor": true}));
                    continue;
                }
                let sets: &[&str] = &["a", "b", "ab", "0179", "é", "AB", "\n", "a\n", " ", "\r\n"];
                let mut set: Vec<u32> = if self.r.chance(30) {
                    self.piece(text).chars().take(1).map(|c| c as u32).collect()
                } else {
                    self.r.pick(sets).chars().map(|c| c as u32).collect()
                };
                let mut neg = false;
                if self.r.chance(20) {
                    neg = true;
                    if self.r.chance(60) {
                        set = vec![];
                    } else {
                        set.retain(|&c| c != 10 && c != 13);
                    }
                }
                let (mn, mut mx) = *self.r.pick(&[(1, 1), (1, 1), (1, 1), (0, 1), (1, -1), (0, -1), (2, 2), (1, 2)]);
                // two of them without limit take the checker long
                if mx == -1 && stars {
                    mx = 2;
                }
                stars |= mx == -1;
                if mn > 0 {
                    need = false;
                }
                re.push(atom(&set, neg, mn, mx));
            }
            if need {
                re.push(atom(&[97], false, 1, 1));
            }
            let re = Value::Array(re);
            let pat = cps(&regex_of(&re));
            json!({"id": id, "pat": pat, "cs": cs, "ww": ww, "isre": true, "re": re})
        } else {
            let mut p = self.piece(text);
            if self.r.chance(20) {
                p = p.to_uppercase();
            }
            if self.r.chance(3) {
                p.clear();
            }
            json!({"id": id, "pat": cps(&p), "cs": cs, "ww": ww, "isre": false, "re": []})
        }
    }

    /// a place to point at: near a caret, anywhere, or outside
    fn place(&mut self, s: &Session) -> (usize, usize) {
        let lines = s.text.matches('\n').count() + 1;
        if self.r.chance(8) {
            return (self.r.below(lines + 3), self.r.below(40));
        }
        if !s.sel.is_empty() && self.r.chance(25) {
            let r = *self.r.pick(&s.sel);
            return if self.r.chance(50) { (r[0], r[1]) } else { (r[2], r[3]) };
        }
        let line = self.r.below(lines);
        let len = s.text.split('\n').nth(line).map_or(0, |l| l.len());
        (line, self.r.below(len + 2))
    }

    fn gesture(&mut self, s: &Session) -> Value {
        let (line, col) = self.place(s);
        let ty = *self.r.pick(&["select", "select", "select", "select", "extend", "drag"]);
        let g = *self.r.pick(&["point", "point", "point", "word", "line"]);
        json!({"c": "gesture", "ty": ty, "line": line, "col": col, "g": g, "multi": self.r.chance(70)})
    }

    fn motion(&mut self) -> Value {
        let ms = ["left", "right", "word_left", "word_right", "line_start", "line_end", "up", "down", "page_up", "page_down",
                  "par_start", "par_end", "doc_start", "doc_end", "up", "down", "left", "right"];
        json!({"c": "move", "m": *self.r.pick(&ms), "mod": self.r.chance(45)})
    }

    fn select(&mut self, s: &Session) -> Value {
        match self.r.weighted(&[10, 8, 2, 2, 1, 1, 2]) {
            0 => self.gesture(s),
            1 => self.motion(),
            2 => json!({"c": "add_above"}),
            3 => json!({"c": "add_below"}),
            4 => json!({"c": "select_all"}),
            5 => json!({"c": "collapse"}),
            _ => json!({"c": "into_lines"}),
        }
    }

    fn edit(&mut self, s: &Session) -> Value {
        let long = s.text.chars().count() > 150;
        let w = if long { [1, 0, 0, 0, 8, 10, 3, 0, 2, 0, 2, 2, 2, 2, 2, 0] } else { [12, 4, 3, 3, 6, 8, 2, 2, 2, 2, 2, 2, 3, 3, 3, 3] };
        match self.r.weighted(&w) {
            0 => {
                let mut x = if self.mode != "wrap" && self.r.chance(15) { (*self.r.pick(&["{", "[", "\"", "'"])).to_string() } else { let n = self.r.range(1, 2); some_text(&mut self.r, n) };
                if self.recording && Cfg::plain().pairs.iter().any(|p| p.0 == x) {
                    x = "ab".into();
                }
                json!({"c": "insert", "x": cps(&x)})
            }
            1 => {
                let n = self.r.range(1, 5);
                let mut x = some_text(&mut self.r, n);
                if self.r.chance(40) && s.sel.len() > 1 {
                    let parts: Vec<String> = (0..s.sel.len()).map(|k| format!("p{}", k % 10)).collect();
                    x = parts.join(if self.r.chance(70) { "\n" } else { "\r\n" });
                    if self.r.chance(30) {
                        x.push('\n');
                    }
                }
                json!({"c": "paste", "x": cps(&x)})
            }
            2 => json!({"c": "newline"}),
            3 => json!({"c": "tab"}),
            4 => json!({"c": "bs"}),
            5 => json!({"c": "del", "m": *self.r.pick(&["right", "word_right", "word_left", "par_kill", "line_start"])}),
            6 => json!({"c": "cut"}),
            7 => json!({"c": "yank"}),
            8 => json!({"c": *self.r.pick(&["upper", "lower"])}),
            9 => json!({"c": "dup"}),
            10 => json!({"c": "capitalize"}),
            11 => json!({"c": "transpose"}),
            12 => json!({"c": "number", "up": self.r.chance(50)}),
            13 => json!({"c": "outdent"}),
            14 => json!({"c": "copy"}),
            _ => json!({"c": "indent"}),
        }
    }

    fn find(&mut self, s: &Session) -> Value {
        match self.r.weighted(&[8, 5, 10, 3, 3, 2, 3, 1, 3, 2]) {
            0 => {
                let q = self.query(&s.text);
                json!({"c": "find", "q": q})
            }
            1 => {
                let n = self.r.below(4);
                let qs: Vec<Value> = (0..n).map(|_| self.query(&s.text)).collect();
                json!({"c": "multi_find", "qs": qs})
            }
            2 => json!({"c": "find_next", "back": self.r.chance(45), "wrap": self.r.chance(70),
                        "how": *self.r.pick(&["set", "set", "add", "add_removing_current", "none"])}),
            3 => json!({"c": "find_all"}),
            4 => json!({"c": "hl", "v": self.r.chance(75)}),
            5 => json!({"c": "sel_find", "cs": self.r.chance(50)}),
            6 => {
                let x = if self.r.chance(20) { String::new() } else { self.piece(&s.text) };
                json!({"c": "set_replace", "x": cps(&x)})
            }
            7 => json!({"c": "sel_replace"}),
            8 => json!({"c": "replace_next"}),
            _ => json!({"c": "replace_all"}),
        }
    }

    fn view(&mut self, s: &Session) -> Value {
        if self.mode == "wrap" && self.r.chance(50) {
            if self.r.chance(50) {
                return json!({"c": "resize", "w": self.r.range(0, 30)});
            }
            let mut c = Cfg::plain();
            self.wrap(&mut c);
            return json!({"c": "wrap", "cfg": {"wrap": c.wrap, "word": c.word_wrap}});
        }
        let lines = s.text.matches('\n').count() + 1;
        match self.r.weighted(&[6, 4, 2]) {
            0 => {
                let a = self.r.below(lines + 2);
                let h = self.r.range(1, 6);
                json!({"c": "scroll", "a": a, "b": a + h})
            }
            1 => {
                let a = self.r.below(lines + 2);
                let b = a + self.r.range(0, 8);
                json!({"c": "request", "a": a, "b": b})
            }
            _ => {
                let line = self.r.below(lines + 2);
                json!({"c": "goto", "line": line})
            }
        }
    }

    fn undo(&mut self) -> Value {
        if self.r.chance(62) {
            json!({"c": "undo"})
        } else {
            json!({"c": "redo"})
        }
    }

    fn rec(&mut self) -> Value {
        let n = self.r.pick(&self.names.clone()).clone();
        match self.r.weighted(&[7, 6, 1]) {
            0 => {
                let name = if self.r.chance(35) { json!([]) } else { json!([n]) };
                if self.recording {
                    if self.r.chance(90) {
                        self.recording = false;
                    }
                } else if name != json!([]) {
                    self.recording = true;
                }
                json!({"c": "rec", "name": name})
            }
            1 => json!({"c": "play", "n": n}),
            _ => json!({"c": "clear", "n": n}),
        }
    }

    /// after a recording was played: the last edit made while recording again, and undos
    fn after_play(&mut self) {
        let e = self.redit.clone();
        let undo = json!({"c": "undo"});
        let redo = json!({"c": "redo"});
        self.queue = match self.r.below(6) {
            0 if !e.is_null() => vec![undo.clone(), e],
            1 if !e.is_null() => vec![undo, e.clone(), e],
            2 => vec![redo, undo],
            3 => vec![json!({"c": "save"}), undo],
            _ => vec![],
        };
    }

    pub fn next(&mut self, s: &Session) -> Value {
        if let Some(e) = self.queue.pop() {
            return e;
        }
        if self.mode == "rec" && !self.recording && self.r.chance(5) {
            // a recording, played, and edits of the kind it ended with; last first
            let n = self.r.pick(&self.names.clone()).clone();
            let mut all = vec![json!({"c": "rec", "name": [n]})];
            for _ in 0..self.r.range(1, 3) {
                all.push(self.edit(s));
            }
            let last = all.last().unwrap().clone();
            all.push(json!({"c": "rec", "name": []}));
            if self.r.chance(50) {
                all.push(self.select(s));
            }
            for _ in 0..self.r.range(1, 2) {
                all.push(json!({"c": "play", "n": n}));
            }
            for _ in 0..self.r.range(0, 2) {
                all.push(last.clone());
            }
            for _ in 0..self.r.range(1, 3) {
                all.push(json!({"c": "undo"}));
            }
            all.push(json!({"c": "redo"}));
            all.reverse();
            self.queue = all;
            return self.queue.pop().unwrap();
        }
        let e = self.make(s);
        if e["c"] == "play" {
            self.after_play();
        } else if self.recording && self.edited {
            self.redit = e.clone();
        }
        e
    }

    fn make(&mut self, s: &Session) -> Value {
        self.edited = false;
        //              select edit undo find view save rec
        let w: [usize; 7] = match self.mode.as_str() {
            "edit" => [50, 50, 4, 0, 1, 0, 0],
            "move" => [90, 8, 0, 0, 4, 0, 0],
            "undo" => [20, 40, 40, 0, 0, 6, 0],
            "view" => [40, 30, 6, 6, 25, 1, 0],
            "find" => [20, 15, 3, 60, 4, 0, 0],
            "rec" => [25, 35, 15, 5, 1, 0, 22],
            "wrap" => [40, 40, 10, 4, 10, 1, 0],
            _ => [40, 35, 12, 12, 6, 3, 6],
        };
        match self.r.weighted(&w) {
            0 => self.select(s),
            1 => {
                self.edited = true;
                self.edit(s)
            }
            2 => self.undo(),
            3 => {
                let e = self.find(s);
                if e["c"] == "find" || e["c"] == "multi_find" || e["c"] == "sel_find" {
                    self.nq += 1;
                }
                e
            }
            4 => self.view(s),
            5 => json!({"c": "save"}),
            _ => self.rec(),
        }
    }
}

/// run one session; `script` gives the commands, or they are made up on the way
pub fn session(t: &mut Trace, dir: &std::path::Path, text: &str, cfg: &Cfg, first: Vec<Value>, more: usize, gen: &mut Gen) {
    t.doing("open");
    let mut s = match Session::open(dir.to_path_buf(), text, cfg) {
        Ok((s, ev)) => {
            t.log(ev);
            s
        }
        Err((f, _)) => {
            t.log(json!({"op": "new", "text": cps(text), "cfg": cfg.event(), "upd": [], "scroll": [], "fstat": [], "rstat": [], "other": [], "resp": []}));
            t.log(fail_event(&f, "open"));
            return;
        }
    };
    let mut it = first.into_iter();
    let mut k = 0;
    loop {
        let e = match it.next() {
            Some(e) => e,
            None if k < more => {
                k += 1;
                gen.next(&s)
            }
            None => break,
        };
        t.doing(&e.to_string());
        match s.command(&e) {
            Ok(ev) => {
                // recordings can double the text again and again
                let n = s.text.chars().count();
                if n > 300 {
                    break;
                }
                t.log(ev);
            }
            Err(f) => {
                let mut ev = fail_event(&f, &e.to_string());
                ev["cmd"] = e;
                t.log(ev);
                return;
            }
        }
    }
    t.doing("finish");
    match s.core.finish() {
        Ok(()) => t.log(json!({"op": "end"})),
        Err(f) => t.log(fail_event(&f, "finish")),
    }
}

pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let d = std::env::temp_dir().join(format!("verif-hcore-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn random(a: &Args) {
    watch_panics();
    let mut t = Trace::create(&a.str("out", "/dev/stdout"));
    let seed = a.num("seed", 1) as u64;
    let only = a.str("only", "");
    let d = Scratch::new();
    for n in 0..a.num("traces", 20) {
        if !only.is_empty() && only != n.to_string() {
            continue;
        }
        let mut g = Gen::new(seed * 1_000_003 + n as u64, &a.str("mode", "all"));
        WRAP.store(g.mode == "wrap", std::sync::atomic::Ordering::Relaxed);
        let text = g.start_text();
        let cfg = g.cfg();
        let mut first = Vec::new();
        if g.r.chance(80) {
            first.push(json!({"c": "scroll", "a": 0, "b": 40}));
        }
        if g.mode == "undo" && g.r.chance(30) {
            // many groups, so that the oldest are forgotten
            for k in 0..g.r.range(18, 24) {
                first.push(json!({"c": "insert", "x": [97 + (k % 3) as u32]}));
                first.push(json!({"c": "move", "m": "doc_end", "mod": false}));
            }
            if g.r.chance(60) {
                // back, another branch from there, and all the way back and forth
                for _ in 0..g.r.range(1, 3) {
                    for _ in 0..g.r.range(0, 12) {
                        first.push(json!({"c": "undo"}));
                    }
                    for k in 0..g.r.range(1, 4) {
                        first.push(json!({"c": "insert", "x": [100 + k as u32]}));
                        first.push(json!({"c": "move", "m": "doc_start", "mod": false}));
                    }
                }
                for _ in 0..g.r.range(10, 22) {
                    first.push(json!({"c": "undo"}));
                }
                for _ in 0..g.r.range(0, 22) {
                    first.push(json!({"c": "redo"}));
                }
            }
        }
        session(&mut t, &d.0, &text, &cfg, first, a.num("steps", 30), &mut g);
    }
}

/// scripts: one JSON object per line, {"text": [..], "cfg": {..} or absent, "cmds": [..]}
pub fn replay(a: &Args) {
    watch_panics();
    let mut t = Trace::create(&a.str("out", "/dev/stdout"));
    let d = Scratch::new();
    let mut g = Gen::new(1, "all");
    for l in std::fs::read_to_string(a.str("in", "")).expect("scripts").lines() {
        if l.trim().is_empty() {
            continue;
        }
        let v: Value = serde_json::from_str(l).expect("script");
        let mut cfg = Cfg::plain();
        if let Some(c) = v.get("cfg") {
            if let Some(n) = c["tab"].as_u64() {
                cfg.tab = n as usize;
            }
            if let Some(b) = c["tr"].as_bool() {
                cfg.tr = b;
            }
            if let Some(b) = c["stops"].as_bool() {
                cfg.stops = b;
            }
            if c.get("le").is_some() {
                cfg.le = ct(&c["le"]);
            }
            if let Some(ps) = c["pairs"].as_array() {
                cfg.pairs = ps.iter().map(|p| (ct(&p[0]), ct(&p[1]))).collect();
            }
            cfg.wrap = c["wrap"].as_u64().unwrap_or(0) as usize;
            cfg.word_wrap = c["word"].as_bool().unwrap_or(false);
            cfg.strict = c["strict"].as_bool().unwrap_or(false);
        }
        session(&mut t, &d.0, &ct(&v["text"]), &cfg, v["cmds"].as_array().unwrap().clone(), 0, &mut g);
    }
}

/// Sessions with texts of more lines than are wrapped at once, and commands that arrive while work is left.
pub fn long(a: &Args) {
    watch_panics();
    let mut t = Trace::create(&a.str("out", "/dev/stdout"));
    let seed = a.num("seed", 1) as u64;
    let only = a.str("only", "");
    let d = Scratch::new();
    for n in 0..a.num("traces", 5) {
        if !only.is_empty() && only != n.to_string() {
            continue;
        }
        let mut r = Rng::new(seed * 1_000_003 + n as u64);
        let mut c = Cfg::plain();
        set_wrap(&mut r, &mut c);
        set_rival(&mut r, &mut c);
        let k = r.range(100, 600);
        let text = paragraphs(&mut r, k);
        if let Err(f) = long_session(&mut t, &d.0, &text, &c, &mut r, a.num("steps", 8)) {
            t.log(fail_event(&f, "long"));
        }
    }
}

/// Sessions with texts of some thousand lines, of which the front-end keeps those around the window.
pub fn far(a: &Args) {
    watch_panics();
    let mut t = Trace::create(&a.str("out", "/dev/stdout"));
    let seed = a.num("seed", 1) as u64;
    let only = a.str("only", "");
    let d = Scratch::new();
    for n in 0..a.num("traces", 5) {
        if !only.is_empty() && only != n.to_string() {
            continue;
        }
        let mut r = Rng::new(seed * 1_000_003 + n as u64);
        let lines = r.range(1000, 3500);
        let text: String = (0..lines).map(|_| *r.pick(&["\n", "a\n", "bc\n", "d\n"])).collect();
        if let Err(f) = far_session(&mut t, &d.0, &text, &mut r, a.num("steps", 10)) {
            t.log(fail_event(&f, "far"));
        }
    }
}

fn far_session(t: &mut Trace, dir: &std::path::Path, text: &str, r: &mut Rng, steps: usize) -> Result<(), Fail> {
    t.doing("open");
    let cfg = Cfg::plain();
    let (mut s, ev) = match Session::open(dir.to_path_buf(), text, &cfg) {
        Ok(x) => x,
        Err((f, _)) => {
            t.log(json!({"op": "new", "text": cps(text), "cfg": cfg.event(), "upd": [], "scroll": []}));
            return Err(f);
        }
    };
    t.log(ev);
    s.asks = false;
    let (mut a, mut h) = (0usize, 20usize);
    for _ in 0..steps {
        let lines = s.text.matches('\n').count() + 1;
        let mut cmds = Vec::new();
        for _ in 0..r.below(3) {
            let near = (a + r.below(2 * h + 1)).saturating_sub(r.below(h + 1));
            match r.weighted(&[6, 5, 3, 3, 2, 2]) {
                0 => cmds.push(json!({"c": "gesture", "ty": "select", "line": if r.chance(30) { r.below(lines) } else { near }, "col": r.below(3),
                                      "g": "point", "multi": false})),
                1 => cmds.push(json!({"c": "insert", "x": cps(*r.pick(&["x", "y", "\n", "z\n\n"]))})),
                2 => cmds.push(json!({"c": "bs"})),
                3 => cmds.push(json!({"c": *r.pick(&["undo", "redo"])})),
                4 => cmds.push(json!({"c": "move", "m": *r.pick(&["doc_start", "doc_end", "down", "up"]), "mod": r.chance(30)})),
                _ => cmds.push(json!({"c": "paste", "x": cps(&"p\nq\n".repeat(r.range(1, 60)))})),
            }
        }
        match r.below(5) {
            0 => a = r.below(lines + 1),
            1 => a = (a + 1000 + r.below(2 * h)).min(lines + 1),
            2 => a = a.saturating_sub(1000 + r.below(2 * h)),
            3 => a = (a + r.below(2 * h)).saturating_sub(h),
            _ => a = *r.pick(&[0, lines.saturating_sub(h)]),
        }
        if r.chance(30) {
            h = r.range(1, 40);
        }
        cmds.push(json!({"c": "scroll", "a": a, "b": a + h}));
        t.doing(&json!(cmds).to_string());
        let mut ev = s.burst(&cmds)?;
        ev["win"] = json!([a, a + h]);
        ev["op"] = json!("far");
        t.log(ev);
    }
    t.doing("finish");
    s.core.finish()?;
    t.log(json!({"op": "end"}));
    Ok(())
}

fn set_wrap(r: &mut Rng, c: &mut Cfg) {
    c.word_wrap = r.chance(25);
    c.wrap = if r.chance(8) { 0 } else { *r.pick(&[1, 2, 3, 5, 8, 20]) };
}

fn set_rival(r: &mut Rng, c: &mut Cfg) {
    if r.chance(40) {
        c.rival = Some((*r.pick(&[1, 3, 8]), !c.word_wrap || r.chance(30)));
    }
}

fn paragraphs(r: &mut Rng, n: usize) -> String {
    let style = r.below(4);
    let mut s = String::new();
    for _ in 0..n {
        match if style == 3 { r.below(3) } else { style } {
            0 => s.push_str(*r.pick(&["\n", "a\n", "b c\n", "\n\n"])),
            1 => {
                for _ in 0..r.range(1, 4) {
                    s.push_str(*r.pick(&["a ", "bb ", "i ", "中", "c-d "]));
                }
                s.push('\n');
            }
            _ => {
                s.push_str(*r.pick(&["a ", "bb ", "i ii ", "a b c ", "中"]));
                if r.chance(1) {
                    s.push('\n');
                }
            }
        }
    }
    s
}

fn long_session(t: &mut Trace, dir: &std::path::Path, text: &str, cfg: &Cfg, r: &mut Rng, steps: usize) -> Result<(), Fail> {
    t.doing("open");
    let (mut s, ev) = match Session::open(dir.to_path_buf(), text, cfg) {
        Ok(x) => x,
        Err((f, _)) => {
            t.log(json!({"op": "new", "text": cps(text), "cfg": cfg.event(), "upd": [], "scroll": []}));
            return Err(f);
        }
    };
    t.log(ev);
    s.wraps = true;
    s.rounds = 8;
    let mut lines = text.len() / 2;
    for _ in 0..steps {
        if r.chance(30) {
            // an edit away from the window, that comes back or goes while the lines are being wrapped anew
            let line = r.below(lines + 2);
            let e = json!({"c": "gesture", "ty": "select", "line": line, "col": r.below(4), "g": "point", "multi": false});
            t.doing(&e.to_string());
            let ev = s.command(&e)?;
            t.log(ev);
            let n = if s.text.chars().count() < 3000 { r.range(100, 400) } else { 1 };
            let x = paragraphs(r, n);
            let mut first = vec![json!({"c": "paste", "x": cps(&x)})];
            let goes = r.chance(40);
            if !goes {
                first.push(json!({"c": "undo"}));
            }
            first.push(json!({"c": "move", "m": *r.pick(&["doc_start", "doc_start", "doc_end"]), "mod": false}));
            let mut c = Cfg::plain();
            set_wrap(r, &mut c);
            let mut second = vec![json!({"c": "wrap", "cfg": {"wrap": c.wrap, "word": c.word_wrap}})];
            second.push(json!({"c": if goes { "undo" } else { "redo" }}));
            if r.chance(40) {
                second.push(json!({"c": if goes { "redo" } else { "undo" }}));
            }
            for cmds in [first, second] {
                t.doing(&json!(cmds).to_string());
                let ev = s.burst(&cmds)?;
                t.log(ev);
            }
        } else if r.chance(70) {
            let n = *r.pick(&[1, 1, 2, 3]);
            let cmds: Vec<Value> = (0..n).map(|_| long_command(r, s.text.chars().count(), lines)).collect();
            t.doing(&json!(cmds).to_string());
            let ev = s.burst(&cmds)?;
            t.log(ev);
        } else {
            let line = r.below(lines + 2);
            let e = json!({"c": "gesture", "ty": "select", "line": line, "col": r.below(4), "g": "point", "multi": false});
            t.doing(&e.to_string());
            let ev = s.command(&e)?;
            t.log(ev);
        }
        let mut ev = s.command(&json!({"c": "request", "a": 0, "b": 1000000}))?;
        ev["op"] = json!("look");
        lines = ev["upd"].as_array().and_then(|a| a.last().cloned()).map_or(lines, |u| {
            u["ops"].as_array().unwrap().iter().filter(|o| o["op"] != "skip").map(|o| o["n"].as_u64().unwrap_or(0) as usize).sum()
        });
        t.log(ev);
    }
    t.doing("finish");
    s.core.finish()?;
    t.log(json!({"op": "end"}));
    Ok(())
}

fn long_command(r: &mut Rng, len: usize, lines: usize) -> Value {
    match r.weighted(&[6, 5, 3, 3, 3, 3, 4, 3, 3]) {
        0 => {
            let n = if len < 2000 && r.chance(50) { r.range(50, 300) } else { r.range(1, 4) };
            let x = paragraphs(r, n);
            json!({"c": "paste", "x": cps(&x)})
        }
        1 => json!({"c": "move", "m": *r.pick(&["doc_start", "doc_end", "par_start", "par_end", "left", "right", "word_right"]), "mod": r.chance(25)}),
        2 => json!({"c": "bs"}),
        3 => json!({"c": "del", "m": *r.pick(&["right", "word_left", "par_kill"])}),
        4 => json!({"c": "newline"}),
        5 => json!({"c": *r.pick(&["undo", "undo", "redo"])}),
        6 => {
            let mut c = Cfg::plain();
            set_wrap(r, &mut c);
            json!({"c": "wrap", "cfg": {"wrap": c.wrap, "word": c.word_wrap}})
        }
        7 => json!({"c": "resize", "w": r.range(0, 20)}),
        _ => {
            let a = r.below(lines + 1);
            json!({"c": "scroll", "a": a, "b": a + r.range(1, 40)})
        }
    }
}
