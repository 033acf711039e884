//! The document cache of the plugin library, over a data source that answers as the core does,
//! but with pieces of any size.
use serde_json::{json, Value};
use std::cell::Cell;
use vcommon::*;
use xi_core_lib::plugin_rpc::{GetDataResponse, TextUnit};
use xi_plugin_lib::{Cache, ChunkCache, DataSource, Error, StateCache};
use xi_rope::delta::DeltaElement;
use xi_rope::{DeltaBuilder, Interval, LinesMetric, Rope, RopeDelta};

struct Source {
    text: Rope,
    rev: u64,
    limit: usize,
    fetched: Cell<usize>,
}

impl DataSource for Source {
    fn get_data(&self, start: usize, unit: TextUnit, max: usize, rev: u64) -> Result<GetDataResponse, Error> {
        let other = |s: &str| Error::Other(s.to_string());
        self.fetched.set(self.fetched.get() + 1);
        if self.fetched.get() > 20_000 {
            panic!("the cache fetches for ever");
        }
        if rev != self.rev {
            return Err(other("asked for another revision"));
        }
        // the same as Editor::plugin_get_data, with a limit of its own
        let offset = unit.resolve_offset(&self.text, start).ok_or_else(|| other("no such place"))?;
        let mut end = offset.saturating_add(max.min(self.limit));
        if end >= self.text.len() {
            end = self.text.len();
        } else {
            end = self.text.prev_codepoint_offset(end + 1).unwrap();
        }
        let chunk = self.text.slice_to_cow(offset..end).into_owned();
        let first_line = self.text.line_of_offset(offset);
        let first_line_offset = offset - self.text.offset_of_line(first_line);
        Ok(GetDataResponse { chunk, offset, first_line, first_line_offset })
    }
}

fn cps(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}

fn string(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|c| std::char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}

/// a kind of line state that converges: '#' counts modulo three, '!' clears
fn next_state(st: u32, line: &str) -> u32 {
    let mut s = st;
    for c in line.chars() {
        match c {
            '#' => s = (s + 1) % 3,
            '!' => s = 0,
            _ => (),
        }
    }
    s
}

enum C {
    Chunk(ChunkCache),
    State(StateCache<u32>),
}

struct Run<'a> {
    tr: &'a mut Trace,
    doc: String,
    src: Source,
    c: C,
    dead: bool,
}

impl<'a> Run<'a> {
    fn new(tr: &'a mut Trace, doc: &str, limit: usize, state: bool) -> Run<'a> {
        let text = Rope::from(doc);
        let lines = text.measure::<LinesMetric>() + 1;
        let c = if state {
            let mut s = StateCache::new(text.len(), 1, lines);
            s.reset();
            C::State(s)
        } else {
            C::Chunk(ChunkCache::new(text.len(), 1, lines))
        };
        tr.log(json!({"op": "new", "doc": cps(doc), "limit": limit, "state": state}));
        Run { tr, doc: doc.to_string(), src: Source { text, rev: 1, limit, fetched: Cell::new(0) }, c, dead: false }
    }
    fn byte(&self, n: usize) -> usize {
        self.doc.char_indices().nth(n).map(|x| x.0).unwrap_or_else(|| self.doc.len())
    }
    /// character number of a byte offset
    fn chr(&self, b: usize) -> i64 {
        if b <= self.doc.len() && self.doc.is_char_boundary(b) {
            self.doc[..b].chars().count() as i64
        } else {
            -1 - b as i64
        }
    }
    fn len(&self) -> usize {
        self.doc.chars().count()
    }
    fn lines(&self) -> usize {
        self.doc.matches('\n').count() + 1
    }
    fn fail(&mut self, what: &str, msg: &str) {
        self.tr.log(panic_event(what, msg));
        self.dead = true;
    }

    /// replacements of character ranges, ascending
    fn edit(&mut self, reps: &[(usize, usize, String)], big: bool) {
        if self.dead {
            return;
        }
        let mut b = DeltaBuilder::new(self.doc.len());
        for (s, e, t) in reps {
            b.replace(Interval::new(self.byte(*s), self.byte(*e)), Rope::from(t.as_str()));
        }
        let delta: RopeDelta = b.build();
        let els: Vec<Value> = delta
            .els
            .iter()
            .map(|e| match e {
                DeltaElement::Copy(b, e) => json!({"k": "c", "b": self.chr(*b), "e": self.chr(*e), "ids": []}),
                DeltaElement::Insert(n) => json!({"k": "i", "b": 0, "e": 0, "ids": cps(&String::from(n))}),
            })
            .collect();
        let text = delta.apply(&self.src.text);
        let lines = text.measure::<LinesMetric>() + 1;
        self.src.rev += 1;
        self.src.text = text.clone();
        self.doc = String::from(&text);
        let (len, rev) = (text.len(), self.src.rev);
        let c = &mut self.c;
        let d = if big { None } else { Some(&delta) };
        let r = guarded(|| match c {
            C::Chunk(c) => c.update(d, len, lines, rev),
            C::State(c) => c.update(d, len, lines, rev),
        });
        self.tr.log(json!({"op": "edit", "els": els, "big": big, "doc": cps(&self.doc)}));
        if let Err(m) = r {
            self.fail("update", &m);
        }
    }

    fn ask(&mut self, q: &str, a: usize, b: usize) {
        if self.dead {
            return;
        }
        self.src.fetched.set(0);
        let (ba, bb) = (self.byte(a), self.byte(b));
        let src = &self.src;
        macro_rules! both {
            ($c:ident, $e:expr) => {
                match &mut self.c {
                    C::Chunk($c) => $e,
                    C::State($c) => $e,
                }
            };
        }
        enum R {
            Text(String),
            Num(usize),
            Err(String),
        }
        fn t<T: ToString>(r: Result<T, Error>) -> R {
            match r {
                Ok(s) => R::Text(s.to_string()),
                Err(e) => R::Err(format!("{:?}", e)),
            }
        }
        fn n(r: Result<usize, Error>) -> R {
            match r {
                Ok(s) => R::Num(s),
                Err(e) => R::Err(format!("{:?}", e)),
            }
        }
        let r = guarded(|| match q {
            "line" => both!(c, t(c.get_line(src, a))),
            "region" => both!(c, t(c.get_region(src, ba..bb))),
            "doc" => both!(c, t(c.get_document(src))),
            "off" => both!(c, n(c.offset_of_line(src, a))),
            _ => both!(c, n(c.line_of_offset(src, if a > self.doc.chars().count() { self.doc.len() + a } else { ba }))),
        });
        let mut ev = json!({"op": "ask", "q": q, "a": a, "b": b, "ok": true, "txt": [], "n": 0, "err": ""});
        match r {
            Ok(R::Text(s)) => ev["txt"] = json!(cps(&s)),
            Ok(R::Num(x)) if q == "off" => ev["n"] = json!(self.chr(x)),
            Ok(R::Num(x)) => ev["n"] = json!(x),
            Ok(R::Err(e)) => {
                ev["ok"] = json!(false);
                ev["err"] = json!(e);
            }
            Err(m) => {
                ev["ok"] = json!(false);
                ev["err"] = json!(m);
                self.dead = true;
            }
        }
        self.tr.log(ev);
    }

    fn set(&mut self, line: usize, v: u32) {
        if self.dead {
            return;
        }
        let src = &self.src;
        let r = guarded(|| {
            if let C::State(c) = &mut self.c {
                c.set(src, line, v)
            }
        });
        self.tr.log(json!({"op": "set", "line": line, "v": v}));
        if let Err(m) = r {
            self.fail("set", &m);
        }
    }

    fn dump(&mut self) {
        if self.dead {
            return;
        }
        let n = self.lines();
        let r = guarded(|| {
            if let C::State(c) = &self.c {
                let vals: Vec<i64> = (0..n + 1).map(|l| c.get(l).map(|v| *v as i64).unwrap_or(-1)).collect();
                let prev: Vec<(usize, usize, u32)> = (0..n + 1).map(|l| c.get_prev(l)).collect();
                (vals, prev, c.get_frontier().map(|f| f as i64).unwrap_or(-1))
            } else {
                (vec![], vec![], -1)
            }
        });
        match r {
            Ok((vals, prev, f)) => {
                let prev: Vec<Value> = prev.iter().map(|(l, o, s)| json!([l, self.chr(*o), s])).collect();
                self.tr.log(json!({"op": "states", "vals": vals, "prev": prev, "frontier": f}))
            }
            Err(m) => self.fail("states", &m),
        }
    }

    /// what a highlighter does: at most `steps` lines at the frontier; true when nothing is left
    fn work(&mut self, steps: usize) -> bool {
        for _ in 0..steps {
            if self.dead {
                return true;
            }
            self.src.fetched.set(0);
            let src = &self.src;
            let r = guarded(|| {
                let c = match &mut self.c {
                    C::State(c) => c,
                    _ => return None,
                };
                let front = c.get_frontier()?;
                let (line, off, st) = c.get_prev(front);
                let text = c.get_line(src, line).map(|s| s.to_string());
                let mut ev = json!({"front": front, "line": line, "st": st, "txt": [], "ok": text.is_ok(), "new": -1});
                let mut done = true;
                if let Ok(s) = &text {
                    ev["txt"] = json!(cps(s));
                    if s.ends_with('\n') {
                        let new = next_state(st, s);
                        ev["new"] = json!(new);
                        if c.get(line + 1) != Some(&new) {
                            c.set(src, line + 1, new);
                            c.update_frontier(line + 1);
                            done = false;
                        }
                    }
                }
                if done {
                    c.close_frontier();
                }
                Some((ev, off))
            });
            match r {
                Ok(None) => {
                    self.tr.log(json!({"op": "idle"}));
                    self.dump();
                    return true;
                }
                Ok(Some((mut ev, off))) => {
                    ev["op"] = json!("work");
                    ev["off"] = json!(self.chr(off));
                    self.tr.log(ev);
                }
                Err(m) => self.fail("work", &m),
            }
        }
        false
    }
}

const CHARS: [char; 10] = ['a', 'b', '\n', '\n', '\n', '#', '#', '!', 'é', '𝄞'];

fn text(r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    (0..n).map(|_| *r.pick(&CHARS)).collect()
}

pub fn random(a: &Args) {
    let mut tr = Trace::create(&a.str("out", "/dev/stdout"));
    let mut r = Rng::new(a.num("seed", 1) as u64);
    let steps = a.num("steps", 25);
    for _ in 0..a.num("traces", 100) {
        let state = r.chance(65);
        let n = *r.pick(&[0, 3, 8, 20, 40]);
        let doc = text(&mut r, n);
        let limit = *r.pick(&[4, 5, 7, 9, 14, 30, 1 << 20]);
        let mut x = Run::new(&mut tr, &doc, limit, state);
        for _ in 0..steps {
            let (len, lines) = (x.len(), x.lines());
            let place = |r: &mut Rng| r.below(len + 1);
            match r.weighted(&[6, 5, 4, 1, 4, 3, 1, 3, 3, if state { 7 } else { 0 }, if state { 1 } else { 0 }]) {
                0 => {
                    let p = place(&mut r);
                    let t = text(&mut r, 5);
                    x.edit(&[(p, p, t)], false);
                }
                1 => {
                    let p = place(&mut r);
                    let e = (p + r.below(6)).min(len);
                    x.edit(&[(p, e, String::new())], false);
                }
                2 => {
                    // replacements, one or several
                    let mut reps = vec![];
                    let mut at = 0;
                    for _ in 0..r.range(1, 3) {
                        if at > len {
                            break;
                        }
                        let p = at + r.below(len - at + 1);
                        let e = (p + r.below(4)).min(len);
                        reps.push((p, e, text(&mut r, 3)));
                        at = e + 1;
                    }
                    x.edit(&reps, false);
                }
                3 => {
                    let p = place(&mut r);
                    let t = text(&mut r, 12);
                    x.edit(&[(p, len, t)], true);
                }
                4 => x.ask("line", r.below(lines + 1), 0),
                5 => {
                    let p = place(&mut r);
                    let e = p + r.below(len - p + 1);
                    x.ask("region", p, e);
                }
                6 => x.ask("doc", 0, 0),
                7 => x.ask("off", r.below(lines + 2), 0),
                8 => x.ask("lof", r.below(len + 2), 0),
                9 => {
                    let k = *r.pick(&[1, 2, 4, 100]);
                    x.work(k);
                }
                _ => x.dump(),
            }
        }
        for l in 0..x.lines() {
            x.ask("off", l, 0);
        }
        if state {
            x.dump();
            if !x.work(400) {
                x.tr.log(json!({"op": "hang", "what": "the frontier never becomes empty"}));
            }
        }
        x.ask("doc", 0, 0);
        for l in 0..x.lines() {
            x.ask("line", l, 0);
        }
    }
}

pub fn replay(a: &Args) {
    let mut tr = Trace::create(&a.str("out", "/dev/stdout"));
    let limit = a.num("limit", 4);
    for l in std::fs::read_to_string(a.str("in", "")).expect("scripts").lines() {
        let sc: Value = serde_json::from_str(l).expect("script");
        let doc = string(&sc["doc"]);
        let mut x = Run::new(&mut tr, &doc, limit, true);
        for s in sc["ops"].as_array().unwrap() {
            let num = |k: &str| s[k].as_u64().unwrap_or(0) as usize;
            match s["op"].as_str().unwrap() {
                "rep" => x.edit(&[(num("a"), num("b"), string(&s["t"]))], false),
                "work" => {
                    x.work(num("a"));
                }
                q => x.ask(q, num("a"), num("b")),
            }
        }
        x.dump();
        for l in 0..x.lines() {
            x.ask("line", l, 0);
        }
        if !x.work(100) {
            x.tr.log(json!({"op": "hang", "what": "the frontier never becomes empty"}));
        }
    }
}
