//! Drivers for xi_rope::engine::Engine.  Every call is logged with its arguments and what it gave;
//! nothing is judged here.  Revisions are named by the order in which they were made (1 = the
//! empty root, 2 = the initial text); the real tokens stay in the driver.
use serde_json::{json, Value};
use std::collections::BTreeSet;
use vcommon::*;
use xi_rope::delta::{Delta, DeltaElement};
use xi_rope::engine::{Engine, RevId};
use xi_rope::rope::RopeInfo;
use xi_rope::Rope;

#[derive(Clone, Debug)]
enum El {
    Copy(usize, usize),
    Ins(Vec<u32>),
}

fn els_json(els: &[El]) -> Value {
    Value::Array(
        els.iter()
            .map(|e| match e {
                El::Copy(b, e) => json!({"k": "c", "b": b, "e": e, "ids": []}),
                El::Ins(ids) => json!({"k": "i", "b": 0, "e": 0, "ids": ids}),
            })
            .collect(),
    )
}

fn els_from(v: &Value) -> Vec<El> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|e| {
            if e["k"] == "c" {
                El::Copy(e["b"].as_u64().unwrap() as usize, e["e"].as_u64().unwrap() as usize)
            } else {
                El::Ins(ids_from(&e["ids"]))
            }
        })
        .collect()
}

fn ids_from(v: &Value) -> Vec<u32> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect()
}

fn nums_from(v: &Value) -> Vec<usize> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()
}

/// One engine under test with the driver's own memory of it.
struct Sess {
    eng: Engine,
    alpha: Alphabet,
    /// rev id and the text (ids) the engine had when the revision was made
    revs: Vec<(RevId, Vec<u32>)>,
    next_id: u32,
    dead: bool,
}

impl Sess {
    fn new(tr: &mut Trace, initial: usize, scale: usize) -> Sess {
        let mut alpha = Alphabet::new(scale);
        let ids: Vec<u32> = (1..=initial as u32).collect();
        let empty = Engine::empty();
        let root = empty.get_head_rev_id();
        let eng = Engine::new(Rope::from(alpha.text(&ids)));
        let mut s = Sess {
            revs: vec![(root, vec![])],
            eng,
            alpha,
            next_id: initial as u32 + 1,
            dead: false,
        };
        if initial > 0 {
            s.revs.push((s.eng.get_head_rev_id(), ids.clone()));
        }
        let head = s.head();
        tr.log(json!({"op": "new", "txt": ids, "scale": scale, "head": head}));
        s
    }
    fn head(&self) -> Vec<u32> {
        self.alpha.ids(&String::from(self.eng.get_head()))
    }
    fn rope_delta(&mut self, base: &[u32], els: &[El], extra: isize) -> Delta<RopeInfo> {
        let off = |a: &Alphabet, n: usize| a.byte_len(&base[..n]);
        let mut v = Vec::new();
        for e in els {
            match e {
                El::Copy(b, e) => {
                    v.push(DeltaElement::Copy(off(&self.alpha, *b), off(&self.alpha, *e)))
                }
                El::Ins(ids) => v.push(DeltaElement::Insert(Rope::from(self.alpha.text(ids)))),
            }
        }
        let len = self.alpha.byte_len(base) as isize + extra;
        Delta { els: v, base_len: len.max(0) as usize }
    }
    /// edit based on revision number `base` (0: a token that does not exist)
    fn edit(&mut self, tr: &mut Trace, base: usize, prio: usize, grp: usize, els: Vec<El>, bad: isize) {
        let base_txt = if base == 0 { vec![] } else { self.revs[base - 1].1.clone() };
        let d = self.rope_delta(&base_txt, &els, bad);
        let tok = if base == 0 { 12345 } else { self.revs[base - 1].0.token() };
        let before = self.eng.get_head_rev_id();
        let r = guarded(|| self.eng.try_edit_rev(prio, grp, tok, d).map_err(|e| format!("{}", e)));
        match r {
            Err(m) => self.die(tr, "edit", &m),
            Ok(r) => {
                let after = self.eng.get_head_rev_id();
                let head = match guarded(|| self.head()) {
                    Ok(h) => h,
                    Err(m) => return self.die(tr, "edit", &m),
                };
                if after != before {
                    self.revs.push((after, head.clone()));
                }
                tr.log(json!({"op": "edit", "base": base, "prio": prio, "grp": grp, "bad": bad,
                    "els": els_json(&els), "ok": r.is_ok(), "new": after != before, "head": head}));
            }
        }
    }
    fn undo(&mut self, tr: &mut Trace, groups: &BTreeSet<usize>) {
        let before = self.eng.get_head_rev_id();
        match guarded(|| self.eng.undo(groups.clone())) {
            Err(m) => self.die(tr, "undo", &m),
            Ok(()) => {
                let after = self.eng.get_head_rev_id();
                let head = self.head();
                if after != before {
                    self.revs.push((after, head.clone()));
                }
                tr.log(json!({"op": "undo", "grps": groups, "new": after != before, "head": head}));
            }
        }
    }
    fn gc(&mut self, tr: &mut Trace, groups: &BTreeSet<usize>) {
        match guarded(|| self.eng.gc(groups)) {
            Err(m) => self.die(tr, "gc", &m),
            Ok(()) => {
                let head = self.head();
                tr.log(json!({"op": "gc", "grps": groups, "head": head}));
            }
        }
    }
    fn read(&mut self, tr: &mut Trace, rev: usize) {
        let tok = self.revs[rev - 1].0.token();
        match guarded(|| self.eng.get_rev(tok).map(|r| String::from(&r))) {
            Err(m) => self.die(tr, "rev", &m),
            Ok(t) => {
                let txt = t.as_ref().map(|s| self.alpha.ids(s)).unwrap_or_default();
                tr.log(json!({"op": "rev", "rev": rev, "some": t.is_some(), "txt": txt}));
            }
        }
    }
    fn delta_head(&mut self, tr: &mut Trace, rev: usize) {
        let tok = self.revs[rev - 1].0.token();
        let r = guarded(|| {
            let base = self.eng.get_rev(tok);
            match (self.eng.try_delta_rev_head(tok), base) {
                (Ok(d), Some(b)) => {
                    if d.base_len != b.len() {
                        return Some(("len".to_string(), String::new()));
                    }
                    Some(("".to_string(), String::from(&d.apply(&b))))
                }
                (Err(_), None) => None,
                _ => Some(("differ".to_string(), String::new())),
            }
        });
        match r {
            Err(m) => self.die(tr, "drh", &m),
            Ok(r) => {
                let (err, txt) = match &r {
                    None => (String::new(), vec![]),
                    Some((e, s)) => (e.clone(), self.alpha.ids(s)),
                };
                tr.log(json!({"op": "drh", "rev": rev, "some": r.is_some(), "err": err, "txt": txt}));
            }
        }
    }
    fn equiv(&mut self, tr: &mut Trace, a: usize, b: usize) {
        let (x, y) = (self.revs[a - 1].0, self.revs[b - 1].0);
        match guarded(|| self.eng.is_equivalent_revision(x, y)) {
            Err(m) => self.die(tr, "equiv", &m),
            Ok(res) => tr.log(json!({"op": "equiv", "a": a, "b": b, "res": res})),
        }
    }
    fn max_group(&mut self, tr: &mut Trace) {
        tr.log(json!({"op": "maxgrp", "res": self.eng.max_undo_group_id()}));
    }
    fn die(&mut self, tr: &mut Trace, what: &str, msg: &str) {
        self.dead = true;
        tr.log(panic_event(what, msg));
    }
    fn rand_delta(&mut self, rng: &mut Rng, base_len: usize) -> Vec<El> {
        rand_delta(rng, base_len, &mut self.next_id)
    }
}

/// A random delta over `n` units: copies in order, insertions anywhere (also next to each other,
/// inside a deleted range, at both ends), possibly nothing copied at all.
fn rand_delta(rng: &mut Rng, n: usize, next_id: &mut u32) -> Vec<El> {
    let mut fresh = |rng: &mut Rng| {
        let k = rng.weighted(&[0, 60, 25, 15]);
        let v: Vec<u32> = (*next_id..*next_id + k as u32).collect();
        *next_id += k as u32;
        El::Ins(v)
    };
    let mut els = Vec::new();
    match rng.weighted(&[30, 22, 15, 25, 5, 3]) {
        0 => {
            // a simple insertion
            let p = rng.below(n + 1);
            if p > 0 {
                els.push(El::Copy(0, p));
            }
            els.push(fresh(rng));
            if p < n {
                els.push(El::Copy(p, n));
            }
        }
        1 => {
            // a simple deletion
            let a = rng.below(n + 1);
            let b = (a + rng.range(0, 3)).min(n);
            if a > 0 {
                els.push(El::Copy(0, a));
            }
            if b < n {
                els.push(El::Copy(b, n));
            }
        }
        2 => {
            // a replacement
            let a = rng.below(n + 1);
            let b = (a + rng.range(0, 3)).min(n);
            if a > 0 {
                els.push(El::Copy(0, a));
            }
            els.push(fresh(rng));
            if b < n {
                els.push(El::Copy(b, n));
            }
        }
        3 => {
            // several regions
            let mut p = 0;
            while p < n {
                if rng.chance(35) {
                    els.push(fresh(rng));
                }
                let q = (p + rng.range(1, 4)).min(n);
                if rng.chance(70) {
                    els.push(El::Copy(p, q));
                }
                p = q;
            }
            if rng.chance(30) {
                els.push(fresh(rng));
            }
        }
        4 => {
            // everything replaced, or deleted
            if rng.chance(60) {
                els.push(fresh(rng));
            }
        }
        _ => {
            // nothing changes
            if n > 0 {
                els.push(El::Copy(0, n));
            }
        }
    }
    els
}

pub fn random(a: &Args) {
    let mode = a.str("mode", "live");
    let mut rng = Rng::new(a.num("seed", 1) as u64);
    let mut tr = Trace::create(&a.str("out", "/dev/stdout"));
    let traces = a.num("traces", 10);
    let steps = a.num("steps", 30);
    for t in 0..traces {
        let scale = match (t % 10, mode.as_str()) {
            (7, _) => 150,
            (8, _) => 400,
            (9, _) => 700,
            _ => 1,
        };
        let init = if rng.chance(10) { 0 } else { rng.range(1, 8) };
        let mut s = Sess::new(&mut tr, init, scale);
        one_random(&mut s, &mut rng, &mut tr, &mode, steps);
    }
    tr.flush();
}

fn one_random(s: &mut Sess, rng: &mut Rng, tr: &mut Trace, mode: &str, steps: usize) {
    let mut groups: Vec<usize> = vec![0];
    let mut undone: BTreeSet<usize> = BTreeSet::new();
    let mut frozen: BTreeSet<usize> = BTreeSet::new();
    let mut next_grp = 1;
    let mut floor = 1; // first revision usable after the last gc
    // [edit at head, edit at older rev, toggle undo, arbitrary undo set, gc, read, delta, equiv, malformed, max group]
    let w: [usize; 10] = match mode {
        "live" => [40, 6, 22, 14, 0, 8, 4, 3, 1, 1],
        "rebase" => [25, 40, 10, 4, 0, 10, 8, 2, 4, 0],
        _ => [36, 8, 18, 8, 12, 5, 5, 4, 3, 1],
    };
    for _ in 0..steps {
        if s.dead {
            return;
        }
        let n = s.revs.len();
        match rng.weighted(&w) {
            k @ 0 | k @ 1 => {
                let base = if k == 0 {
                    n
                } else if rng.chance(60) {
                    (n - rng.below(4).min(n - 1)).max(floor)
                } else {
                    rng.range(floor, n)
                };
                let live: Vec<usize> = groups.iter().cloned().filter(|g| !frozen.contains(g)).collect();
                let grp = if rng.chance(30) && !live.is_empty() {
                    *rng.pick(&live)
                } else {
                    next_grp += if rng.chance(10) { 2 } else { 1 };
                    groups.push(next_grp);
                    next_grp
                };
                let prio = *rng.pick(&[0, 1, 1, 1, 2]);
                let blen = s.revs[base - 1].1.len();
                // keep texts small
                let els = if blen > 14 && rng.chance(70) {
                    let a = rng.below(blen);
                    let b = (a + rng.range(1, 6)).min(blen);
                    let mut v = Vec::new();
                    if a > 0 {
                        v.push(El::Copy(0, a));
                    }
                    if b < blen {
                        v.push(El::Copy(b, blen));
                    }
                    v
                } else {
                    s.rand_delta(rng, blen)
                };
                s.edit(tr, base, prio, grp, els, 0);
            }
            2 => {
                // what an editor does: toggle one group, mostly a recent one
                let cands: Vec<usize> =
                    groups.iter().cloned().filter(|g| !frozen.contains(g)).rev().take(5).collect();
                if cands.is_empty() {
                    continue;
                }
                let g = *rng.pick(&cands);
                if !undone.remove(&g) {
                    undone.insert(g);
                }
                s.undo(tr, &undone.clone());
            }
            3 => {
                let mut set = BTreeSet::new();
                for &g in &groups {
                    if !frozen.contains(&g) && rng.chance(40) {
                        set.insert(g);
                    }
                }
                if rng.chance(10) {
                    set.insert(next_grp + 7);
                }
                undone = set.clone();
                s.undo(tr, &set);
            }
            4 => {
                let mut set = BTreeSet::new();
                for &g in &groups {
                    if !frozen.contains(&g) && rng.chance(35) {
                        set.insert(g);
                    }
                }
                for g in &set {
                    frozen.insert(*g);
                    undone.remove(g);
                }
                s.gc(tr, &set);
                floor = n;
            }
            5 => {
                let r = if rng.chance(20) { rng.range(1, n) } else { rng.range(floor, n) };
                s.read(tr, r);
            }
            6 => {
                let r = rng.range(floor, n);
                s.delta_head(tr, r);
            }
            7 => {
                let (x, y) = (rng.range(floor, n), if rng.chance(60) { n } else { rng.range(floor, n) });
                s.equiv(tr, x, y);
            }
            8 => {
                // refused: a base that is unknown, or was dropped, or does not fit
                let kind = rng.below(4);
                let head_len = s.revs[n - 1].1.len();
                if kind == 1 && head_len > 0 {
                    // made for a shorter text
                    let m = rng.below(head_len);
                    let els = s.rand_delta(rng, m);
                    let txt = s.revs[n - 1].1.clone();
                    let bad = s.alpha.byte_len(&txt[..m]) as isize - s.alpha.byte_len(&txt) as isize;
                    s.edit(tr, n, 1, next_grp + 1, els, bad);
                } else if kind == 0 {
                    let els = s.rand_delta(rng, 0);
                    s.edit(tr, 0, 1, next_grp + 1, els, 0);
                } else {
                    let els = s.rand_delta(rng, s.revs[n - 1].1.len());
                    let bad = rng.range(1, 3) as isize;
                    s.edit(tr, n, 1, next_grp + 1, els, bad);
                }
            }
            _ => s.max_group(tr),
        }
    }
}

/// Behaviours printed by TLC (one JSON array of steps per line), stepped through the real engine.
pub fn replay(a: &Args) {
    let src = std::fs::read_to_string(a.str("in", "")).expect("scripts");
    let mut tr = Trace::create(&a.str("out", "/dev/stdout"));
    let scale = a.num("scale", 1);
    for line in src.lines() {
        let script: Value = serde_json::from_str(line).expect("script line");
        let mut sess: Option<Sess> = None;
        for op in script.as_array().unwrap() {
            if let Some(s) = &sess {
                if s.dead {
                    break;
                }
            }
            let n = |k: &str| op[k].as_u64().unwrap() as usize;
            match op["op"].as_str().unwrap() {
                "new" => sess = Some(Sess::new(&mut tr, ids_from(&op["txt"]).len(), scale)),
                "edit" => {
                    let els = els_from(&op["els"]);
                    sess.as_mut().unwrap().edit(&mut tr, n("base"), n("prio"), n("grp"), els, 0)
                }
                "undo" => sess.as_mut().unwrap().undo(&mut tr, &nums_from(&op["grps"]).into_iter().collect()),
                "gc" => sess.as_mut().unwrap().gc(&mut tr, &nums_from(&op["grps"]).into_iter().collect()),
                "rev" => sess.as_mut().unwrap().read(&mut tr, n("rev")),
                "drh" => sess.as_mut().unwrap().delta_head(&mut tr, n("rev")),
                "equiv" => sess.as_mut().unwrap().equiv(&mut tr, n("a"), n("b")),
                x => panic!("unknown step {}", x),
            }
        }
        // whatever the behaviour was, look at every retained revision at its end
        if let (Some(s), 1) = (sess.as_mut(), a.num("readall", 1)) {
            for r in 1..=s.revs.len() {
                if !s.dead {
                    s.read(&mut tr, r);
                }
                if !s.dead {
                    s.delta_head(&mut tr, r);
                }
            }
        }
    }
    tr.flush();
}

// ---------------------------------------------------------------------------------- merging

struct Replica {
    eng: Engine,
    /// own view of revisions that can serve as a base: real id, edit number, text when it was head
    bases: Vec<(RevId, Vec<u32>)>,
}

pub fn merge(a: &Args) {
    let mut rng = Rng::new(a.num("seed", 1) as u64);
    let mut tr = Trace::create(&a.str("out", "/dev/stdout"));
    let traces = a.num("traces", 10);
    let steps = a.num("steps", 30);
    for t in 0..traces {
        let nrep = match a.num("replicas", 0) {
            0 => 2 + t % 3,
            n => n,
        };
        let scale = if t % 9 == 8 { 300 } else { 1 };
        one_merge(&mut rng, &mut tr, nrep, scale, steps);
    }
    tr.flush();
}

struct World {
    alpha: Alphabet,
    next_id: u32,
    edit_no: usize,
    reps: Vec<Replica>,
    dead: bool,
}

impl World {
    fn new(tr: &mut Trace, nrep: usize, scale: usize, same_first: bool) -> World {
        let reps = (0..nrep)
            .map(|i| {
                let mut eng = Engine::empty();
                eng.set_session_id((if same_first { 1 } else { (i + 1) as u64 }, (i + 1) as u32));
                let root = eng.get_head_rev_id();
                Replica { eng, bases: vec![(root, vec![])] }
            })
            .collect();
        let empty: Vec<u32> = vec![];
        tr.log(json!({"op": "new", "replicas": nrep, "scale": scale, "head": empty}));
        World { alpha: Alphabet::new(scale), next_id: 1, edit_no: 0, reps, dead: false }
    }
    fn fail(&mut self, tr: &mut Trace, what: &str, m: &str) {
        self.dead = true;
        tr.log(panic_event(what, m));
    }
    /// edit of replica r against its b-th known base
    fn edit(&mut self, tr: &mut Trace, r: usize, b: usize, prio: usize, els: Vec<El>) {
        let base_txt = self.reps[r].bases[b].1.clone();
        let tok = self.reps[r].bases[b].0.token();
        let athead = b == self.reps[r].bases.len() - 1;
        let mut v = Vec::new();
        for e in &els {
            v.push(match e {
                El::Copy(x, y) => DeltaElement::Copy(
                    self.alpha.byte_len(&base_txt[..*x]),
                    self.alpha.byte_len(&base_txt[..*y]),
                ),
                El::Ins(ids) => DeltaElement::Insert(Rope::from(self.alpha.text(ids))),
            });
        }
        let d = Delta { els: v, base_len: self.alpha.byte_len(&base_txt) };
        self.edit_no += 1;
        let no = self.edit_no;
        let eng = &mut self.reps[r].eng;
        match guarded(|| eng.try_edit_rev(prio, no, tok, d).map_err(|e| format!("{}", e))) {
            Err(m) => self.fail(tr, "edit", &m),
            Ok(res) => {
                let head = self.alpha.ids(&String::from(self.reps[r].eng.get_head()));
                let id = self.reps[r].eng.get_head_rev_id();
                self.reps[r].bases.push((id, head.clone()));
                tr.log(json!({"op": "edit", "r": r + 1, "e": no, "base": base_txt, "prio": prio,
                    "athead": athead, "els": els_json(&els), "ok": res.is_ok(), "head": head}));
            }
        }
    }
    fn merge(&mut self, tr: &mut Trace, r: usize, s: usize) {
        let (x, y) = if r < s {
            let (p, q) = self.reps.split_at_mut(s);
            (&mut p[r], &q[0])
        } else {
            let (p, q) = self.reps.split_at_mut(r);
            (&mut q[0], &p[s])
        };
        match guarded(|| x.eng.merge(&y.eng)) {
            Err(m) => self.fail(tr, "merge", &m),
            Ok(()) => {
                let head = self.alpha.ids(&String::from(x.eng.get_head()));
                let id = x.eng.get_head_rev_id();
                // after a merge only the head is a sensible base
                x.bases.clear();
                x.bases.push((id, head.clone()));
                tr.log(json!({"op": "merge", "r": r + 1, "s": s + 1, "head": head}));
                // and it must be readable under its own token
                match guarded(|| x.eng.get_rev(id.token()).map(|t| String::from(&t))) {
                    Err(m) => self.fail(tr, "rev", &m),
                    Ok(t) => {
                        let txt = t.map(|t| self.alpha.ids(&t)).unwrap_or_default();
                        tr.log(json!({"op": "rev", "r": r + 1, "txt": txt}))
                    }
                }
            }
        }
    }
    fn sync_all(&mut self, tr: &mut Trace, order: &[(usize, usize)]) {
        for &(r, s) in order {
            if !self.dead && r != s {
                self.merge(tr, r, s);
            }
        }
    }
}

fn one_merge(rng: &mut Rng, tr: &mut Trace, nrep: usize, scale: usize, steps: usize) {
    let same = rng.chance(50);
    let mut w = World::new(tr, nrep, scale, same);
    let style = rng.below(3); // 0: mixed, 1: all same priority, 2: edits always at head
    for _ in 0..steps {
        if w.dead {
            return;
        }
        let r = rng.below(nrep);
        if rng.chance(62) {
            let nb = w.reps[r].bases.len();
            let b = if style == 2 || rng.chance(70) { nb - 1 } else { rng.below(nb) };
            let n = w.reps[r].bases[b].1.len();
            let els = if n > 12 && rng.chance(60) {
                let x = rng.below(n);
                let y = (x + rng.range(1, 4)).min(n);
                let mut v = Vec::new();
                if x > 0 {
                    v.push(El::Copy(0, x));
                }
                if y < n {
                    v.push(El::Copy(y, n));
                }
                v
            } else {
                rand_delta(rng, n, &mut w.next_id)
            };
            let prio = if style == 1 { 1 } else { *rng.pick(&[0, 1, 1, 2]) };
            w.edit(tr, r, b, prio, els);
        } else {
            let mut s = rng.below(nrep);
            if s == r {
                s = (r + 1) % nrep;
            }
            w.merge(tr, r, s);
        }
    }
    // everybody hears everything, in a random order, twice
    let mut order: Vec<(usize, usize)> = Vec::new();
    for _ in 0..3 * nrep * nrep {
        order.push((rng.below(nrep), rng.below(nrep)));
    }
    for r in 0..nrep {
        for s in 0..nrep {
            order.push((r, s));
        }
    }
    for r in 0..nrep {
        order.push((r, (r + 1) % nrep));
    }
    w.sync_all(tr, &order);
}

/// Schedules printed by TLC, run on the real engines; at the end everybody hears everything.
pub fn merge_replay(a: &Args) {
    let src = std::fs::read_to_string(a.str("in", "")).expect("scripts");
    let mut tr = Trace::create(&a.str("out", "/dev/stdout"));
    for (ix, line) in src.lines().enumerate() {
        let script: Value = serde_json::from_str(line).expect("script line");
        let mut w: Option<World> = None;
        for op in script.as_array().unwrap() {
            let n = |k: &str| op[k].as_u64().unwrap() as usize;
            if op["op"] == "new" {
                w = Some(World::new(&mut tr, n("replicas"), 1, ix % 2 == 0));
                continue;
            }
            let w = w.as_mut().unwrap();
            if w.dead {
                break;
            }
            match op["op"].as_str().unwrap() {
                "merge" => w.merge(&mut tr, n("r") - 1, n("s") - 1),
                kind => {
                    let r = n("r") - 1;
                    let b = w.reps[r].bases.len() - 1;
                    let len = w.reps[r].bases[b].1.len();
                    let at = n("at");
                    if at + (kind == "del") as usize > len {
                        w.fail(&mut tr, "length", "the text is shorter than the specification says");
                        break;
                    }
                    let mut els = Vec::new();
                    if at > 0 {
                        els.push(El::Copy(0, at));
                    }
                    let mut rest = at;
                    if kind == "ins" {
                        els.push(El::Ins(vec![w.next_id]));
                        w.next_id += 1;
                    } else {
                        rest += 1;
                    }
                    if rest < len {
                        els.push(El::Copy(rest, len));
                    }
                    w.edit(&mut tr, r, b, n("prio"), els);
                }
            }
        }
        let mut w = w.unwrap();
        let n = w.reps.len();
        let mut order = Vec::new();
        for k in 0..2 {
            for r in 0..n {
                for s in 0..n {
                    order.push(if (ix + k) % 2 == 0 { (r, s) } else { (s, r) });
                }
            }
        }
        w.sync_all(&mut tr, &order);
    }
    tr.flush();
}
