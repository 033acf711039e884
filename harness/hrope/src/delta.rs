//! Deltas and position sets: computes everything they offer for given and random cases.
use serde_json::{json, Value};
use vcommon::*;
use xi_rope::delta::{Delta, DeltaElement, InsertDelta, Transformer};
use xi_rope::multiset::{CountMatcher, Subset, SubsetBuilder};
use xi_rope::rope::{Rope, RopeInfo};
use xi_rope::{DeltaBuilder, Interval};

/// units: id 1..40 (base) and 101..140 (inserted) are one ASCII letter each, `sc` times
struct U {
    sc: usize,
}

impl U {
    fn ch(&self, id: u32) -> char {
        if id <= 40 { (0x30 + id as u8) as char } else { (0x59 + (id - 100) as u8) as char }
    }
    fn text(&self, ids: &[u32]) -> String {
        ids.iter().flat_map(|&i| std::iter::repeat(self.ch(i)).take(self.sc)).collect()
    }
    fn ids(&self, s: &str) -> Vec<i64> {
        let v: Vec<char> = s.chars().collect();
        v.chunks(self.sc)
            .map(|c| {
                if c.len() != self.sc || c.iter().any(|&x| x != c[0]) {
                    return 999;
                }
                let n = c[0] as i64;
                if n <= 0x30 + 40 { n - 0x30 } else { n - 0x59 + 100 }
            })
            .collect()
    }
    fn pos(&self, p: usize) -> i64 {
        if p % self.sc == 0 { (p / self.sc) as i64 } else { -1000 - p as i64 }
    }
    fn els(&self, d: &Delta<RopeInfo>) -> Value {
        Value::Array(
            d.els
                .iter()
                .map(|e| match e {
                    DeltaElement::Copy(b, e) => json!({"k": "c", "b": self.pos(*b), "e": self.pos(*e), "ids": []}),
                    DeltaElement::Insert(n) => json!({"k": "i", "b": 0, "e": 0, "ids": self.ids(&String::from(n))}),
                })
                .collect(),
        )
    }
    /// counts, one per unit
    fn counts(&self, s: &Subset) -> Vec<i64> {
        let d = format!("{:#?}", s);
        let v: Vec<i64> = d
            .chars()
            .map(|c| match c {
                '-' => 0,
                '#' => 1,
                '+' => 99,
                c => c.to_digit(10).unwrap() as i64,
            })
            .collect();
        v.chunks(self.sc).map(|c| if c.len() == self.sc && c.iter().all(|x| *x == c[0]) { c[0] } else { -1 }).collect()
    }
    fn subset(&self, c: &[usize], how: usize) -> Subset {
        let mut sb = SubsetBuilder::new();
        if how == 0 {
            for &k in c {
                sb.push_segment(self.sc, k);
            }
        } else {
            let mut i = 0;
            while i < c.len() {
                let mut j = i;
                while j < c.len() && c[j] == c[i] {
                    j += 1;
                }
                if c[i] != 0 {
                    sb.add_range(i * self.sc, j * self.sc, c[i]);
                }
                i = j;
            }
            sb.pad_to_len(c.len() * self.sc);
        }
        sb.build()
    }
}

#[derive(Clone)]
enum El {
    C(usize, usize),
    I(Vec<u32>),
}

fn build(u: &U, n: usize, els: &[El], raw: bool) -> Delta<RopeInfo> {
    if raw {
        return Delta {
            base_len: n * u.sc,
            els: els
                .iter()
                .map(|e| match e {
                    El::C(b, e) => DeltaElement::Copy(b * u.sc, e * u.sc),
                    El::I(ids) => DeltaElement::Insert(Rope::from(u.text(ids))),
                })
                .collect(),
        };
    }
    let mut b = DeltaBuilder::new(n * u.sc);
    let mut at = 0;
    let mut pend: Vec<u32> = Vec::new();
    let put = |b: &mut DeltaBuilder<RopeInfo>, from: usize, to: usize, ids: &mut Vec<u32>| {
        if !ids.is_empty() {
            b.replace(from * u.sc..to * u.sc, Rope::from(u.text(ids)));
            ids.clear();
        } else if to > from {
            b.delete(Interval::new(from * u.sc, to * u.sc));
        }
    };
    for e in els {
        match e {
            El::C(s, e) => {
                put(&mut b, at, *s, &mut pend);
                at = *e;
            }
            El::I(ids) => pend.extend(ids),
        }
    }
    put(&mut b, at, n, &mut pend);
    b.build()
}

fn base(n: usize) -> Vec<u32> {
    (1..=n as u32).collect()
}

fn delta_event(u: &U, n: usize, d: &Delta<RopeInfo>) -> Value {
    let text = Rope::from(u.text(&base(n)));
    let (iv, l) = d.summary();
    let (ins, del) = d.clone().factor();
    let mut tr = Vec::new();
    let mut unt = Vec::new();
    let mut t = Transformer::new(d);
    for k in 0..=n {
        tr.push([u.pos(t.transform(k * u.sc, false)), u.pos(t.transform(k * u.sc, true))]);
        for e in k..=n {
            if t.interval_untouched(k * u.sc..e * u.sc) {
                unt.push([k, e]);
            }
        }
    }
    json!({"op": "delta", "n": n, "els": u.els(d), "sc": u.sc,
        "apply": u.ids(&String::from(d.apply(&text))),
        "ndl": u.pos(d.new_document_len()), "ilen": u.pos(d.inserts_len()),
        "sum": [u.pos(iv.start), u.pos(iv.end), u.pos(l)],
        "inserts": d.iter_inserts().map(|r| [u.pos(r.old_offset), u.pos(r.new_offset), u.pos(r.len)]).collect::<Vec<_>>(),
        "dels": d.iter_deletions().map(|r| [u.pos(r.old_offset), u.pos(r.new_offset), u.pos(r.len)]).collect::<Vec<_>>(),
        "fins": u.els(&ins), "fdel": u.counts(&del), "finsub": u.counts(&ins.inserted_subset()),
        "fapply": u.ids(&String::from(ins.apply(&text))),
        "sins": d.as_simple_insert().map(|r| u.ids(&String::from(r))).unwrap_or_else(|| vec![-1]),
        "sdel": d.is_simple_delete(), "ident": d.is_identity(), "tr": tr, "unt": unt})
}

fn subset_event(u: &U, a: &[usize], b: &[usize], c: &[usize], how: usize) -> Value {
    let n = a.len();
    let (sa, sb, sc) = (u.subset(a, how), u.subset(b, 1 - how), u.subset(c, how));
    let rs = |m: CountMatcher| sa.range_iter(m).map(|(x, y)| [u.pos(x), u.pos(y)]).collect::<Vec<_>>();
    let map = |m: CountMatcher| {
        let mut mp = sa.mapper(m);
        (0..=n).map(|k| u.pos(mp.doc_index_to_subset(k * u.sc))).collect::<Vec<_>>()
    };
    let text = u.text(&base(n));
    let mut zip = Vec::new();
    let mut zat = 0;
    let mut it = sa.zip(&sb);
    while let Some(seg) = it.next() {
        // the segment's fields are private: read them from what it prints
        let s = format!("{:?}", seg);
        let nums: Vec<usize> =
            s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        let (len, x, y) = (nums[0], nums[1], nums[2]);
        zat += len;
        for _ in 0..len / u.sc {
            zip.push([x, y]);
        }
        if it.consumed != zat {
            zip.push([777, it.consumed]);
        }
    }
    json!({"op": "subset", "a": a, "b": b, "c": c,
        "union": u.counts(&sa.union(&sb)), "sub": u.counts(&sa.union(&sb).subtract(&sb)),
        "xor": u.counts(&sa.bitxor(&sb)), "comp": u.counts(&sa.complement()),
        "expand": u.counts(&sc.transform_expand(&sb)), "unioninto": u.counts(&sc.transform_union(&sb)),
        "shrink": u.counts(&sa.transform_shrink(&sb)),
        "len": u.pos(sa.len()), "zero": u.pos(sa.count(CountMatcher::Zero)),
        "nonzero": u.pos(sa.count(CountMatcher::NonZero)), "lad": u.pos(sa.len_after_delete()),
        "empty": sa.is_empty(),
        "delfrom": u.ids(&String::from(sa.delete_from(&Rope::from(&text)))), "delstr": u.ids(&sa.delete_from_string(&text)),
        "rz": rs(CountMatcher::Zero), "rn": rs(CountMatcher::NonZero), "ra": rs(CountMatcher::All),
        "rc": sa.complement_iter().map(|(x, y)| [u.pos(x), u.pos(y)]).collect::<Vec<_>>(),
        "mz": map(CountMatcher::Zero), "mn": map(CountMatcher::NonZero), "ma": map(CountMatcher::All), "zip": zip})
}

fn zeros(x: &[usize]) -> usize {
    x.iter().filter(|k| **k == 0).count()
}

fn synth_event(u: &U, from: &[usize], to: &[usize]) -> Value {
    let tomb: Vec<u32> = base(from.len()).into_iter().filter(|&i| from[i as usize - 1] != 0).collect();
    let d = Delta::synthesize(&Rope::from(u.text(&tomb)), &u.subset(from, 0), &u.subset(to, 1));
    json!({"op": "synth", "from": from, "to": to, "els": u.els(&d), "bl": u.pos(d.base_len)})
}

fn ixf_event(u: &U, ins: &[El], full: &[El], x: &[usize], after: bool) -> Value {
    let n = x.len();
    let sx = u.subset(x, 0);
    let d: InsertDelta<RopeInfo> = build(u, zeros(x), ins, false).factor().0;
    let f: InsertDelta<RopeInfo> = build(u, n, full, false).factor().0;
    let all = Rope::from(u.text(&base(n)));
    json!({"op": "ixf", "x": x, "after": after, "ins": u.els(&d), "full": u.els(&f),
        "eapply": u.ids(&String::from(d.transform_expand(&sx, after).apply(&all))),
        "sapply": u.ids(&String::from(f.transform_shrink(&sx).apply(&sx.delete_from(&all))))})
}

fn gen_els(g: &mut Rng, n: usize, pure_ins: bool, next: &mut u32) -> Vec<El> {
    let mut els = Vec::new();
    let mut at = 0;
    let ins = |g: &mut Rng, els: &mut Vec<El>, next: &mut u32| {
        let k = g.range(1, 3);
        if *next as usize + k <= 138 {
            els.push(El::I((0..k as u32).map(|j| *next + j).collect()));
            *next += k as u32;
        }
    };
    let dense = g.range(10, 70);
    loop {
        if g.chance(dense) {
            ins(g, &mut els, next);
            if g.chance(10) {
                ins(g, &mut els, next);
            }
        }
        if at >= n {
            break;
        }
        let b = if pure_ins || g.chance(50) { at } else { (at + g.range(1, 4)).min(n) };
        let e = (b + g.range(1, 6)).min(n);
        if e > b && !(g.chance(15) && !pure_ins) {
            els.push(El::C(b, e));
        } else if pure_ins {
            continue;
        }
        at = e.max(b);
    }
    els
}

fn counts(g: &mut Rng, n: usize) -> Vec<usize> {
    let max = g.range(1, 4);
    let mut v = Vec::new();
    let p = g.range(10, 90);
    let mut cur = 0;
    for _ in 0..n {
        if g.chance(50) {
            cur = if g.chance(p) { g.range(1, max) } else { 0 };
        }
        v.push(cur);
    }
    v
}

pub fn random(args: &Args) {
    let mut g = Rng::new(args.num("seed", 1) as u64);
    let mut t = Trace::create(&args.str("out", "/dev/null"));
    for _ in 0..args.num("traces", 10) {
        t.log(json!({"op": "new"}));
        let u = U { sc: *g.pick(&[1usize, 1, 1, 3, 200, 700]) };
        let n = *g.pick(&[0usize, 1, 2, 3, 5, 8, 14, 20, 30]);
        let n = if u.sc > 100 { n.min(14) } else { n };
        let r = guarded(|| {
            let mut out = Vec::new();
            for _ in 0..4 {
                let mut next = 101;
                let els = gen_els(&mut g, n, false, &mut next);
                let raw = g.chance(30);
                out.push(delta_event(&u, n, &build(&u, n, &els, raw)));
                let (a, b) = (counts(&mut g, n), counts(&mut g, n));
                let c = counts(&mut g, zeros(&b));
                let how = g.below(2);
                out.push(subset_event(&u, &a, &b, &c, how));
                out.push(synth_event(&u, &a, &b));
                let mut next = 101;
                let ins = gen_els(&mut g, zeros(&a), true, &mut next);
                let mut next = 101;
                let full = gen_els(&mut g, n, true, &mut next);
                let after = g.chance(50);
                out.push(ixf_event(&u, &ins, &full, &a, after));
            }
            out
        });
        match r {
            Ok(v) => v.into_iter().for_each(|e| t.log(e)),
            Err(m) => t.log(panic_event("delta", &m)),
        }
    }
}

pub fn replay(args: &Args) {
    let mut t = Trace::create(&args.str("out", "/dev/null"));
    let sc = args.num("scale", 1);
    let u = U { sc };
    let nums = |v: &Value| -> Vec<usize> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect() };
    for l in std::fs::read_to_string(args.str("in", "")).unwrap().lines() {
        let s: Value = serde_json::from_str(l).unwrap();
        t.log(json!({"op": "new"}));
        let r = guarded(|| {
            let mut out = Vec::new();
            if s["k"] == "delta" {
                let n = s["n"].as_u64().unwrap() as usize;
                let els: Vec<El> = s["els"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|e| {
                        if e["k"] == "c" {
                            El::C(e["b"].as_u64().unwrap() as usize, e["e"].as_u64().unwrap() as usize)
                        } else {
                            El::I(nums(&e["ids"]).iter().map(|x| *x as u32 + 1).collect())
                        }
                    })
                    .collect();
                out.push(delta_event(&u, n, &build(&u, n, &els, true)));
                out.push(delta_event(&u, n, &build(&u, n, &els, false)));
            } else {
                let (a, b) = (nums(&s["a"]), nums(&s["b"]));
                let c: Vec<usize> = (0..a.len()).filter(|&i| b[i] == 0).map(|i| a[i]).collect();
                out.push(subset_event(&u, &a, &b, &c, 0));
                out.push(subset_event(&u, &a, &b, &c, 1));
                out.push(synth_event(&u, &a, &b));
                // insertions at every gap
                for x in [&a, &b].iter() {
                    let mk = |n: usize| {
                        let mut v = vec![El::I(vec![101])];
                        for k in 0..n {
                            v.push(El::C(k, k + 1));
                            v.push(El::I(vec![102 + k as u32]));
                        }
                        v
                    };
                    for after in [false, true].iter() {
                        out.push(ixf_event(&u, &mk(zeros(x)), &mk(x.len()), x, *after));
                    }
                }
            }
            out
        });
        match r {
            Ok(v) => v.into_iter().for_each(|e| t.log(e)),
            Err(m) => t.log(panic_event("delta", &m)),
        }
    }
}
