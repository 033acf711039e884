//! Ropes as sequences of characters: drives xi_rope::Rope and records what it shows.
use serde_json::{json, Value};
use vcommon::*;
use xi_rope::rope::{BaseMetric, LinesMetric, Rope, RopeInfo, Utf16CodeUnitsMetric};
use xi_rope::tree::{Cursor, TreeBuilder};
use xi_rope::compare::RopeScanner;
use xi_rope::delta::DeltaElement;
use xi_rope::diff::{Diff, LineHashDiff};
use xi_rope::Interval;

type Runs = Vec<(u32, usize)>;

fn rle<I: Iterator<Item = char>>(it: I) -> Vec<Value> {
    let mut out: Runs = Vec::new();
    for c in it {
        match out.last_mut() {
            Some((d, n)) if *d == c as u32 => *n += 1,
            _ => out.push((c as u32, 1)),
        }
    }
    out.into_iter().map(|(c, n)| json!([c, n])).collect()
}

fn text(r: &Runs) -> String {
    let mut s = String::new();
    for &(c, n) in r {
        for _ in 0..n {
            s.push(std::char::from_u32(c).unwrap());
        }
    }
    s
}

const WIDE: &[u32] = &[97, 98, 32, 10, 13, 233, 1078, 0x4E2D, 0x3042, 128512, 0x20021];
const GRAPH: &[u32] = &[
    97, 10, 13, 769, 776, 8205, 128104, 128105, 10084, 65039, 127995, 127462, 127463, 0x4E2D, 1, 233, 128512,
];

fn gen_text(g: &mut Rng) -> Runs {
    let mut r: Runs = Vec::new();
    match g.weighted(&[3, 4, 4, 3, 3, 2, 2]) {
        0 => {
            for _ in 0..g.below(5) {
                r.push((*g.pick(WIDE), g.range(1, 4)));
            }
        }
        // long runs: whole leaves without a newline, or of newlines only
        1 => {
            for _ in 0..g.range(1, 4) {
                let c = *g.pick(WIDE);
                let n = *g.pick(&[1usize, 7, 255, 256, 340, 341, 342, 510, 511, 512, 513, 1023, 1024, 1025, 1500, 2048, 3100]);
                r.push((c, n));
                if g.chance(40) {
                    r.push((10, 1));
                }
            }
        }
        // lines
        2 => {
            for _ in 0..g.range(1, 30) {
                let n = *g.pick(&[0usize, 1, 2, 30, 77, 80, 300]);
                if n > 0 {
                    r.push((*g.pick(WIDE), n));
                }
                if g.chance(25) {
                    r.push((13, 1));
                }
                r.push((10, 1));
            }
        }
        // filler up to a leaf boundary, then something that should not be pulled apart
        3 => {
            let fill = *g.pick(&[509usize, 510, 511, 512, 1021, 1022, 1023, 1024, 1025, 1534, 2046, 2047, 2048]);
            r.push((97, fill - g.below(4)));
            for _ in 0..g.range(1, 6) {
                r.push((*g.pick(GRAPH), 1));
            }
            if g.chance(60) {
                r.push((98, *g.pick(&[1usize, 500, 600, 1024, 1030])));
            }
        }
        4 => {
            for _ in 0..g.range(1, 12) {
                r.push((*g.pick(GRAPH), *g.pick(&[1usize, 1, 1, 2, 3])));
            }
        }
        5 => r.push((10, g.range(1, 2100))),
        // big
        _ => {
            for _ in 0..g.range(4, 10) {
                r.push((*g.pick(WIDE), g.range(400, 3000)));
                if g.chance(30) {
                    r.push((10, g.range(1, 3)));
                }
            }
        }
    }
    r
}

struct Reg {
    rope: Rope,
    s: String,
}

fn boundary(g: &mut Rng, s: &str, near: usize) -> usize {
    // biased to leaf-sized multiples, ends and newlines
    let n = s.len();
    let mut o = match g.weighted(&[4, 2, 2, 2, 2]) {
        0 => g.below(n + 1),
        1 => *g.pick(&[0, n, n.saturating_sub(1), 1.min(n)]),
        2 => (*g.pick(&[511usize, 512, 1023, 1024, 1025, 2048, 4096]) + g.below(3)).min(n),
        3 => {
            let from = g.below(n + 1);
            let b = s.as_bytes();
            let mut k = from;
            while k < n && b[k] != b'\n' {
                k += 1;
            }
            (k + g.below(2)).min(n)
        }
        _ => (near + g.below(5)).min(n),
    };
    while !s.is_char_boundary(o) {
        o -= 1;
    }
    o
}

fn range(g: &mut Rng, s: &str) -> (usize, usize) {
    let a = boundary(g, s, 0);
    let b = boundary(g, s, a);
    (a.min(b), a.max(b))
}

fn metric(m: usize) -> &'static str {
    ["base", "lines", "u16"][m]
}

fn shows(r: &Rope, mut ev: Value) -> Value {
    let whole = String::from(r);
    let mut chunks = String::new();
    for c in r.iter_chunks(..) {
        chunks.push_str(c);
    }
    let o = ev.as_object_mut().unwrap();
    o.insert("txt".into(), json!(rle(whole.chars())));
    o.insert("chunks".into(), json!(rle(chunks.chars())));
    o.insert("len".into(), json!(r.len()));
    o.insert("nl".into(), json!(r.measure::<LinesMetric>()));
    o.insert("u16".into(), json!(r.measure::<Utf16CodeUnitsMetric>()));
    ev
}

fn rt(r: &Runs) -> Value {
    Value::Array(r.iter().map(|&(c, n)| json!([c, n])).collect())
}

fn opt(o: Option<usize>) -> i64 {
    o.map(|v| v as i64).unwrap_or(-1)
}

fn sliced(g: &mut Rng, r: &Rope, a: usize, b: usize) -> Rope {
    match g.below(5) {
        0 if b == r.len() => r.slice(a..),
        1 if a == 0 => r.slice(..b),
        2 if b > a => r.slice(a..=b - 1),
        3 => r.subseq(Interval::new(a, b)),
        _ => r.slice(a..b),
    }
}

pub fn random(args: &Args) {
    let mut g = Rng::new(args.num("seed", 1) as u64);
    let mode = args.str("mode", "all");
    let mut t = Trace::create(&args.str("out", "/dev/null"));
    for _ in 0..args.num("traces", 10) {
        t.log(json!({"op": "new"}));
        let mut regs: Vec<Reg> = (0..4).map(|_| Reg { rope: Rope::default(), s: String::new() }).collect();
        if mode == "diff" {
            let mut d = DiffState { regs: Default::default(), alphabet: gen_lines(&mut g) };
            for _ in 0..args.num("steps", 12) {
                if let Err(m) = guarded(|| diffs(&mut g, &mut t, &mut d)) {
                    t.log(panic_event("diff", &m));
                    break;
                }
            }
            continue;
        }
        if mode == "graph" {
            if let Err(m) = guarded(|| graphemes(&mut g, &mut t)) {
                t.log(panic_event("rope", &m));
            }
            continue;
        }
        let steps = args.num("steps", 40);
        let mut k = 0;
        while k < steps {
            k += 1;
            let r = guarded(|| step(&mut g, &mut regs, &mut t, &mode));
            if let Err(m) = r {
                t.log(panic_event("rope", &m));
                break;
            }
        }
    }
}

fn step(g: &mut Rng, regs: &mut Vec<Reg>, t: &mut Trace, mode: &str) {
    let d = g.below(4);
    let a = g.below(4);
    let full = regs.iter().map(|r| r.s.len()).max().unwrap();
    let make = if full == 0 { 100 } else if mode == "query" { 25 } else { 60 };
    if g.chance(make) {
        let mut ev;
        let new;
        match g.weighted(&[3, 4, 4, 4, 6, 3, 1]) {
            0 => {
                let r = gen_text(g);
                new = Rope::from(text(&r));
                ev = json!({"op": "str", "t": rt(&r)});
            }
            1 => {
                let mut b = TreeBuilder::new();
                let mut parts = Vec::new();
                let n = *g.pick(&[0usize, 1, 2, 3, 5, 12, 40]);
                for _ in 0..n {
                    match g.below(4) {
                        0 => {
                            let x = g.below(4);
                            if regs[x].s.len() < 6000 {
                                b.push(regs[x].rope.clone());
                                parts.push(json!({"k": "r", "r": x + 1}));
                            }
                        }
                        1 => {
                            let r = vec![(*g.pick(WIDE), g.range(1, 250))];
                            b.push_leaf(text(&r));
                            parts.push(json!({"k": "t", "t": rt(&r)}));
                        }
                        2 => {
                            let r = vec![(97, g.range(1, 3)), (*g.pick(WIDE), g.range(1, 120)), (98, g.range(1, 3))];
                            let s = text(&r);
                            b.push_leaf_slice(&s, Interval::new(1, s.len() - 1));
                            parts.push(json!({"k": "t", "t": rt(&vec![(97, r[0].1 - 1), r[1], (98, r[2].1 - 1)].into_iter().filter(|x| x.1 > 0).collect())}));
                        }
                        _ => {
                            let r = if n > 5 { vec![(*g.pick(WIDE), g.range(1, 700))] } else { gen_text(g) };
                            b.push_str(&text(&r));
                            parts.push(json!({"k": "t", "t": rt(&r)}));
                        }
                    }
                }
                new = b.build();
                ev = json!({"op": "build", "parts": parts});
            }
            2 => {
                let (x, y) = range(g, &regs[a].s);
                new = sliced(g, &regs[a].rope, x, y);
                ev = json!({"op": "slice", "a": a + 1, "b": x, "e": y});
            }
            3 => {
                let b = g.below(4);
                new = regs[a].rope.clone() + regs[b].rope.clone();
                ev = json!({"op": "cat", "a": a + 1, "b": b + 1});
            }
            4 => {
                let (x, y) = range(g, &regs[d].s);
                let y = if g.chance(50) { x } else { y };
                let r = gen_text(g);
                let mut n = regs[d].rope.clone();
                n.edit(x..y, text(&r));
                new = n;
                ev = json!({"op": "edit", "b": x, "e": y, "t": rt(&r)});
            }
            5 => {
                let (x, y) = range(g, &regs[d].s);
                let mut n = regs[d].rope.clone();
                n.edit(Interval::new(x, y), regs[a].rope.clone());
                new = n;
                ev = json!({"op": "editr", "b": x, "e": y, "a": a + 1});
            }
            _ => {
                new = regs[a].rope.clone();
                ev = json!({"op": "copy", "a": a + 1});
            }
        }
        ev["d"] = json!(d + 1);
        let ev = shows(&new, ev);
        let s = String::from(&new);
        let heavy = s.len() > 24_000 || rle(s.chars()).len() > 220;
        if heavy {
            // not kept: too large for the following steps
            regs[d] = Reg { rope: new, s };
            t.log(ev);
            regs[d] = Reg { rope: Rope::default(), s: String::new() };
            t.log(shows(&regs[d].rope, json!({"op": "str", "t": [], "d": d + 1})));
        } else {
            regs[d] = Reg { rope: new, s };
            t.log(ev);
        }
        return;
    }
    let s = regs[a].s.clone();
    let r = regs[a].rope.clone();
    let n = s.len();
    match g.weighted(&[3, 3, 2, 2, 3, 3, 3, 3, 2, 6, 6, 3, 3, 12, 2]) {
        0 => {
            // equality: also with an equal text put together differently
            if g.chance(60) {
                let mut b = TreeBuilder::new();
                let mut at = 0;
                while at < n {
                    let mut e = (at + g.range(1, 1500)).min(n);
                    while !s.is_char_boundary(e) {
                        e += 1;
                    }
                    if g.chance(50) { b.push_str(&s[at..e]) } else { b.push(Rope::from(&s[at..e])) }
                    at = e;
                }
                let mut other = b.build();
                let mut ev = json!({"op": "build", "d": d + 1, "parts": [{"k": "r", "r": a + 1}]});
                if g.chance(40) && n > 0 {
                    let (x, y) = range(g, &s);
                    let y = if x < n && g.chance(70) { x + s[x..].chars().next().unwrap().len_utf8() } else { y };
                    other.edit(x..y, "q");
                    t.log(shows(&regs[a].rope, json!({"op": "copy", "d": d + 1, "a": a + 1})));
                    ev = json!({"op": "edit", "d": d + 1, "b": x, "e": y, "t": [[113, 1]]});
                }
                t.log(shows(&other, ev));
                regs[d] = Reg { s: String::from(&other), rope: other };
            }
            let (x, y) = (g.below(4), d);
            let res = String::from(&regs[x].rope) == String::from(&regs[y].rope);
            t.log(json!({"op": "eq", "a": x + 1, "b": y + 1, "res": res}));
            let res = regs[a].rope.to_string() == regs[y].rope.to_string();
            t.log(json!({"op": "eq", "a": a + 1, "b": y + 1, "res": res}));
        }
        1 => {
            let (x, y) = range(g, &s);
            t.log(json!({"op": "cow", "a": a + 1, "b": x, "e": y, "res": rle(r.slice_to_cow(x..y).chars())}));
            let res: Vec<_> = r.iter_chunks(x..y).map(|c| rle(c.chars())).collect();
            t.log(json!({"op": "chunks", "a": a + 1, "b": x, "e": y, "res": res}));
        }
        2 => {
            let (x, y) = range(g, &s);
            if s[x..y].matches('\n').count() < 80 {
                let res: Vec<_> = r.lines_raw(x..y).map(|l| rle(l.chars())).collect();
                t.log(json!({"op": "raw", "a": a + 1, "b": x, "e": y, "res": res}));
            }
        }
        3 => {
            let (x, y) = range(g, &s);
            if s[x..y].matches('\n').count() < 80 {
                let res: Vec<_> = r.lines(x..y).map(|l| rle(l.chars())).collect();
                t.log(json!({"op": "lines", "a": a + 1, "b": x, "e": y, "res": res}));
            }
        }
        4 => {
            let o = boundary(g, &s, 0);
            t.log(json!({"op": "lof", "a": a + 1, "o": o, "res": r.line_of_offset(o)}));
        }
        5 => {
            let l = g.below(r.measure::<LinesMetric>() + 2);
            t.log(json!({"op": "ool", "a": a + 1, "l": l, "res": r.offset_of_line(l)}));
        }
        6 => {
            let o = boundary(g, &s, 0);
            t.log(json!({"op": "to16", "a": a + 1, "o": o, "res": r.count::<Utf16CodeUnitsMetric>(o)}));
        }
        7 => {
            let o = boundary(g, &s, 0);
            let u: usize = s[..o].chars().map(|c| c.len_utf16()).sum();
            t.log(json!({"op": "of16", "a": a + 1, "n": u, "res": r.count_base_units::<Utf16CodeUnitsMetric>(u)}));
        }
        8 => {
            let l = g.below(r.measure::<LinesMetric>() + 1);
            let res = r.convert_metrics::<LinesMetric, Utf16CodeUnitsMetric>(l);
            t.log(json!({"op": "l16", "a": a + 1, "l": l, "res": res}));
        }
        9 => {
            let o = (boundary(g, &s, 0) + if g.chance(30) { g.below(4) } else { 0 }).min(n);
            match g.below(5) {
                0 => t.log(json!({"op": "isb", "a": a + 1, "o": o, "res": r.is_codepoint_boundary(o)})),
                1 => t.log(json!({"op": "prevc", "a": a + 1, "o": o, "res": opt(r.prev_codepoint_offset(o))})),
                2 => t.log(json!({"op": "nextc", "a": a + 1, "o": o, "res": opt(r.next_codepoint_offset(o))})),
                3 => t.log(json!({"op": "atnc", "a": a + 1, "o": o, "res": opt(r.at_or_next_codepoint_boundary(o))})),
                _ => t.log(json!({"op": "atpc", "a": a + 1, "o": o, "res": opt(r.at_or_prev_codepoint_boundary(o))})),
            }
        }
        10 => {
            let o = boundary(g, &s, 0);
            if g.chance(50) {
                t.log(json!({"op": "nextg", "a": a + 1, "o": o, "res": opt(r.next_grapheme_offset(o))}));
            } else {
                t.log(json!({"op": "prevg", "a": a + 1, "o": o, "res": opt(r.prev_grapheme_offset(o))}));
            }
        }
        11 => {
            let (x, y) = range(g, &s);
            let mut c = Cursor::new(&r, x);
            let mut out = String::new();
            while c.pos() < y {
                match c.next_codepoint() {
                    Some(ch) => out.push(ch),
                    None => break,
                }
            }
            t.log(json!({"op": "chars", "a": a + 1, "b": x, "e": y, "res": rle(out.chars())}));
        }
        12 => {
            let (x, y) = range(g, &s);
            let mut c = Cursor::new(&r, y);
            let mut out = String::new();
            while c.pos() > x {
                match c.prev_codepoint() {
                    Some(ch) => out.push(ch),
                    None => break,
                }
            }
            t.log(json!({"op": "rchars", "a": a + 1, "b": x, "e": y, "res": rle(out.chars())}));
        }
        13 => {
            let o = boundary(g, &s, 0);
            let mut c = Cursor::new(&r, o);
            t.log(json!({"op": "cnew", "a": a + 1, "o": o, "pos": c.pos()}));
            let steps = g.range(2, 14);
            let m0 = g.below(3);
            for _ in 0..steps {
                let m = if g.chance(75) { m0 } else { g.below(3) };
                let op = *g.pick(&["cset", "cnext", "cnext", "cnext", "cprev", "cprev", "cprev", "catn", "catp", "cisb", "cisb"]);
                let mut ev = json!({"op": op, "m": metric(m)});
                let res = match op {
                    "cset" => {
                        let o = boundary(g, &s, c.pos().min(n));
                        ev["o"] = json!(o);
                        c.set(o);
                        o as i64
                    }
                    "cnext" => opt(with(m, &mut c, 0)),
                    "cprev" => opt(with(m, &mut c, 1)),
                    "catn" => opt(with(m, &mut c, 2)),
                    "catp" => opt(with(m, &mut c, 3)),
                    _ => opt(with(m, &mut c, 4)),
                };
                ev["res"] = json!(res);
                ev["pos"] = json!(c.pos());
                ev["valid"] = json!(c.get_leaf().is_some() as u8);
                t.log(ev);
            }
        }
        _ => {
            let o = boundary(g, &s, 0);
            if s[o..].matches('\n').count() < 60 {
                let mut c = Cursor::new(&r, o);
                let res: Vec<usize> = c.iter::<LinesMetric>().collect();
                t.log(json!({"op": "bounds", "m": "lines", "a": a + 1, "o": o, "res": res}));
            }
        }
    }
}

fn with(m: usize, c: &mut Cursor<RopeInfo>, f: usize) -> Option<usize> {
    macro_rules! go {
        ($m:ty) => {
            match f {
                0 => c.next::<$m>(),
                1 => c.prev::<$m>(),
                2 => c.at_or_next::<$m>(),
                3 => c.at_or_prev::<$m>(),
                _ => Some(c.is_boundary::<$m>() as usize),
            }
        };
    }
    match m {
        0 => go!(BaseMetric),
        1 => go!(LinesMetric),
        _ => go!(Utf16CodeUnitsMetric),
    }
}

/// user-perceived characters around the places where leaves meet
fn graphemes(g: &mut Rng, t: &mut Trace) {
    let mut r: Runs = Vec::new();
    for _ in 0..g.range(1, 2) {
        r.push((97, *g.pick(&[505usize, 510, 512, 1018, 1021, 1022, 1023, 1024])));
        for _ in 0..g.range(1, 9) {
            r.push((*g.pick(GRAPH), *g.pick(&[1usize, 1, 1, 2, 3])));
        }
        r.push((98, *g.pick(&[1usize, 511, 600, 1024, 1030])));
    }
    let s = text(&r);
    // assembled from whole leaves, or by the bulk builder
    let rope = if g.chance(50) {
        Rope::from(&s)
    } else {
        let mut b = TreeBuilder::new();
        let mut at = 0;
        while at < s.len() {
            let mut e = (at + *g.pick(&[511usize, 512, 520, 1000, 1023, 1024])).min(s.len());
            while !s.is_char_boundary(e) {
                e -= 1;
            }
            b.push_leaf(s[at..e].to_string());
            at = e;
        }
        b.build()
    };
    t.log(shows(&rope, json!({"op": "str", "d": 1, "t": rt(&r)})));
    let mut o = 0;
    for w in s.char_indices().map(|x| x.0).chain(std::iter::once(s.len())) {
        let plain = w > 12 && w + 12 < s.len() && s.as_bytes()[w - 10..w + 10].iter().all(|&b| b == 97)
            || w > 12 && w + 12 < s.len() && s.as_bytes()[w - 10..w + 10].iter().all(|&b| b == 98);
        if plain && !(w == 511 || w == 1024 || w == 2048) {
            continue;
        }
        o += 1;
        if o > 150 {
            break;
        }
        t.log(json!({"op": "nextg", "a": 1, "o": w, "res": opt(rope.next_grapheme_offset(w))}));
        t.log(json!({"op": "prevg", "a": 1, "o": w, "res": opt(rope.prev_grapheme_offset(w))}));
    }
}

struct DiffState {
    regs: [Vec<Runs>; 2],
    alphabet: Vec<Runs>,
}

fn norm(lines: &[Runs]) -> Runs {
    let mut r: Runs = Vec::new();
    for &(c, n) in lines.iter().flatten() {
        match r.last_mut() {
            Some((d, m)) if *d == c => *m += n,
            _ => r.push((c, n)),
        }
    }
    r
}

/// a character that shares all bytes but one with the given one
fn twin(c: u32, which: usize) -> u32 {
    let t = match c {
        0..=0x7F => c ^ 1,
        0x80..=0x7FF => [c ^ 1, c ^ 0x40, c ^ 0x80][which],
        0x800..=0xFFFF => [c ^ 1, c ^ 0x40, c ^ 0x1000][which],
        _ => [c ^ 1, c ^ 0x40, c ^ 0x1000][which],
    };
    match std::char::from_u32(t) {
        Some(_) if t != 10 && (c < 0x80) == (t < 0x80) && t > 31 => t,
        _ => c,
    }
}

/// kinds of lines: some long enough to be matched, some not; characters that share bytes
fn gen_lines(g: &mut Rng) -> Vec<Runs> {
    let chars: &[u32] = &[97, 98, 99, 0xE9, 0x169, 0xE8, 0x4E2D, 0x4EAD, 0x512D, 0x5E2D, 128512, 128513, 0x2F600, 0x5F600, 128000, 13];
    let mut v = Vec::new();
    for _ in 0..g.range(2, 7) {
        let mut l: Runs = Vec::new();
        if g.chance(30) {
            l.push((*g.pick(&[32u32, 9]), g.range(1, 6)));
        }
        let k = *g.pick(&[1usize, 5, 16, 31, 32, 33, 40, 90, 300]);
        l.push((*g.pick(chars), k));
        if g.chance(40) {
            l.push((*g.pick(chars), g.range(1, 40)));
        }
        if g.chance(92) {
            l.push((10, 1));
        }
        v.push(l);
    }
    v
}

fn put(t: &mut Trace, d: usize, r: &Runs) -> Rope {
    let rope = Rope::from(text(r));
    t.log(shows(&rope, json!({"op": "str", "d": d, "t": rt(r)})));
    rope
}

fn diffs(g: &mut Rng, t: &mut Trace, d: &mut DiffState) {
    // the base: new, or what was the target; the target: the base with changes, or something new
    let base: Vec<Runs> = if g.chance(40) || d.regs[0].is_empty() {
        let n = *g.pick(&[0usize, 1, 2, 3, 5, 9, 20]);
        (0..n).map(|_| g.pick(&d.alphabet).clone()).collect()
    } else {
        d.regs[1].clone()
    };
    let mut target = base.clone();
    for _ in 0..g.range(0, 6) {
        let n = target.len();
        let i = g.below(n + 1);
        match g.below(7) {
            0 => target.insert(i, g.pick(&d.alphabet).clone()),
            1 if n > 0 => {
                target.remove(g.below(n));
            }
            2 if n > 0 => {
                let x = target[g.below(n)].clone();
                target.insert(i, x);
            }
            3 if n > 1 => {
                let j = g.below(n);
                let x = target.remove(j);
                target.insert(g.below(n), x);
            }
            4 if n > 0 => {
                let j = g.below(n);
                let l = &mut target[j];
                if !l.is_empty() {
                    let k = g.below(l.len());
                    match g.below(4) {
                        0 => l[k].1 += 1,
                        3 => l[k].0 = twin(l[k].0, g.below(3)),
                        1 => {
                            let o = d.alphabet[g.below(d.alphabet.len())].clone();
                            l[k].0 = o[0].0;
                        }
                        _ => {
                            l.remove(k);
                        }
                    }
                }
            }
            5 if n > 1 => {
                let a = g.below(n);
                let b = (a + g.range(1, 4)).min(n);
                let block: Vec<Runs> = target[a..b].to_vec();
                if g.chance(50) {
                    target.drain(a..b);
                }
                let at = g.below(target.len() + 1);
                for (k, l) in block.into_iter().enumerate() {
                    target.insert(at + k, l);
                }
            }
            6 if g.chance(10) => target = (0..g.range(0, 6)).map(|_| g.pick(&d.alphabet).clone()).collect(),
            _ => (),
        }
    }
    if target.len() > 30 {
        target.truncate(30);
    }
    let (rb, rtg) = (norm(&base), norm(&target));
    let one = put(t, 1, &rb);
    let two = if g.chance(60) {
        put(t, 2, &rtg)
    } else {
        // the same text, chunked differently
        let s = text(&rtg);
        let mut b = TreeBuilder::new();
        let mut at = 0;
        while at < s.len() {
            let mut e = (at + g.range(1, 900)).min(s.len());
            while !s.is_char_boundary(e) {
                e += 1;
            }
            b.push(Rope::from(&s[at..e]));
            at = e;
        }
        let r: Rope = b.build();
        t.log(shows(&r, json!({"op": "str", "d": 2, "t": rt(&rtg)})));
        r
    };
    d.regs = [base, target];
    let delta = LineHashDiff::compute_delta(&one, &two);
    let els: Vec<Value> = delta
        .els
        .iter()
        .map(|e| match e {
            DeltaElement::Copy(b, e) => json!({"k": "c", "b": b, "e": e, "t": []}),
            DeltaElement::Insert(n) => json!({"k": "i", "b": 0, "e": 0, "t": rle(String::from(n).chars())}),
        })
        .collect();
    let res = guarded(|| rle(String::from(delta.apply(&one)).chars())).unwrap_or_else(|_| vec![json!([0, 1])]);
    t.log(json!({"op": "diff", "a": 1, "b": 2, "els": els, "bl": delta.base_len, "res": res}));
    let mut sc = RopeScanner::new(&one, &two);
    for _ in 0..6 {
        let (s1, s2) = (text(&rb), text(&rtg));
        match g.below(3) {
            0 => {
                let (x, y) = sc.find_min_diff_range();
                t.log(json!({"op": "minr", "a": 1, "b": 2, "res": [x, y]}));
            }
            f => {
                let x = boundary(g, &s1, 0);
                let y = if g.chance(50) && s2.is_char_boundary(x) { x } else { boundary(g, &s2, 0) };
                let y = if f == 2 && g.chance(50) {
                    let k = s2.len() as i64 - (s1.len() as i64 - x as i64);
                    if k >= 0 && s2.is_char_boundary(k as usize) { k as usize } else { y }
                } else {
                    y
                };
                // a limit on a character boundary of both
                let stop = if g.chance(30) { Some(g.below(60)) } else { None };
                let stop = stop.filter(|&k| {
                    if f == 1 {
                        x + k <= s1.len() && s1.is_char_boundary(x + k)
                    } else {
                        k <= x && s1.is_char_boundary(x - k)
                    }
                });
                let res = if f == 1 { sc.find_ne_char(x, y, stop) } else { sc.find_ne_char_back(x, y, stop) };
                t.log(json!({"op": if f == 1 { "ne" } else { "neb" }, "a": 1, "b": 2, "x": x, "y": y,
                    "stop": stop.map(|k| k as i64).unwrap_or(-1), "res": res}));
            }
        }
    }
}
