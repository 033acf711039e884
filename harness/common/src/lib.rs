//! Shared by the harnesses: a deterministic generator, the trace writer, and the
//! correspondence between abstract character ids and real text.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (0 when n is 0)
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// index chosen with the given weights
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut x = self.below(total);
        for (i, &k) in w.iter().enumerate() {
            if x < k {
                return i;
            }
            x -= k;
        }
        w.len() - 1
    }
}

/// ndjson trace; several traces in one file, each starting with a "new" event.  Every event is on
/// disk when `log` returns, so that a crash loses nothing.  If nothing is logged for a long time the
/// code under test hangs: that is logged, too, and the process ends.
pub struct Trace {
    out: Arc<Mutex<std::fs::File>>,
    last: Arc<AtomicU64>,
    doing: Arc<Mutex<String>>,
    pub events: usize,
}

impl Trace {
    pub fn create(path: &str) -> Trace {
        let f = std::fs::File::create(path).expect("create trace file");
        let t = Trace {
            out: Arc::new(Mutex::new(f)),
            last: Arc::new(AtomicU64::new(0)),
            doing: Arc::new(Mutex::new(String::new())),
            events: 0,
        };
        let (out, last, doing) = (t.out.clone(), t.last.clone(), t.doing.clone());
        let limit = std::env::var("VERIF_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(30u64);
        std::thread::spawn(move || {
            let mut seen = 0;
            let mut since = Instant::now();
            loop {
                std::thread::sleep(Duration::from_millis(250));
                let n = last.load(Ordering::SeqCst);
                if n != seen {
                    seen = n;
                    since = Instant::now();
                } else if since.elapsed().as_secs() >= limit {
                    let what = doing.lock().map(|s| s.clone()).unwrap_or_default();
                    let mut f = out.lock().unwrap();
                    let _ = writeln!(f, "{}", json!({"op": "hang", "what": what}));
                    std::process::exit(0);
                }
            }
        });
        t
    }
    /// what is about to be called, for the hang report
    pub fn doing(&mut self, s: &str) {
        *self.doing.lock().unwrap() = s.to_string();
        self.last.fetch_add(1, Ordering::SeqCst);
    }
    pub fn log(&mut self, v: Value) {
        self.events += 1;
        self.last.fetch_add(1, Ordering::SeqCst);
        let s = format!("{}\n", v);
        self.out.lock().unwrap().write_all(s.as_bytes()).expect("write trace");
    }
    pub fn flush(&mut self) {}
}

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{}", info).replace('\n', " ");
        if std::env::var("VERIF_PANICS").is_ok() {
            eprintln!("{}", s);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
}

/// Run code under test; a panic comes back as its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| LAST_PANIC.with(|p| p.borrow().chars().take(300).collect()))
}

pub fn panic_event(what: &str, msg: &str) -> Value {
    json!({"op": "panic", "what": what, "msg": msg})
}

/// Abstract character ids as text: id n is one char (of UTF-8 width 1..4), written `scale` times.
pub struct Alphabet {
    pub scale: usize,
    back: HashMap<char, u32>,
}

pub fn char_of(id: u32) -> char {
    let letters = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
    let k = id / 4;
    let c = match id % 4 {
        0 if (k as usize) < letters.len() => return letters[k as usize] as char,
        0 => 0x0400 + k,
        1 => 0x00C0 + k,
        2 => 0x4E00 + k,
        _ => 0x2_0000 + k,
    };
    std::char::from_u32(c).unwrap()
}

impl Alphabet {
    pub fn new(scale: usize) -> Alphabet {
        Alphabet { scale, back: HashMap::new() }
    }
    pub fn unit(&mut self, id: u32) -> String {
        let c = char_of(id);
        self.back.insert(c, id);
        std::iter::repeat(c).take(self.scale).collect()
    }
    pub fn text(&mut self, ids: &[u32]) -> String {
        ids.iter().map(|&i| self.unit(i)).collect()
    }
    pub fn byte_len(&self, ids: &[u32]) -> usize {
        ids.iter().map(|&i| char_of(i).len_utf8() * self.scale).sum()
    }
    /// ids of a text; a text that is not made of whole units comes back with 999999 markers
    pub fn ids(&self, s: &str) -> Vec<u32> {
        let mut out = Vec::new();
        let mut run: Option<(char, usize)> = None;
        let mut flush = |r: Option<(char, usize)>| {
            if let Some((c, n)) = r {
                let id = self.back.get(&c).copied().unwrap_or(999_999);
                for _ in 0..(n / self.scale) {
                    out.push(id);
                }
                if n % self.scale != 0 {
                    out.push(999_999);
                }
            }
        };
        for c in s.chars() {
            match run {
                Some((d, n)) if d == c => run = Some((d, n + 1)),
                _ => {
                    flush(run);
                    run = Some((c, 1));
                }
            }
        }
        flush(run);
        out
    }
}

/// command line: name=value pairs after the subcommand
pub struct Args(HashMap<String, String>);

impl Args {
    pub fn parse() -> (String, Args) {
        let mut it = std::env::args().skip(1);
        let cmd = it.next().unwrap_or_default();
        let mut m = HashMap::new();
        for a in it {
            if let Some(p) = a.find('=') {
                m.insert(a[..p].to_string(), a[p + 1..].to_string());
            }
        }
        (cmd, Args(m))
    }
    pub fn str(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    pub fn num(&self, k: &str, d: usize) -> usize {
        self.0.get(k).map(|v| v.parse().expect("number")).unwrap_or(d)
    }
}
