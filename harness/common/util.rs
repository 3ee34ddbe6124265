// Shared by the harness programs: writing traces, catching panics and hangs.
#![allow(dead_code)]
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub struct Trace {
    out: Arc<Mutex<BufWriter<File>>>,
    ticks: Arc<AtomicU64>,
}

impl Trace {
    /// Opens the trace file and starts the watchdog: if no event is written and `tick` is not
    /// called for `hang_after` seconds, a "hang" event ends the trace and the program.
    pub fn create(path: &str, hang_after: u64) -> Trace {
        let out = Arc::new(Mutex::new(BufWriter::new(File::create(path).expect("trace file"))));
        let ticks = Arc::new(AtomicU64::new(0));
        let (o, t) = (out.clone(), ticks.clone());
        std::thread::spawn(move || {
            let mut last = t.load(Ordering::SeqCst);
            let mut idle = 0;
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let now = t.load(Ordering::SeqCst);
                if now == last {
                    idle += 1;
                } else {
                    idle = 0;
                    last = now;
                }
                if idle >= hang_after * 2 {
                    let mut w = o.lock().unwrap();
                    let _ = writeln!(w, "{{\"ev\":\"hang\"}}");
                    let _ = w.flush();
                    std::process::exit(7);
                }
            }
        });
        // panics of the code under test are data
        if std::env::var("SHOW_PANICS").is_err() {
            std::panic::set_hook(Box::new(|_| {}));
        }
        Trace { out, ticks }
    }
    pub fn tick(&self) {
        self.ticks.fetch_add(1, Ordering::SeqCst);
    }
    pub fn line(&self, s: &str) {
        self.tick();
        let mut w = self.out.lock().unwrap();
        w.write_all(s.as_bytes()).unwrap();
        w.write_all(b"\n").unwrap();
        w.flush().unwrap();
    }
    pub fn flush(&self) {
        self.out.lock().unwrap().flush().unwrap();
    }
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

pub fn esc(s: &str) -> String {
    s.chars()
        .map(|c| match c {
            '"' => "\\\"".to_string(),
            '\\' => "\\\\".to_string(),
            c if (c as u32) < 32 => " ".to_string(),
            c => c.to_string(),
        })
        .collect()
}

pub fn jb(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 4 + 2);
    s.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&x.to_string());
    }
    s.push(']');
    s
}

pub fn jlist<T, F: Fn(&T) -> String>(v: &[T], f: F) -> String {
    format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(","))
}

/// a number as little-endian 16-bit limbs
pub fn limbs16(mut n: u128, width: usize) -> String {
    let mut v = vec![];
    for _ in 0..width {
        v.push((n & 0xffff) as u32);
        n >>= 16;
    }
    jlist(&v, |x| x.to_string())
}

pub fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    assert!(s.len() % 2 == 0, "hex {}", s);
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex"))
        .collect()
}

/// splitmix64
#[derive(Clone)]
pub struct Mix(pub u64);
impl Mix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}
