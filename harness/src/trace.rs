//! The trace: one JSON object per line, in the order things happened.
use super::{val, J};
use serde_json::{json, Map as JMap};
use std::fs::File;
use std::io::{BufWriter, Write};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

pub static OUT: Mutex<Option<BufWriter<File>>> = Mutex::new(None);
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);

pub fn open(path: &str) {
    *OUT.lock().unwrap() = Some(BufWriter::with_capacity(1 << 20, File::create(path).expect("trace file")));
}

pub fn line(j: &J) {
    let mut g = OUT.lock().unwrap();
    let w = g.as_mut().expect("trace open");
    serde_json::to_writer(&mut *w, j).expect("trace write");
    w.write_all(b"\n").expect("trace write");
    PROGRESS.fetch_add(1, Relaxed);
}

pub fn flush() {
    OUT.lock().unwrap().as_mut().expect("trace open").flush().expect("trace flush");
}

/// Collects what goes with the next event.
#[derive(Default)]
pub struct Tr {
    pub own: bool,
    /// execute without recording
    pub mute: bool,
    pub inp: Vec<u64>,
    pub out: Vec<u64>,
}

impl Tr {
    pub fn ev(&mut self, mut j: J) {
        if self.own {
            let m: &mut JMap<String, J> = j.as_object_mut().expect("object");
            let (d, bad) = val::with(|l| {
                l.created.clear();
                (std::mem::take(&mut l.drops), l.bad)
            });
            m.insert("d".into(), json!(d));
            m.insert("bad".into(), json!(bad));
            m.insert("in".into(), json!(self.inp));
            m.insert("out".into(), json!(self.out));
        }
        self.inp.clear();
        self.out.clear();
        if !self.mute {
            line(&j);
        }
    }
}

/// Abort with a `hang` event when nothing happens for a long time.
pub fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut last = PROGRESS.load(Relaxed);
        let mut idle = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = PROGRESS.load(Relaxed);
            idle = if now == last { idle + 1 } else { 0 };
            last = now;
            if idle >= secs {
                line(&json!({"e": "hang"}));
                flush();
                std::process::exit(86);
            }
        }
    });
}
