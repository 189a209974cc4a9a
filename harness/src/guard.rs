//! Running code that may panic, hang or exhaust the stack, and saying on which input it did.
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static SILENT: AtomicBool = AtomicBool::new(false);
static TICK: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<Option<std::fs::File>> = Mutex::new(None);

pub fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    if !SILENT.swap(true, Ordering::SeqCst) {
        std::panic::set_hook(Box::new(|_| {}));
    }
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// The file named here always holds the input being processed.
pub fn track(path: &str) {
    *CURRENT.lock().unwrap() = std::fs::File::create(path).ok();
    std::thread::spawn(|| {
        let (mut last, mut since) = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let now = TICK.load(Ordering::SeqCst);
            if now != last {
                last = now;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(40) {
                eprintln!("HANG");
                std::process::exit(86);
            }
        }
    });
}

pub fn at(input: &str) {
    TICK.fetch_add(1, Ordering::SeqCst);
    if let Some(f) = CURRENT.lock().unwrap().as_mut() {
        let _ = f.seek(SeekFrom::Start(0));
        let _ = f.write_all(input.as_bytes());
        let _ = f.set_len(input.len() as u64);
    }
}
