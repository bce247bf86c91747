//! Loading with everything that can go wrong turned into a value.
use nobject_rs::{Material, MaterialError, Model, ObjError};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

pub enum Outcome<T> {
    Ok(T),
    Err { kind: &'static str, msg: String },
    Panic(String),
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Panics are caught and reported as outcomes, not printed.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{info}").replace('\n', " ");
        PANIC.with(|p| *p.borrow_mut() = msg);
    }));
}

pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub fn kind(e: &ObjError) -> &'static str {
    match e {
        ObjError::ModelParse(_) => "model",
        ObjError::MaterialParse(MaterialError::NewMaterial) => "newmaterial",
        ObjError::MaterialParse(_) => "material",
        ObjError::Tokenize(_) => "tokenize",
        _ => "other",
    }
}

fn run<T>(f: impl FnOnce() -> Result<T, ObjError>) -> Outcome<T> {
    match guarded(|| f().map_err(|e| (kind(&e), e.to_string()))) {
        Ok(Ok(x)) => Outcome::Ok(x),
        Ok(Err((kind, msg))) => Outcome::Err { kind, msg },
        Err(p) => Outcome::Panic(p),
    }
}

pub fn load_obj(t: &str) -> Outcome<Model> {
    run(|| nobject_rs::load_obj(t))
}
pub fn load_mtl(t: &str) -> Outcome<Vec<Material>> {
    run(|| nobject_rs::load_mtl(t))
}

impl<T> Outcome<T> {
    /// The value, or why a valid text gave none.
    pub fn valid(self) -> Result<T, String> {
        match self {
            Outcome::Ok(x) => Ok(x),
            Outcome::Err { kind, msg } => Err(format!("a valid text was rejected ({kind} error: {})", clip(&msg))),
            Outcome::Panic(p) => Err(format!("loading panicked: {}", clip(&p))),
        }
    }
    pub fn label(&self) -> &'static str {
        match self {
            Outcome::Ok(_) => "ok",
            Outcome::Err { kind, .. } => kind,
            Outcome::Panic(_) => "panic",
        }
    }
}

pub fn clip(s: &str) -> String {
    let mut e = s.len().min(300);
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    if e < s.len() {
        format!("{}... ({} bytes)", &s[..e], s.len())
    } else {
        s.to_string()
    }
}

/// A digest of everything observable about the outcome of a load (maps sorted).
pub fn digest_obj(t: &str) -> String {
    match load_obj(t) {
        Outcome::Ok(m) => format!("{:?}", crate::obj::observe(&m)),
        Outcome::Err { kind, msg } => format!("Err {kind} {msg}"),
        Outcome::Panic(_) => "panic".into(),
    }
}
pub fn digest_mtl(t: &str) -> String {
    match load_mtl(t) {
        Outcome::Ok(m) => format!("{m:?}"),
        Outcome::Err { kind, msg } => format!("Err {kind} {msg}"),
        Outcome::Panic(_) => "panic".into(),
    }
}

pub static LOGGED: AtomicU64 = AtomicU64::new(0);
/// A logger may turn records away that the level lets pass.
pub static DEAF: AtomicBool = AtomicBool::new(false);
struct Count;
impl log::Log for Count {
    fn enabled(&self, _: &log::Metadata) -> bool {
        !DEAF.load(Ordering::Relaxed)
    }
    fn log(&self, r: &log::Record) {
        if DEAF.load(Ordering::Relaxed) {
            return;
        }
        let s = format!("{}", r.args());
        LOGGED.fetch_add(1 + (s.len() as u64 >> 60), Ordering::Relaxed);
    }
    fn flush(&self) {}
}
pub fn install_logger() {
    let _ = log::set_logger(&Count);
}
pub fn logging(on: bool) {
    log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Off });
}
pub fn log_level(level: log::LevelFilter, deaf: bool) {
    DEAF.store(deaf, Ordering::Relaxed);
    log::set_max_level(level);
}
