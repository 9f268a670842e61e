use std::fmt::Write;
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(a: u64, b: u64, c: u64) -> Self { let mut r = Rng(a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03) ^ c.wrapping_mul(0x2545F4914F6CDD1D) ^ 0x1234_5678_9abc_def1); for _ in 0..4 { r.next(); } r }
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn chance(&mut self, pct: usize) -> bool { self.below(100) < pct }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { let style = self.below(6); (0..n).map(|_| match style { 0 => 0xFF, 1 => 0, _ => self.next() as u8 }).collect() }
}
/// A failed contract: the properties it concerns and what happened.
#[derive(Debug, Clone)]
pub struct Fail { pub props: Vec<&'static str>, pub msg: String }
pub fn fail<T>(props: &[&'static str], msg: impl Into<String>) -> Result<T, Fail> { Err(Fail { props: props.to_vec(), msg: msg.into() }) }
#[derive(Default, Clone)]
pub struct Stats { pub cases: u64, pub ops: u64, pub checks: u64, pub crash_points: u64, pub faults: u64, pub wraps: u64, pub digest: u64 }
impl Stats { pub fn add(&mut self, o: &Stats) { self.cases += o.cases; self.ops += o.ops; self.checks += o.checks; self.crash_points += o.crash_points; self.faults += o.faults; self.wraps += o.wraps; } }
pub struct Trace { pub lines: Vec<String> }
impl Trace { pub fn new() -> Self { Trace { lines: vec![] } } pub fn p(&mut self, s: String) { if self.lines.len() < 5000 { self.lines.push(s); } } }
pub fn hex(b: &[u8]) -> String { let mut s = String::new(); for x in b.iter().take(48) { write!(s, "{x:02x}").unwrap(); } if b.len() > 48 { write!(s, "..({} bytes)", b.len()).unwrap(); } s }
pub fn dump(mem: &[u8], e: usize) -> String { mem.chunks(e).enumerate().map(|(i, p)| format!("  page {i}: {}", p.iter().map(|b| format!("{b:02x}")).collect::<String>())).collect::<Vec<_>>().join("\n") }
/// run f, turning a panic into Err(message)
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())).map_err(|m| PANIC_AT.with(|p| format!("{m} at {}", p.borrow())))
}
thread_local! { pub static PANIC_AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
pub const BUF: usize = 2048;
/// The property being checked (ALL: any). A check only stops at what concerns its own property,
/// so that a breach of another one does not end the history before its own shows.
pub static PROP: std::sync::OnceLock<String> = std::sync::OnceLock::new();
pub fn want(p: &str) -> bool { PROP.get().is_none_or(|q| q == "ALL" || q == p) }
