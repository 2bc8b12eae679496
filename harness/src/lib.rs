//! shared plumbing of the bounded searches: deterministic RNG, case accounting, failure list
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
  }
  pub fn below(&mut self, n: usize) -> usize {
    if n == 0 { 0 } else { (self.next() % n as u64) as usize }
  }
  pub fn chance(&mut self, num: usize, den: usize) -> bool {
    self.below(den) < num
  }
  pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
    &xs[self.below(xs.len())]
  }
  pub fn string(&mut self, alphabet: &[&str], max: usize) -> String {
    let n = self.below(max + 1);
    (0..n).map(|_| *self.pick(alphabet)).collect()
  }
}

pub struct Failure {
  pub key: String,
  pub input: String,
  pub detail: String,
}

pub struct R {
  pub prop: String,
  pub evals: u64,
  distinct: HashSet<u64>,
  pub classes: BTreeMap<String, u64>,
  pub failures: Vec<Failure>,
  pub samples: Vec<String>,
  pub thorough: bool,
  pub rng: Rng,
  start: Instant,
  budget: Duration,
  pub notes: Vec<String>,
}

impl R {
  pub fn tier<T>(&self, quick: T, thorough: T) -> T {
    if self.thorough { thorough } else { quick }
  }
  pub fn time_left(&self) -> bool {
    self.start.elapsed() < self.budget
  }
  /// one evaluated case: `f` returns Err(detail) when the property is broken; a panic is a failure too
  pub fn check<F>(&mut self, key: &str, class: &str, input: impl AsRef<str>, f: F) -> bool
  where
    F: FnOnce() -> Result<(), String>,
  {
    self.check_keyed(class, input, || f().map_err(|d| (key.to_string(), d)), key)
  }
  pub fn check_keyed<F>(&mut self, class: &str, input: impl AsRef<str>, f: F, panic_key: &str) -> bool
  where
    F: FnOnce() -> Result<(), (String, String)>,
  {
    self.evals += 1;
    *self.classes.entry(class.to_string()).or_insert(0) += 1;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (class, input.as_ref()).hash(&mut h);
    self.distinct.insert(h.finish());
    if self.samples.len() < 8 && (self.evals & (self.evals - 1)) == 0 {
      self.samples.push(format!("{class}: {}", trunc(input.as_ref(), 200)));
    }
    let res = catch_unwind(AssertUnwindSafe(f));
    let (key, detail) = match res {
      Ok(Ok(())) => return true,
      Ok(Err(kd)) => kd,
      Err(p) => {
        let msg = p
          .downcast_ref::<String>()
          .cloned()
          .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
          .unwrap_or_default();
        (panic_key.to_string(), format!("panicked: {msg} at {}", last_panic()))
      }
    };
    if self.failures.iter().filter(|f| f.key == key).count() < 5 {
      self.failures.push(Failure { key, input: input.as_ref().to_string(), detail });
    }
    false
  }
}

pub fn trunc(s: &str, n: usize) -> String {
  if s.chars().count() <= n { s.to_string() } else { s.chars().take(n).collect::<String>() + "…" }
}

thread_local! { static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
pub fn last_panic() -> String {
  LAST.with(|l| l.borrow().clone())
}

pub fn esc(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

pub fn run(prop: &str, f: impl FnOnce(&mut R) + Send + 'static) {
  let args: Vec<String> = std::env::args().collect();
  let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
  let thorough = get("--tier").as_deref() == Some("thorough");
  let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
  let out = get("--out");
  let budget = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 60 });
  std::panic::set_hook(Box::new(|info| {
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    LAST.with(|l| *l.borrow_mut() = loc);
  }));
  let prop = prop.to_string();
  let h = std::thread::Builder::new()
    .stack_size(256 << 20)
    .spawn(move || {
      let mut r = R {
        prop,
        evals: 0,
        distinct: HashSet::new(),
        classes: BTreeMap::new(),
        failures: vec![],
        samples: vec![],
        thorough,
        rng: Rng(seed),
        start: Instant::now(),
        budget: Duration::from_secs(budget),
        notes: vec![],
      };
      f(&mut r);
      let mut j = String::new();
      j.push_str(&format!("{{\"evaluations\":{},\"distinct_cases\":{},\"classes\":{{", r.evals, r.distinct.len()));
      j.push_str(&r.classes.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
      j.push_str("},\"samples\":[");
      j.push_str(&r.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
      j.push_str("],\"notes\":[");
      j.push_str(&r.notes.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
      j.push_str("],\"failures\":[");
      j.push_str(
        &r.failures
          .iter()
          .map(|f| format!("{{\"key\":{},\"input\":{},\"detail\":{}}}", esc(&f.key), esc(&f.input), esc(&f.detail)))
          .collect::<Vec<_>>()
          .join(","),
      );
      j.push_str("]}");
      j
    })
    .unwrap();
  let j = h.join().unwrap_or_else(|_| {
    eprintln!("probe crashed outside a case at {}", last_panic());
    std::process::exit(3)
  });
  match out {
    Some(p) => std::fs::write(p, j).unwrap(),
    None => println!("{j}"),
  }
}
