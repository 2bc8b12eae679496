//! conditional directives: a document converts like the one a line-based reference resolver makes of it
use asciidork_core::*;
use asciidork_parser::prelude::Parser;
use asciidork_parser::verif::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::result::Result;
use vx_harness::*;

#[derive(Clone)]
struct Files(Vec<(String, Vec<String>)>, Rc<RefCell<Vec<String>>>);
impl IncludeResolver for Files {
  fn resolve(&mut self, t: IncludeTarget, buf: &mut dyn IncludeBuffer, _: SafeMode) -> Result<usize, ResolveError> {
    let p = t.path().to_string();
    let Some((n, c)) = self.0.iter().find(|(n, _)| p.ends_with(n.as_str())) else {
      return Err(ResolveError::NotFound);
    };
    self.1.borrow_mut().push(n.clone());
    let c = c.iter().map(|l| format!("{l}\n")).collect::<String>();
    buf.initialize(c.len());
    buf.as_bytes_mut().copy_from_slice(c.as_bytes());
    Ok(c.len())
  }
  fn get_base_dir(&self) -> Option<String> {
    Some("/base".into())
  }
  fn clone_box(&self) -> Box<dyn IncludeResolver> {
    Box::new(self.clone())
  }
}

// ---- the reference: Asciidoctor's preprocessor, line by line ----
#[derive(Clone, Default)]
struct Ref {
  env: HashMap<String, Option<String>>,
  files: Vec<(String, Vec<String>)>,
  out: Vec<String>,
  reads: Vec<String>,
  verb: Option<String>,
  /// an attribute entry right below a paragraph, which is not one
  misplaced: bool,
}

#[derive(Clone, PartialEq, Debug)]
enum V {
  S(String),
  I(i64),
  N(f32),
  B(bool),
  Nil,
}

impl Ref {
  fn set(&self, k: &str) -> bool {
    self.env.get(&k.to_lowercase()).is_some_and(|v| v.is_some())
  }
  fn holds(&self, defined: bool, target: &str) -> bool {
    if target.contains(',') {
      target.split(',').any(|k| self.set(k)) == defined
    } else if target.contains('+') {
      target.split('+').all(|k| self.set(k)) == defined
    } else {
      self.set(target) == defined
    }
  }
  fn value(&self, s: &str) -> V {
    let mut s = s.to_string();
    for k in ["a", "b", "foo", "zz9"] {
      let v = self.env.get(k).cloned().flatten().unwrap_or_default();
      s = s.replace(&format!("{{{k}}}"), &v);
    }
    let quoted = |q: char| s.len() > 1 && s.starts_with(q) && s.ends_with(q);
    if quoted('"') || quoted('\'') {
      return V::S(s[1..s.len() - 1].to_string());
    }
    match s.as_str() {
      "" => V::Nil,
      "true" => V::B(true),
      "false" => V::B(false),
      _ => match (s.parse::<i64>(), s.parse::<f32>()) {
        (Ok(i), _) => V::I(i),
        (_, Ok(f)) => V::N(f),
        _ => V::I(0),
      },
    }
  }
  fn evals(&self, l: &str, op: &str, r: &str) -> bool {
    use std::cmp::Ordering::*;
    let (l, r) = match (self.value(l), self.value(r)) {
      // a whole number and a fraction
      (V::I(a), V::N(b)) => (V::N(a as f32), V::N(b)),
      (V::N(a), V::I(b)) => (V::N(a), V::N(b as f32)),
      p => p,
    };
    let ord = match (&l, &r) {
      (V::S(a), V::S(b)) => Some(a.cmp(b)),
      (V::I(a), V::I(b)) => Some(a.cmp(b)),
      (V::N(a), V::N(b)) => a.partial_cmp(b),
      _ => None,
    };
    match op {
      "==" => l == r,
      "!=" => l != r,
      "<" => ord == Some(Less),
      "<=" => matches!(ord, Some(Less | Equal)),
      ">" => ord == Some(Greater),
      ">=" => matches!(ord, Some(Greater | Equal)),
      _ => unreachable!(),
    }
  }
  /// a line that is kept
  fn keep(&mut self, l: &str) {
    let t = l.trim_end();
    if let Some(d) = &self.verb {
      if d == t {
        self.verb = None;
      }
    } else if DELIMS.contains(&t) {
      self.verb = Some(t.to_string());
    } else if let Some((name, v)) = l.strip_prefix(':').and_then(|e| e.split_once(':')) {
      let after = self.out.last().is_none_or(|p| p.is_empty() || p.starts_with("//") || p.starts_with(':') || DELIMS.contains(&p.as_str()));
      self.misplaced |= !after;
      if after {
        match name.strip_prefix('!').or(name.strip_suffix('!')) {
          Some(n) => self.env.insert(n.to_lowercase(), None),
          None => self.env.insert(name.to_lowercase(), Some(v.trim().replace("{empty}", ""))),
        };
      }
    }
    self.out.push(l.to_string());
  }
  fn run(&mut self, lines: &[String]) {
    let mut skipped = 0; // open conditionals, counted from the first that does not hold
    for l in lines {
      let t = l.trim_end();
      let comment = skipped == 0 && self.verb.as_deref() == Some("////");
      let cond = if comment { None } else { conditional(t) };
      if skipped > 0 {
        match cond {
          Some(("endif", ..)) => skipped -= 1,
          Some(("ifdef" | "ifndef", _, "")) | Some(("ifeval", ..)) => skipped += 1,
          _ => {}
        }
        continue;
      }
      match cond {
        Some(("endif", ..)) => {}
        Some(("ifeval", _, e)) => {
          let p: Vec<&str> = e.split('\u{1}').collect();
          if !self.evals(p[0], p[1], p[2]) {
            skipped = 1;
          }
        }
        Some((d, target, text)) => match (self.holds(d == "ifdef", target), text) {
          (true, "") => {}
          (false, "") => skipped = 1,
          (true, text) => self.keep(&text.to_string()),
          (false, _) => {}
        },
        None => {
          if let Some(f) = t.strip_prefix("include::").and_then(|f| f.strip_suffix("[]")).filter(|_| !comment) {
            self.reads.push(f.to_string());
            let ls = self.files.iter().find(|(n, _)| n == f).unwrap().1.clone();
            self.run(&ls);
          } else {
            self.keep(l)
          }
        }
      }
    }
  }
}

thread_local! { static EVALS: RefCell<HashMap<String, &'static str>> = RefCell::default(); }
/// directive name, target and bracketed text of a conditional directive; the ifeval expressions are those the generator wrote
fn conditional(t: &str) -> Option<(&str, &str, &str)> {
  let (d, rest) = t.split_once("::")?;
  let (target, text) = rest.split_once('[')?;
  let text = text.strip_suffix(']')?;
  match d {
    "ifdef" | "ifndef" | "endif" => Some((d, target, text)),
    "ifeval" => EVALS.with(|m| m.borrow().get(text).copied()).map(|e| (d, target, e)),
    _ => None,
  }
}

// ---- generator ----
const DELIMS: &[&str] = &["----", "////", "...."];
const NAMES: &[&str] = &["a", "b", "foo", "x-y", "zz9", "Q"];
const OPERANDS: &[&str] = &[
  "1", "2", "10", "1.5", "2.0", "-3", "0", "16777216", "16777217", "9007199254740993", "9007199254740992", "true", "false", "\"\"", "''", "\"a\"", "'b'", "\"10\"", "\"2\"", "word", "\"x y\"", "{foo}", "\"{foo}\"", "{a}", "'{b}'", "\"{zz9}\"", "\"",
];
const OPS: &[&str] = &["==", "!=", "<", "<=", ">", ">="];

struct G {
  n: usize,
  wild: bool,
  files: Vec<(String, Vec<String>)>,
}

impl G {
  fn case(&self, r: &mut R, s: &str) -> String {
    if r.rng.chance(1, 4) { s.to_uppercase() } else { s.to_string() }
  }
  fn target(&self, r: &mut R, defined: bool) -> String {
    let n = *r.rng.pick(&[1, 1, 1, 2, 3]);
    // `ifndef::a+b[]` with more than one name is looked at on its own
    let sep = if defined && r.rng.chance(1, 2) { "+" } else { "," };
    (0..n).map(|_| { let k = *r.rng.pick(NAMES); self.case(r, k) }).collect::<Vec<_>>().join(sep)
  }
  fn blanks(r: &mut R) -> &'static str {
    *r.rng.pick(&["", "", "", " ", "\t "])
  }
  fn text(&mut self, r: &mut R) -> String {
    self.n += 1;
    let n = self.n;
    if self.wild && r.rng.chance(1, 3) {
      return match r.rng.below(12) {
        0 => format!("* item{n}"),
        1 => format!(". item{n}"),
        2 => format!("== Sect {n}"),
        3 => "|===".into(),
        4 => format!("|cell{n} |x"),
        5 => "====".into(),
        6 => "+".into(),
        7 => format!("term{n}:: def"),
        8 => ".Title".into(),
        9 => "[quote]".into(),
        10 => "<1> call".into(),
        _ => "'''".into(),
      };
    }
    match r.rng.below(10) {
      0 => format!("t{n} {{foo}} *b* ifdef::a[] it"),
      1 => format!("t{n} {{a}} {{x-y}}"),
      2 => format!("ifdef t{n} endif: ifdef::a"),
      3 => format!("xifdef::a[] t{n} ]"),
      4 => format!("t{n} [c] é ]x"),
      _ => format!("t{n} words"),
    }
  }
  fn entry(&self, r: &mut R) -> String {
    let k = *r.rng.pick(NAMES);
    let k = self.case(r, k);
    match r.rng.below(6) {
      5 => format!(":{k}: {{empty}}"),
      0 => format!(":!{k}:"),
      1 => format!(":{k}!:"),
      2 => format!(":{k}:"),
      3 => format!(":{k}: {}", r.rng.below(12)),
      _ => format!(":{k}: v{}", r.rng.below(3)),
    }
  }
  /// lines of well-nested conditionals; verb: inside a verbatim block
  fn body(&mut self, r: &mut R, size: usize, depth: usize, verb: bool, out: &mut Vec<String>) {
    for _ in 0..r.rng.below(size) {
      match r.rng.below(if depth >= 4 { 6 } else { 14 }) {
        0 | 1 | 2 => { let t = self.text(r); out.push(t) }
        3 => out.push(String::new()),
        4 if !verb => {
          if r.rng.chance(2, 3) { out.push(String::new()) }
          for _ in 0..1 + r.rng.below(2) { let e = self.entry(r); out.push(e) }
          if r.rng.chance(1, 2) { out.push(String::new()) }
        }
        4 | 5 => {
          let defined = r.rng.chance(1, 2);
          let t = self.target(r, defined);
          let text = if !verb && r.rng.chance(1, 3) { self.entry(r) } else { self.text(r) };
          out.push(format!("{}::{t}[{text}]{}", if defined { "ifdef" } else { "ifndef" }, Self::blanks(r)));
        }
        6 | 7 | 8 | 9 => {
          let defined = r.rng.chance(1, 2);
          let t = self.target(r, defined);
          out.push(format!("{}::{t}[]{}", if defined { "ifdef" } else { "ifndef" }, Self::blanks(r)));
          self.body(r, size.min(4), depth + 1, verb, out);
          let e = if r.rng.chance(1, 2) { String::new() } else { self.case(r, &t) };
          out.push(format!("endif::{e}[]{}", Self::blanks(r)));
        }
        10 => {
          let (l, o, v) = (*r.rng.pick(OPERANDS), *r.rng.pick(OPS), *r.rng.pick(OPERANDS));
          let (p, q) = (*r.rng.pick(&["", " ", "  "]), *r.rng.pick(&["", " "]));
          let e = format!("{q}{l}{p}{o}{p}{v}{q}");
          EVALS.with(|m| m.borrow_mut().insert(e.clone(), Box::leak(format!("{l}\u{1}{o}\u{1}{v}").into_boxed_str())));
          out.push(format!("ifeval::[{e}]{}", Self::blanks(r)));
          self.body(r, size.min(4), depth + 1, verb, out);
          out.push("endif::[]".into());
        }
        11 if !verb => {
          let d = *r.rng.pick(&["----", "////", "...."]);
          out.push(String::new());
          out.push(d.into());
          let mut inner = vec![];
          self.body(r, size.min(4), depth + 1, true, &mut inner);
          out.extend(inner.into_iter());
          out.push(d.into());
          if r.rng.chance(1, 2) { out.push(String::new()) }
        }
        12 if depth < 3 => {
          let name = format!("f{}.adoc", self.files.len());
          self.files.push((name.clone(), vec![]));
          let at = self.files.len() - 1;
          let mut inner = vec![];
          let t = self.text(r);
          inner.push(t);
          self.body(r, size.min(4), depth + 2, verb, &mut inner);
          let t = self.text(r);
          inner.push(t);
          self.files[at].1 = inner;
          out.push(format!("include::{name}[]"));
        }
        _ => { let t = self.text(r); out.push(t) }
      }
    }
  }
}

fn convert(src: &str, files: Option<&Files>, strict: bool) -> Result<String, String> {
  let b = Bump::new();
  let mut p = Parser::from_str(src, SourceFile::Path(Path::new("/base/t.adoc")), &b);
  p.apply_job_settings(JobSettings { safe_mode: SafeMode::Safe, embedded: true, strict, ..JobSettings::default() });
  if let Some(f) = files {
    p.set_resolver(Box::new(f.clone()));
  }
  let res = p.parse().map_err(|e| e.iter().map(|d| d.plain_text()).collect::<Vec<_>>().join("\n"))?;
  if strict && !res.warnings.is_empty() {
    return Err(res.warnings.iter().map(|d| d.plain_text()).collect::<Vec<_>>().join("\n"));
  }
  asciidork_dr_html_backend::convert(res.document).map_err(|e| format!("{e:?}"))
}

fn doc_case(head: &[String], files: &[(String, Vec<String>)], lines: &[String], wild: bool, crlf: bool) -> Result<(), String> {
  let log = Files(files.to_vec(), Rc::default());
  let mut o = Ref { files: files.to_vec(), ..Ref::default() };
  let nl = if crlf { "\r\n" } else { "\n" };
  let src: String = head.iter().chain(lines).map(|l| format!("{l}{nl}")).collect();
  for h in &head[1..] {
    o.keep(h);
  }
  o.out.clear();
  o.run(lines);
  let res: String = head.iter().chain(&o.out).map(|l| format!("{l}\n")).collect();
  let got = convert(&src, Some(&log), !wild);
  let want = convert(&res, None, !wild);
  if got != want {
    return Err(format!("resolves to {:?}\n  converts to {got:?}\n  instead of  {want:?}", o.out));
  }
  let reads = log.1.borrow().clone();
  if !wild && reads != o.reads {
    return Err(format!("files read: {reads:?}, expected {:?}", o.reads));
  }
  Ok(())
}

fn doc(r: &mut R, size: usize, wild: bool) {
  let mut g = G { n: 0, wild, files: vec![] };
  let mut head = vec!["= T".to_string()];
  for _ in 0..r.rng.below(4) {
    let e = g.entry(r);
    head.push(e);
  }
  head.push(String::new());
  let mut lines = vec![];
  g.body(r, size, 0, false, &mut lines);
  if !wild {
    // every block is closed and every attribute entry stands on its own in what is kept
    let mut o = Ref { files: g.files.clone(), ..Ref::default() };
    for h in &head[1..] { o.keep(h) }
    o.out.clear();
    o.run(&lines);
    if o.verb.is_some() || o.misplaced { return; }
  }
  let crlf = r.rng.chance(1, 8);
  let files = g.files;
  let shown = format!("{}{}", head.iter().chain(&lines).map(|l| format!("{l}\n")).collect::<String>(), files.iter().map(|(n, c)| format!("--- {n}\n{}\n", c.join("\n"))).collect::<String>());
  r.check(if wild { "cond-wild" } else { "cond-document" }, if wild { "wild" } else { "document" }, shown, || doc_case(&head, &files, &lines, wild, crlf));
}

fn keeps(env: &[(&str, &str)], open: &str) -> Result<bool, String> {
  let head: String = env.iter().map(|(k, v)| format!(":{k}: {v}\n")).collect();
  let html = convert(&format!("= T\n{head}\nfirst\n\n{open}\nKEPT\nendif::[]\n\nlast\n"), None, true)?;
  if !html.contains("<p>first</p>") || !html.contains("<p>last</p>") {
    return Err(format!("text around it is lost: {html}"));
  }
  Ok(html.contains("KEPT"))
}

fn main() {
  run("cond", |r| {
    let env = [("foo", "10"), ("a", "b"), ("b", "a")];
    let mut o = Ref::default();
    for (k, v) in env {
      o.env.insert(k.into(), Some(v.into()));
    }
    for l in OPERANDS {
      for op in OPS {
        for v in OPERANDS {
          let open = format!("ifeval::[{l} {op} {v}]");
          r.check("ifeval-value", "ifeval table", &open, || {
            let (got, want) = (keeps(&env, &open)?, o.evals(l, op, v));
            if got == want { Ok(()) } else { Err(format!("keeps its lines: {got}, expected {want}")) }
          });
        }
      }
    }
    // every subset of three attributes, every target of up to three of them
    for set in 0..8usize {
      let env: Vec<(&str, &str)> = ["a", "b", "foo"].iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|(i, k)| (*k, ["1", "{empty}", "false"][i])).collect();
      let mut o = Ref::default();
      for (k, v) in &env {
        o.env.insert(k.to_string(), Some(v.to_string()));
      }
      for d in ["ifdef", "ifndef"] {
        for sep in [",", "+"] {
          for n in 1..=3usize {
            for c in 0..3usize.pow(n as u32) {
              let names: Vec<&str> = (0..n).map(|i| ["a", "b", "foo"][c / 3usize.pow(i as u32) % 3]).collect();
              let t = names.join(sep);
              let open = format!("{d}::{t}[]");
              let any = names.iter().any(|k| o.set(k));
              let all = names.iter().all(|k| o.set(k));
              let key = if d == "ifndef" && sep == "+" && any && !all { "ifndef-all-mixed" } else { "ifdef-target" };
              r.check(key, "target table", format!("{env:?} {open}"), || {
                let (got, want) = (keeps(&env, &open)?, o.holds(d == "ifdef", &t));
                if got == want { Ok(()) } else { Err(format!("keeps its lines: {got}, expected {want}")) }
              });
            }
          }
        }
      }
    }
    let n = r.tier(40000, 600000);
    for i in 0..n {
      if !r.time_left() { break; }
      doc(r, 2 + 6 * i / n, false);
    }
    // anything goes: no panic, no endless loop
    let frag = [
      "ifdef::a[]\n", "ifdef::a[x]\n", "ifndef::a[]\n", "ifeval::[1 == 1]\n", "ifeval::[1 ==]\n", "ifeval::x[1 == 1]\n", "ifeval::[\" == \"]\n", "endif::[]\n", "endif::a[]\n",
      "endif::[", "ifdef::", "ifdef::a[", "text\n", "\n", ":a: 1\n", ":!a:\n", "----\n", "////\n", "====\n", "|===\n", "|a\n", "* x\n", "+\n", "== S\n", "ifdef::a[:b: c]\n", "ifdef::a[:]\n", "ifndef::a[:b:]\n",
      "ifndef::a[:b: \\]\n", "ifdef::a[ifdef::a[x]]\n", "ifndef::b[|===]\n", "ifndef::b[----]\n", "include::f0.adoc[]\n", "\r\n", " ", "é",
    ];
    for _ in 0..r.tier(60000, 600000) {
      if !r.time_left() { break; }
      let s = r.rng.string(&frag, 9);
      let f = vec![("f0.adoc".to_string(), r.rng.string(&frag[..31], 5).lines().map(|l| l.to_string()).collect::<Vec<_>>())];
      let files = Files(f.clone(), Rc::default());
      r.check("cond-panic", "fragments", format!("{s}\n--- f0: {f:?}"), || convert(&s, Some(&files), false).map(|_| ()));
    }
  })
}
