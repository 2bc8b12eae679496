//! what a document can make the processor read: a recording resolver under random documents, modes and permissions;
//! nesting of includes against a reference expansion
use asciidork_core::*;
use asciidork_parser::prelude::Parser;
use asciidork_parser::verif::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::result::Result;
use vx_harness::*;

type Log = Rc<RefCell<Vec<(IncludeTarget, SafeMode)>>>;

#[derive(Clone)]
struct Rec {
  log: Log,
  files: Rc<HashMap<String, String>>,
  any: bool,
}
impl IncludeResolver for Rec {
  fn resolve(&mut self, t: IncludeTarget, buf: &mut dyn IncludeBuffer, m: SafeMode) -> Result<usize, ResolveError> {
    self.log.borrow_mut().push((t.clone(), m));
    let p = match &t {
      IncludeTarget::FilePath(p) => p.clone(),
      IncludeTarget::Uri(u) => u.clone(),
    };
    let c = match self.files.get(&p) {
      Some(c) => c.as_str(),
      None if !self.any => return Err(ResolveError::NotFound),
      None if p.ends_with("svg") => "<svg>READ</svg>",
      None if p.contains("nest") => "READ\n\ninclude::{u}/y.adoc[]\n\nimage:{u}/y.svg[opts=inline]\n",
      None => "READ\n",
    };
    buf.initialize(c.len());
    buf.as_bytes_mut().copy_from_slice(c.as_bytes());
    Ok(c.len())
  }
  fn get_base_dir(&self) -> Option<String> {
    Some("/base".into())
  }
  fn clone_box(&self) -> Box<dyn IncludeResolver> {
    Box::new(self.clone())
  }
}

struct Job {
  mode: SafeMode,
  allow: Option<JobAttr>,
  data_uri: Option<JobAttr>,
  max: Option<u16>,
  strict: bool,
}

fn convert(src: &str, job: &Job, rec: &Rec) -> Result<String, String> {
  let b = Bump::new();
  let mut p = Parser::from_str(src, SourceFile::Path(Path::new("/base/t.adoc")), &b);
  let mut s = JobSettings { safe_mode: job.mode, embedded: true, strict: job.strict, ..JobSettings::default() };
  if let Some(a) = &job.allow {
    s.job_attrs.insert_unchecked("allow-uri-read", a.clone());
  }
  if let Some(a) = &job.data_uri {
    s.job_attrs.insert_unchecked("data-uri", a.clone());
  }
  if let Some(m) = job.max {
    s.job_attrs.insert_unchecked("max-include-depth", JobAttr::readonly(m.to_string()));
  }
  p.apply_job_settings(s);
  p.set_resolver(Box::new(rec.clone()));
  let res = p.parse().map_err(|e| e.iter().map(|d| d.plain_text()).collect::<Vec<_>>().join("\n"))?;
  asciidork_dr_html_backend::convert(res.document).map_err(|e| format!("{e:?}"))
}

const TARGETS: &[&str] = &[
  "https://h/x.adoc", "http://h/x.svg", "{u}", "{u}/x.adoc", "{u}/x.svg", "{h}ttps://h/x.adoc", "x.adoc", "nest.adoc", "sub/x.svg", "../x.adoc", "/abs/x.adoc", "/abs/x.svg",
  "ftp://h/x.svg", "HTTPS://h/x.svg", "file:///x.adoc", "https:x", "https:/x.svg", "./https://h/x.svg", "./{u}/x.adoc", "x.png", "{u}/nest.adoc", "{e}{u}/x.svg", "{v}x.svg", "{v}x.adoc", "http:{slash}h/x.svg",
];
const HEAD: &[&str] = &[
  ":imagesdir: https://h/i", ":imagesdir: {u}/img", ":imagesdir: {h}ttp://h/i", ":imagesdir: img", ":iconsdir: http://h/icons", ":iconsdir: {u}", ":docinfodir: https://h/d", ":docinfodir: {u}", ":docinfodir: d",
  ":docinfo: shared", ":docinfo: private-head,shared", ":docinfo1:", ":docinfo2:", ":docinfo:", ":data-uri:", ":data-uri: true", ":allow-uri-read:", ":allow-uri-read: true", ":icons:", ":icons: svg", ":icontype: svg",
  ":safe-mode-name: unsafe", ":safe-mode-unsafe:", ":safe-mode-level: 0", ":!safe-mode-secure:", ":max-include-depth: 100", ":u: https://evil", ":v: https://", ":v: http:/", ":outfilesuffix: .svg",
];
fn piece(g: &mut Rng) -> String {
  let t = *g.pick(TARGETS);
  match g.below(17) {
    0..=2 => format!("include::{t}[]"),
    3 => format!("include::{t}[opts=optional,leveloffset=1]"),
    4 => format!("image::{t}[]"),
    5 => format!("image::{t}[opts=inline]"),
    6 => format!("image::{t}[format=svg,opts=inline]"),
    7 => format!("[%inline]\nimage::{t}[]"),
    8 => format!("some image:{t}[opts=inline] text"),
    9 => format!("* image:{t}[format=svg,opts=inline]"),
    10 => format!("[icon={t}]\nNOTE: x"),
    11 => format!("[NOTE,icon=\"{t}\"]\n====\nx\n===="),
    12 => format!(".title image:{t}[]\ntext footnote:[image:{t}[opts=inline]]"),
    13 => format!("ifdef::h[include::{t}[]]"),
    14 => format!("----\ninclude::{t}[]\n----"),
    15 => format!("{{set:allow-uri-read:true}}\n{{counter:allow-uri-read}} {{counter2:data-uri:true}}\n\n{}", *g.pick(HEAD)),
    _ => g.pick(HEAD).to_string(),
  }
}
fn doc(g: &mut Rng) -> String {
  let mut s = String::from("= T\n:h: h\n:u: https://h\n:slash: /\n:e:\n");
  for _ in 0..g.below(4) {
    s += &format!("{}\n", g.pick(HEAD));
  }
  s += "\n";
  for _ in 0..1 + g.below(5) {
    let p = piece(g);
    match g.below(6) {
      0 => s += &format!("|===\na|{p}\n|===\n\n"),
      1 => s += &format!("====\n{p}\n====\n\n"),
      _ => s += &format!("{p}\n\n"),
    }
  }
  s
}

fn is_web(t: &IncludeTarget) -> bool {
  match t {
    IncludeTarget::Uri(_) => true,
    IncludeTarget::FilePath(p) => p.starts_with("http:") || p.starts_with("https:"),
  }
}

fn policy(src: &str, job: &Job) -> Result<(), String> {
  let rec = Rec { log: Rc::default(), files: Rc::default(), any: true };
  _ = convert(src, job, &rec);
  let allowed = job.allow.as_ref().is_some_and(|a| a.value == AttrValue::Bool(true));
  for (t, m) in rec.log.borrow().iter() {
    if job.mode == SafeMode::Secure {
      return Err(format!("read {t:?} in secure mode"));
    }
    if *m != job.mode {
      return Err(format!("{t:?} was asked for in mode {m:?}, not {:?}", job.mode));
    }
    if is_web(t) && !allowed {
      return Err(format!("read {t:?} without allow-uri-read"));
    }
  }
  Ok(())
}

/// what a document may read it does read
fn reads(src: &str, mode: SafeMode, allow: bool, want: &[&str], html: &str) -> Result<(), String> {
  let rec = Rec { log: Rc::default(), files: Rc::default(), any: true };
  let job = Job { mode, allow: allow.then(|| JobAttr::readonly(true)), data_uri: None, max: None, strict: false };
  let out = convert(src, &job, &rec)?;
  let got: Vec<String> = rec.log.borrow().iter().map(|(t, _)| format!("{}{}", if t.is_uri() { "@" } else { "" }, match t { IncludeTarget::FilePath(p) | IncludeTarget::Uri(p) => p })).collect();
  if got != want {
    return Err(format!("read {got:?}, not {want:?}"));
  }
  if !out.contains(html) {
    return Err(format!("`{html}` not in\n{out}"));
  }
  Ok(())
}

// ---- nesting ----
struct Tree {
  files: HashMap<String, String>,
  n: usize,
}
#[derive(Clone)]
enum L {
  Mark(usize),
  Inc { path: String, text: String, depth: Option<i64>, cell: bool },
}
fn build(g: &mut Rng, t: &mut Tree, nodes: &mut HashMap<String, Vec<L>>, path: String, level: usize, budget: &mut usize) {
  let mut ls = vec![];
  t.n += 1;
  ls.push(L::Mark(t.n));
  let kids = if level > 7 { 0 } else { g.below(4) };
  for _ in 0..kids {
    if *budget == 0 {
      break;
    }
    *budget -= 1;
    t.n += 1;
    let cell = g.chance(1, 6);
    let rel = match g.below(4) {
      0 => format!("s{}/f{}.adoc", t.n, t.n),
      1 if level > 0 => format!("../f{}.adoc", t.n),
      2 => format!("/abs/f{}.adoc", t.n),
      _ => format!("f{}.adoc", t.n),
    };
    let dir = if cell { "/base" } else { path.rsplit_once('/').unwrap().0 };
    let p = if rel.starts_with('/') { rel.clone() } else { format!("{dir}/{rel}") };
    let depth = match g.below(8) {
      0 => Some(g.below(4) as i64),
      1 => Some(*g.pick(&[65535, 64, 63, 65534, 65536, -1])),
      _ => None,
    };
    let attrs = depth.map(|d| format!("depth={d}")).unwrap_or_default();
    ls.push(L::Inc { path: p.clone(), text: format!("include::{rel}[{attrs}]"), depth, cell });
    build(g, t, nodes, p, level + 1, budget);
    if g.chance(1, 3) {
      t.n += 1;
      ls.push(L::Mark(t.n));
    }
  }
  let text: String = ls
    .iter()
    .map(|l| match l {
      L::Mark(n) => format!("M{n}.\n\n"),
      L::Inc { text, cell: false, .. } => format!("{text}\n\n"),
      L::Inc { text, .. } => format!("|===\na|{text}\n|===\n\n"),
    })
    .collect();
  nodes.insert(path.clone(), ls);
  t.files.insert(path, text);
}
/// `stack`: the `depth=` of the includes that led here
fn expand(nodes: &HashMap<String, Vec<L>>, path: &str, max: usize, stack: &[Option<usize>], marks: &mut Vec<usize>, log: &mut Vec<String>) {
  let bound = match stack.iter().rposition(|d| d.is_some()) {
    Some(i) => (stack[i].unwrap() + i + 1).min(max),
    None => max,
  };
  for l in &nodes[path] {
    match l {
      L::Mark(n) => marks.push(*n),
      L::Inc { path, depth, cell, .. } => {
        // values that are no 16-bit number are passed over
        let d = depth.and_then(|d| u16::try_from(d).ok()).map(|d| d as usize);
        let (max, stack) = if *cell { (bound.saturating_sub(stack.len()), vec![]) } else { (max, stack.to_vec()) };
        let limit = if *cell { max } else { bound };
        if stack.len() < limit {
          log.push(path.clone());
          let mut s = stack;
          s.push(d);
          expand(nodes, path, max, &s, marks, log);
        }
      }
    }
  }
}
fn nesting(files: &HashMap<String, String>, nodes: &HashMap<String, Vec<L>>, max: Option<u16>) -> Result<(), String> {
  let rec = Rec { log: Rc::default(), files: Rc::new(files.clone()), any: false };
  let job = Job { mode: SafeMode::Unsafe, allow: None, data_uri: None, max, strict: false };
  let out = convert(&files["/base/t.adoc"], &job, &rec)?;
  let (mut marks, mut log) = (vec![], vec![]);
  expand(nodes, "/base/t.adoc", max.unwrap_or(64) as usize, &[], &mut marks, &mut log);
  let mut got_log: Vec<String> = rec.log.borrow().iter().map(|(t, _)| t.path().to_string()).collect();
  log.sort();
  got_log.sort();
  if got_log != log {
    return Err(format!("read {got_log:?}\n not {log:?}"));
  }
  let mut got = vec![];
  for w in out.split('M').skip(1) {
    let d: String = w.chars().take_while(|c| c.is_ascii_digit()).collect();
    if w[d.len()..].starts_with('.') && !d.is_empty() {
      got.push(d.parse::<usize>().unwrap());
    }
  }
  if got != marks {
    return Err(format!("text of {got:?}\n not {marks:?}\n{out}"));
  }
  Ok(())
}

fn main() {
  run("safe", |r| {
    let modes = [SafeMode::Unsafe, SafeMode::Safe, SafeMode::Server, SafeMode::Secure];
    // what may be read is read
    for (i, m) in modes.iter().enumerate() {
      let sec = *m == SafeMode::Secure;
      let table: &[(&str, bool, &[&str], &str)] = &[
        ("include::x.adoc[]", false, &["/base/x.adoc"], "READ"),
        ("include::/abs/x.adoc[]", false, &["/abs/x.adoc"], "READ"),
        ("include::https://h/x.adoc[]", true, &["@https://h/x.adoc"], "READ"),
        (":u: https://h\n\ninclude::{u}/x.adoc[]", true, &["@https://h/x.adoc"], "READ"),
        ("image::x.svg[opts=inline]", false, &["/base/x.svg"], "<svg>READ</svg>"),
        ("image::https://h/x.svg[opts=inline]", true, &["@https://h/x.svg"], "<svg>READ</svg>"),
        (":data-uri:\n\nimage::x.png[]", false, &["/base/x.png"], "data:image/png;base64,UkVBRAo="),
        (":data-uri:\n:imagesdir: im\n\nimage::x.png[]", false, &["/base/im/x.png"], "data:image/png;base64,UkVBRAo="),
        (":data-uri:\n:imagesdir: https://h/im\n\nimage::x.png[]", true, &["@https://h/im/x.png"], "data:image/png;base64,UkVBRAo="),
        (":data-uri:\n:icons:\n\nNOTE: x", false, &["/base/./images/icons/note.png"], "data:image/png;base64,UkVBRAo="),
      ];
      for (src, allow, want, html) in table {
        if sec {
          r.check("secure-reads", "secure", format!("{m:?} {src}"), || reads(src, *m, *allow, &[], ""));
        } else {
          r.check("read-refused", "permitted reads", format!("{m:?} {src}"), || reads(src, *m, *allow, want, html));
        }
      }
      for t in ["x.adoc", "https://h/x.adoc", "a/b.adoc"] {
        let src = format!("include::{t}[]");
        if sec {
          r.check("secure-link", "links", format!("{m:?} {src}"), || reads(&src, *m, i % 2 == 0, &[], &format!("<a href=\"{t}\" class=\"bare include\">{t}</a>")));
        } else if t.starts_with("http") {
          r.check("uri-link", "links", format!("{m:?} {src}"), || reads(&src, *m, false, &[], &format!("<a href=\"{t}\" class=\"bare include\">{t}</a>")));
        }
      }
      r.check("secure-link", "links", format!("{m:?} cell"), || reads("|===\na|include::x.adoc[]\n|===", *m, false, if sec { &[] } else { &["/base/x.adoc"] }, if sec { "class=\"bare include\"" } else { "READ" }));
    }
    // nesting
    for k in [65usize, 200] {
      let mut files = HashMap::new();
      let mut nodes = HashMap::new();
      let mut root = vec![];
      let mut text = String::new();
      for i in 0..k {
        let p = format!("/base/f{i}.adoc");
        root.push(L::Inc { path: p.clone(), text: String::new(), depth: None, cell: false });
        text += &format!("include::f{i}.adoc[]\n\n");
        files.insert(p.clone(), format!("M{i}.\n\ninclude::g{i}.adoc[]\n"));
        let q = format!("/base/g{i}.adoc");
        nodes.insert(p, vec![L::Mark(i), L::Inc { path: q.clone(), text: String::new(), depth: None, cell: false }]);
        files.insert(q.clone(), format!("M{}.\n", 1000 + i));
        nodes.insert(q, vec![L::Mark(1000 + i)]);
      }
      files.insert("/base/t.adoc".into(), text);
      nodes.insert("/base/t.adoc".into(), root);
      r.check("nesting", "siblings", format!("{k} files, each including one"), || nesting(&files, &nodes, None));
    }
    for max in [None, Some(0), Some(1), Some(3), Some(40)] {
      for cell in [false, true] {
        let mut files = HashMap::new();
        let mut nodes = HashMap::new();
        for i in 0..80 {
          let p = if i == 0 { "/base/t.adoc".to_string() } else { format!("/base/f{i}.adoc") };
          let text = format!("include::f{}.adoc[]", i + 1);
          files.insert(p.clone(), if cell { format!("M{i}.\n\n|===\na|{text}\n|===\n") } else { format!("M{i}.\n\n{text}\n") });
          nodes.insert(p, vec![L::Mark(i), L::Inc { path: format!("/base/f{}.adoc", i + 1), text, depth: None, cell }]);
        }
        r.check("nesting", "chains", format!("max {max:?}, in cells: {cell}"), || nesting(&files, &nodes, max));
      }
    }
    let n = r.tier(1500, 30_000);
    for _ in 0..n {
      if !r.time_left() {
        break;
      }
      let mut t = Tree { files: HashMap::new(), n: 0 };
      let mut nodes = HashMap::new();
      let mut budget = 24;
      build(&mut r.rng, &mut t, &mut nodes, "/base/t.adoc".into(), 0, &mut budget);
      let max = *r.rng.pick(&[None, None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(6)]);
      let mut show: Vec<_> = t.files.iter().map(|(k, v)| format!("{k}: {v:?}")).collect();
      show.sort();
      r.check("nesting", "trees", format!("max {max:?} {}", show.join("; ")), || nesting(&t.files, &nodes, max));
    }
    // random documents
    let n = r.tier(12_000, 400_000);
    for _ in 0..n {
      if !r.time_left() {
        break;
      }
      let src = doc(&mut r.rng);
      let g = &mut r.rng;
      let allow = match g.below(6) {
        0 => Some(JobAttr::readonly(true)),
        1 => Some(JobAttr::modifiable(true)),
        2 => Some(JobAttr::readonly(false)),
        3 => Some(JobAttr::modifiable(false)),
        _ => None,
      };
      let data_uri = match g.below(4) {
        0 => Some(JobAttr::readonly(true)),
        1 => Some(JobAttr::modifiable(true)),
        _ => None,
      };
      let job = Job { mode: *g.pick(&modes), allow, data_uri, max: None, strict: g.chance(1, 4) };
      let show = format!("{:?} allow {:?} data-uri {:?}\n{src}", job.mode, job.allow, job.data_uri);
      r.check("policy", "documents", show, || policy(&src, &job));
    }
  });
}
