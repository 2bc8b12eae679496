//! which value of an attribute is in force: the real DocumentMeta against maps, and whole documents
use asciidork_core::*;
use asciidork_parser::prelude::Parser;
use asciidork_parser::verif::{Bump, SourceFile};
use std::collections::HashMap;
use std::result::Result;
use vx_harness::*;

const JOB_ONLY: &[&str] = &[
  "allow-uri-read", "max-attribute-value-size", "max-include-depth", "doc", "docdir", "docfile", "docfilesuffix", "docname",
];
const HEADER_ONLY: &[&str] = &[
  "experimental", "reproducible", "skip-front-matter", "lang", "last-update-label", "manname-title", "nolang", "toc-title",
  "untitled-label", "version-label", "app-name", "author", "authorinitials", "authors", "copyright", "doctitle", "doctype",
  "description", "email", "firstname", "keywords", "lastname", "middlename", "orgname", "revdate", "revnumber", "revremark",
  "title", "copycss", "css-signature", "linkcss", "stylesdir", "stylesheet", "toc-class", "webfonts",
];
const DEFAULTS: &[(&str, &str)] = &[
  ("empty", ""),
  ("blank", ""),
  ("attribute-missing", "skip"),
  ("attribute-undefined", "drop-line"),
  ("appendix-caption", "Appendix"),
  ("appendix-refsig", "Appendix"),
  ("caution-caption", "Caution"),
  ("chapter-refsig", "Chapter"),
  ("example-caption", "Example"),
  ("figure-caption", "Figure"),
  ("important-caption", "Important"),
  ("last-update-label", "Last updated"),
  ("note-caption", "Note"),
  ("part-refsig", "Part"),
  ("section-refsig", "Section"),
  ("table-caption", "Table"),
  ("tip-caption", "Tip"),
  ("toc-title", "Table of Contents"),
  ("untitled-label", "Untitled"),
  ("version-label", "Version"),
  ("warning-caption", "Warning"),
  ("sp", " "),
  ("nbsp", "&#160;"),
  ("zwsp", "&#8203;"),
  ("wj", "&#8288;"),
  ("apos", "&#39;"),
  ("quot", "&#34;"),
  ("lsquo", "&#8216;"),
  ("rsquo", "&#8217;"),
  ("ldquo", "&#8220;"),
  ("rdquo", "&#8221;"),
  ("deg", "&#176;"),
  ("plus", "&#43;"),
  ("brvbar", "&#166;"),
  ("vbar", "|"),
  ("amp", "&"),
  ("lt", "<"),
  ("gt", ">"),
  ("startsb", "["),
  ("endsb", "]"),
  ("caret", "^"),
  ("asterisk", "*"),
  ("tilde", "~"),
  ("backslash", "\\"),
  ("backtick", "`"),
  ("two-colons", "::"),
  ("two-semicolons", ";;"),
  ("cpp", "C++"),
  ("pp", "&#43;&#43;"),
  ("copycss", ""),
  ("stylesdir", "."),
  ("iconsdir", "./images/icons"),
  ("stylesheet", ""),
  ("webfonts", ""),
];

#[derive(Clone, Debug)]
struct M {
  doctype: DocType,
  job: HashMap<String, JobAttr>,
  doc: HashMap<String, AttrValue>,
  header: HashMap<String, AttrValue>,
  dflt: HashMap<String, AttrValue>,
  embedded: bool,
}

fn put<T>(m: &mut HashMap<String, T>, k: &str, v: T) {
  if k == "showtitle" {
    m.remove("notitle");
  } else if k == "notitle" {
    m.remove("showtitle");
  }
  m.insert(k.to_string(), v);
}

fn acceptable(k: &str, v: &AttrValue) -> bool {
  match k {
    "attribute-missing" => matches!(v, AttrValue::String(s) if ["skip", "warn", "drop", "drop-line"].contains(&s.as_str())),
    "attribute-undefined" => matches!(v, AttrValue::String(s) if ["drop", "drop-line"].contains(&s.as_str())),
    "showtitle" | "notitle" => matches!(v, AttrValue::Bool(_)),
    _ => true,
  }
}

impl M {
  fn new(safe: SafeMode, job: HashMap<String, JobAttr>) -> M {
    let mut m = M {
      doctype: DocType::Article,
      job,
      doc: HashMap::new(),
      header: HashMap::new(),
      dflt: DEFAULTS.iter().map(|(k, v)| (k.to_string(), AttrValue::String(v.to_string()))).collect(),
      embedded: false,
    };
    let (n, l, u) = match safe {
      SafeMode::Unsafe => ("safe-mode-unsafe", "0", "UNSAFE"),
      SafeMode::Safe => ("safe-mode-safe", "1", "SAFE"),
      SafeMode::Server => ("safe-mode-server", "10", "SERVER"),
      SafeMode::Secure => ("safe-mode-secure", "20", "SECURE"),
    };
    m.job.insert(n.into(), JobAttr::readonly(true));
    m.job.insert("safe-mode-level".into(), JobAttr::readonly(l));
    m.job.insert("safe-mode-name".into(), JobAttr::readonly(u));
    m
  }
  fn from_settings(safe: SafeMode, dt: Option<DocType>, mut job: HashMap<String, JobAttr>, embedded: bool) -> M {
    let given = job.get("doctype").and_then(|j| j.value.str().and_then(|s| s.parse::<DocType>().ok()));
    if let Some(d) = dt {
      job.insert("doctype".into(), JobAttr::readonly(d.to_str()));
    } else if given.is_none() {
      job.insert("doctype".into(), JobAttr::modifiable("article"));
    }
    let mut m = M::new(safe, job);
    m.embedded = embedded;
    if let Some(d) = dt.or(given) {
      m.set_doctype(d);
    }
    m
  }
  fn doc_value(&self, k: &str) -> Option<&AttrValue> {
    self.doc.get(k).or_else(|| self.header.get(k)).or_else(|| self.dflt.get(k))
  }
  fn get(&self, k: &str) -> Option<AttrValue> {
    let flag = |b: bool| if b { Some(AttrValue::Bool(true)) } else { None };
    match k {
      "doctype-article" => return flag(self.doctype == DocType::Article),
      "doctype-book" => return flag(self.doctype == DocType::Book),
      "doctype-inline" => return flag(self.doctype == DocType::Inline),
      "doctype-manpage" => return flag(self.doctype == DocType::Manpage),
      _ => {}
    }
    match self.job.get(k) {
      Some(j) if j.readonly => Some(j.value.clone()),
      Some(j) => Some(self.doc.get(k).or_else(|| self.header.get(k)).unwrap_or(&j.value).clone()),
      None => self
        .doc_value(k)
        .or_else(|| if k == "doctitle" { self.doc_value("_asciidork_derived_doctitle") } else { None })
        .cloned(),
    }
  }
  fn set_doctype(&mut self, d: DocType) {
    self.doctype = d;
    self.header.insert("doctype".into(), AttrValue::String(d.to_str().into()));
  }
  fn header(&mut self, k: &str, v: AttrValue) -> bool {
    if JOB_ONLY.contains(&k) {
      return false;
    }
    if k == "doctype" {
      let Some(d) = v.str().and_then(|s| match s {
        "article" => Some(DocType::Article),
        "book" => Some(DocType::Book),
        "manpage" => Some(DocType::Manpage),
        "inline" => Some(DocType::Inline),
        _ => None,
      }) else {
        return false;
      };
      if !self.job.get(k).is_some_and(|j| j.readonly) {
        self.set_doctype(d);
      }
      return true;
    }
    if ["chapter-refsig", "chapter-signifier", "part-refsig", "part-signifier"].contains(&k) && self.doctype != DocType::Book {
      return false;
    }
    if !acceptable(k, &v) {
      return false;
    }
    put(&mut self.header, k, v);
    true
  }
  fn body(&mut self, k: &str, v: AttrValue) -> bool {
    if JOB_ONLY.contains(&k) || HEADER_ONLY.contains(&k) || !acceptable(k, &v) {
      return false;
    }
    put(&mut self.doc, k, v);
    true
  }
  fn remove(&mut self, k: &str) {
    self.job.remove(k);
    self.doc.remove(k);
    self.header.remove(k);
  }
  fn cell(&self) -> M {
    let mut m = self.clone();
    // what the body set so far is what the cell starts from, before its own header
    m.header.extend(std::mem::take(&mut m.doc));
    m.remove("doctype");
    m.set_doctype(DocType::Article);
    for k in ["toc", "toc-placement", "toc-position", "showtitle", "notitle"] {
      m.remove(k);
    }
    m
  }
  fn show_title(&self) -> bool {
    let t = |k: &str| self.get(k) == Some(AttrValue::Bool(true));
    let f = |k: &str| self.get(k) == Some(AttrValue::Bool(false));
    !(t("notitle") || f("showtitle") || (self.embedded && !t("showtitle") && !f("notitle")))
  }
  fn icons(&self) -> IconMode {
    match self.get("icons") {
      Some(AttrValue::Bool(true)) => IconMode::Image,
      Some(AttrValue::String(s)) if s == "font" => IconMode::Font,
      Some(AttrValue::String(s)) if s == "image" || s.is_empty() => IconMode::Image,
      _ => IconMode::Text,
    }
  }
}

fn keys() -> Vec<&'static str> {
  let mut k = vec![
    "foo", "bar", "sectids", "doctype", "doctype-article", "doctype-book", "doctype-inline", "doctype-manpage", "showtitle", "notitle",
    "toc", "toc-placement", "toc-position", "icons", "attribute-missing", "attribute-undefined", "chapter-refsig", "part-signifier",
    "chapter-signifier", "part-refsig", "doctitle", "_asciidork_derived_doctitle", "safe-mode-level", "safe-mode-name", "safe-mode-secure",
    "safe-mode-unsafe", "safe-mode-safe", "safe-mode-server", "leveloffset", "data-uri", "docdirx", "authorx", "",
  ];
  k.extend(JOB_ONLY);
  k.extend(HEADER_ONLY);
  k.extend(DEFAULTS.iter().map(|d| d.0));
  k.sort();
  k.dedup();
  k
}

fn compare(m: &DocumentMeta, o: &M, keys: &[&str]) -> Result<(), String> {
  for k in keys {
    let (g, w) = (m.get(k).cloned(), o.get(k));
    if g != w {
      return Err(format!("`{k}` is {g:?}, expected {w:?}"));
    }
    let text = w.as_ref().and_then(|v| v.str()).map(str::to_string);
    if m.str(k).map(str::to_string) != text || m.string(k) != text || m.is_set(k) != w.is_some() || m.is_unset(k) != w.is_none()
      || m.is_true(k) != (w == Some(AttrValue::Bool(true))) || m.is_false(k) != (w == Some(AttrValue::Bool(false)))
      || m.str_or(k, "dd") != text.as_deref().unwrap_or("dd") || m.string_or(k, "dd") != text.as_deref().unwrap_or("dd")
    {
      return Err(format!("`{k}`: accessors disagree with its value {w:?}"));
    }
  }
  if m.get_doctype() != o.doctype {
    return Err(format!("document type {:?}, expected {:?}", m.get_doctype(), o.doctype));
  }
  if m.show_doc_title() != o.show_title() {
    return Err(format!("title shown: {}, expected {}", m.show_doc_title(), o.show_title()));
  }
  if m.icon_mode() != o.icons() {
    return Err(format!("icons {:?}, expected {:?}", m.icon_mode(), o.icons()));
  }
  Ok(())
}

fn value(r: &mut R) -> AttrValue {
  match r.rng.below(4) {
    0 => AttrValue::Bool(r.rng.chance(1, 2)),
    _ => AttrValue::String(r.rng.pick(&["", "x", "book", "article", "inline", "manpage", "font", "image", "skip", "warn", "drop", "drop-line", "é", "0"]).to_string()),
  }
}

fn history(r: &mut R, hot: &[&'static str]) {
  let safe = *r.rng.pick(&[SafeMode::Unsafe, SafeMode::Safe, SafeMode::Server, SafeMode::Secure]);
  let dt = if r.rng.chance(1, 3) { Some(*r.rng.pick(&[DocType::Article, DocType::Book, DocType::Inline, DocType::Manpage])) } else { None };
  let embedded = r.rng.chance(1, 2);
  let mut job = HashMap::new();
  for _ in 0..r.rng.below(6) {
    let k = *r.rng.pick(hot);
    let v = value(r);
    let readonly = r.rng.chance(1, 2);
    if acceptable(k, &v) {
      put(&mut job, k, JobAttr { readonly, value: v });
    }
  }
  let n = r.rng.below(10);
  let ops: Vec<(usize, &str, AttrValue, bool)> = (0..n).map(|_| (r.rng.below(14), *r.rng.pick(hot), value(r), r.rng.chance(1, 2))).collect();
  let ks = keys();
  r.check("meta-history", "history", format!("{safe:?} {dt:?} embedded={embedded} job={job:?} then {ops:?}"), || {
    let mut ja = JobAttrs::empty();
    for (k, v) in &job {
      ja.insert(k.clone(), v.clone())?;
    }
    let mut m: DocumentMeta = JobSettings { doctype: dt, safe_mode: safe, job_attrs: ja, embedded, strict: false }.into();
    let mut o = M::from_settings(safe, dt, job.clone(), embedded);
    compare(&m, &o, &ks).map_err(|e| format!("at the start: {e}"))?;
    for (i, (op, k, v, ro)) in ops.iter().enumerate() {
      let (got, want) = match op {
        0..=4 => (m.insert_header_attr(k, v.clone()).is_ok(), o.header(k, v.clone())),
        5..=9 => (m.insert_doc_attr(k, v.clone()).is_ok(), o.body(k, v.clone())),
        10 => {
          let ok = acceptable(k, v);
          if ok {
            put(&mut o.job, k, JobAttr { readonly: *ro, value: v.clone() });
          }
          (m.insert_job_attr(*k, JobAttr { readonly: *ro, value: v.clone() }).is_ok(), ok)
        }
        11 => {
          m.clear_doc_attrs();
          o.doc.clear();
          (true, true)
        }
        12 => {
          m = m.clone_for_cell();
          o = o.cell();
          (true, true)
        }
        _ => {
          m.remove_attr(k);
          o.remove(k);
          (true, true)
        }
      };
      if got != want {
        return Err(format!("step {i} accepted: {got}, expected {want}"));
      }
      compare(&m, &o, &ks).map_err(|e| format!("after step {i}: {e}"))?;
    }
    Ok(())
  });
}

/// a document that sets attributes in its header and body, and prints them at several places
fn document(r: &mut R) {
  let pool = ["foo", "bar", "sectids", "docname", "lang", "allow-uri-read", "experimental", "keywords", "chapter-refsig", "safe-mode-name", "toc-title", "amp2", "doctype"];
  let safe = *r.rng.pick(&[SafeMode::Unsafe, SafeMode::Safe, SafeMode::Server, SafeMode::Secure]);
  let mut job = HashMap::new();
  for _ in 0..r.rng.below(4) {
    let k = *r.rng.pick(&pool);
    let v = if k == "doctype" { AttrValue::String(r.rng.pick(&["article", "book"]).to_string()) } else { AttrValue::String(format!("j{}", r.rng.below(9))) };
    job.insert(k.to_string(), JobAttr { readonly: r.rng.chance(1, 2), value: v });
  }
  let mut o = M::from_settings(safe, None, job.clone(), true);
  for (k, v) in [("docname", "t"), ("docfilesuffix", ".adoc"), ("docdir", ""), ("docfile", "t.adoc"), ("user-home", ".")] {
    if k == "docname" || safe == SafeMode::Secure || safe == SafeMode::Server {
      o.job.insert(k.into(), JobAttr::readonly(v));
    }
  }
  let mut doc = String::from("= T\n");
  let entry = |r: &mut R, o: &mut M, header: bool, doc: &mut String| {
    let k = *r.rng.pick(&pool);
    let unset = r.rng.chance(1, 5) && k != "doctype";
    let v = if k == "doctype" { r.rng.pick(&["article", "book"]).to_string() } else { format!("v{}", r.rng.below(9)) };
    let av = if unset { AttrValue::Bool(false) } else { AttrValue::String(v.clone()) };
    let name = if r.rng.chance(1, 4) { k.to_uppercase() } else { k.to_string() };
    if unset {
      doc.push_str(&if r.rng.chance(1, 2) { format!(":!{name}:\n") } else { format!(":{name}!:\n") });
    } else {
      doc.push_str(&format!(":{name}: {v}\n"));
    }
    if header { o.header(k, av) } else { o.body(k, av) };
  };
  let mut want = vec![];
  let mut show = |o: &M, doc: &mut String| {
    let i = want.len();
    doc.push_str(&format!("\nq{i}"));
    let mut w = format!("q{i}");
    for k in pool {
      doc.push_str(&format!(" {k}=({{{k}}})"));
      w.push_str(&match o.get(k) {
        Some(AttrValue::String(s)) => format!(" {k}=({s})"),
        _ => format!(" {k}=({{{k}}})"),
      });
    }
    doc.push('\n');
    for k in pool {
      doc.push_str(&format!("ifdef::{k}[+{k}]\n"));
      if matches!(o.get(k), Some(AttrValue::String(_) | AttrValue::Bool(true))) {
        w.push_str(&format!(" +{k}"));
      }
    }
    doc.push_str("\n");
    want.push(w);
  };
  for _ in 0..r.rng.below(5) {
    entry(r, &mut o, true, &mut doc);
  }
  show(&o, &mut doc);
  for _ in 0..r.rng.below(4) {
    for _ in 0..1 + r.rng.below(3) {
      entry(r, &mut o, false, &mut doc);
    }
    show(&o, &mut doc);
  }
  r.check("meta-document", "document", format!("{safe:?} job={job:?}\n{doc}"), || {
    let b = Bump::new();
    let mut ja = JobAttrs::empty();
    for (k, v) in &job {
      ja.insert(k.clone(), v.clone())?;
    }
    let mut p = Parser::from_str(&doc, SourceFile::Path(Path::new("/nowhere/t.adoc")), &b);
    p.apply_job_settings(JobSettings { doctype: None, safe_mode: safe, job_attrs: ja, embedded: true, strict: false });
    let res = p.parse().map_err(|e| format!("{e:?}"))?;
    let html = asciidork_dr_html_backend::convert(res.document).map_err(|e| format!("{e:?}"))?;
    for w in &want {
      if !html.contains(&format!("<p>{w}</p>")) {
        return Err(format!("expected the paragraph {w:?} in {html}"));
      }
    }
    Ok(())
  });
}

fn main() {
  run("meta", |r| {
    let hot = [
      "foo", "bar", "doctype", "showtitle", "notitle", "toc", "icons", "attribute-missing", "attribute-undefined", "chapter-refsig", "part-signifier",
      "doctitle", "_asciidork_derived_doctitle", "safe-mode-level", "docname", "docdir", "allow-uri-read", "lang", "author", "webfonts", "amp", "data-uri",
    ];
    for _ in 0..r.tier(15000, 400000) {
      if !r.time_left() { break; }
      history(r, &hot);
    }
    let all = keys();
    for k in &all {
      for _ in 0..r.tier(6, 60) {
        history(r, &[k, "foo", "doctype"]);
      }
    }
    for _ in 0..r.tier(3000, 40000) {
      if !r.time_left() { break; }
      document(r);
    }
  })
}
