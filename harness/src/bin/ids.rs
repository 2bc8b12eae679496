//! ids and the references to them, in both back ends, against what the generator knows it wrote
use asciidork_core::*;
use asciidork_parser::prelude::Parser;
use asciidork_parser::verif::*;
use std::collections::{BTreeMap, HashSet};
use std::result::Result;
use vx_harness::*;

#[derive(Clone)]
struct Files(Vec<(&'static str, String)>);
impl IncludeResolver for Files {
  fn resolve(&mut self, t: IncludeTarget, buf: &mut dyn IncludeBuffer, _: SafeMode) -> Result<usize, ResolveError> {
    let p = match &t {
      IncludeTarget::FilePath(p) => p.clone(),
      IncludeTarget::Uri(u) => u.clone(),
    };
    let Some((_, c)) = self.0.iter().find(|(n, _)| p.ends_with(n)) else { return Err(ResolveError::NotFound) };
    buf.initialize(c.len());
    buf.as_bytes_mut().copy_from_slice(c.as_bytes());
    Ok(c.len())
  }
  fn get_base_dir(&self) -> Option<String> {
    Some("/base".into())
  }
  fn clone_box(&self) -> Box<dyn IncludeResolver> {
    Box::new(self.clone())
  }
}

fn convert(src: &str, files: &Files, html5s: bool, strict: bool) -> Result<String, String> {
  let r = std::panic::catch_unwind(|| {
    let bump = Bump::new();
    let mut p = Parser::from_str(src, SourceFile::Path(Path::new("/base/t.adoc")), &bump);
    p.set_resolver(Box::new(files.clone()));
    let mut s = JobSettings::default();
    s.safe_mode = SafeMode::Server;
    s.strict = strict;
    s.embedded = true;
    p.apply_job_settings(s);
    let doc = p.parse().map_err(|d| format!("{d:?}"))?.document;
    if html5s {
      asciidork_backend_html5s::convert(doc).map_err(|e| format!("{e:?}"))
    } else {
      asciidork_dr_html_backend::convert(doc).map_err(|e| format!("{e:?}"))
    }
  });
  r.unwrap_or_else(|p| {
    Err(format!(
      "panicked: {}",
      p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    ))
  })
}

/// `&name;` and the like at the beginning, its length
fn entity(s: &str) -> Option<usize> {
  let body = &s[1..s.find(';')?];
  let ok = if let Some(h) = body.strip_prefix("#x") {
    (2..=5).contains(&h.len()) && h.bytes().all(|b| b.is_ascii_hexdigit())
  } else if let Some(d) = body.strip_prefix('#') {
    (2..=6).contains(&d.len()) && d.bytes().all(|b| b.is_ascii_digit())
  } else {
    let w = body.trim_end_matches(|c: char| c.is_ascii_digit());
    w.len() >= 2 && w.bytes().all(|b| b.is_ascii_alphabetic()) && body.len() - w.len() <= 2
  };
  ok.then_some(body.len() + 2)
}

/// the documented computation of a section's id, for a title without tags: entities and `[[..]]` do not count
fn slug(title: &str, prefix: &str, sep: Option<char>) -> String {
  let mut rest = title;
  let mut bare = String::new();
  while let Some(c) = rest.chars().next() {
    let n = match c {
      '&' => entity(rest),
      '[' if rest.starts_with("[[") => rest.find("]]").map(|e| e + 2),
      _ => None,
    };
    if n.is_none() {
      bare.push(c);
    }
    rest = &rest[n.unwrap_or(c.len_utf8())..];
  }
  let title = &bare;
  // between words is one separator, unless what comes before ends with it; none ends the id, and none begins it without a prefix
  let mut id = prefix.to_string();
  for (i, word) in title.split([' ', '-', '.', ',', '\t']).enumerate() {
    if i > 0 && !sep.is_some_and(|c| id.ends_with(c)) {
      id.extend(sep);
    }
    id.extend(word.chars().filter(|c| c.is_alphanumeric()).flat_map(char::to_lowercase));
  }
  let Some(c) = sep else { return id };
  if id.ends_with(c) {
    id.pop();
  }
  match id.strip_prefix(c) {
    Some(rest) if prefix.is_empty() => rest.to_string(),
    _ => id,
  }
}

#[derive(Clone)]
enum Piece {
  Word(String),
  /// an anchor, which is not repeated
  Anchor(String),
  /// text with an id of its own
  Span(String, String),
  /// a reference, with its own text, if any
  Ref(String, Option<String>),
  Note,
}

#[derive(Clone, Default)]
struct Target {
  reftext: Option<String>,
  title: Vec<Piece>,
}

struct Gen {
  src: String,
  targets: BTreeMap<String, Target>,
  /// references written in running text: target, own text
  refs: Vec<(String, Option<String>)>,
  used: HashSet<String>,
  /// ids a reference may name, also before they are given
  ids: Vec<String>,
  next: usize,
  n: usize,
  prefix: String,
  sep: Option<char>,
  sectids: bool,
  /// titles to come, whose ids were given to something else before
  planned: Vec<String>,
  /// ids of titles that are not compared as text
  odd: Vec<String>,
}

impl Gen {
  fn word(&mut self) -> String {
    self.n += 1;
    format!("Zq{}z", self.n)
  }
  fn id(&mut self, r: &mut R) -> String {
    if r.rng.chance(1, 8) {
      let w = self.word();
      let id = format!("{}{}", self.prefix, w.to_lowercase());
      let id = if r.rng.chance(1, 4) { format!("{id}{}2", self.sep.map(String::from).unwrap_or_default()) } else { id };
      self.planned.push(w);
      if self.used.insert(id.clone()) {
        return id;
      }
    }
    let id = self.ids[self.next].clone();
    self.next += 1;
    self.used.insert(id.clone());
    id
  }
  fn auto(&mut self, title: &str) -> Option<String> {
    if !self.sectids {
      return None;
    }
    let base = slug(title, &self.prefix, self.sep);
    let mut id = base.clone();
    let mut i = 2;
    while id.is_empty() || !self.used.insert(id.clone()) {
      id = format!("{base}{}{i}", self.sep.map(String::from).unwrap_or_default());
      i += 1;
    }
    Some(id)
  }
  fn any_id(&self, r: &mut R) -> String {
    if r.rng.chance(1, 6) && !self.targets.is_empty() {
      let k = r.rng.below(self.targets.len());
      return self.targets.keys().nth(k).unwrap().clone();
    }
    let k = r.rng.below(14.max(self.next + 4));
    self.ids[k].clone()
  }
  fn write(&mut self, p: &Piece, r: &mut R) -> String {
    match p {
      Piece::Word(w) => w.clone(),
      Piece::Anchor(id) => match r.rng.below(2) {
        0 => format!("[[{id}]]"),
        _ => format!("anchor:{id}[]"),
      },
      Piece::Span(id, w) => {
        let q = *r.rng.pick(&["#", "*", "_", "`"]);
        format!("[#{id}]{q}{w}{q}")
      }
      Piece::Ref(id, None) => match r.rng.below(3) {
        0 if !id.contains(' ') => format!("xref:{id}[]"),
        1 => format!("<<#{id}>>"),
        _ => format!("<<{id}>>"),
      },
      Piece::Ref(id, Some(t)) => match r.rng.below(3) {
        0 if !id.contains(' ') => format!("xref:{id}[{t}]"),
        1 if !id.contains(' ') => format!("xref:#{id}[{t}]"),
        _ => format!("<<{id},{t}>>"),
      },
      Piece::Note => "footnote:[a note]".into(),
    }
  }
  fn inline(&mut self, r: &mut R, title: bool) -> Vec<Piece> {
    let mut ps = vec![Piece::Word(self.word())];
    for _ in 0..r.rng.below(if title { 2 } else { 4 }) {
      let p = match r.rng.below(8) {
        0 => {
          let id = self.id(r);
          self.targets.insert(id.clone(), Target::default());
          Piece::Anchor(id)
        }
        1 => {
          let (id, w) = (self.id(r), self.word());
          self.targets.insert(id.clone(), Target { reftext: None, title: vec![Piece::Word(w.clone())] });
          Piece::Span(id, w)
        }
        2 if r.rng.chance(1, 2) => Piece::Note,
        3 => {
          let w = self.word();
          Piece::Word(w)
        }
        _ => {
          let id = self.any_id(r);
          let t = r.rng.chance(1, 3).then(|| self.word());
          self.refs.push((id.clone(), t.clone()));
          Piece::Ref(id, t)
        }
      };
      ps.push(p);
    }
    ps
  }
  fn text(&mut self, ps: &[Piece], r: &mut R) -> String {
    let v: Vec<String> = ps.iter().map(|p| self.write(p, r)).collect();
    v.join(" ")
  }
  /// block attribute lines, and the id they give
  fn meta(&mut self, r: &mut R, style: &str, titled: bool) -> Option<(String, Target)> {
    let mut t = Target::default();
    if titled && r.rng.chance(1, 3) {
      t.title = self.inline(r, true);
      let line = self.text(&t.title.clone(), r);
      self.src.push_str(&format!(".{line}\n"));
    }
    if r.rng.chance(1, 2) {
      if !style.is_empty() {
        self.src.push_str(&format!("[{style}]\n"));
      }
      return None;
    }
    let id = self.id(r);
    if r.rng.chance(1, 3) {
      t.reftext = Some(self.word());
    }
    match (r.rng.below(3), t.reftext.clone()) {
      (0, Some(w)) => self.src.push_str(&format!("[[{id},{w}]]\n")),
      (0, None) => self.src.push_str(&format!("[[{id}]]\n")),
      (1, Some(w)) => {
        self.src.push_str(&format!("[{style}#{id},reftext=\"{w}\"]\n"));
        return Some((id, t));
      }
      (1, None) => {
        self.src.push_str(&format!("[{style}#{id}]\n"));
        return Some((id, t));
      }
      (_, Some(w)) => {
        let s = if style.is_empty() { String::new() } else { format!("{style},") };
        self.src.push_str(&format!("[{s}id={id},reftext={w}]\n"));
        return Some((id, t));
      }
      (_, None) => {
        let s = if style.is_empty() { String::new() } else { format!("{style},") };
        self.src.push_str(&format!("[{s}id={id}]\n"));
        return Some((id, t));
      }
    }
    if !style.is_empty() {
      self.src.push_str(&format!("[{style}]\n"));
    }
    Some((id, t))
  }
  fn target(&mut self, t: Option<(String, Target)>) {
    if let Some((id, t)) = t {
      self.targets.insert(id, t);
    }
  }
  fn heading(&mut self, r: &mut R, marks: &str, style: &str) {
    let explicit = self.meta(r, style, false);
    let planned = if !self.planned.is_empty() && r.rng.chance(1, 2) { self.planned.pop() } else { None };
    let (title, line) = match planned {
      Some(w) => (vec![Piece::Word(w.clone())], w),
      None if explicit.is_none() && r.rng.chance(1, 4) => {
        let mut w = r.rng.string(&["a", "B", "é", "_", "-", ".", " ", ",", "!", "ß", "İ", "Z", "9", "+"], 12).trim().to_string();
        while w.contains("--") || w.contains("...") || w.contains("++") || w.contains("__") || w.ends_with(" +") {
          w = w.replace("--", "-").replace("...", ".").replace("++", "+").replace("__", "_").replace(" +", "");
        }
        let mut w = if w.is_empty() { "-".to_string() } else { w };
        for _ in 0..r.rng.below(3) {
          let extra = match r.rng.below(4) {
            0 => " & ".to_string(),
            1 => r.rng.pick(&["&copy;", "&#169;", "&#xa9;", "&frac12;", "&;"]).to_string(),
            _ => {
              let id = self.id(r);
              self.targets.insert(id.clone(), Target::default());
              format!("[[{id}]]")
            }
          };
          let tail = self.word();
          w = format!("{w}{extra}{tail}");
        }
        (vec![], w)
      }
      None if explicit.is_none() => {
        let mut w = self.word();
        if r.rng.chance(1, 3) {
          w = "Zq same".into();
        }
        (vec![Piece::Word(w.clone())], w)
      }
      None => {
        let ps = self.inline(r, true);
        let line = self.text(&ps.clone(), r);
        (ps, line)
      }
    };
    self.src.push_str(&format!("{marks} {line}\n\n"));
    match explicit {
      Some((id, t)) => {
        self.targets.insert(id, Target { title, ..t });
      }
      None => {
        if let Some(id) = self.auto(&line) {
          // a title of odd characters is not compared
          if title.is_empty() {
            self.odd.push(id);
          } else if !id.contains([',', ' ']) {
            self.targets.insert(id, Target { reftext: None, title });
          }
        }
      }
    }
  }
  fn para(&mut self, r: &mut R) {
    let ps = self.inline(r, false);
    let line = self.text(&ps, r);
    self.src.push_str(&format!("{line}\n"));
  }
  fn blocks(&mut self, r: &mut R, depth: u8, cell: bool) {
    for _ in 0..1 + r.rng.below(3) {
      let kinds = if depth > 1 { 8 } else { 17 };
      match r.rng.below(kinds) {
        0 | 1 => {
          let t = self.meta(r, "", true);
          self.para(r);
          self.target(t);
        }
        2 => {
          let s = *r.rng.pick(&["", "NOTE", "quote", "verse", "listing", "source,rust"]);
          let t = self.meta(r, if s.contains(',') { "source" } else { s }, true);
          let w = self.word();
          self.src.push_str(&format!("{w}\n"));
          self.target(t);
        }
        3 => {
          let t = self.meta(r, "", true);
          let w = self.word();
          let d = *r.rng.pick(&["----", "....", "```"]);
          self.src.push_str(&format!("{d}\n{w}\n{d}\n"));
          self.target(t);
        }
        4 => {
          let t = self.meta(r, "", true);
          let m = *r.rng.pick(&["*", ".", "-"]);
          for _ in 0..1 + r.rng.below(2) {
            self.src.push_str(&format!("{m} "));
            self.para(r);
          }
          self.src.push_str("\n//-\n");
          self.target(t);
        }
        5 => {
          let t = self.meta(r, "", true);
          let w = self.word();
          self.src.push_str(&format!("{w}:: "));
          self.para(r);
          self.src.push_str("\n//-\n");
          self.target(t);
        }
        6 => {
          let t = self.meta(r, "", true);
          let m = *r.rng.pick(&["image::a.png[]", "audio::a.mp3[]", "video::a.mp4[]"]);
          self.src.push_str(&format!("{m}\n"));
          self.target(t);
        }
        7 => {
          let s = *r.rng.pick(&["discrete", "float"]);
          let m = *r.rng.pick(&["==", "==="]);
          self.heading(r, m, s);
        }
        8 | 9 | 10 | 11 => {
          let (s, d) = *r.rng.pick(&[
            ("", "===="),
            ("", "****"),
            ("", "____"),
            ("", "--"),
            ("NOTE", "===="),
            ("abstract", "--"),
            ("%collapsible", "===="),
          ]);
          // no block holds one with the same delimiter
          if (depth == 0) != "=-".contains(&d[..1]) {
            continue;
          }
          let t = if s.starts_with('%') {
            self.src.push_str("[%collapsible]\n");
            self.meta(r, "", true)
          } else {
            self.meta(r, s, true)
          };
          self.src.push_str(&format!("{d}\n"));
          self.blocks(r, depth + 1, cell);
          self.src.push_str(&format!("{d}\n"));
          self.target(t);
        }
        12 if !cell => {
          let t = self.meta(r, "", true);
          self.src.push_str("|===\n");
          for _ in 0..1 + r.rng.below(2) {
            self.src.push_str(if r.rng.chance(1, 2) { "a|" } else { "|" });
            if self.src.ends_with("a|") {
              self.src.push('\n');
              self.blocks(r, 2, true);
            } else {
              self.para(r);
            }
          }
          self.src.push_str("|===\n");
          self.target(t);
        }
        13 => {
          // an item with a block attached
          self.src.push_str("* ");
          self.para(r);
          self.src.push_str("+\n");
          let t = self.meta(r, "", true);
          let w = self.word();
          self.src.push_str(&format!("----\n{w}\n----\n\n//-\n"));
          self.target(t);
        }
        14 => {
          let t = self.meta(r, "", true);
          let w = self.word();
          self.src.push_str(&format!("----\n{w} <1>\n----\n"));
          self.target(t);
          let t = self.meta(r, "", false);
          self.src.push_str("<1> ");
          self.para(r);
          self.src.push_str("\n//-\n");
          self.target(t);
        }
        15 => {
          let w = self.word();
          let id = self.id(r);
          let (item, t) = if r.rng.chance(1, 2) {
            (format!("* [[[{id}]]] {w}"), None)
          } else {
            let rt = self.word();
            (format!("* [[[{id},{rt}]]] {w}"), Some(rt))
          };
          self.src.push_str(&format!("[bibliography]\n{item}\n\n//-\n"));
          self.targets.insert(id, Target { reftext: Some(t.map_or("?".into(), |t| format!("[{t}]"))), title: vec![] });
        }
        _ => {
          let t = self.meta(r, "", true);
          self.src.push_str("> ");
          let w = self.word();
          self.src.push_str(&format!("{w}\n"));
          self.target(t);
        }
      }
      self.src.push('\n');
    }
  }

  /// the text of a reference that has its own: in brackets for a bibliography entry
  fn own(&self, id: &str, text: &str) -> String {
    match self.targets.get(id) {
      Some(Target { reftext: Some(rt), .. }) if rt.starts_with('[') || rt == "?" => format!("[{text}]"),
      _ => text.to_string(),
    }
  }

  /// the text of a reference without its own
  fn quoted(&self, id: &str) -> String {
    let missing = format!("[{id}]");
    let Some(t) = self.targets.get(id) else { return missing };
    if let Some(rt) = &t.reftext {
      return if rt == "?" { missing } else { rt.clone() };
    }
    if t.title.is_empty() {
      return missing;
    }
    let words: Vec<String> = t
      .title
      .iter()
      .filter_map(|p| match p {
        Piece::Word(w) => Some(w.clone()),
        Piece::Anchor(_) | Piece::Note => None,
        Piece::Span(_, w) => Some(w.clone()),
        Piece::Ref(id, t) => Some(t.as_ref().map_or(format!("[{id}]"), |t| self.own(id, t))),
      })
      .collect();
    words.join(" ")
  }
}

fn text_of(html: &str) -> String {
  let mut out = String::new();
  let mut tag = false;
  for c in html.chars() {
    match c {
      '<' => tag = true,
      '>' => tag = false,
      c if !tag => out.push(c),
      _ => {}
    }
  }
  let out = out.replace("&lt;", "<").replace("&gt;", ">").replace("&amp;", "&");
  out.split_whitespace().collect::<Vec<_>>().join(" ")
}

fn attrs_named(html: &str, name: &str) -> Vec<(usize, String)> {
  let pat = format!(" {name}=\"");
  html
    .match_indices(&pat)
    .map(|(i, _)| {
      let rest = &html[i + pat.len()..];
      let v = &rest[..rest.find('"').unwrap_or(rest.len())];
      (i, v.replace("&lt;", "<").replace("&gt;", ">").replace("&amp;", "&"))
    })
    .collect()
}

fn compare(g: &Gen, html: &str, toc: bool) -> Result<(), String> {
  let mut ids = HashSet::new();
  for (_, id) in attrs_named(html, "id") {
    if id.is_empty() {
      return Err("an empty id".into());
    }
    if !ids.insert(id.clone()) {
      return Err(format!("the id {id:?} is given twice"));
    }
  }
  for id in g.targets.keys().chain(&g.odd) {
    if !ids.contains(id) {
      return Err(format!("nothing has the id {id:?}"));
    }
  }
  let mut links: BTreeMap<(String, String), isize> = BTreeMap::new();
  let mut depth_end = 0;
  for (i, href) in attrs_named(html, "href") {
    let Some(id) = href.strip_prefix('#') else { continue };
    let unknown = g.ids.iter().any(|k| k == id) && !g.targets.contains_key(id);
    if !id.is_empty() && !unknown && !ids.contains(id) {
      return Err(format!("nothing has the id of the link to {href:?}"));
    }
    if i < depth_end {
      return Err(format!("the link to {href:?} is inside another link"));
    }
    let open = html[i..].find('>').unwrap() + i + 1;
    let end = html[open..].find("</a>").map_or(html.len(), |e| open + e);
    depth_end = end;
    *links.entry((id.to_string(), text_of(&html[open..end]))).or_default() += 1;
  }
  for (id, own) in &g.refs {
    let text = match own {
      Some(t) => g.own(id, t),
      None => g.quoted(id),
    };
    let n = links.entry((id.clone(), text.clone())).or_default();
    *n -= 1;
    if *n < 0 && !toc {
      let near: Vec<_> = links.keys().filter(|(k, _)| k == id).collect();
      return Err(format!("no link to {id:?} reads {text:?}; found {near:?}"));
    }
  }
  Ok(())
}

/// blocks, sometimes in a file of their own
fn in_file(g: &mut Gen, r: &mut R, files: &mut Files, file_of: &mut BTreeMap<String, &'static str>) {
  const NAMES: &[&str] = &["ch/one.adoc", "two.asciidoc", "dir.x/three.ad"];
  let start = g.src.len();
  let before: HashSet<String> = g.targets.keys().cloned().collect();
  g.blocks(r, 0, false);
  if files.0.len() < NAMES.len() && r.rng.chance(1, 3) {
    let name = NAMES[files.0.len()];
    let chunk = g.src.split_off(start);
    if r.rng.chance(1, 3) {
      // in two parts, included on their own
      g.src.push_str(&format!("include::{name}[tag=t0]\n\n"));
      let mid = g.src.len();
      g.blocks(r, 0, false);
      let other = g.src.split_off(mid);
      g.src.push_str(&format!("include::{name}[tags=t1]\n\n"));
      let both = format!("// tag::t0[]\n{chunk}\n// end::t0[]\n\n// tag::t1[]\n{other}\n// end::t1[]\n");
      files.0.push((name, both));
    } else {
      g.src.push_str(&format!("include::{name}[]\n\n"));
      files.0.push((name, chunk));
    }
    for id in g.targets.keys().filter(|id| !before.contains(*id)) {
      file_of.insert(id.clone(), name);
    }
  }
}

fn main() {
  run("ids", |r: &mut R| {
    let n = r.tier(1500, 12000);
    for _ in 0..n {
      if !r.time_left() {
        break;
      }
      let mut g = Gen {
        src: String::new(),
        targets: BTreeMap::new(),
        refs: vec![],
        used: HashSet::new(),
        ids: (0..200).map(|i| if i % 7 == 3 { format!("k{i}x_-é") } else { format!("k{i}") }).collect(),
        next: 0,
        n: 0,
        prefix: "_".into(),
        sep: Some('_'),
        sectids: true,
        planned: vec![],
        odd: vec![],
      };
      let mut files = Files(vec![]);
      let mut file_of: BTreeMap<String, &'static str> = BTreeMap::new();
      let toc = r.rng.chance(1, 3);
      if toc {
        g.src.push_str(":toc:\n");
      }
      match r.rng.below(6) {
        0 => {
          g.prefix = "".into();
          g.src.push_str(":idprefix:\n");
        }
        1 => {
          g.prefix = "é-".into();
          g.src.push_str(":idprefix: é-\n");
        }
        _ => {}
      }
      match r.rng.below(6) {
        0 => {
          g.sep = Some('-');
          g.src.push_str(":idseparator: -\n");
        }
        1 => {
          g.sep = None;
          g.src.push_str(":idseparator:\n");
        }
        2 => {
          g.sep = Some('é');
          g.src.push_str(":idseparator: é\n");
        }
        _ => {}
      }
      if r.rng.chance(1, 12) {
        g.sectids = false;
        g.src.push_str(":!sectids:\n");
      }
      if r.rng.chance(1, 6) {
        g.src.push_str(":sectanchors:\n");
      }
      g.src.push('\n');
      if r.rng.chance(2, 3) {
        in_file(&mut g, r, &mut files, &mut file_of);
      }
      let mut level = 1;
      for _ in 0..r.rng.below(5) {
        level = 1 + r.rng.below(level + 1).min(3);
        g.heading(r, &"=".repeat(level + 1), "");
        if r.rng.chance(2, 3) {
          in_file(&mut g, r, &mut files, &mut file_of);
        }
      }
      // some references name the file of their target
      for (id, t) in &g.targets {
        if !r.rng.chance(1, 4) || (t.reftext.is_none() && t.title.is_empty()) || t.reftext.as_deref() == Some("?") {
          continue;
        }
        let file = file_of.get(id).copied().unwrap_or("t.adoc");
        let file = if file != "t.adoc" && r.rng.chance(1, 2) { &file[..file.rfind('.').unwrap()] } else { file };
        let within = |text: &str| -> String {
          let ls = text.split('\n').map(|l| {
            if l.starts_with(['=', '.']) {
              return l.to_string();
            }
            l.replace(&format!("xref:{id}["), &format!("xref:{file}#{id}[")).replace(&format!("<<{id}>>"), &format!("<<{file}#{id}>>")).replace(
              &format!("<<{id},"),
              &format!("<<{file}#{id},"),
            )
          });
          ls.collect::<Vec<_>>().join("\n")
        };
        g.src = within(&g.src);
        files.0.iter_mut().for_each(|f| f.1 = within(&f.1));
      }
      let known = g.refs.iter().all(|(id, _)| g.targets.contains_key(id));
      let src = g.src.clone();
      let shown = files.0.iter().fold(src.clone(), |s, (n, c)| format!("{s}\n// {n}:\n{c}"));
      for html5s in [false, true] {
        let class = if html5s { "html5s" } else { "html" };
        r.check(&format!("ids-{class}"), class, &shown, || compare(&g, &convert(&src, &files, html5s, false)?, toc));
      }
      r.check("strict", "strict", &shown, || match convert(&src, &files, false, true) {
        Ok(_) => Ok(()),
        Err(e) if e.contains("panicked") || e.contains("Duplicate") => Err(e),
        Err(e) if known && e.contains("cross reference") => Err(e),
        Err(_) => Ok(()),
      });
    }
  });
}
