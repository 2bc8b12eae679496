//! section numbers, table of contents labels and caption numbers against a count of the generated document
use asciidork_core::*;
use asciidork_parser::prelude::Parser;
use asciidork_parser::verif::{Bump, SourceFile};
use std::result::Result;
use vx_harness::*;

fn convert(src: &str, html5s: bool) -> Result<String, String> {
  let r = std::panic::catch_unwind(|| {
    let bump = Bump::new();
    let mut p = Parser::from_str(src, SourceFile::Tmp, &bump);
    let mut s = JobSettings::default();
    s.safe_mode = SafeMode::Server;
    s.strict = false;
    s.embedded = true;
    p.apply_job_settings(s);
    let doc = p.parse().map_err(|d| format!("{d:?}"))?.document;
    if html5s {
      asciidork_backend_html5s::convert(doc).map_err(|e| format!("{e:?}"))
    } else {
      asciidork_dr_html_backend::convert(doc).map_err(|e| format!("{e:?}"))
    }
  });
  r.unwrap_or_else(|p| Err(format!("panicked: {}", panic_text(&p))))
}

fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
  p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}

fn letters(n: usize) -> String {
  if n < 26 { ((b'A' + n as u8) as char).to_string() } else { letters(n / 26 - 1) + &letters(n % 26) }
}

const ROMAN: &[(usize, &str)] = &[(10, "X"), (9, "IX"), (5, "V"), (4, "IV"), (1, "I")];
fn roman(mut n: usize) -> String {
  let mut s = String::new();
  for (v, t) in ROMAN {
    while n >= *v {
      s.push_str(t);
      n -= v;
    }
  }
  s
}

#[derive(Clone, Debug)]
struct Entry {
  title: String,
  label: String,
  authored: u8,
  html_level: u8,
}

struct Gen {
  src: String,
  entries: Vec<Entry>,
  captions: Vec<(String, String)>,
  nums: [usize; 6],
  caps: [usize; 4],
  cap_on: [bool; 4],
  appendices: usize,
  parts: usize,
  id: usize,
  toggled: bool,
  levels: Option<u8>,
}

struct Opts {
  book: bool,
  sectnums: Option<&'static str>,
  levels: Option<u8>,
  partnums: bool,
  part_signifier: bool,
  chapter_signifier: bool,
  appendix_caption: Option<&'static str>,
  toclevels: u8,
}

impl Gen {
  fn name(&mut self) -> String {
    self.id += 1;
    format!("Zq{}z", self.id)
  }
  fn blocks(&mut self, r: &mut R, depth: u8) {
    for _ in 0..r.rng.below(3) {
      let kind = r.rng.below(6);
      let t = self.name();
      let custom = r.rng.chance(1, 6);
      let what = match kind {
        0 => 0,
        1 | 4 => 1,
        2 => 2,
        _ => 3,
      };
      if kind == 5 {
        // toggling a caption, or text that isn't a captioned block
        match r.rng.below(4) {
          0 if depth == 0 => {
            let k = r.rng.below(4) as usize;
            let name = ["figure", "table", "example", "listing"][k];
            if self.cap_on[k] {
              self.src.push_str(&format!(":!{name}-caption:\n\n"));
            } else {
              self.src.push_str(&format!(":{name}-caption: {}\n\n", ["Figure", "Table", "Example", "Listing"][k]));
            }
            self.cap_on[k] = !self.cap_on[k];
          }
          1 => self.src.push_str(&format!("[discrete]\n=== {t}\n\n")),
          2 => self.src.push_str(&format!(".{t}\n* item\n\nend of list\n\n")),
          _ => self.src.push_str(&format!("{t}\n\n")),
        }
        continue;
      }
      let mut label = String::new();
      if custom {
        self.src.push_str("[caption=\"Own \"]\n");
        label.push_str("Own ");
      } else if self.cap_on[what] {
        self.caps[what] += 1;
        label = format!("{} {}. ", ["Figure", "Table", "Example", "Listing"][what], self.caps[what]);
      }
      self.src.push_str(&format!(".{t}\n"));
      self.captions.push((t.clone(), label));
      match kind {
        0 => self.src.push_str("image::x.png[]\n\n"),
        1 => self.src.push_str("|===\n|cell\n|===\n\n"),
        2 => {
          let fence = "=".repeat(4 + depth as usize);
          self.src.push_str(&format!("{fence}\nex\n\n"));
          if depth < 2 {
            self.blocks(r, depth + 1);
          }
          self.src.push_str(&format!("{fence}\n\n"));
        }
        3 => self.src.push_str("----\ncode\n----\n\n"),
        _ => {
          if depth == 0 {
            self.src.push_str("|===\n\na|in\n\n");
            // no tables in there
            let before = (self.src.len(), self.captions.len(), self.caps, self.id);
            self.blocks(r, 1);
            if self.src[before.0..].contains("|===") {
              self.src.truncate(before.0);
              self.captions.truncate(before.1);
              self.caps = before.2;
              self.id = before.3;
            }
            self.src.push_str("|===\n\n");
          } else {
            self.src.push_str("|===\n|cell\n|===\n\n");
          }
        }
      }
    }
  }
  fn section(&mut self, r: &mut R, o: &Opts, level: u8, appendix: bool, letter: Option<&str>, sectnums: Option<&'static str>, authored: u8, special: bool) {
    let t = self.name();
    let mut label = String::new();
    if appendix {
      let l = letters(self.appendices);
      self.appendices += 1;
      self.src.push_str("[appendix]\n");
      label = match o.appendix_caption {
        None => format!("{l}. "),
        Some(c) => format!("{c} {l}: "),
      };
    } else if authored == 0 {
      self.parts += 1;
      if o.partnums {
        label = format!("{}{}: ", if o.part_signifier { "Part " } else { "" }, roman(self.parts));
      }
    } else if sectnums.is_some() && self.levels.or(o.levels).unwrap_or(3) >= level {
      self.nums[level as usize] += 1;
      for n in &mut self.nums[level as usize + 1..] {
        *n = 0;
      }
      if level == 1 && o.book && o.chapter_signifier {
        label.push_str("Chapter ");
      }
      for l in 1..=level {
        match (letter, l) {
          (Some(x), 1) => label.push_str(x),
          _ => label.push_str(&self.nums[l as usize].to_string()),
        }
        label.push('.');
      }
      label.push(' ');
    }
    if special {
      self.src.push_str("[abstract]\n");
    }
    self.src.push_str(&format!("{} {t}\n\n", "=".repeat(authored as usize + 1)));
    self.entries.push(Entry { title: t, label, authored, html_level: if authored == 0 && !appendix { 1 } else { level + 1 } });
    self.blocks(r, 0);
  }
  /// subsections of a section at `level`
  fn subs(&mut self, r: &mut R, o: &Opts, level: u8, letter: Option<&str>, sectnums: Option<&'static str>) {
    if level >= 5 {
      return;
    }
    for _ in 0..r.rng.below(3) {
      self.section(r, o, level + 1, false, letter, sectnums, level + 1, false);
      self.subs(r, o, level + 1, letter, sectnums);
    }
  }
  fn top(&mut self, r: &mut R, o: &Opts, sectnums: &mut Option<&'static str>, toggles: bool, in_part: bool) {
    for _ in 0..r.rng.below(5) + in_part as usize {
      if toggles && r.rng.chance(1, 3) {
        self.toggled = true;
        if r.rng.chance(1, 3) {
          let l = r.rng.below(6);
          self.src.push_str(&format!(":sectnumlevels: {l}\n\n"));
          self.levels = Some(l as _);
        } else if sectnums.is_some() {
          self.src.push_str(":!sectnums:\n\n");
          *sectnums = None;
        } else {
          self.src.push_str(":sectnums:\n\n");
          *sectnums = Some("");
        }
      }
      if r.rng.chance(1, 4) {
        let outer = self.nums;
        let l = letters(self.appendices);
        self.section(r, o, 1, true, None, *sectnums, 1, false);
        self.nums = [0; 6];
        self.subs(r, o, 1, Some(&l), *sectnums);
        self.nums = outer;
      } else {
        let special = *sectnums == Some("all") && !o.book && r.rng.chance(1, 5);
        self.section(r, o, 1, false, None, *sectnums, 1, special);
        self.subs(r, o, 1, None, *sectnums);
      }
    }
  }
}

/// heading text by title, with its level
fn headings(html: &str) -> Vec<(u8, String)> {
  let mut out = vec![];
  for l in 1..=6u8 {
    let mut rest = html;
    while let Some(i) = rest.find(&format!("<h{l} id=\"")) {
      let h = &rest[i..];
      let end = h.find("</h").unwrap_or(h.len());
      let text = &h[h.find('>').unwrap_or(0) + 1..end];
      out.push((html.len() - rest.len() + i, (l, text.to_string())));
      rest = &h[end..];
    }
  }
  out.sort();
  out.into_iter().map(|x| x.1).collect()
}

fn toc_entries(html: &str) -> Vec<(u8, String, String)> {
  // nesting depth of lists, target, text
  let Some(i) = html.find("id=\"toc\"") else { return vec![] };
  let mut out = vec![];
  let mut depth = 0u8;
  let mut rest = &html[i..];
  let end = rest.find("</nav>").or_else(|| rest.find("</ul></div>").map(|e| e + 5)).unwrap_or(rest.len());
  rest = &rest[..end];
  while let Some(lt) = rest.find('<') {
    rest = &rest[lt..];
    if rest.starts_with("<ul") || rest.starts_with("<ol") {
      depth += 1;
    } else if rest.starts_with("</ul") || rest.starts_with("</ol") {
      depth -= 1;
    } else if let Some(a) = rest.strip_prefix("<a href=\"#") {
      let q = a.find('"').unwrap_or(0);
      let gt = a.find('>').unwrap_or(0);
      let e = a.find("</a>").unwrap_or(a.len());
      out.push((depth, a[..q].to_string(), a[gt + 1..e].to_string()));
    }
    rest = &rest[1..];
  }
  out
}

fn main() {
  run("number", |r| {
    let toggled = ":sectnums:\n:toc:\n\n== Aa\n\n:!sectnums:\n\n== Bb\n";
    r.check("toc-toggle", "toggled under a toc", toggled, || {
      let html = convert(toggled, false)?;
      if html.contains(">Bb</a>") { Ok(()) } else { Err("the entry of a section after `:!sectnums:` is numbered".into()) }
    });
    for round in 0..r.tier(6000, 60000) {
      if !r.time_left() {
        break;
      }
      let o = Opts {
        book: r.rng.chance(1, 2),
        sectnums: *r.rng.pick(&[None, Some(""), Some(""), Some("all")]),
        levels: *r.rng.pick(&[None, None, Some(0), Some(1), Some(2), Some(5)]),
        partnums: r.rng.chance(1, 2),
        part_signifier: r.rng.chance(1, 2),
        chapter_signifier: r.rng.chance(1, 3),
        appendix_caption: *r.rng.pick(&[Some("Appendix"), Some("Appendix"), Some("Annex"), None]),
        toclevels: *r.rng.pick(&[1, 2, 5, 5, 5]),
      };
      let toc = *r.rng.pick(&["", "auto", "auto", "macro", "macro"]);
      let toggles = toc.is_empty() && r.rng.chance(1, 2);
      let mut head = String::from("= Doc\n");
      if o.book {
        head.push_str(":doctype: book\n");
      }
      if let Some(v) = o.sectnums {
        head.push_str(&format!(":sectnums: {v}\n"));
      }
      if let Some(l) = o.levels {
        head.push_str(&format!(":sectnumlevels: {l}\n"));
      }
      if o.partnums {
        head.push_str(":partnums:\n");
      }
      if o.part_signifier {
        head.push_str(":part-signifier: Part\n");
      }
      head.push_str(if o.chapter_signifier { ":chapter-signifier: Chapter\n" } else { ":!chapter-signifier:\n" });
      match o.appendix_caption {
        None => head.push_str(":!appendix-caption:\n"),
        Some("Annex") => head.push_str(":appendix-caption: Annex\n"),
        _ => {}
      }
      if !toc.is_empty() {
        head.push_str(&format!(":toc: {}\n:toclevels: {}\n", if toc == "auto" { "" } else { toc }, o.toclevels));
      }
      head.push('\n');
      let mut g = Gen {
        src: head,
        entries: vec![],
        captions: vec![],
        nums: [0; 6],
        caps: [0; 4],
        cap_on: [true, true, true, false],
        appendices: 0,
        parts: 0,
        id: 0,
        toggled: false,
        levels: None,
      };
      let mut sectnums = o.sectnums;
      let parts = o.book && r.rng.chance(1, 2);
      g.src.push_str("preamble\n\n");
      if round % 200 == 7 {
        for _ in 0..60 {
          let l = letters(g.appendices);
          g.section(r, &o, 1, true, None, sectnums, 1, false);
          g.nums = [0; 6];
          g.section(r, &o, 2, false, Some(&l), sectnums, 2, false);
          g.nums = [0; 6];
        }
      } else if parts {
        for _ in 0..1 + r.rng.below(3) {
          if r.rng.chance(1, 4) && g.parts > 0 {
            let outer = g.nums;
            let l = letters(g.appendices);
            g.section(r, &o, 1, true, None, sectnums, 0, false);
            g.nums = [0; 6];
            g.subs(r, &o, 1, Some(&l), sectnums);
            g.nums = outer;
          } else {
            g.section(r, &o, 0, false, None, sectnums, 0, false);
            g.top(r, &o, &mut sectnums, toggles, true);
          }
        }
      } else {
        g.top(r, &o, &mut sectnums, toggles, false);
      }
      // a toc macro somewhere
      if toc == "macro" {
        let at: Vec<usize> = g.src.match_indices("\n\n=").map(|(i, _)| i + 2).filter(|i| g.src[*i..].starts_with("== ") || g.src[*i..].starts_with("= Z")).collect();
        if !at.is_empty() {
          let mut i = *r.rng.pick(&at);
          // not between a section and what is above it
          let tail_attr = g.src[..i].ends_with("]\n");
          if !tail_attr {
            g.src.insert_str(i, "toc::[]\n\n");
          } else {
            i = g.src.find("preamble").unwrap();
            g.src.insert_str(i, "toc::[]\n\n");
          }
        }
      }
      let src = g.src.clone();
      for h5 in [false, true] {
        let class = format!("{}{}{}{}", if h5 { "html5 " } else { "dr " }, if parts { "parts " } else if o.book { "book " } else { "article " }, toc, if g.toggled { " toggled" } else { "" });
        r.check("numbers", &class, &src, || {
          let html = convert(&src, h5)?;
          let body_at = html.find("</nav>").filter(|_| toc == "auto").unwrap_or(0);
          let got: Vec<_> = headings(&html[body_at..]).into_iter().filter(|(_, t)| t.contains("Zq") && g.entries.iter().any(|e| t.ends_with(&e.title))).collect();
          let want: Vec<_> = g.entries.iter().map(|e| (e.html_level, format!("{}{}", e.label, e.title))).collect();
          if got != want {
            let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            return Err(format!("heading {k}: {:?}, expected {:?}", got.get(k), want.get(k)));
          }
          for (t, label) in &g.captions {
            let n = html.matches(&format!(">{label}{t}<")).count();
            if n != 1 {
              let i = html.find(t.as_str()).unwrap_or(0);
              let mut s = i.saturating_sub(40);
              while !html.is_char_boundary(s) { s -= 1; }
              return Err(format!("caption `{label}{t}` is {}", trunc(&html[s..], 90)));
            }
          }
          if !toc.is_empty() && html.contains("id=\"toc\"") {
            let got = toc_entries(&html);
            let want: Vec<_> = g.entries.iter().filter(|e| e.authored <= o.toclevels).map(|e| (format!("_{}", e.title.to_lowercase()), format!("{}{}", e.label, e.title))).collect();
            let got2: Vec<_> = got.iter().map(|(_, a, b)| (a.clone(), b.clone())).collect();
            if got2 != want {
              let k = got2.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got2.len().min(want.len()));
              return Err(format!("toc entry {k}: {:?}, expected {:?}", got2.get(k), want.get(k)));
            }
          }
          Ok(())
        });
      }
    }
  });
}
