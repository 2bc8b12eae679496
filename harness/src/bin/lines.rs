//! positions to lines, and what diagnostics say about where something is wrong
use asciidork_parser::prelude::{Diagnostic, Parser};
use asciidork_parser::verif::*;
use std::result::Result;
use vx_harness::*;

fn line_at(s: &[u8], p: usize) -> (u32, u32, usize, usize) {
  let b = s[..p].iter().rposition(|c| *c == b'\n').map_or(0, |i| i + 1);
  let e = s[p..].iter().position(|c| *c == b'\n' || *c == b'\r').map_or(s.len(), |i| p + i);
  (s[..p].iter().filter(|c| **c == b'\n').count() as u32 + 1, (p - b) as u32, b, e)
}

fn lexer_case(srcs: &[String], off: u32) -> Result<(), String> {
  let b = Bump::new();
  let mut l = Lexer::from_str(&b, SourceFile::Path(Path::new("f0.adoc")), &srcs[0]);
  if off > 0 {
    l.adjust_offset(off);
  }
  let mut texts = vec![srcs[0].clone()];
  for (i, t) in srcs.iter().enumerate().skip(1) {
    l.push_source(SourceFile::Path(Path::new(format!("f{i}.adoc"))), 0, None, BumpVec::from_iter_in(t.bytes(), &b));
    texts.push(if t.ends_with('\n') { t.clone() } else { format!("{t}\n") });
  }
  for (i, t) in texts.iter().enumerate() {
    let s = t.as_bytes();
    let o = if i == 0 { off } else { 0 };
    if l.source_file_at(i as u16).file_name() != format!("f{i}.adoc") {
      return Err(format!("source {i} is reported as {}", l.source_file_at(i as u16).file_name()));
    }
    for p in 0..=s.len() {
      let loc = SourceLocation::new(p as u32 + o, p as u32 + o, i as u16);
      let (n, c, lb, le) = line_at(s, p);
      if l.line_number_with_offset(loc) != (n, c) || l.line_number(loc) != n {
        return Err(format!("byte {p} of source {i}: line/column {:?}, expected {:?}", l.line_number_with_offset(loc), (n, c)));
      }
      if t.is_char_boundary(p) {
        let want = t[lb..le].trim_end_matches([' ', '\t', '\n', '\r', '\x0c']);
        let got = l.line_of(loc);
        if got.as_str() != want {
          return Err(format!("line of byte {p} of source {i}: {:?}, expected {want:?}", got.as_str()));
        }
      }
      if l.byte_at(loc.start, i as u16) != s.get(p).copied() {
        return Err(format!("byte {p} of source {i}: {:?}", l.byte_at(loc.start, i as u16)));
      }
      let before = if p == 0 { None } else { s.get(p - 1).copied() };
      if l.byte_before(loc) != before {
        return Err(format!("byte before {p} of source {i}: {:?}", l.byte_before(loc)));
      }
      for q in p..=s.len().min(p + 6) {
        if t.is_char_boundary(p) && t.is_char_boundary(q) {
          let got = l.str_from_loc(SourceLocation::new(p as u32 + o, q as u32 + o, i as u16));
          if got != &t[p..q] {
            return Err(format!("text {p}..{q} of source {i}: {got:?}"));
          }
        }
      }
    }
  }
  Ok(())
}

fn raw_lines_case(src: &str) -> Result<(), String> {
  let b = Bump::new();
  let l = Lexer::from_str(&b, SourceFile::Tmp, src);
  let l: &'static Lexer = unsafe { std::mem::transmute::<&Lexer, &'static Lexer<'static>>(&l) };
  let got: Vec<&str> = l.raw_lines().take(src.len() + 5).collect();
  let mut want: Vec<&str> = src.split('\n').collect();
  if want.last() == Some(&"") {
    want.pop();
  }
  if got == want { Ok(()) } else { Err(format!("{got:?}, expected {want:?}")) }
}

#[derive(Clone)]
struct Files(Vec<(String, String)>);
impl IncludeResolver for Files {
  fn resolve(&mut self, t: IncludeTarget, buf: &mut dyn IncludeBuffer, _: SafeMode) -> Result<usize, ResolveError> {
    let p = t.path().to_string();
    let Some((_, c)) = self.0.iter().find(|(n, _)| p.ends_with(n.as_str())) else {
      return Err(ResolveError::NotFound);
    };
    buf.initialize(c.len());
    buf.as_bytes_mut().copy_from_slice(c.as_bytes());
    Ok(c.len())
  }
  fn get_base_dir(&self) -> Option<String> {
    Some("/base".into())
  }
  fn clone_box(&self) -> Box<dyn IncludeResolver> {
    Box::new(self.clone())
  }
}

/// what a broken piece of a document must be reported as: message, line within the piece, underline start and width
struct Bad {
  text: &'static str,
  msg: &'static str,
  line: usize,
  start: usize,
  width: usize,
}
const BADS: &[Bad] = &[
  Bad { text: "see <<nowhere>> there", msg: "Invalid cross reference", line: 0, start: 6, width: 7 },
  Bad { text: "one line\ntwo é <<nowhere>>", msg: "Invalid cross reference", line: 1, start: 9, width: 7 },
  Bad { text: "xref:nowhere[x] it", msg: "Invalid cross reference", line: 0, start: 5, width: 7 },
  Bad { text: "[#aa#bb]\nsome text", msg: "More than one id attribute", line: 0, start: 4, width: 1 },
  Bad { text: "text {nope-ref} more", msg: "Skipping reference to missing attribute", line: 0, start: 5, width: 10 },
  Bad { text: "l1\nl2\nl3 {nope-ref}", msg: "Skipping reference to missing attribute", line: 2, start: 3, width: 10 },
  Bad { text: "endif::[]", msg: "no previous ifdef", line: 0, start: 0, width: 9 },
  Bad { text: "endif::[]\r", msg: "no previous ifdef", line: 0, start: 0, width: 9 },
  Bad { text: "a footnote:[] b", msg: "Empty footnote content", line: 0, start: 11, width: 2 },
  Bad { text: "include::not-there.adoc[]", msg: "Include error", line: 0, start: 9, width: 14 },
  Bad { text: "para\ninclude::not-there.adoc[]", msg: "Include error", line: 1, start: 9, width: 14 },
  Bad { text: "ifndef::unset-x[see <<nowhere>> more]", msg: "Invalid cross reference", line: 0, start: 22, width: 7 },
  Bad { text: "ifndef::unset-x[{nope-ref} *x*]", msg: "Skipping reference to missing attribute", line: 0, start: 16, width: 10 },
  Bad { text: "ifdef::backend-none[]\nx\nendif::[]\nxref:nowhere[x]", msg: "Invalid cross reference", line: 3, start: 5, width: 7 },
  Bad { text: "[.role]", msg: "Unattached block metadata", line: 0, start: 0, width: 7 },
  Bad { text: "[[]]\ntext", msg: "", line: 0, start: 0, width: 0 },
  Bad { text: "[.role#aa#bb]\n--\nx\n--", msg: "More than one id attribute", line: 0, start: 9, width: 1 },
  Bad { text: "====\nnever closed", msg: "This delimiter was never closed", line: 0, start: 0, width: 4 },
  Bad { text: "--\nnever\n\nclosed", msg: "This delimiter was never closed", line: 0, start: 0, width: 2 },
];

struct Case {
  root: String,
  files: Vec<(String, String)>,
  file: String,
  line: u32,
  text: String,
  start: u32,
  width: u32,
  msg: &'static str,
}

fn filler(rng: &mut Rng) -> String {
  let parts = ["plain text", "", "* item\n* item", "é ünï", "----\nlisting x\n----", "para\nof two", "// comment", "", "", ".Title\n====\nexample\n====", "|===\n|a |b\n|===", "[.role]\nstyled", "sp  "];
  let mut s = String::new();
  for _ in 0..rng.below(4) {
    s.push_str(*rng.pick::<&str>(&parts));
    s.push_str(if rng.chance(1, 4) { "\r\n\r\n" } else { "\n\n" });
  }
  s
}

fn gen_case(rng: &mut Rng) -> Option<Case> {
  let bad = &BADS[rng.below(BADS.len())];
  if bad.msg.is_empty() {
    return None;
  }
  let unclosed = bad.msg.contains("never closed") || bad.msg.contains("Unattached");
  let depth = rng.below(4);
  let mut files = vec![];
  // innermost text first
  let mut pre = filler(rng);
  let wrap = rng.below(6);
  let mut shift = 0usize;
  let mut body = bad.text.to_string();
  let inline = !bad.text.contains("::") && !bad.text.starts_with('[') && !unclosed;
  match wrap {
    0 if inline => {
      body = format!("====\n{body}\n====");
      shift = 1;
    }
    1 if inline => {
      body = format!("* item\n+\n{body}");
      shift = 2;
    }
    2 if inline && !bad.text.contains('\n') => {
      pre.push_str("|===\n|a |");
      body = format!("{body}\n|===");
    }
    _ => {}
  }
  let mut cur = format!("{pre}{body}");
  let line = line_at(cur.as_bytes(), pre.len()).0 + bad.line as u32 + shift as u32;
  let tgt_b = cur.split('\n').nth(line as usize - 1)?.to_string();
  let col0 = if bad.line + shift == 0 || (wrap == 2 && inline) { (pre.len() - pre.rfind('\n').map_or(0, |i| i + 1)) as u32 } else { 0 };
  if !unclosed {
    cur.push_str("\n\n");
    cur.push_str(&filler(rng));
  }
  if rng.chance(1, 3) {
    while cur.ends_with('\n') || cur.ends_with('\r') {
      cur.pop();
    }
  }
  let mut file = "root.adoc".to_string();
  for d in 0..depth {
    let name = format!("inc{d}.adoc");
    if d == 0 {
      file = name.clone();
    }
    files.push((name.clone(), cur));
    let pre = filler(rng);
    let post = if unclosed { String::new() } else { filler(rng) };
    let nl = if unclosed { "" } else { "\n\n" };
    cur = format!("{pre}include::{name}[]{nl}{post}");
  }
  Some(Case {
    root: cur,
    files,
    file,
    line,
    text: tgt_b.trim_end().to_string(),
    start: col0 + bad.start as u32,
    width: bad.width as u32,
    msg: bad.msg,
  })
}

fn diags(root: &str, files: &[(String, String)]) -> Vec<Diagnostic> {
  let b = Bump::new();
  let mut p = Parser::from_str(root, SourceFile::Path(Path::new("/base/root.adoc")), &b);
  let mut s = JobSettings { safe_mode: SafeMode::Unsafe, ..JobSettings::default() };
  s.strict = false;
  s.job_attrs.insert("attribute-missing", JobAttr::readonly("warn")).ok();
  p.apply_job_settings(s);
  p.set_resolver(Box::new(Files(files.to_vec())));
  match p.parse() {
    Ok(r) => r.warnings,
    Err(e) => e,
  }
}

fn doc_case(c: &Case) -> Result<(), String> {
  let ds = diags(&c.root, &c.files);
  let found: Vec<_> = ds.iter().filter(|d| d.message.contains(c.msg)).collect();
  let show = |d: &Diagnostic| format!("{}:{}:{}+{} `{}` ({})", d.source_file.file_name(), d.line_num, d.underline_start, d.underline_width, d.line, d.message);
  let want = format!("{}:{}:{}+{} `{}`", c.file, c.line, c.start, c.width, c.text);
  if found.is_empty() {
    return Err(format!("no diagnostic `{}`; expected at {want}; got {:?}", c.msg, ds.iter().map(show).collect::<Vec<_>>()));
  }
  for d in found {
    if d.source_file.file_name() != c.file
      || d.line_num != c.line
      || d.line.trim_end() != c.text
      || d.underline_start != c.start
      || d.underline_width != c.width
    {
      return Err(format!("reported at {}, expected {want}", show(d)));
    }
    let txt = d.plain_text();
    let carets = format!("{}{}", " ".repeat(c.start as usize), "^".repeat(c.width as usize));
    if !txt.contains(&format!("{}:{}:{}", c.file, c.line, c.start + 1)) || !txt.contains(&carets) || !txt.contains(&d.line) {
      return Err(format!("rendered as {txt:?}"));
    }
  }
  Ok(())
}

fn main() {
  run("lines", |r| {
    let alpha = ["a", "\n", "é", " ", "\r"];
    let n = r.tier(6, 8);
    for len in 0..=n {
      let mut i = vec![0usize; len];
      'all: loop {
        let s: String = i.iter().map(|k| alpha[*k]).collect();
        r.check("lines", "positions-exhaustive", &s, || lexer_case(&[s.clone()], 0));
        r.check("raw-lines", "raw-lines", &s, || raw_lines_case(&s));
        let mut k = 0;
        loop {
          if k == len {
            break 'all;
          }
          i[k] += 1;
          if i[k] < alpha.len() {
            break;
          }
          i[k] = 0;
          k += 1;
        }
      }
    }
    for _ in 0..r.tier(3000, 30000) {
      let k = 1 + r.rng.below(4);
      let srcs: Vec<String> = (0..k).map(|_| r.rng.string(&["ab", "\n", "é", " ", "\r\n", "\t", "", "x"], 12)).collect();
      let off = if r.rng.chance(1, 2) { r.rng.below(5000) as u32 } else { 0 };
      r.check("lines", "positions-sources", format!("{srcs:?} offset {off}"), || lexer_case(&srcs, off));
    }
    for _ in 0..r.tier(4000, 60000) {
      let Some(c) = gen_case(&mut r.rng) else { continue };
      r.check("diagnostic", "documents", format!("{:?} files {:?}", c.root, c.files), || doc_case(&c));
      if !r.time_left() {
        break;
      }
    }
  });
}
