//! includes with `lines`, `tag(s)`, `indent` and encodings: the document reads like one with the reference selection pasted in
use asciidork_core::*;
use asciidork_parser::prelude::Parser;
use asciidork_parser::verif::*;
use std::collections::HashMap;
use std::rc::Rc;
use std::result::Result;
use vx_harness::*;

#[derive(Clone)]
struct Files(Rc<HashMap<String, Vec<u8>>>);
impl IncludeResolver for Files {
  fn resolve(&mut self, t: IncludeTarget, buf: &mut dyn IncludeBuffer, _: SafeMode) -> Result<usize, ResolveError> {
    let p = match &t {
      IncludeTarget::FilePath(p) => p.clone(),
      IncludeTarget::Uri(u) => u.clone(),
    };
    let name = p.rsplit('/').next().unwrap();
    let Some(c) = self.0.get(name) else { return Err(ResolveError::NotFound) };
    buf.initialize(c.len());
    buf.as_bytes_mut().copy_from_slice(c);
    Ok(c.len())
  }
  fn get_base_dir(&self) -> Option<String> {
    Some("/base".into())
  }
  fn clone_box(&self) -> Box<dyn IncludeResolver> {
    Box::new(self.clone())
  }
}

fn convert(src: &str, files: &Files) -> (Result<String, String>, Vec<String>) {
  let b = Bump::new();
  let mut p = Parser::from_str(src, SourceFile::Path(Path::new("/base/t.adoc")), &b);
  p.apply_job_settings(JobSettings { safe_mode: SafeMode::Unsafe, embedded: true, strict: false, ..JobSettings::default() });
  p.set_resolver(Box::new(files.clone()));
  match p.parse() {
    Ok(res) => {
      let w = res.warnings.iter().map(|d| d.message.clone()).collect();
      (asciidork_dr_html_backend::convert(res.document).map_err(|e| format!("{e:?}")), w)
    }
    Err(e) => (Err(e.iter().map(|d| d.plain_text()).collect::<Vec<_>>().join("\n")), vec![]),
  }
}

// ---- the reference ----
fn num(s: &str) -> Option<u128> {
  let d = s.strip_prefix('+').unwrap_or(s);
  (!d.is_empty() && d.len() < 30 && d.bytes().all(|b| b.is_ascii_digit())).then(|| d.parse().unwrap()).filter(|n| *n <= u64::MAX as u128)
}
fn by_lines(spec: &str, lines: &[String]) -> Vec<String> {
  let mut any = false;
  let mut on = vec![false; lines.len() + 1];
  for part in spec.split([',', ';']) {
    let part = part.trim();
    let (lo, hi) = match part.find("..") {
      Some(i) => (num(&part[..i]), match &part[i + 2..] {
        "" | "-1" => Some(u128::MAX),
        h => num(h),
      }),
      None => (num(part), num(part)),
    };
    if let (Some(lo), Some(hi)) = (lo, hi)
      && lo <= hi
    {
      any = true;
      for n in 1..=lines.len() {
        if lo <= n as u128 && n as u128 <= hi {
          on[n] = true;
        }
      }
    }
  }
  if !any {
    return lines.to_vec();
  }
  (1..=lines.len()).filter(|n| on[*n]).map(|n| lines[n - 1].clone()).collect()
}

/// `\b(tag|end)::(\S+?)\[\](?=$|[ \r])`
fn directive(l: &str) -> Option<(bool, String)> {
  let c: Vec<char> = l.chars().collect();
  for i in 0..c.len() {
    let rest: String = c[i..].iter().collect();
    let end = rest.starts_with("end::");
    if !end && !rest.starts_with("tag::") || i > 0 && (c[i - 1].is_alphanumeric() || c[i - 1] == '_') {
      continue;
    }
    let mut j = i + 5;
    while j < c.len() && !c[j].is_whitespace() {
      if j > i + 5 && c[j] == '[' && c.get(j + 1) == Some(&']') && matches!(c.get(j + 2), None | Some(' ' | '\r')) {
        return Some((end, c[i + 5..j].iter().collect()));
      }
      j += 1;
    }
  }
  None
}

fn tag_rules(attr: &str, spec: &str) -> Vec<(String, bool)> {
  let mut m: Vec<(String, bool)> = vec![];
  let parts: Vec<&str> = if attr == "tag" { vec![spec] } else { spec.split([',', ';']).collect() };
  for p in parts {
    let p = p.trim();
    let (n, v) = match p.strip_prefix('!') {
      Some(n) => (n, false),
      None => (p, true),
    };
    if n.is_empty() || n.contains(char::is_whitespace) {
      continue;
    }
    match m.iter_mut().find(|(k, _)| k == n) {
      Some(e) => e.1 = v,
      None => m.push((n.to_string(), v)),
    }
  }
  m
}

struct Tagged {
  lines: Vec<String>,
  warn: bool,
}
/// a transcription of Asciidoctor's `PreprocessorReader`
fn by_tags(mut rules: Vec<(String, bool)>, lines: &[String]) -> Tagged {
  let take = |rules: &mut Vec<(String, bool)>, k: &str| rules.iter().position(|(n, _)| n == k).map(|i| rules.remove(i).1);
  let mut wildcard: Option<bool> = None;
  let base;
  if let Some(b) = take(&mut rules, "**") {
    base = b;
    if let Some(w) = take(&mut rules, "*") {
      wildcard = Some(w);
    } else if !b && rules.first().is_some_and(|r| !r.1) {
      wildcard = Some(true);
    }
  } else if rules.iter().any(|(n, _)| n == "*") {
    let first = rules[0].0 == "*";
    wildcard = take(&mut rules, "*");
    base = first && wildcard == Some(false);
  } else {
    base = !rules.iter().any(|r| r.1);
  }
  let mut select = base;
  let mut active: Option<String> = None;
  let mut stack: Vec<(String, bool)> = vec![];
  let mut out = vec![];
  let mut warn = false;
  let mut found: Vec<String> = vec![];
  for l in lines {
    match directive(l) {
      Some((true, t)) => {
        if Some(&t) == active.as_ref() {
          stack.pop();
          match stack.last() {
            Some((a, s)) => {
              active = Some(a.clone());
              select = *s;
            }
            None => {
              active = None;
              select = base;
            }
          }
        } else if rules.iter().any(|r| r.0 == t) {
          if let Some(i) = stack.iter().rposition(|r| r.0 == t) {
            stack.remove(i);
          }
          warn = true;
        }
      }
      Some((false, t)) => {
        if let Some((_, v)) = rules.iter().find(|r| r.0 == t) {
          select = *v;
          found.push(t.clone());
        } else if let Some(w) = wildcard {
          select = if active.is_some() && !select { false } else { w };
        } else {
          continue;
        }
        active = Some(t.clone());
        stack.push((t, select));
      }
      None => {
        if select {
          out.push(l.clone());
        }
      }
    }
  }
  warn |= !stack.is_empty() || rules.iter().any(|r| r.1 && !found.contains(&r.0));
  Tagged { lines: out, warn }
}

fn indent(n: usize, lines: &[String]) -> Vec<String> {
  let of = |l: &String| l.bytes().take_while(|b| *b == b' ' || *b == b'\t').count();
  let solid = |l: &String| !l.is_empty() && l != "\r";
  let Some(m) = lines.iter().filter(|l| solid(l)).map(of).min() else { return lines.to_vec() };
  lines.iter().map(|l| if solid(l) { " ".repeat(n) + &l[m..] } else { l.clone() }).collect()
}
/// the lines as an AsciiDoc file gives them
fn cleaned(text: &str) -> Vec<String> {
  let mut v: Vec<String> = text.split('\n').map(|l| l.to_string()).collect();
  let last = v.pop().unwrap();
  let mut v: Vec<String> = v.iter().map(|l| l.strip_suffix('\r').unwrap_or(l).trim_end_matches([' ', '\t']).to_string()).collect();
  if !last.is_empty() {
    v.push(last);
  }
  v
}
fn raw(text: &str) -> Vec<String> {
  let mut v: Vec<String> = text.split('\n').map(|l| l.to_string()).collect();
  if v.last().unwrap().is_empty() {
    v.pop();
  }
  v
}

const PLAIN: &[&str] = &["one", "two words", "  in", "\ttab", "   \t deep é", "", "", "x", "last  ", "end\t", "ünï", "::", "[]", " one", "-", "* no", "\u{a0}nb"];
const TAGGED: &[&str] = &[
  "// tag::a[]", "// end::a[]", "# tag::b[]", "# end::b[]", "tag::a[]", "end::a[]", "<!-- tag::c-1.x[] -->", "<!-- end::c-1.x[] -->", "  // tag::b[] ", "\tend::b[] x", "xtag::a[]", "tag::a[]x", "tag::a b[]", "tag::[]", "_end::a[]", "end::a[] tag::b[]", "tag:a[]", "(tag::é[]", "end::é[]",
  "tag::a[ ]", "tag::*[]", "end::*[]", "TAG::a[]", "tag::a[]\t", "é tag::a[]", "étag::a[]",
];
fn file(g: &mut Rng, tags: bool, blocks: &[&str]) -> Vec<String> {
  let n = g.below(9);
  let mut v = vec![];
  for _ in 0..n {
    if tags && g.chance(1, 2) {
      v.push(if g.chance(3, 4) { TAGGED[g.below(8)] } else { *g.pick(TAGGED) }.to_string());
    } else {
      v.push(g.pick(blocks).to_string());
    }
  }
  v
}
fn join(g: &mut Rng, v: &[String]) -> String {
  let crlf = g.chance(1, 6);
  let mut s = String::new();
  for l in v {
    s += l;
    if crlf && g.chance(2, 3) {
      s += "\r";
    }
    s += "\n";
  }
  if g.chance(1, 3) && s.ends_with('\n') && v.last().is_some_and(|l| !l.is_empty() && l.trim_end() == l.as_str()) {
    s.pop();
    if s.ends_with('\r') {
      s.pop();
    }
  }
  s
}
fn line_spec(g: &mut Rng) -> String {
  const P: &[&str] = &["1", "2", "3", "4", "5", "1..3", "2..4", "3..", "2..-1", "4..2", "0", "0..2", "x", "", "1..x", "..3", "99999999999999999999999", "3..99999999999999999999999", "18446744073709551615", "2..18446744073709551615", "18446744073709551614..", " 2 ", " 3..4 ", "2 ..3", "-1", "7..7", "2..2..3", "+3"];
  let sep = *g.pick(&[",", ";"]);
  let n = 1 + g.below(3);
  (0..n).map(|_| *g.pick(P)).collect::<Vec<_>>().join(sep)
}
/// (attribute, value) — leaving out what the test suite pins differently from Asciidoctor
fn tag_spec(g: &mut Rng) -> (&'static str, String) {
  const P: &[&str] = &["a", "b", "c-1.x", "!a", "!b", "!c-1.x", "*", "!*", "!**", "é", "", "!", " a ", "a b", "zz"];
  if g.chance(1, 3) {
    return ("tag", if g.chance(1, 12) { "**".into() } else { g.pick(P).to_string() });
  }
  let mut v: Vec<&str> = vec![];
  if g.chance(1, 10) {
    v.push("**");
  }
  for _ in 0..1 + g.below(4) {
    let p = *g.pick(P);
    let bare = |s: &str| s.trim().trim_start_matches('!').to_string();
    if v.iter().any(|q| bare(q) == bare(p)) && (v.iter().any(|q| *q == "!**") || bare(p) == "**" || bare(p) == "*") {
      continue;
    }
    if v.contains(&"**") && (p == "!**" || v.iter().any(|q| bare(q) == bare(p))) {
      continue;
    }
    if let Some(last) = v.iter().rev().find(|q| !bare(q).is_empty() && !bare(q).contains(' ')) {
      if *last == "**" && !p.starts_with('!') && p != "*" {
        continue;
      }
    }
    let real: Vec<&str> = v.iter().copied().filter(|q| !bare(q).is_empty() && !bare(q).contains(' ')).collect();
    if v.contains(&"**") && v.contains(&"*") && p.starts_with('!') {
      continue;
    }
    let follows = real.windows(2).any(|w| w[0] == "!**" && w[1].starts_with('!') && w[1] != "!*");
    if (follows || real.last() == Some(&"!**") && p.starts_with('!')) && bare(p) == "*" || follows && (p == "!*" || p == "*") {
      continue;
    }
    v.push(p);
  }
  let sep = *g.pick(&[",", ";"]);
  ("tags", v.join(sep))
}

fn main() {
  run("select", |r| {
    // 1. verbatim: line by line what the listing shows
    for _ in 0..r.tier(60_000, 600_000) {
      if !r.time_left() {
        break;
      }
      let g = &mut r.rng;
      let tags = g.chance(1, 2);
      let f = file(g, tags, PLAIN);
      let text = join(g, &f);
      let adoc = g.chance(1, 2);
      let name = if adoc { *g.pick(&["f.adoc", "f.txt", "f.asc"]) } else { *g.pick(&["f.rb", "f"]) };
      let src = if adoc { cleaned(&text) } else { raw(&text) };
      let mut attrs: Vec<String> = vec![];
      let mut want = src.clone();
      let mut warn = false;
      let lines = !tags || g.chance(1, 10);
      if tags {
        let (k, spec) = tag_spec(g);
        if !lines {
          let rules = tag_rules(k, &spec);
          if !rules.is_empty() {
            let t = by_tags(rules, &src);
            want = t.lines;
            warn = t.warn;
          }
        }
        attrs.push(format!("{k}=\"{spec}\""));
      }
      if lines {
        let spec = line_spec(g);
        want = by_lines(&spec, &src);
        attrs.insert(g.below(attrs.len() + 1), format!("lines=\"{spec}\""));
      }
      if g.chance(1, 4) {
        let n = *g.pick(&["0", "1", "3", "12", "x", "-1", "99999", ""]);
        if let Ok(n) = n.parse::<u16>() {
          want = indent(n as usize, &want);
        }
        attrs.push(format!("indent={n}"));
      }
      let attrs = attrs.join(",");
      let files = Files(Rc::new(HashMap::from([(name.to_string(), text.clone().into_bytes())])));
      let doc = format!("----\nBEGIN\ninclude::{name}[{attrs}]\nEND\n----\n");
      let pasted = format!("----\nBEGIN\n{}END\n----\n", want.iter().map(|l| format!("{l}\n")).collect::<String>());
      let input = format!("{doc}-- {name}:\n{text}");
      r.check("verbatim", if tags { "tags" } else { "lines" }, &input, || {
        let (got, w) = convert(&doc, &files);
        let (exp, _) = convert(&pasted, &files);
        if got != exp {
          return Err(format!("got {got:?}, expected {exp:?}"));
        }
        let mine: Vec<String> = w.into_iter().filter(|m| m.to_lowercase().contains("tag")).collect();
        if !warn && !mine.is_empty() {
          return Err(format!("warns without reason: {mine:?}"));
        }
        Ok(())
      });
    }
    // 2. warnings about tags
    for (attrs, text, want) in [
      ("tag=a", "x\n", "Tag `a` not found in included file"),
      ("tags=a;b", "tag::a[]\nx\nend::a[]\n", "Tag `b` not found in included file"),
      ("tags=a;b", "x\n", "Tags `a`, `b` not found in included file"),
      ("tag=a", "tag::a[]\nx\n", "Tag `a` was not closed"),
      ("tag=a", "x\ntag::a[]\nx\nend::a[]\nend::a[]\n", "Unexpected end tag `a`"),
      ("tags=a;b", "tag::a[]\ntag::b[]\nx\nend::a[]\nend::b[]\n", "Mismatched end tag, expected `b` but found `a`"),
    ] {
      let files = Files(Rc::new(HashMap::from([("f.adoc".to_string(), text.as_bytes().to_vec())])));
      let doc = format!("include::f.adoc[{attrs}]\n");
      r.check("warning", "warnings", format!("{doc}{text}"), || {
        let (_, w) = convert(&doc, &files);
        if !w.iter().any(|m| m == want) { Err(format!("{w:?}, expected {want}")) } else { Ok(()) }
      });
    }
    // 3. whole documents: the include reads like the lines pasted in
    const BLOCKS: &[&str] = &[
      "para", "more text", "one\rtwo", "", "", "", "* item", "** sub", ". num", "term:: def", "+", "== Sec", "=== Sub", ".title", "[NOTE]", "NOTE: x", "----", "====", "|===", "|a |b", "a|c", "|d", "'''", "image::x.png[]", "  literal", "// comment", "[source,rb]", "--", "____", "> q",
      "b", "<1> callout", "* [ ] todo", "[quote]", "a::", "'''", "`code` *b*", "[[id]]",
    ];
    for _ in 0..r.tier(25_000, 400_000) {
      if !r.time_left() {
        break;
      }
      let g = &mut r.rng;
      let tags = g.chance(1, 2);
      let mut f = file(g, tags, BLOCKS);
      f.extend(file(g, tags, BLOCKS));
      let text = join(g, &f);
      let src = cleaned(&text);
      let (attrs, want) = if tags {
        let (k, spec) = tag_spec(g);
        let rules = tag_rules(k, &spec);
        let w = if rules.is_empty() { src.clone() } else { by_tags(rules, &src).lines };
        (format!("{k}=\"{spec}\""), w)
      } else {
        let spec = line_spec(g);
        let w = by_lines(&spec, &src);
        (format!("lines=\"{spec}\""), w)
      };
      let pick = |g: &mut Rng| (0..g.below(4)).map(|_| format!("{}\n", g.pick(BLOCKS))).collect::<String>();
      let (before, after) = (pick(g), pick(g));
      let files = Files(Rc::new(HashMap::from([("f.adoc".to_string(), text.clone().into_bytes())])));
      let doc = format!("= T\n\nstart\n\n{before}include::f.adoc[{attrs}]\n{after}");
      let pasted = format!("= T\n\nstart\n\n{before}{}{after}", want.iter().map(|l| format!("{l}\n")).collect::<String>());
      r.check("document", "documents", format!("{doc}-- f.adoc:\n{text}"), || {
        // (what isn't converted even when pasted in says nothing about the include)
        let Ok((exp, _)) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| convert(&pasted, &files))) else { return Ok(()) };
        let (got, _) = convert(&doc, &files);
        if got != exp { Err(format!("got {got:?}\nexpected {exp:?}\nfor {pasted:?}")) } else { Ok(()) }
      });
    }
    // 4. encodings
    const CH: &[&str] = &["a", "é", "\u{feff}", "𝄞", "\u{ffff}", "\u{10ffff}", "\n", " ", "\u{ef}", "\u{d7ff}", "\u{e000}", "\0", "漢"];
    for _ in 0..r.tier(8_000, 100_000) {
      if !r.time_left() {
        break;
      }
      let g = &mut r.rng;
      let mut text = g.string(CH, 8);
      while text.starts_with('\u{feff}') {
        text.remove(0);
      }
      let le = |b: &mut Vec<u8>, t: &str| t.encode_utf16().for_each(|u| b.extend(u.to_le_bytes()));
      let be = |b: &mut Vec<u8>, t: &str| t.encode_utf16().for_each(|u| b.extend(u.to_be_bytes()));
      let mut bytes = vec![];
      let mut attr = "";
      match g.below(7) {
        0 => bytes.extend(text.bytes()),
        1 => {
          bytes.extend([0xEF, 0xBB, 0xBF]);
          bytes.extend(text.bytes())
        }
        2 => {
          bytes.extend([0xFF, 0xFE]);
          le(&mut bytes, &text)
        }
        3 => {
          bytes.extend([0xFE, 0xFF]);
          be(&mut bytes, &text)
        }
        4 => {
          attr = *g.pick(&["encoding=utf-16", "encoding=UTF-16", "encoding=utf16", "encoding=UTF16"]);
          le(&mut bytes, &text)
        }
        5 => {
          attr = "encoding=utf-8";
          bytes.extend(text.bytes())
        }
        _ => {
          attr = "encoding=UTF-16";
          bytes.extend([0xFF, 0xFE]);
          le(&mut bytes, &text)
        }
      }
      let whole = bytes.clone();
      let broken = g.chance(1, 4) && !bytes.is_empty();
      if broken {
        let i = g.below(bytes.len());
        match g.below(3) {
          0 => {
            bytes.remove(i);
          }
          1 => bytes[i] = g.below(256) as u8,
          _ => bytes.truncate(i),
        }
      }
      // what the bytes say
      let utf16 = |b: &[u8], le: bool| -> Option<String> {
        let mut b = b.to_vec();
        if b.len() % 2 == 1 {
          b.push(0);
        }
        let u: Vec<u16> = b.chunks(2).map(|c| if le { c[0] as u16 | (c[1] as u16) << 8 } else { (c[0] as u16) << 8 | c[1] as u16 }).collect();
        String::from_utf16(&u).ok()
      };
      let want = if bytes.starts_with(&[0xFF, 0xFE]) {
        utf16(&bytes[2..], true)
      } else if bytes.starts_with(&[0xFE, 0xFF]) {
        utf16(&bytes[2..], false)
      } else if attr.to_lowercase().contains("16") {
        utf16(&bytes, true)
      } else {
        String::from_utf8(bytes.strip_prefix(&[0xEF, 0xBB, 0xBF]).unwrap_or(&bytes).to_vec()).ok()
      };
      if bytes == whole {
        assert_eq!(want.as_ref(), Some(&text));
      }
      if want.as_ref().is_some_and(|w| w.contains("::") || w.contains('\r')) {
        continue;
      }
      let files = Files(Rc::new(HashMap::from([("f.dat".to_string(), bytes.clone())])));
      let doc = format!("----\nBEGIN\ninclude::f.dat[{attr}]\nEND\n----\n");
      r.check("encoding", "encodings", format!("{doc}{bytes:02x?}"), || {
        let (got, w) = convert(&doc, &files);
        match &want {
          Some(t) => {
            let (exp, _) = convert(&format!("----\nBEGIN\n{}END\n----\n", raw(t).iter().map(|l| format!("{l}\n")).collect::<String>()), &files);
            if got != exp { Err(format!("got {got:?}, expected {exp:?}; {w:?}")) } else { Ok(()) }
          }
          None => {
            if !w.iter().any(|m| m.starts_with("Error resolving file contents")) {
              return Err(format!("no error for invalid text: {got:?} {w:?}"));
            }
            Ok(())
          }
        }
      });
    }
  });
}
