//! C17: every block of a document is in the output once, in the order and nested as it was written.
use asciidork_core::*;
use asciidork_parser::prelude::Parser;
use asciidork_parser::verif::{Bump, SourceFile};
use std::result::Result;
use vx_harness::*;

fn convert(src: &str, html5s: bool) -> Result<String, String> {
  let bump = Bump::new();
  let mut s = JobSettings::embedded();
  s.strict = false;
  let mut p = Parser::from_str(src, SourceFile::Tmp, &bump);
  p.register_plugin_macros(&["plug"]);
  p.apply_job_settings(s);
  let doc = p.parse().map_err(|e| format!("{e:?}"))?.document;
  if html5s { asciidork_backend_html5s::convert(doc) } else { asciidork_dr_html_backend::convert(doc) }.map_err(|e| format!("{e:?}"))
}

/// a document under construction: its source and the shape its output must have
struct G<'a> {
  r: &'a mut R,
  n: usize,
  want: String,
  /// what the last block was
  last: Last,
  /// nothing separates the next block from what is before it
  tight: bool,
  no_style: bool,
}
#[derive(Clone, Copy, PartialEq)]
enum Last {
  Text,
  Delimited,
  List,
}
#[derive(Clone, Copy, PartialEq)]
enum L {
  Ul,
  Ol,
  Dl,
}
#[derive(Clone)]
struct At {
  depth: usize,
  /// the markers of the lists this is in
  lists: Vec<String>,
  /// delimited blocks this is in, by their delimiter's character
  blocks: Vec<char>,
  /// attached to an item by a `+`
  attached: bool,
}

impl G<'_> {
  fn word(&mut self) -> String {
    self.n += 1;
    let w = format!("q{}q", self.n);
    self.want.push_str(&w);
    self.want.push(' ');
    w
  }
  fn unprinted(&mut self) -> String {
    self.n += 1;
    format!("q{}q", self.n)
  }
  fn open(&mut self, t: &str) {
    self.want.push_str(t);
    self.want.push('[');
  }
  fn close(&mut self) {
    self.want.push(']');
  }
  /// lines of running text
  fn lines(&mut self, max: usize) -> String {
    let n = 1 + self.r.rng.below(max);
    if self.r.rng.chance(1, 20) {
      return self.r.rng.pick(&["{empty}", "{blank}", "{empty}{blank}", "{empty}\n{empty}"]).to_string();
    }
    let mut out = vec![];
    for i in 0..n {
      let w = self.word();
      let l = match self.r.rng.below(14) {
        0 => { let x = self.word(); format!("{w} *{x}*") }
        1 => { let x = self.word(); format!("{w} `{x}` b") }
        2 => format!("{w},"),
        3 => format!("{w} + b"),
        4 => format!("{w} footnoted: b"),
        5 => format!("{w} [b]"),
        6 => format!("{w} * b"),
        7 => { let x = self.word(); format!("{w} https://a.b[{x}]") }
        8 if i > 0 => format!("+ {w}"),
        9 if i > 0 => format!("[{w}"),
        10 if i > 0 => format!("{w}:: "),
        11 if i > 0 => format!("({w})"),
        12 if i > 0 => format!("={w}"),
        13 if i > 0 => format!("{{{{{w}}}}}"),
        _ => w,
      };
      // what is a term of a description list elsewhere
      let l = l.trim_end_matches(":: ").to_string();
      out.push(l);
      if i + 1 < n && self.r.rng.chance(1, 14) {
        out.push(format!("// {}", self.unprinted()));
      }
    }
    out.join("\n")
  }
  fn blank(&mut self) -> String {
    "\n".repeat(1 + if self.r.rng.chance(1, 6) { 1 + self.r.rng.below(2) } else { 0 })
  }
  fn title(&mut self) -> String {
    let mut attrs = String::new();
    while self.r.rng.chance(1, 8) {
      self.n += 1;
      attrs.push_str(&match self.r.rng.below(5) {
        3 => "[[1i]]\n".to_string(),
        4 => "[.role]\n// c\n[[2i]]\n// c\n".to_string(),
        0 => "[.role]\n".to_string(),
        1 => format!("[#i{}]\n", self.n),
        _ => format!("[[i{}]]\n", self.n),
      });
    }
    if self.r.rng.chance(1, 6) {
      self.open("t");
      let w = self.word();
      self.close();
      if self.r.rng.chance(1, 2) { format!(".{w}\n{attrs}") } else { format!("{attrs}.{w}\n") }
    } else {
      attrs
    }
  }
  /// a block, without newline at its end
  fn block(&mut self, at: &At) -> String {
    let deep = at.depth >= 5;
    let (s, last) = self.any_block(at, if deep { 16 } else { 27 });
    self.last = last;
    s
  }
  fn any_block(&mut self, at: &At, kinds: usize) -> (String, Last) {
    if std::mem::take(&mut self.tight) {
      self.no_style = true;
      let kind = *self.r.rng.pick(&[3, 16]);
      let out = self.block_of(at, kind);
      self.no_style = false;
      return out;
    }
    let kind = self.r.rng.below(kinds);
    self.block_of(at, kind)
  }
  fn block_of(&mut self, at: &At, kind: usize) -> (String, Last) {
    let plain = std::mem::take(&mut self.no_style);
    match kind {
      0..=2 => {
        let t = self.title();
        self.open("p");
        let mut s = self.lines(3);
        self.close();
        // what begins in one text and ends in another
        if self.r.rng.chance(1, 8) {
          let (a, b) = *self.r.rng.pick(&[("(((", ")))"), ("pass:[", "]"), ("+++", "+++"), ("((", "))"), ("[.r]#", "#"), ("link:a[", "]"), ("footnote:[", "]"), ("**a", "**")]);
          s = if self.r.rng.chance(1, 2) { format!("w{b} {s}") } else { s };
          s = if s.contains(&format!("{b} ")) { s } else { format!("{s} {a}w") };
        }
        (format!("{t}{s}"), Last::Text)
      }
      3 | 4 => {
        let d = *self.r.rng.pick(&["----", "....", "```", ".....", "......"]);
        let t = if plain { String::new() } else { self.title() };
        let lang = if d == "```" && self.r.rng.chance(1, 3) { "rust" } else { "" };
        self.open("pre");
        let mut ls = vec![];
        for i in 0..1 + self.r.rng.below(3) {
          let w = self.word();
          ls.push(match self.r.rng.below(12) {
            0 => format!("* {w}"),
            1 => format!("+\n{w}"),
            2 if i > 0 => format!("\n{w}"),
            3 => format!("{w}::"),
            // (a table drops its comments)
            4 if !at.blocks.contains(&'|') => format!("// {w}"),
            5 => format!("== {w}"),
            6 => format!("[{w}]"),
            7 => format!(".{w}"),
            8 => format!("====\n{w}"),
            9 if !at.blocks.contains(&'|') => format!("|===\n{w}"),
            10 if d == "```" => format!("```{w}"),
            _ => w,
          });
        }
        self.close();
        (format!("{t}{d}{lang}\n{}\n{d}", ls.join("\n")), Last::Delimited)
      }
      5 => {
        self.open("adm");
        let s = self.lines(2);
        self.close();
        let a = *self.r.rng.pick(&["NOTE: ", "TIP: ", "[WARNING]\n", "[NOTE]\n"]);
        (format!("{a}{s}"), Last::Text)
      }
      6 => {
        // a table, of one row
        if at.blocks.contains(&'|') {
          return self.any_block(at, if at.depth >= 5 { 16 } else { 27 });
        }
        self.open("table");
        let t = self.title();
        let mut row = String::from("|===\n");
        for _ in 0..1 + self.r.rng.below(3) {
          self.open("td");
          let w = self.word();
          self.close();
          row.push_str(&format!("|{w} "));
        }
        self.close();
        (format!("{t}{row}\n|==="), Last::Delimited)
      }
      7 => {
        let w = self.unprinted();
        let d = *self.r.rng.pick(&["////", "/////"]);
        self.open("p");
        let inner = if d == "////" { "/////\n---\n" } else { *self.r.rng.pick(&["", "////\n", "----\n", "* a\n////\n\n"]) };
        let c = if self.r.rng.chance(1, 2) && !at.attached && !at.blocks.contains(&'|') { format!("{d}\n{w}\n\n{inner}* {w}\n{d}\n") } else { format!("// {w}\n") };
        let s = self.lines(2);
        self.close();
        (if c.starts_with("////") { format!("{c}\n{s}") } else { format!("{c}{s}") }, Last::Text)
      }
      8 => {
        self.open("v");
        let w = self.word();
        self.close();
        let d = "_".repeat(4 + at.blocks.iter().filter(|x| **x == '_').count());
        (format!("[verse]\n{d}\n{w}\n{d}"), Last::Delimited)
      }
      9 => {
        // (what is indented behind an item is its)
        if self.last == Last::List || at.attached {
          return self.any_block(at, if at.depth >= 5 { 16 } else { 27 });
        }
        self.open("pre");
        let mut ls = vec![];
        for _ in 0..1 + self.r.rng.below(2) {
          ls.push(format!(" {}", self.word()));
        }
        self.close();
        (ls.join("\n"), Last::Text)
      }
      10 => {
        let (style, shape) = *self.r.rng.pick(&[("quote", "quoteblock"), ("source", "pre"), ("literal", "pre"), ("verse", "v"), ("sidebar", "sidebarblock"), ("example", "exampleblock")]);
        let before = self.r.rng.chance(1, 2);
        if shape != "pre" {
          self.open(shape);
        }
        let id = self.title();
        if shape == "pre" {
          self.open(shape);
        }
        let t = if before { format!("{id}[{style}]\n") } else { format!("[{style}]\n{id}") };
        let w = self.word();
        let v = self.word();
        self.close();
        (format!("{t}{w}\n{v}"), Last::Text)
      }
      11 => {
        if at.attached {
          return self.any_block(at, if at.depth >= 5 { 16 } else { 27 });
        }
        self.open("h");
        let w = self.word();
        self.close();
        let eq = self.r.rng.pick(&["=", "=", "#"]).repeat(2 + self.r.rng.below(4));
        (format!("[{}]\n{eq} {w}", self.r.rng.pick(&["discrete", "float"])), Last::Delimited)
      }
      12 => {
        // text in quotes, and who said it
        self.open("quoteblock");
        let t = self.title();
        let w = self.word();
        let v = self.word();
        let who = self.word();
        self.close();
        let who = if self.r.rng.chance(1, 4) { format!("[{who}]") } else { who };
        (format!("{t}\"{w}\n{v}\"\n-- {who}"), Last::Text)
      }
      13 => {
        self.open("quoteblock");
        let t = self.title();
        let mut out = vec![];
        if self.r.rng.chance(1, 4) {
          // and who said it
          for _ in 0..1 + self.r.rng.below(2) {
            out.push(format!("> {}", self.word()));
          }
          out.push(format!("> -- {}", self.word()));
          self.close();
          return (format!("{t}{}", out.join("\n")), Last::Text);
        }
        for i in 0..1 + self.r.rng.below(2) {
          if i > 0 {
            out.push(">".to_string());
          }
          self.open("p");
          for _ in 0..1 + self.r.rng.below(2) {
            out.push(format!("> {}", self.word()));
          }
          self.close();
        }
        self.close();
        (format!("{t}{}", out.join("\n")), Last::Text)
      }
      14 => {
        // blocks in a cell
        if at.blocks.contains(&'|') {
          return self.any_block(at, if at.depth >= 5 { 16 } else { 27 });
        }
        self.open("table");
        let t = self.title();
        self.open("td");
        let mut inner = At { depth: at.depth + 2, lists: vec![], blocks: vec!['|'], attached: false };
        inner.depth = inner.depth.min(5);
        self.last = Last::Text;
        let s = self.blocks(&inner, 2);
        self.close();
        self.close();
        (format!("{t}|===\na|\n{s}|==="), Last::Delimited)
      }
      15 => {
        let t = self.title();
        let m = *self.r.rng.pick(&["image::a.png[]", "video::a.mp4[]", "audio::a.mp3[]", "<<<", "plug::a[]"]);
        let t = if m == "<<<" || m == "plug::a[]" { if t.starts_with('.') || t.contains("\n.q") { return (format!("{t}image::a.png[]"), Last::Text); } else { String::new() } } else { t };
        if m == "plug::a[]" {
          self.open("p");
          self.close();
        }
        (format!("{t}{m}"), Last::Text)
      }
      16..=20 => (self.delimited_as(at, plain), Last::Delimited),
      _ => (self.list(at), Last::List),
    }
  }
  fn delimited(&mut self, at: &At) -> String {
    self.delimited_as(at, false)
  }
  fn delimited_as(&mut self, at: &At, plain: bool) -> String {
    let (c, cls) = *self.r.rng.pick(&[('=', "exampleblock"), ('*', "sidebarblock"), ('_', "quoteblock"), ('-', "openblock"), ('=', "adm")]);
    if c == '-' && at.blocks.contains(&'-') {
      return self.delimited_as(at, plain);
    }
    let len = 4 + at.blocks.iter().filter(|x| **x == c).count();
    self.last = Last::Text;
    let delim: String = if c == '-' { "--".into() } else { c.to_string().repeat(len) };
    let cls = if plain && cls == "adm" { "exampleblock" } else { cls };
    self.open(cls);
    let style = if cls == "adm" { "[NOTE]\n" } else { "" };
    let t = if plain { String::new() } else { self.title() };
    let mut inner = at.clone();
    inner.depth += 1;
    inner.lists.clear();
    inner.blocks.push(c);
    inner.attached = false;
    let s = self.blocks(&inner, 3);
    self.close();
    format!("{style}{t}{delim}\n{s}{delim}")
  }
  /// some blocks, each followed by at least a newline
  fn blocks(&mut self, at: &At, max: usize) -> String {
    let mut out = String::new();
    let n = 1 + self.r.rng.below(max);
    self.last = Last::Text;
    for i in 0..n {
      let s = self.block(at);
      out.push_str(&s);
      out.push('\n');
      if i + 1 < n {
        // what delimits a block needs no blank line, nor does a macro
        let end = s.lines().last().unwrap_or("");
        if self.last != Last::List && ["image::", "video::", "audio::", "plug::", "<<<"].iter().any(|m| end.starts_with(m)) && self.r.rng.chance(1, 3) {
          continue;
        }
        if self.last == Last::Delimited && self.r.rng.chance(1, 4) {
          continue;
        }
        if (self.last == Last::List || s.starts_with('q') && !s.contains('[')) && at.depth < 6 && self.r.rng.chance(1, 5) {
          self.tight = true;
          continue;
        }
        let b = self.blank();
        out.push_str(&b);
        // (what is behind a list could be in it)
        if self.last == Last::List || self.r.rng.chance(1, 8) {
          out.push_str(if at.blocks.contains(&'|') || self.r.rng.chance(1, 12) { "'''\n\n" } else { "//-\n\n" });
          self.last = Last::Text;
        }
      }
    }
    out
  }
  fn list(&mut self, at: &At) -> String {
    let kind = *self.r.rng.pick(&[L::Ul, L::Ul, L::Ol, L::Dl]);
    let markers: &[&str] = match kind {
      L::Ul => &["*", "**", "***", "****", "*****", "-"],
      L::Ol => &[".", "..", "...", "....", ".....", "1."],
      L::Dl => &["::", ":::", "::::", ";;"],
    };
    let m = loop {
      let m = self.r.rng.pick::<&str>(markers).to_string();
      if !at.lists.contains(&m) {
        break m;
      }
      if markers.iter().all(|m| at.lists.contains(&m.to_string())) {
        return self.list(at);
      }
    };
    let mut inner = at.clone();
    inner.lists.push(m.clone());
    inner.depth += 1;
    let t = if at.attached || at.lists.is_empty() { self.title() } else { String::new() };
    let name = match kind {
      L::Ul => "ul",
      L::Ol => "ol",
      L::Dl => "dl",
    };
    self.open(name);
    let mut items = vec![];
    for i in 0..1 + self.r.rng.below(3) {
      // attributes start another list
      let apart = i > 0 && at.lists.is_empty() && !at.attached && self.r.rng.chance(1, 8);
      if apart {
        self.close();
        self.open(name);
      }
      let it = self.item(kind, &m, &inner);
      items.push(format!("{}{it}", if apart { "[.role]\n" } else { "" }));
    }
    self.close();
    let mut out = t;
    let n = items.len();
    for (i, it) in items.into_iter().enumerate() {
      out.push_str(&it);
      if i + 1 < n {
        out.push('\n');
        if self.r.rng.chance(1, 3) {
          out.push_str(&self.blank());
        }
      }
    }
    out
  }
  fn item(&mut self, kind: L, m: &str, at: &At) -> String {
    let mut out = String::new();
    if kind == L::Dl {
      loop {
        self.open("dt");
        let w = self.word();
        self.close();
        let term = match self.r.rng.below(10) {
          0 => format!("[{w}]"),
          1 => format!("*{w}*"),
          2 => format!("{w} [b]"),
          _ => w,
        };
        out.push_str(&format!("{term}{m}"));
        if !self.r.rng.chance(1, 6) {
          break;
        }
        out.push('\n');
      }
      self.open("dd");
      match self.r.rng.below(4) {
        0 => {
          out.push('\n');
        }
        1 => {
          let b = self.blank();
          out.push_str(&format!("\n{b}"));
        }
        _ => out.push(' '),
      }
      self.open("p");
      let s = self.lines(2);
      self.close();
      // (a line in brackets is a line of attributes)
      let first = out.rsplit('\n').next().unwrap_or("");
      if first.starts_with('[') && s.lines().next().unwrap_or("").ends_with(']') {
        out.push_str("(b) ");
        out.push_str(&s.replacen(']', "] b", 1));
      } else {
        out.push_str(&s);
      }
    } else {
      self.open("li");
      self.open("p");
      let s = self.lines(3);
      self.close();
      let check = if kind == L::Ul && self.r.rng.chance(1, 10) { *self.r.rng.pick(&["[x] ", "[ ] ", "[*] "]) } else { "" };
      let s = if !s.contains('\n') && self.r.rng.chance(1, 8) {
        match self.r.rng.below(5) {
          0 => format!("[{s}]"),
          1 => format!(".{s}"),
          2 => format!("// {s}"),
          3 => format!("---- {s}"),
          _ => format!("== {s}"),
        }
      } else {
        format!("{check}{s}")
      };
      let pad = if self.r.rng.chance(1, 8) { "  " } else { "" };
      out.push_str(&format!("{pad}{m} {s}"));
    }
    // attached blocks
    let mut para = false;
    for _ in 0..2 {
      if self.r.rng.chance(1, 4) {
        let mut a = at.clone();
        a.attached = true;
        a.depth += 1;
        // (a list would take what is attached next)
        let s = loop {
          let (n, want) = (self.n, self.want.len());
          let s = if self.r.rng.chance(1, 2) && at.depth < 6 { self.delimited(&a) } else { a.depth = 9; self.block(&a) };
          let _ = n;
          if !s.starts_with("//") {
            break s;
          }
          self.want.truncate(want);
        };
        // (a nested list isn't taken for text of an attached paragraph)
        para = true;
        out.push_str(&format!("\n+\n{s}"));
      }
    }
    if at.depth < 5 && at.lists.len() < 4 && self.r.rng.chance(1, 3) {
      let mut a = at.clone();
      a.attached = false;
      let s = self.list(&a);
      out.push('\n');
      if para || self.r.rng.chance(1, 3) {
        out.push_str(&self.blank());
      } else if self.r.rng.chance(1, 4) {
        out.push_str(if self.r.rng.chance(1, 2) { "[.role]\n" } else { "[square]\n" });
      }
      out.push_str(&s);
    }
    self.close();
    out
  }
}

/// a document with sections, and with parts where it is a book
fn document(r: &mut R) -> (String, String, bool) {
  let (mut src, mut want, mut n) = (String::new(), String::new(), 0);
  let book = r.rng.chance(1, 2);
  let header = book || r.rng.chance(1, 3);
  let parts = book && r.rng.chance(2, 3);
  let mut word = |want: &mut String| {
    n += 1;
    want.push_str(&format!("q{n}q "));
    format!("q{n}q")
  };
  let mut para = |r: &mut R, src: &mut String, want: &mut String| {
    let boxed = r.rng.chance(1, 5);
    want.push_str(if boxed { "exampleblock[p[" } else { "p[" });
    let w = word(want);
    want.push_str(if boxed { "]]" } else { "]" });
    src.push_str(&if boxed { format!("====\n{w}\n====\n\n") } else { format!("{w}\n\n") });
  };
  if header {
    src.push_str("= D\n");
    if book {
      src.push_str(":doctype: book\n");
    }
    for (a, n) in [(":sectnums:\n", 4), (":partnums:\n", 4), (":sectanchors:\n", 6), (":sectlinks:\n", 6), (":idprefix:\n", 6), (":part-signifier: P\n", 8)] {
      if r.rng.chance(1, n) {
        src.push_str(a);
      }
    }
    src.push('\n');
  }
  for _ in 0..r.rng.below(3) {
    para(r, &mut src, &mut want);
  }
  let mut heads = 50;
  let mut open: Vec<usize> = vec![];
  let mut head = |src: &mut String, want: &mut String, level: usize| {
    while open.last().is_some_and(|l| *l >= level) {
      open.pop();
      want.push(']');
    }
    heads += 1;
    src.push_str(["[.role]\n[[1x]]\n[.more]\n", "[[1x]]\n// c\n", "// c\n", "[.role]\n"].get(heads * 7 % 23).unwrap_or(&""));
    src.push_str(&format!("{} q{heads}q\n\n", "=".repeat(level + 1)));
    if level > 0 {
      open.push(level);
      want.push_str("s[");
    }
    want.push_str(&format!("h[q{heads}q ]"));
  };
  for _ in 0..(if parts { 1 + r.rng.below(2) } else { 1 }) {
    if parts {
      // (the title of a part is that of the text in front of its chapters)
      let title = r.rng.chance(1, 4);
      if title {
        src.push_str(".q40q\n");
      }
      head(&mut src, &mut want, 0);
      let k = r.rng.below(3);
      if k > 0 {
        want.push_str("openblock[");
        if title {
          want.push_str("t[q40q ]");
        }
        for _ in 0..k {
          para(r, &mut src, &mut want);
        }
        want.push(']');
      }
    }
    let mut level = 0;
    let mut special = false;
    for i in 0..1 + r.rng.below(5) {
      let deeper = r.rng.below(2);
      let next = if i == 0 { 1 } else { 1 + r.rng.below(level + 1 + deeper) };
      level = next.min(5);
      if level == 1 {
        special = r.rng.chance(1, 3);
        if special {
          let style = *r.rng.pick(&["abstract", "preface", "appendix", "glossary", "dedication", "colophon", "index", "bibliography", "acknowledgments"]);
          src.push_str(&format!("[{style}]\n"));
        }
      }
      head(&mut src, &mut want, level);
      for _ in 0..r.rng.below(3) {
        para(r, &mut src, &mut want);
      }
    }
  }
  head(&mut String::new(), &mut want, 0);
  want.truncate(want.rfind("h[").unwrap());
  // (nothing need follow a heading)
  if r.rng.chance(1, 3) {
    src.truncate(src.trim_end().len());
  }
  (src, want, parts)
}

/// the shape of what was written: its words, and the elements they are in
fn shape(html: &str, html5s: bool) -> Result<String, String> {
  let mut out = String::new();
  let mut stack: Vec<(String, bool)> = vec![];
  let mut rest = html;
  while let Some(c) = rest.chars().next() {
    if c == '<' {
      let Some(e) = rest.find('>') else { break };
      let tag = &rest[1..e];
      rest = &rest[e + 1..];
      if let Some(name) = tag.strip_prefix('/') {
        match stack.pop() {
          Some((n, shown)) if n == name => {
            if shown {
              out.push(']');
            }
          }
          open => return Err(format!("`</{name}>` closes {open:?} behind {out}")),
        }
        continue;
      }
      let name = tag.split([' ', '/']).next().unwrap().to_string();
      if ["br", "img", "hr", "input", "col", "meta"].contains(&name.as_str()) {
        continue;
      }
      let class = tag.find("class=\"").map(|i| tag[i + 7..].split(['"', ' ']).next().unwrap()).unwrap_or("");
      let parent_verse = stack.iter().any(|(n, _)| n == "pre");
      let show = match name.as_str() {
        "table" if class != "tableblock" => None,
        "ul" | "ol" | "dl" | "li" | "dt" | "dd" | "table" => Some(name.clone()),
        "td" if class == "icon" || class == "content" => None,
        "td" | "th" => Some("td".to_string()),
        "pre" if class == "content" => None,
        "pre" => Some("pre".into()),
        "p" if class == "tableblock" => None,
        "p" if !parent_verse => Some("p".into()),
        "div" => match class {
          "exampleblock" | "sidebarblock" | "quoteblock" | "openblock" => Some(class.to_string()),
          "admonitionblock" => Some("adm".into()),
          "title" => Some("t".into()),
          "verseblock" => Some("v".into()),
          "sect1" | "sect2" | "sect3" | "sect4" | "sect5" => Some("s".into()),
          _ => None,
        },
        "h1" | "h2" | "h3" | "h4" | "h5" | "h6" => Some("h".into()),
        "section" if tag.contains("level-") && !tag.contains("level-0") => Some("s".into()),
        "caption" => Some("t".into()),
        _ => None,
      };
      let show = if html5s && !matches!(name.as_str(), "ul" | "ol" | "li" | "dl" | "dt" | "dd" | "section") { None } else { show };
      if let Some(s) = &show {
        out.push_str(s);
        out.push('[');
      }
      stack.push((name, show.is_some()));
      continue;
    }
    if c == 'q' {
      let n = rest[1..].bytes().take_while(|b| b.is_ascii_digit()).count();
      if n > 0 && rest[1 + n..].starts_with('q') {
        out.push_str(&rest[..n + 2]);
        out.push(' ');
        rest = &rest[n + 2..];
        continue;
      }
    }
    rest = &rest[c.len_utf8()..];
  }
  if !stack.is_empty() {
    return Err(format!("{stack:?} isn't closed"));
  }
  Ok(out)
}
/// of a shape only what html5s has as well
fn lists_only(want: &str) -> String {
  let mut out = String::new();
  let mut stack = vec![];
  let mut name = String::new();
  for c in want.chars() {
    match c {
      '[' => {
        let show = ["ul", "ol", "li", "dl", "dt", "dd", "s"].contains(&name.as_str());
        if show {
          out.push_str(&name);
          out.push('[');
        }
        stack.push(show);
        name.clear();
      }
      ']' => {
        if stack.pop() == Some(true) {
          out.push(']');
        }
      }
      ' ' => {
        out.push_str(&name);
        out.push(' ');
        name.clear();
      }
      c => name.push(c),
    }
  }
  out
}

fn main() {
  run("blocks", |r| {
    for (key, src, want) in [("long-dashes", "-----\nq1q\n-----\n", "pre[q1q ]"), ("delimiter-space", "---- \nq1q\n----\n", "pre[q1q ]")] {
      r.check(key, "dr-html", src.to_string(), || {
        let got = shape(&convert(src, false)?, false)?;
        if got != want { Err(format!("{got} is printed for {want}")) } else { Ok(()) }
      });
    }
    for i in 0..r.tier(2_000, 40_000) {
      if i % 64 == 0 && !r.time_left() {
        break;
      }
      let (src, want, _) = document(r);
      let html5s = r.rng.chance(1, 2);
      r.check("sections", if html5s { "html5" } else { "dr-html" }, format!("{}{src}", if html5s { "html5 " } else { "" }), || {
        let got = shape(&convert(&src, html5s)?, html5s)?;
        let want = if html5s { lists_only(&want) } else { want.clone() };
        if got != want { Err(format!("{got} is printed for {want}")) } else { Ok(()) }
      });
    }
    let n = r.tier(12_000, 250_000);
    for i in 0..n {
      if i % 64 == 0 && !r.time_left() {
        break;
      }
      let mut g = G { r, n: 0, want: String::new(), last: Last::Text, tight: false, no_style: false };
      let at = At { depth: 0, lists: vec![], blocks: vec![], attached: false };
      let max = 1 + g.r.rng.below(4);
      let src = g.blocks(&at, max);
      let want = g.want.clone();
      let html5s = r.rng.chance(1, 4);
      r.check("shape", if html5s { "html5" } else { "dr-html" }, format!("{}{src}", if html5s { "html5 " } else { "" }), || {
        let out = convert(&src, html5s)?;
        // an admonition's paragraph has no element of its own
        let want = if html5s { lists_only(&want) } else { want.clone() };
        // (the icon of an admonition)
        let got = shape(&out, html5s)?.replace("t[]", "");
        if got != want {
          return Err(format!("{got} is printed for {want}"));
        }
        Ok(())
      });
    }
  });
}
