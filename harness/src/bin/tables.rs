//! C08: tables of every format are drawn on a grid first, then written down; what is rendered
//! must be that grid, cell by cell, and its widths must be shares of the whole.
use asciidork_core::*;
use asciidork_parser::prelude::Parser;
use asciidork_parser::verif::{Bump, SourceFile};
use vx_harness::*;
use std::result::Result;

fn convert(src: &str, html5s: bool, strict: bool) -> Result<String, String> {
  let bump = Bump::new();
  let mut s = JobSettings::embedded();
  s.strict = strict;
  let mut p = Parser::from_str(src, SourceFile::Tmp, &bump);
  p.apply_job_settings(s);
  let doc = p.parse().map_err(|e| format!("{e:?}"))?.document;
  if html5s { asciidork_backend_html5s::convert(doc) } else { asciidork_dr_html_backend::convert(doc) }
    .map_err(|e| format!("{e:?}"))
}

#[derive(Clone, Debug, PartialEq)]
struct Cell {
  text: String,
  style: char,
  h: char,
  v: char,
  cols: usize,
  rows: usize,
  nested: Option<Table>,
}
#[derive(Clone, Debug, PartialEq, Default)]
struct Table {
  /// None: a width shared out
  widths: Vec<Option<f64>>,
  autowidth: bool,
  header: Option<Vec<Cell>>,
  body: Vec<Vec<Cell>>,
  footer: Option<Vec<Cell>>,
}

// ---- reading the html ----
fn attr(tag: &str, name: &str) -> Option<String> {
  let at = tag.find(&format!(" {name}=\""))? + name.len() + 3;
  Some(tag[at..at + tag[at..].find('"')?].to_string())
}
/// the text of the element starting at `i`, and where it ends
fn inner<'a>(html: &'a str, i: usize, name: &str) -> Result<(&'a str, usize), String> {
  let open = i + html[i..].find('>').ok_or("no >")? + 1;
  let (mut depth, mut j) = (1, open);
  loop {
    let lt = j + html[j..].find('<').ok_or(format!("<{name}> is not closed"))?;
    let rest = &html[lt..];
    if rest.starts_with(&format!("</{name}>")) {
      depth -= 1;
      if depth == 0 {
        return Ok((&html[open..lt], lt + name.len() + 3));
      }
    } else if rest.starts_with(&format!("<{name}>")) || rest.starts_with(&format!("<{name} ")) {
      depth += 1;
    }
    j = lt + 1;
  }
}
fn text_of(html: &str) -> String {
  let mut out = String::new();
  let mut tag = false;
  for c in html.chars() {
    match c {
      '<' => tag = true,
      '>' => tag = false,
      c if !tag => out.push(c),
      _ => {}
    }
  }
  out.replace("&#8201;", " ").replace("&quot;", "\"").replace("&lt;", "<").replace("&gt;", ">").replace("&amp;", "&")
}
fn read_rows(html: &str, head: bool) -> Result<Vec<Vec<Cell>>, String> {
  let mut rows = vec![];
  let mut i = 0;
  while let Some(at) = html[i..].find("<tr>") {
    let (row, end) = inner(html, i + at, "tr")?;
    let mut cells = vec![];
    let mut j = 0;
    while j < row.len() {
      let name = if row[j..].starts_with("<td ") { "td" } else { "th" };
      if !row[j..].starts_with(&format!("<{name} ")) {
        return Err(format!("a row holds {:?}", trunc(&row[j..], 80)));
      }
      let tag = &row[j..j + row[j..].find('>').unwrap()];
      let (body, e) = inner(row, j, name)?;
      j = e;
      let class = attr(tag, "class").unwrap_or_default();
      let pick = |pre: &str| class.split(' ').find_map(|c| c.strip_prefix(pre)).and_then(|w| w.chars().next()).unwrap_or('?');
      let nested = match body.find("<table") {
        Some(at) => Some(read_table(&body[at..])?),
        None => None,
      };
      let has = |t: &str| body.contains(t);
      let style = if head {
        if name == "th" && !has("<em>") && !has("<strong>") && !has("<code>") && !has("<pre>") && !has("class=\"paragraph") { 'd' } else { '?' }
      } else if name == "th" {
        'h'
      } else if nested.is_some() || has("class=\"paragraph") || has("<div class=\"content\"") || (has("<p>") && !has("</em>") && !has("</strong>") && !has("</code>")) {
        'a'
      } else if has("<pre>") {
        'l'
      } else if has("<em>") {
        'e'
      } else if has("<strong>") {
        's'
      } else if has("<code>") {
        'm'
      } else {
        'd'
      };
      cells.push(Cell {
        text: if nested.is_some() { String::new() } else { text_of(body).replace("\n", " ") },
        style,
        h: pick("halign-"),
        v: pick("valign-"),
        cols: attr(tag, "colspan").map_or(Ok(1), |s| s.parse()).map_err(|e| format!("{e}"))?,
        rows: attr(tag, "rowspan").map_or(Ok(1), |s| s.parse()).map_err(|e| format!("{e}"))?,
        nested,
      });
    }
    rows.push(cells);
    i = end;
  }
  Ok(rows)
}
fn read_table(html: &str) -> Result<Table, String> {
  let (all, _) = inner(html, 0, "table")?;
  let mut t = Table::default();
  let mut i = all.find("<colgroup>").ok_or("no colgroup")?;
  let (cols, e) = inner(all, i, "colgroup")?;
  for col in cols.split("<col").skip(1) {
    t.widths.push(match attr(col, "style") {
      Some(s) => Some(s.strip_prefix("width: ").and_then(|s| s.strip_suffix("%;")).and_then(|s| s.parse().ok()).ok_or(format!("width {s:?}"))?),
      None => None,
    });
  }
  i = e;
  let mut seen = String::new();
  while i < all.len() {
    let name = ["thead", "tbody", "tfoot"].into_iter().find(|n| all[i..].starts_with(&format!("<{n}>"))).ok_or(format!("a table holds {:?}", trunc(&all[i..], 60)))?;
    let (part, e) = inner(all, i, name)?;
    i = e;
    let mut rows = read_rows(part, name == "thead")?;
    seen.push_str(name);
    match name {
      "tbody" => t.body = rows,
      _ if rows.len() != 1 => return Err(format!("{} rows in {name}", rows.len())),
      "thead" => t.header = rows.pop(),
      _ => t.footer = rows.pop(),
    }
  }
  Ok(t)
}
fn shape(rows: &[Vec<Cell>]) -> String {
  rows.iter().map(|r| r.iter().map(|c| format!("{}{}{}{}+{}.{}", c.text, c.style, c.h, c.v, c.cols, c.rows)).collect::<Vec<_>>().join(" | ")).collect::<Vec<_>>().join(" // ")
}
/// no cell overlaps another, and all rows but the last are full
fn rectangle(t: &Table) -> Result<(), String> {
  let n = t.widths.len();
  let rows: Vec<&Vec<Cell>> = t.header.iter().chain(&t.body).chain(&t.footer).collect();
  let mut taken: Vec<Vec<bool>> = vec![vec![false; n]; rows.len()];
  for (r, row) in rows.iter().enumerate() {
    for cell in row.iter() {
      let c = (0..n).find(|c| !taken[r][*c]).ok_or(format!("row {r} has more cells than columns"))?;
      for dr in 0..cell.rows {
        for dc in 0..cell.cols {
          if c + dc >= n {
            return Err(format!("a cell of row {r} sticks out"));
          }
          if r + dr < rows.len() {
            if taken[r + dr][c + dc] {
              return Err(format!("a cell of row {r} overlaps another"));
            }
            taken[r + dr][c + dc] = true;
          }
        }
      }
    }
    if r + 1 < rows.len() && taken[r].contains(&false) {
      return Err(format!("row {r} of {} is not full", rows.len()));
    }
  }
  Ok(())
}
fn same(want: &Table, got: &Table) -> Result<(), String> {
  rectangle(got)?;
  if want.widths.len() != got.widths.len() {
    return Err(format!("{} columns, not {}", got.widths.len(), want.widths.len()));
  }
  for (i, (w, g)) in want.widths.iter().zip(&got.widths).enumerate() {
    let ok = match (w, g) {
      _ if want.autowidth => g.is_none(),
      (None, None) => true,
      (Some(w), Some(g)) => (w - g).abs() < 0.00011,
      _ => false,
    };
    if !ok {
      return Err(format!("column {i} is {g:?} wide, not {w:?}"));
    }
  }
  let all = |t: &Table| [shape(t.header.as_slice()), shape(&t.body), shape(t.footer.as_slice())];
  for ((w, g), what) in all(want).iter().zip(&all(got)).zip(["header", "body", "footer"]) {
    if w != g {
      return Err(format!("{what} reads {g}; not {w}"));
    }
  }
  for (w, g) in want.body.iter().flatten().zip(got.body.iter().flatten()) {
    match (&w.nested, &g.nested) {
      (None, None) => {}
      (Some(w), Some(g)) => same(w, g).map_err(|e| format!("in a nested table: {e}"))?,
      _ => return Err("a nested table is missing".into()),
    }
  }
  Ok(())
}

// ---- drawing ----
struct Pen<'a> {
  r: &'a mut Rng,
  n: usize,
}
#[derive(Clone, Copy, PartialEq)]
enum Format {
  Psv(char),
  Csv(char),
  Dsv(char),
}
impl Pen<'_> {
  fn word(&mut self) -> String {
    self.n += 1;
    format!("Z{}q", self.n)
  }
  /// text as written, and as read
  fn text(&mut self, f: Format, first_line: bool, defs: &mut Vec<(String, String)>) -> (String, String) {
    let (mut src, mut text) = (String::new(), String::new());
    if self.r.chance(1, 9) {
      return (src, text);
    }
    let mut quoted = false;
    let parts = 1 + self.r.below(3);
    let sep = match f {
      Format::Psv(c) | Format::Csv(c) | Format::Dsv(c) => c,
    };
    for i in 0..parts {
      if i > 0 {
        let gap = if first_line || self.r.chance(2, 3) { " " } else { "\n" };
        src.push_str(gap);
        text.push_str(gap);
        if gap == "\n" {
          quoted = true;
        }
      }
      let w = self.word();
      src.push_str(&w);
      text.push_str(&w);
      match self.r.below(12) {
        // a separator that is none
        0 if !sep.is_whitespace() => {
          match f {
            Format::Csv(_) => {
              quoted = true;
              src.push(sep)
            }
            _ => {
              src.push('\\');
              src.push(sep)
            }
          }
          text.push(sep);
          let w = self.word();
          src.push_str(&w);
          text.push_str(&w);
        }
        1 if !sep.is_whitespace() => {
          let name = format!("v{}", defs.len());
          let w = format!("{}{sep}{}", self.word(), self.word());
          src.push_str(&format!(" {{{name}}}"));
          text.push_str(&format!(" {w}"));
          defs.push((name, w));
        }
        // what looks like the spec of the next cell
        2 if matches!(f, Format::Psv(_)) => {
          let s = *self.r.pick(&["/a", "(2<", ":3*", ",s", ".d"]);
          if !s.contains(sep) {
            src.push_str(s);
            text.push_str(s);
          }
        }
        3 if matches!(f, Format::Csv(_)) => {
          quoted = true;
          src.push_str("\"\"y");
          text.push_str("\"y");
        }
        4 => {
          let s = *self.r.pick(&["\\n", " 2 = 2", " a b", " 3 * e.", "é"]);
          if !s.contains(sep) {
            src.push_str(s);
            text.push_str(s);
          }
        }
        _ => {}
      }
    }
    if let Format::Csv(_) = f {
      if quoted || self.r.chance(1, 5) {
        src = format!("\"{src}\"");
      }
    }
    (src, text)
  }

  fn table(&mut self, depth: usize, defs: &mut Vec<(String, String)>) -> (String, Table) {
    let nested = depth > 0;
    let mut attrs: Vec<String> = vec![];
    let mut opts: Vec<&str> = vec![];
    let (f, delim) = if nested {
      (Format::Psv('!'), "!===")
    } else {
      match self.r.below(12) {
        0..=4 => (Format::Psv('|'), "|==="),
        5 => {
          let c = *self.r.pick(&['¦', ';', '!', ':', 'x', '§', '%']);
          attrs.push(format!("separator={c}"));
          (Format::Psv(c), "|===")
        }
        6 => (Format::Csv(','), ",==="),
        7 => {
          attrs.push("format=csv".into());
          (Format::Csv(','), "|===")
        }
        8 => {
          let c = *self.r.pick(&[';', '|', 'x', '¦', ':']);
          attrs.push(format!("format=csv,separator={c}"));
          (Format::Csv(c), "|===")
        }
        9 => (Format::Dsv(':'), ":==="),
        10 => {
          attrs.push("format=dsv".into());
          (Format::Dsv(':'), "|===")
        }
        _ => {
          let c = *self.r.pick(&['x', '¦', ';', '|']);
          attrs.push(format!("separator={c}"));
          (Format::Dsv(c), ":===")
        }
      }
    };
    let psv = matches!(f, Format::Psv(_));
    let sep = match f {
      Format::Psv(c) | Format::Csv(c) | Format::Dsv(c) => c,
    };
    let n = 1 + self.r.below(if nested { 3 } else { 5 });
    let explicit = self.r.chance(1, 2);
    let mut t = Table::default();
    let spans = psv && n > 1 && self.r.chance(1, 2);
    // ---- columns ----
    let mut cols: Vec<(char, char, char)> = vec![('l', 't', 'd'); n];
    if self.r.chance(1, 8) {
      opts.push("autowidth");
      t.autowidth = true;
    }
    if explicit {
      let mut ws: Vec<Option<usize>> = vec![Some(1); n];
      match self.r.below(6) {
        0 => attrs.push(format!("cols={n}")),
        1 if n > 1 => attrs.push(format!("\"cols={n}*\"").replace("\"cols=", "cols=\"")),
        _ => {
          let mut items = vec![];
          let mut c = 0;
          // the columns of a table with spans look the same
          let mut first: Option<(String, Option<usize>, (char, char, char))> = None;
          while c < n {
            let (spec, w, looks) = match &first {
              Some(x) if spans => x.clone(),
              _ => {
                let mut spec = String::new();
                let mut looks = ('l', 't', 'd');
                if self.r.chance(1, 3) {
                  let (s, h) = *self.r.pick(&[("<", 'l'), ("^", 'c'), (">", 'r')]);
                  spec.push_str(s);
                  looks.0 = h;
                }
                if self.r.chance(1, 4) {
                  let (s, v) = *self.r.pick(&[(".<", 't'), (".^", 'm'), (".>", 'b')]);
                  spec.push_str(s);
                  looks.1 = v;
                }
                let w = match self.r.below(7) {
                  0 => {
                    spec.push('~');
                    None
                  }
                  1 => {
                    let w = self.r.below(101);
                    spec.push_str(&format!("{w}%"));
                    Some(w.max(1))
                  }
                  2 => {
                    let w = *self.r.pick(&[1, 2, 3, 10, 255, 0, 128]);
                    spec.push_str(&format!("{w}"));
                    Some(w.max(1))
                  }
                  _ => Some(1),
                };
                if self.r.chance(1, 4) {
                  let s = *self.r.pick(&['d', 'e', 's', 'm', 'h', 'l', 'a']);
                  spec.push(s);
                  looks.2 = s;
                }
                (spec, w, looks)
              }
            };
            first.get_or_insert((spec.clone(), w, looks));
            let k = if self.r.chance(1, 5) { 1 + self.r.below(n - c) } else { 1 };
            items.push(if k > 1 { format!("{k}*{spec}") } else { spec });
            for _ in 0..k {
              ws[c] = w;
              cols[c] = looks;
              c += 1;
            }
          }
          // one bare number is a number of columns
          if items.len() == 1 && items[0].bytes().all(|b| b.is_ascii_digit()) {
            items[0].push('d');
            cols = vec![(cols[0].0, cols[0].1, 'd'); n];
          }
          if items.len() == 1 && n == 1 && items[0].is_empty() {
            items[0].push('d');
          }
          let with = *self.r.pick(&[",", ";", ", "]);
          attrs.push(format!("cols=\"{}\"", items.join(with)));
        }
      }
      let sum: usize = ws.iter().flatten().sum();
      let autos = ws.iter().filter(|w| w.is_none()).count();
      let total = if autos > 0 && sum <= 100 { 100 } else { sum };
      t.widths = ws.iter().map(|w| w.map(|w| w as f64 * 100.0 / total as f64)).collect();
    } else {
      t.widths = vec![Some(100.0 / n as f64); n];
    }
    // ---- the header ----
    let mut implicit = false;
    let mut has_header = false;
    match self.r.below(6) {
      0 => {
        opts.push("header");
        has_header = true;
      }
      1 => opts.push("noheader"),
      2 | 3 => {
        implicit = true;
        has_header = true;
      }
      _ => {}
    }
    let want_footer = self.r.chance(1, 5);
    if want_footer {
      opts.push("footer");
    }
    // ---- the cells ----
    let nrows = 1 + self.r.below(5);
    let mut taken: Vec<Vec<bool>> = vec![vec![false; n]; nrows + 8];
    let mut rows: Vec<Vec<Cell>> = vec![];
    let mut src = String::new();
    let stop_short = self.r.chance(1, 8);
    let mut repeat: Option<(usize, Cell, String, bool)> = None;
    let mut line_start = true;
    let mut prev_empty_csv = false;
    'rows: for r in 0..nrows {
      let head = r == 0 && has_header;
      let mut row: Vec<Cell> = vec![];
      let one_line = r == 0 && (implicit || !explicit) || !psv || self.r.chance(1, 2);
      while let Some(c) = (0..n).find(|c| !taken[r][*c]) {
        let col = cols[if spans { 0 } else { c }];
        let room = (c..n).take_while(|c| !taken[r][*c]).count();
        let last = (0..n).filter(|c| !taken[r][*c]).count() == 1;
        if stop_short && r + 1 == nrows && r > 0 && !row.is_empty() && repeat.is_none() && psv {
          break;
        }
        let mut cell;
        if let Some((k, like, style, own_align)) = repeat.take() {
          cell = like.clone();
          if !own_align {
            cell.h = col.0;
          }
          cell.v = col.1;
          cell.style = if head { 'd' } else if style.is_empty() { col.2 } else { style.chars().next().unwrap() };
          if k > 1 {
            repeat = Some((k - 1, like, style, own_align));
          }
        } else {
          let mut spec = String::new();
          cell = Cell { text: String::new(), style: if head { 'd' } else { col.2 }, h: col.0, v: col.1, cols: 1, rows: 1, nested: None };
          let mut k = 1;
          if psv {
            if self.r.chance(1, 8) && (explicit || r > 0) {
              k = 1 + self.r.below(4);
              spec.push_str(&format!("{k}*"));
            } else if self.r.chance(1, 8) && !explicit && r == 0 && !last {
              k = 1 + self.r.below(room);
              spec.push_str(&format!("{k}*"));
            }
            if k == 1 && spans && self.r.chance(1, 2) {
              // a cell that reaches down could leave the rows below without any of their own
              cell.cols = 1 + self.r.below(room);
              cell.rows = if self.r.chance(1, 2) { 1 + self.r.below(3) } else { 1 };
              match (cell.cols, cell.rows) {
                (1, 1) => spec.push_str(*self.r.pick(&["1+", ".1+", "0+", "", ".0+"])),
                (1, b) => spec.push_str(&format!(".{b}+")),
                (a, 1) => spec.push_str(&format!("{a}+")),
                (a, b) => spec.push_str(&format!("{a}.{b}+")),
              }
            }
          }
          let mut own_align = false;
          let mut style = String::new();
          if psv {
            if self.r.chance(1, 8) {
              let (s, h) = *self.r.pick(&[("<", 'l'), ("^", 'c'), (">", 'r')]);
              spec.push_str(s);
              cell.h = h;
              own_align = true;
            }
            if self.r.chance(1, 8) && k == 1 {
              let (s, v) = *self.r.pick(&[(".<", 't'), (".^", 'm'), (".>", 'b')]);
              spec.push_str(s);
              cell.v = v;
            }
            if self.r.chance(1, 6) {
              let s = *self.r.pick(&['d', 'e', 's', 'm', 'h', 'l', 'a']);
              style.push(s);
              if sep != 'x' {
                spec.push(s);
              } else {
                style.clear();
              }
              if !style.is_empty() && !head {
                cell.style = s;
              }
            }
          }
          let (mut s, mut text) = self.text(f, one_line, defs);
          // literal text keeps its lines, and an AsciiDoc cell has syntax of its own
          if k > 1 || !matches!(cell.style, 'd' | 'h' | 's' | 'e' | 'm') {
            s = self.word();
            text = s.clone();
          }
          if cell.style != 'd' && text.is_empty() {
            s = self.word();
            text = s.clone();
          }
          if depth == 0 && sep == '|' && !head && k == 1 && cell.style == 'a' && !one_line && self.r.chance(1, 2) {
            let (inner, table) = self.table(1, defs);
            s = format!("\n{inner}");
            text.clear();
            cell.nested = Some(table);
          }
          cell.text = text.replace("\n", " ");
          // ---- writing ----
          if psv {
            let must_break = cell.nested.is_some();
            if !line_start {
              if one_line || (self.r.chance(1, 2) && !must_break) {
                if !spec.is_empty() || self.r.chance(1, 2) {
                  src.push(' ');
                }
              } else {
                src.push('\n');
              }
            }
            src.push_str(&spec);
            src.push(sep);
            if self.r.chance(1, 2) {
              src.push(' ');
            }
            src.push_str(&s);
            line_start = false;
            if must_break {
              src.push('\n');
              line_start = true;
            }
          } else {
            if !row.is_empty() {
              src.push(sep);
            }
            line_start = false;
            prev_empty_csv = s.is_empty() && row.is_empty();
            src.push_str(&s);
          }
          if k > 1 {
            repeat = Some((k - 1, cell.clone(), style, own_align));
          }
        }
        for dr in 0..cell.rows {
          for dc in 0..cell.cols {
            taken[r + dr][c + dc] = true;
          }
        }
        row.push(cell);
      }
      // rows below that are taken in full need a cell after them to show
      let empty_csv = !psv && n == 1 && prev_empty_csv;
      if empty_csv {
        return self.table(depth, defs);
      }
      rows.push(row);
      if r == 0 {
        src.push('\n');
        if implicit {
          src.push('\n');
        }
        line_start = true;
        if nrows > 1 && !implicit && !opts.contains(&"header") && !opts.contains(&"noheader") {
          // a blank line would make it a header
        }
      } else if psv && repeat.is_some() {
        if stop_short && r + 1 == nrows {
          break 'rows;
        }
      } else {
        if !line_start {
          src.push('\n');
        }
        line_start = true;
        if psv && self.r.chance(1, 4) {
          src.push('\n');
        }
      }
    }
    // the copies left over make up rows of their own
    if repeat.is_some() {
      return self.table(depth, defs);
    }
    while rows.last().is_some_and(|r| r.is_empty()) {
      rows.pop();
    }
    if !src.ends_with('\n') {
      src.push('\n');
    }
    // an implied header needs a line after it, and the first row must be on the first line
    if implicit && (rows.len() < 2 || rows[0].iter().any(|c| c.rows > 1)) {
      return self.table(depth, defs);
    }
    if !has_header && !opts.contains(&"noheader") && src.lines().nth(1).is_some_and(|l| l.is_empty()) {
      return self.table(depth, defs);
    }
    if has_header && !implicit && rows.len() == 1 && want_footer {
      return self.table(depth, defs);
    }
    if has_header {
      t.header = Some(rows.remove(0));
    }
    if want_footer {
      t.footer = rows.pop();
    }
    t.body = rows;
    if !opts.is_empty() {
      if self.r.chance(1, 2) {
        attrs.push(format!("options=\"{}\"", opts.join(",")));
      } else {
        attrs.insert(0, opts.iter().map(|o| format!("%{o}")).collect::<String>());
      }
    }
    let head = if attrs.is_empty() { String::new() } else { format!("[{}]\n", attrs.join(",")) };
    (format!("{head}{delim}\n{src}{delim}\n"), t)
  }
}

fn main() {
  run("tables", |r: &mut R| {
    let n = r.tier(6000, 60000);
    for _ in 0..n {
      if !r.time_left() {
        break;
      }
      let mut defs = vec![];
      let mut pen = Pen { r: &mut r.rng, n: 0 };
      let (src, want) = pen.table(0, &mut defs);
      let head: String = defs.iter().map(|(k, v)| format!(":{k}: {v}\n")).collect();
      let src = format!("{head}\n{src}\nafter\n");
      for html5s in [false, true] {
        let key = if html5s { "html5s" } else { "html" };
        r.check(key, key, &src, || {
          let html = convert(&src, html5s, true)?;
          let at = html.find("<table").ok_or("no table")?;
          let (_, end) = inner(&html, at, "table")?;
          if !html[end..].contains("after") || html[end..].contains("<table") {
            return Err(format!("after the table: {:?}", trunc(&html[end..], 200)));
          }
          same(&want, &read_table(&html[at..])?)
        });
      }
    }
    // widths of three digits and more
    for w in [100u32, 200, 255, 256, 300, 1000] {
      let src = format!("[cols=\"{w},1\"]\n|===\n|a |b\n|===\n\nafter\n");
      let key = if w > 255 { "wide-columns" } else { "width" };
      r.check(key, key, &src, || {
        let html = convert(&src, false, true)?;
        let at = html.find("<table").ok_or("no table")?;
        let t = read_table(&html[at..])?;
        match t.widths[..] {
          [Some(a), Some(b)] if (a - 100.0 * w as f64 / (w + 1) as f64).abs() < 0.001 && (a + b - 100.0).abs() < 0.001 => Ok(()),
          _ => Err(format!("widths {:?}", t.widths)),
        }
      });
    }
    // any text between the delimiters makes a rectangle, or is diagnosed
    let m = r.tier(6000, 60000);
    for _ in 0..m {
      if !r.time_left() {
        break;
      }
      let mut src = String::new();
      let g = &mut r.rng;
      let delim = *g.pick(&["|===", ",===", ":===", "!==="]);
      if g.chance(1, 2) {
        let mut attrs = vec![];
        for _ in 0..1 + g.below(3) {
          attrs.push(*g.pick(&[
            "cols=2", "cols=\"3*\"", "cols=\"1,~,2\"", "cols=\"2*a,1\"", "cols=\"0,0\"", "cols=\"300*\"", "cols=300", "cols=\"200,200%\"", "cols=\"~,~\"", "cols=\",\"", "cols=\"<.>9s,^\"", "%header", "%footer", "%autowidth",
            "%noheader", "format=csv", "format=dsv", "format=psv", "format=tsv", "separator=x", "separator=¦", "separator=;",
          ]));
        }
        src.push_str(&format!("[{}]\n", attrs.join(",")));
      }
      src.push_str(&format!("{delim}\n"));
      for _ in 0..g.below(24) {
        src.push_str(*g.pick(&[
          "|", "|", "| ", "|a ", "2+|", ".2+|", "3*|", "2.3+|b", "0+|", "9+|", " ", "\n", "\n\n", "a|", "l|x", "\\|", "\\", "\"", "\"\"", ",", ":", "!", "x", "¦", ";", "word", "*b*", "2*", "+", "é", "255*|", ".255+|", "<", "^.^e|",
          "{empty}", "{vbar}", "\n////\n", "//c\n", "|===x", "a| * i\n", "3+^s|", "\t",
        ]));
      }
      src.push_str(&format!("\n{delim}\n\nafter\n"));
      for html5s in [false, true] {
        let key = if html5s { "soup5" } else { "soup" };
        r.check(key, key, &src, || {
          let html = convert(&src, html5s, false)?;
          let Some(at) = html.find("<table") else { return Ok(()) };
          let t = read_table(&html[at..])?;
          rectangle(&t)?;
          let sum: f64 = t.widths.iter().flatten().sum();
          if t.widths.iter().all(|w| w.is_some()) && !t.widths.is_empty() && (sum - 100.0).abs() > 0.0001 * t.widths.len() as f64 {
            return Err(format!("the widths sum up to {sum}"));
          }
          if t.widths.iter().flatten().any(|w| !(0.0..=100.0).contains(w)) {
            return Err(format!("widths {:?}", t.widths));
          }
          Ok(())
        });
      }
    }
  });
}
