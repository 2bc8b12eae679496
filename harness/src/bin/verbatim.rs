//! C21: verbatim text is printed as it was written, escaped when its special characters are to be
//! substituted, and nothing in it is taken for markup unless that substitution was asked for.
use asciidork_core::*;
use asciidork_parser::prelude::Parser;
use asciidork_parser::verif::{Bump, SourceFile};
use vx_harness::*;
use std::result::Result;

fn convert(src: &str, html5s: bool) -> Result<String, String> {
  let bump = Bump::new();
  let mut s = JobSettings::embedded();
  s.strict = false;
  let mut p = Parser::from_str(src, SourceFile::Tmp, &bump);
  p.apply_job_settings(s);
  let doc = p.parse().map_err(|e| format!("{e:?}"))?.document;
  if html5s { asciidork_backend_html5s::convert(doc) } else { asciidork_dr_html_backend::convert(doc) }
    .map_err(|e| format!("{e:?}"))
}
fn esc(s: &str) -> String {
  s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;")
}

const FRAGS: &[&str] = &[
  "\\", "\\\\", "\\n", "\\\"", "\\[", "\\*b*", "*b*", "**b**", "_i_", "__i__", "`m`", "``m``", "+p+", "++q++", "+++r+++", "pass:[x]",
  "pass:c[x]", "$$x$$", "<", ">", "&", "&amp;", "&#167;", "&#38;", "&lt;", "&#x1F;", "&copy;", "<<a>>", "<<a,b>>", "[[anch]]", "[[[bib]]]",
  "{v}", "{w}", "{e}", "{p}", "{m}", "{nope}", "\\{v}", "\\{nope}", "{set:a:b}", "{counter:k}", " +", "  ", "-> ", "<- ", "=>", "<=", "--", " -- ", "...",
  "(C)", "(TM)", "(R)", "it's", "'", "\"", "\"`x`\"", "'`x`'", "((t))", "(((a,b)))", "http://x.y[z]", "https://a.b", "<http://a.b>", "a@b.co", "link:x[y]",
  "image:a.png[]", "kbd:[F]", "footnote:[x]", "xref:a[b]", "#h#", "##h##", "[.r]#x#", "^u^", "~d~", "|", "!", "::", "a:: b", ":k: v", ":!k:",
  ":v: bad", ":!v:", "//c", "// c", "/", "#", "; ", ";;", "w", "word", "1", "é", "𝄞", "\t", "<b>", "<!-- x -->", "-->", "<!--", "[[x", "]]", "foo:bar[x]",
  "stem:[x]", "icon:h[]", "menu:a[b]", "btn:[x]", "`+x+`", "pass:q[*x*]", "pass:a[{v}]", ".", "..t", "* i", "- i", ". i", "== h", "= t",
  "[x]", "[NOTE]", "NOTE: ", ".T", "image::x[]", "toc::[]", "<.>x", "<1", "1>", "<1>x", "<!--2-->x", "\\<1>x", "# <1>x", "%%", "@", "$", "€", "|===", ",===", "[source]",
  "ifdef::q[]x", "\u{a0}", "\u{2028}", "mailto:a@b.co", "indexterm:[x]", "anchor:x[]", "'''", "---", "<<<", "^00000", "+++Unresolved",
];
/// where a line of such text ends a verbatim block, or is a directive instead, which applies before anything else
fn special_line(l: &str) -> bool {
  let t = l.trim();
  t.is_empty()
    || ["----", "....", "```", "--", "====", "++++", "____", "****", "////", "|===", ",===", ":===", "!===", "+"].contains(&t)
    || ["ifdef::", "ifndef::", "ifeval::", "endif::", "include::", "\\ifdef::", "\\include::"].iter().any(|p| l.trim_start().starts_with(p))
    || t.starts_with("```")
}
fn text(r: &mut R, kind: &Kind) -> String {
  let n = 1 + r.rng.below(4);
  loop {
    let mut lines: Vec<String> = vec![];
    for i in 0..n {
      let blank = kind.blanks && i > 0 && i + 1 < n && r.rng.chance(1, 5);
      let l = loop {
        let mut l = String::new();
        for _ in 0..1 + r.rng.below(5) {
          l.push_str(*r.rng.pick::<&str>(FRAGS));
          if r.rng.chance(1, 2) {
            l.push(' ');
          }
        }
        let mut l = l.trim_end_matches([' ', '\t', '\u{a0}', '\u{2028}']).to_string();
        if kind.paragraph {
          l = l.trim_start().to_string();
        }
        if kind.callouts && l.ends_with('>') {
          l.push('z');
        }
        if kind.cell {
          // the comment lines of a table are dropped
          l = l.replace('|', "!").replace("!===", "").replace("//", "/");
        }
        if !special_line(&l) && !(kind.first_word && i == 0) {
          break l;
        }
        if kind.first_word && i == 0 {
          break format!("word {l}").trim_end().to_string();
        }
      };
      lines.push(if blank { String::new() } else { l });
    }
    let body = lines.join("\n");
    if !lines.iter().enumerate().any(|(i, l)| (i == 0 || i + 1 == lines.len() || !l.is_empty()) && special_line(l)) {
      return body;
    }
  }
}

#[derive(Clone, Debug)]
struct Kind {
  name: &'static str,
  open: &'static str,
  close: &'static str,
  indent: &'static str,
  escaped: bool,
  callouts: bool,
  blanks: bool,
  pass: bool,
  paragraph: bool,
  first_word: bool,
  cell: bool,
}
fn kinds() -> Vec<Kind> {
  let k = |name, open, close, escaped, callouts, pass| Kind {
    name, open, close, indent: "", escaped, callouts, blanks: true, pass, paragraph: false, first_word: false, cell: false,
  };
  let mut ks = vec![
    k("listing", "----\n", "\n----", true, true, false),
    k("source", "[source,rust]\n----\n", "\n----", true, true, false),
    k("fenced", "```\n", "\n```", true, true, false),
    k("fenced-lang", "```ruby\n", "\n```", true, true, false),
    k("literal", "....\n", "\n....", true, true, false),
    k("literal-as-listing", "[listing]\n....\n", "\n....", true, true, false),
    k("listing-as-literal", "[literal]\n----\n", "\n----", true, true, false),
    k("open-as-source", "[source]\n--\n", "\n--", true, true, false),
    k("hardbreaks", "[%hardbreaks]\n----\n", "\n----", true, true, false),
    k("titled", ".Title\n[#id.role]\n----\n", "\n----", true, true, false),
    k("subs-verbatim", "[subs=verbatim]\n----\n", "\n----", true, true, false),
    k("subs-specialchars", "[subs=specialchars]\n----\n", "\n----", true, false, false),
    k("subs-minus-callouts", "[subs=-callouts]\n....\n", "\n....", true, false, false),
    k("subs-none", "[subs=none]\n----\n", "\n----", false, false, false),
    k("subs-none-literal", "[subs=none]\n....\n", "\n....", false, false, false),
    k("subs-callouts", "[subs=callouts]\n----\n", "\n----", false, true, false),
    k("subs-minus-specialchars", "[subs=-specialchars]\n----\n", "\n----", false, true, false),
    k("pass", "++++\n", "\n++++", false, false, true),
    k("pass-subs-none", "[subs=none]\n++++\n", "\n++++", false, false, true),
    k("pass-escaped", "[subs=specialchars]\n++++\n", "\n++++", true, false, true),
    k("pass-verbatim", "[subs=verbatim]\n++++\n", "\n++++", true, true, true),
    k("open-as-pass", "[pass]\n--\n", "\n--", false, false, true),
  ];
  for indent in [" ", "  ", "\t"] {
    ks.push(Kind {
      name: "indented", open: "", close: "", indent, escaped: true, callouts: true, blanks: false, pass: false, paragraph: true, first_word: true, cell: false,
    });
  }
  for (name, open, escaped, callouts) in [
    ("source-paragraph", "[source]\n", true, true),
    ("listing-paragraph", "[listing]\n", true, true),
    ("literal-paragraph", "[literal]\n", true, true),
  ] {
    ks.push(Kind {
      name, open, close: "", indent: "", escaped, callouts, blanks: false, pass: false, paragraph: true, first_word: true, cell: false,
    });
  }
  ks
}
/// the lines of a paragraph that would end it, or mean something at its beginning
fn ends_paragraph(l: &str) -> bool {
  (l.starts_with('[') && l.ends_with(']')) || l.starts_with("//")
}

fn found<'a>(out: &'a str, kind: &Kind) -> Result<&'a str, String> {
  if kind.pass {
    let i = out.find("BEGINX</p>").ok_or("no text before")? + "BEGINX</p>".len();
    let j = out.rfind("ENDX").ok_or("no text behind")?;
    let mut s = &out[i..j];
    for tag in ["</div>", "<div class=\"paragraph\">"] {
      s = s.strip_prefix(tag).unwrap_or(s);
    }
    let s = s.strip_suffix("<p>").ok_or("no paragraph behind")?;
    return Ok(s.strip_suffix("<div class=\"paragraph\">").unwrap_or(s));
  }
  let i = out.find("<pre").ok_or("no <pre>")?;
  let i = i + out[i..].find('>').unwrap() + 1;
  let j = out.rfind("</pre>").ok_or("no </pre>")?;
  let s = &out[i..j];
  if let Some(rest) = s.strip_prefix("<code") {
    return rest[rest.find('>').unwrap() + 1..].strip_suffix("</code>").ok_or("no </code>".into());
  }
  Ok(s)
}

fn indented(s: &str, by: &str) -> String {
  s.split('\n').map(|l| if l.is_empty() { String::new() } else { format!("{by}{l}") }).collect::<Vec<_>>().join("\n")
}

fn blocks(r: &mut R) {
  let ks = kinds();
  let n = r.tier(40_000, 700_000);
  for i in 0..n {
    if i % 512 == 0 && !r.time_left() {
      break;
    }
    let mut kind = ks[r.rng.below(ks.len())].clone();
    let place = *r.rng.pick(&["plain", "plain", "plain", "list", "dlist", "example", "cell", "text-before", "section", "nested"]);
    kind.cell = place == "cell";
    let body = text(r, &kind);
    if kind.paragraph && kind.indent.is_empty() && body.split('\n').any(ends_paragraph) {
      continue;
    }
    if kind.paragraph && (place != "plain" && place != "example" && place != "section") {
      continue;
    }
    if kind.open.contains("\n--\n") && body.split('\n').any(|l| l == "--") {
      continue;
    }
    // an indented line can be an item, or its term
    if kind.paragraph && body.split('\n').next().is_some_and(|l| l.contains("::") || l.contains(";;")) {
      continue;
    }
    // nor are the lines of such a block known to be verbatim as they are read
    if kind.open.contains("]\n--\n") && body.split('\n').any(|l| l.starts_with(':') && l.ends_with('\\')) {
      continue;
    }
    // the comment lines of a table are dropped
    if place == "cell" && body.split('\n').any(|l| l.starts_with("//")) {
      continue;
    }
    let block = format!("{}{}{}", kind.open, indented(&body, kind.indent), kind.close);
    let src = match place {
      "list" => format!("* item\n+\nBEGINX\n+\n{block}\n+\nENDX {{v}}"),
      "dlist" => format!("term:: def\n+\nBEGINX\n+\n{block}\n+\nENDX {{v}}"),
      "example" => format!("====\nBEGINX\n\n{block}\n\nENDX {{v}}\n===="),
      "nested" => format!("=====\n****\n* a\n+\n--\nBEGINX\n\n{block}\n\nENDX {{v}}\n--\n****\n====="),
      "cell" => format!("|===\na|\nBEGINX\n\n{block}\n\nENDX {{v}}\n|==="),
      "text-before" => format!("BEGINX\n{block}\nENDX {{v}}"),
      "section" => format!("BEGINY\n\n== Section\n\nBEGINX\n\n{block}\n\nENDX {{v}}"),
      _ => format!("BEGINX\n\n{block}\n\nENDX {{v}}"),
    };
    if place == "nested" && kind.open.contains("\n--\n") {
      continue;
    }
    let missing = *r.rng.pick(&["", "", ":attribute-missing: drop\n", ":attribute-missing: drop-line\n", ":attribute-missing: warn\n"]);
    let hard = if r.rng.chance(1, 6) { ":hardbreaks-option:\n" } else { "" };
    // such a paragraph is not known to be verbatim until its references were resolved
    if (kind.paragraph || place == "cell" || kind.open.contains("]\n--\n")) && missing.contains("drop") && ["{nope}", "{m}", "{set", "{counter"].iter().any(|n| body.contains(n)) {
      continue;
    }
    let doc = format!(":v: vv\n:w: one <two> *three*\n:e:\n:p: pass:q[*x* y]\n{missing}{hard}\n{src}\n");
    let html5s = r.rng.chance(1, 2);
    let want = if kind.escaped { esc(&body) } else { body.clone() };
    r.check("verbatim-text", kind.name, format!("{}{doc}", if html5s { "html5 " } else { "" }), || {
      let out = convert(&doc, html5s)?;
      let got = found(&out, &kind)?;
      if got != want {
        return Err(format!("{got:?} is printed for {want:?}: {}", trunc(&out, 500)));
      }
      if !out.contains("ENDX vv") {
        return Err(format!("what follows is affected: {}", trunc(&out, 500)));
      }
      Ok(())
    });
  }
}

/// text that is passed through within a paragraph
fn inline(r: &mut R) {
  let n = r.tier(20_000, 300_000);
  for i in 0..n {
    if i % 512 == 0 && !r.time_left() {
      break;
    }
    let mut t = String::new();
    for _ in 0..1 + r.rng.below(4) {
      t.push_str(*r.rng.pick::<&str>(FRAGS));
      if r.rng.chance(1, 3) {
        t.push(' ');
      }
    }
    if t.contains('+') || t.contains('[') || t.contains(']') || t.contains('\\') || t.contains("pass:") || t.trim() != t || t.contains("ifdef") || t.contains("::") || t.contains(";;") {
      continue;
    }
    // handled where attributes are resolved, before it is known what they are in
    if ["{nope}", "{set", "{counter"].iter().any(|n| t.contains(n)) && r.rng.chance(2, 3) {
      continue;
    }
    let (open, close, escaped) = *r.rng.pick(&[
      ("+", "+", true),
      ("++", "++", true),
      ("+++", "+++", false),
      ("pass:[", "]", false),
      ("pass:c[", "]", true),
      ("pass:specialchars[", "]", true),
      ("pass:v[", "]", true),
    ]);
    let doc = format!(":v: vv\n:w: one <two> *three*\n:e:\n\nBEGINX {open}{t}{close} ENDX {{v}}\n");
    let want = if escaped { esc(&t) } else { t.clone() };
    let html5s = r.rng.chance(1, 2);
    r.check("passed-through", open, format!("{}{doc}", if html5s { "html5 " } else { "" }), || {
      let out = convert(&doc, html5s)?;
      if !out.contains(&format!("<p>BEGINX {want} ENDX vv</p>")) {
        return Err(format!("{want:?} is printed as {}", trunc(&out, 400)));
      }
      Ok(())
    });
  }
}

/// one substitution is asked for, and only it is made
fn single(r: &mut R) {
  // (name, source, result of the substitution)
  let cases: &[(&str, &str, &str)] = &[
    ("quotes", "*bold*", "<strong>bold</strong>"),
    ("quotes", "_it_", "<em>it</em>"),
    ("quotes", "`mono`", "<code>mono</code>"),
    ("quotes", "#mark#", "<mark>mark</mark>"),
    ("quotes", "e^2^", "e<sup>2</sup>"),
    ("quotes", "e~2~", "e<sub>2</sub>"),
    ("quotes", "\"`q`\"", "&#8220;q&#8221;"),
    ("attributes", "{v}", "vv"),
    ("attributes", "{e}", ""),
    ("replacements", "(C)", "&#169;"),
    ("replacements", "(TM)", "&#8482;"),
    ("replacements", "a...", "a&#8230;&#8203;"),
    ("replacements", "a--b", "a&#8212;&#8203;b"),
    ("macros", "kbd:[F1]", "<kbd>F1</kbd>"),
    ("macros", "https://a.b[x]", "<a href=\"https://a.b\">x</a>"),
    ("macros", "link:u[x]", "<a href=\"u\">x</a>"),
    ("macros", "a@b.co", "<a href=\"mailto:a@b.co\">a@b.co</a>"),
    ("macros", "[[an]]", "<a id=\"an\"></a>"),
    ("macros", "<<v,x>>", "<a href=\"#v\">x</a>"),
    ("macros", "+++<u>+++", "<u>"),
    ("macros", "+a b+", "a b"),
    ("specialchars", "<", "&lt;"),
    ("specialchars", ">", "&gt;"),
    ("specialchars", "&", "&amp;"),
    ("none", "word", "word"),
    ("none", "{nope}", "{nope}"),
    ("none", "1.", "1."),
  ];
  let n = r.tier(30_000, 300_000);
  for i in 0..n {
    if i % 512 == 0 && !r.time_left() {
      break;
    }
    let names = ["quotes", "attributes", "replacements", "macros", "specialchars"];
    let asked: Vec<&str> = names.into_iter().filter(|_| r.rng.chance(2, 5)).collect();
    let block = *r.rng.pick(&["----", "....", "++++"]);
    let base: Vec<&str> = if block == "++++" { vec![] } else { vec!["specialchars"] };
    // either replaces what the block would get, or adds to it or takes away
    let (spec, on): (String, Vec<&str>) = match r.rng.below(3) {
      0 => (if asked.is_empty() { "none".into() } else { asked.join(",") }, asked),
      1 => {
        let added: Vec<&str> = asked.into_iter().filter(|a| *a != "specialchars").collect();
        let spec = if added.is_empty() { "-callouts".into() } else { added.iter().map(|a| if r.rng.chance(1, 2) { format!("+{a}") } else { format!("{a}+") }).collect::<Vec<_>>().join(",") };
        let mut on = base.clone();
        on.extend(added);
        (spec, on)
      }
      _ => {
        let mut on: Vec<&str> = base.iter().copied().filter(|b| !asked.contains(b)).collect();
        if asked.is_empty() {
          on = base.clone();
        }
        (if asked.is_empty() { "-callouts".into() } else { asked.iter().map(|a| format!("-{a}")).collect::<Vec<_>>().join(",") }, on)
      }
    };
    let mut body = vec![];
    let mut want = vec![];
    for _ in 0..1 + r.rng.below(3) {
      let (mut b, mut w) = (vec![], vec![]);
      for _ in 0..1 + r.rng.below(3) {
        let (name, src, res) = *r.rng.pick(cases);
        b.push(src.to_string());
        w.push(if on.contains(&name) {
          res.to_string()
        } else if on.contains(&"specialchars") {
          esc(src)
        } else {
          src.to_string()
        });
      }
      body.push(format!("w {} w", b.join(" w ")));
      want.push(format!("w {} w", w.join(" w ")));
    }
    // a footnote or a pass macro can hold others, and an empty reference leaves its blanks
    // the substitutions of a block are its own
    let holder = *r.rng.pick(&["====", "****", "____", "--", "|==="]);
    let cell = if holder == "|===" { "a|" } else { "" };
    let around = if r.rng.chance(1, 3) { format!("[subs=\"{spec}\"]\n{holder}\n{cell}w\n{holder}\n\n") } else { String::new() };
    let doc = format!(":v: vv\n:e:\n:experimental:\n\n{around}BEGINX\n\n[subs=\"{spec}\"]\n{block}\n{}\n{block}\n\nENDX\n\nbehind *it* (C) {{v}} kbd:[F1] & w\n", body.join("\n"));
    let want = want.join("\n");
    let html5s = r.rng.chance(1, 2);
    let kind = Kind { pass: block == "++++", ..kinds()[0].clone() };
    r.check("only-asked-for", &format!("{block} {}", on.join(" ")), format!("{}{doc}", if html5s { "html5 " } else { "" }), || {
      let out = convert(&doc, html5s)?;
      let got = found(&out, &kind)?;
      let norm = |s: &str| s.replace("<b>", "<strong>").replace(" class=\"key\"", "").replace(" aria-hidden=\"true\"", "").replace("&#8212;&#8203;", "&#8211;").replace("&#x201c;", "&#8220;").replace("&#x201d;", "&#8221;");
      if norm(got) != norm(&want) {
        return Err(format!("with {on:?}, {got:?} is printed for {want:?}"));
      }
      if !norm(&out).contains("behind <strong>it</strong> &#169; vv <kbd>F1</kbd> &amp; w") {
        return Err(format!("the substitutions of a block are those of the text behind it: {out}"));
      }
      Ok(())
    });
  }
}

fn main() {
  run("verbatim", |r: &mut R| {
    blocks(r);
    inline(r);
    single(r);
  });
}
