//! document text never becomes markup: both HTML backends, every place a document can put text
use asciidork_core::*;
use asciidork_parser::prelude::Parser;
use asciidork_parser::verif::{Bump, SourceFile};
use std::result::Result;
use vx_harness::*;

/// `@` is where the payload goes, `@@` a literal `@`
const TEMPLATES: &[&str] = &[
  "PARA@",
  "*@*",
  "`@`",
  "_@_",
  "== @\n\nx",
  ".@\npara",
  "= @\n\nx",
  "= T\nMc @ Ly\n\nx",
  "= T\n:description: @\n\nx",
  "= T\n:keywords: @\n\nx",
  "= T\n:toc:\n:toc-title: @\n\n== x",
  "= T\n:toc:\n\n== @\n\nx",
  "----\n@\n----",
  "....\n@\n....",
  "[source,@]\n----\nx\n----",
  "[source,\"@\"]\n----\nx\n----",
  "= T\n:source-language: @\n\n----\nx\n----",
  "image::x.png[@]",
  "image::x.png[\"@\"]",
  "image::x.png[alt=\"@\"]",
  "image::x.png[title=\"@\"]",
  "image::x.png[width=\"@\"]",
  "image::x.png[link=\"@\"]",
  "image::x.png[align=\"@\"]",
  "image::x.png[role=\"@\"]",
  "image::@.png[]",
  "image:x.png[@]",
  "image:x.png[\"@\"]",
  "image:x.png[title=\"@\"]",
  "image:x.png[width=\"@\"]",
  "image:x.png[link=\"@\"]",
  "image:x.png[window=\"@\",link=x]",
  "image:@.png[]",
  "icon:@[]",
  "icon:x[title=\"@\"]",
  "icon:x[size=\"@\"]",
  "http://x.com[@]",
  "http://x.com[\"@\"]",
  "http://x.com[x,window=\"@\"]",
  "http://x.com[x,title=\"@\"]",
  "http://x.com[x,role=\"@\"]",
  "http://x.com[x,id=\"@\"]",
  "http://x.com/@[x]",
  "http://x.com/@",
  "link:@[x]",
  "link:++@++[x]",
  "mailto:a@b.c[x,@,@]",
  "xref:@[x]",
  "xref:a[@]",
  "<<a,@>>",
  "<<@>>",
  "[[@]]x",
  "anchor:@[] x",
  "anchor:a[@] <<a>>",
  "[#@]\nx",
  "[.@]\nx",
  "[role=\"@\"]\nx",
  "[id=\"@\"]\nx",
  "[.@]#x#",
  "[#@]#x#",
  "kbd:[@]",
  "btn:[@]",
  "menu:@[x]",
  "menu:x[@]",
  "footnote:[@]",
  "footnote:@[x]",
  "[quote,@,x]\nfoo",
  "[quote,x,@]\nfoo",
  "[quote,\"@\",\"@\"]\nfoo",
  "[verse,@,x]\nfoo",
  "[verse,\"@\",\"@\"]\nfoo",
  "* @",
  "@:: x",
  "x:: @",
  ". @",
  "[start=\"@\"]\n. x",
  "[@]\n. x",
  "* [x] @",
  "NOTE: @",
  "[caption=\"@\"]\n.x\nimage::x.png[]",
  "= T\n:note-caption: @\n\nNOTE: x",
  "= T\n:figure-caption: @\n\n.x\nimage::x.png[]",
  "= T\n:table-caption: @\n\n.x\n|===\n|a\n|===",
  "= T\n:appendix-caption: @\n\n[appendix]\n== x",
  "= T\n:chapter-signifier: @\n:sectnums:\n:doctype: book\n\n== x",
  "= T\n:imagesdir: @\n\nimage::x.png[]",
  "= T\n:iconsdir: @\n:icons:\n\nNOTE: x",
  "= T\n:icons: font\n\nicon:x[role=\"@\"]",
  "= T\n:icons: font\n\nicon:@[]",
  "= T\n:x: @\n\n{x}",
  "= T\n:lang: @\n\nx",
  "= T\n:encoding: @\n\nx",
  "= T\n:favicon: @\n\nx",
  "= T\n:revnumber: @\n\nx",
  "= T\n:revdate: @\n\nx",
  "= T\n:revremark: @\n\nx",
  "= T\n:version-label: @\n:revnumber: 1\n\nx",
  "= T\n:copyright: @\n\nx",
  "= T\n:application-name: @\n\nx",
  "= T\n:app-name: @\n\nx",
  "= T\n:title: @\n\nx",
  "= T\n:docrole: @\n\nx",
  "= T\n:max-width: @\n\nx",
  "= T\n:css-signature: @\n\nx",
  "= T\n:toc-class: @\n:toc:\n\n== x",
  "= T\n:webfonts: @\n\nx",
  "= T\n:stylesheet: @\n:linkcss:\n\nx",
  "= T\n:stylesdir: @\n:linkcss:\n\nx",
  "= T\n:idprefix: @\n\n== x",
  "= T\n:idseparator: @\n\n== x y",
  "= T\nx y <@>\n\nx",
  "= T\nx y <a@@>\n\nx",
  "|===\n|@\n|===",
  "|===\na|@\n|===",
  "|===\nl|@\n|===",
  "[frame=\"@\"]\n|===\n|x\n|===",
  "[grid=\"@\"]\n|===\n|x\n|===",
  "[stripes=\"@\"]\n|===\n|x\n|===",
  "[width=\"@\"]\n|===\n|x\n|===",
  "[cols=\"@\"]\n|===\n|x\n|===",
  "[float=\"@\"]\n|===\n|x\n|===",
  ".@\n|===\n|x\n|===",
  "video::@[]",
  "video::x.mp4[poster=\"@\"]",
  "video::x.mp4[start=\"@\"]",
  "video::x.mp4[width=\"@\"]",
  "video::x.mp4[theme=\"@\"]",
  "video::@[youtube]",
  "video::@[vimeo]",
  "video::x[youtube,lang=\"@\"]",
  "video::x[youtube,list=\"@\"]",
  "video::x[youtube,playlist=\"@\"]",
  "video::x[wistia,start=\"@\"]",
  "audio::@[]",
  "audio::x.mp3[start=\"@\"]",
  "audio::x.mp3[end=\"@\"]",
  "include::@[]",
  "[@]\nx",
  "[discrete]\n== @",
  "[discrete,id=\"@\"]\n== x",
  "----\nx <1>\n----\n<1> @",
  "[horizontal,labelwidth=\"@\"]\na:: b",
  "[horizontal,itemwidth=\"@\"]\na:: b",
  "[qanda]\n@:: b",
  "((@)) x",
  "(((@))) x",
  "indexterm2:[@]",
  "\"`@`\"",
  "x@x",
  "^@^",
  "~@~",
  "#@#",
  "+@+",
  "toc::[]\n\n[id=\"@\"]\n== x",
  ":toc: macro\n\n[id=\"@\"]\ntoc::[]\n\n== x",
  "= T\n:toc: macro\n\n[id=\"@\"]\ntoc::[]\n\n== x",
  "= T\n:toc: macro\n\ntoc::[title=\"@\"]\n\n== x",
  "= T\n:toc: macro\n\ntoc::[role=\"@\"]\n\n== x",
  "====\n@\n====",
  ".@\n====\nx\n====",
  "[NOTE,caption=\"@\"]\nx",
  "[%collapsible]\n.@\n====\nx\n====",
  "= T\n:doctype: book\n\n= @\n\n== x",
  "= T\n:doctype: manpage\n\n== NAME\n\nx - @",
];

/// places whose text comes out unformatted: (before, after, html before, html after)
const EXACT: &[(&str, &str, &str, &str)] = &[
  ("----\n", "\n----", "<pre>", "</pre>"),
  ("....\n", "\n....", "<pre>", "</pre>"),
  ("[source,ruby]\n----\n", "\n----", "data-lang=\"ruby\">", "</code>"),
  ("para ", " end", ">para ", " end</p>"),
  ("* item ", " end", "item ", " end</p>"),
  ("== H ", " end\n\nx", "H ", " end</h2>"),
  (".T ", " end\npara", "T ", " end<"),
  ("|===\n|c ", " end\n|===", "c ", " end</p>"),
  ("term ", " end:: x", "term ", " end</dt>"),
  ("NOTE: n ", " end", "n ", " end<"),
  ("*b ", " end*", "<strong>b ", " end</strong>"),
  ("x footnote:[f ", " end]", "f ", " end"),
  ("http://x.com[l ", " end]", ">l ", " end</a>"),
];

/// attributes that change what the back ends write (not what takes text)
const FLAGS: &[(&str, &str)] = &[
  ("hide-uri-scheme", ""), ("icons", "font"), ("icons", "image"), ("sectnums", ""), ("sectanchors", ""), ("sectlinks", ""), ("partnums", ""),
  ("toc", "left"), ("hardbreaks-option", ""), ("html5s-image-default-link", "self"), ("icontype", "svg"), ("reproducible", ""), ("noheader", ""),
  ("relfileprefix", "../"), ("experimental", ""), ("linkattrs", ""), ("doctype", "book"), ("attribute-missing", "warn"), ("nofooter", ""), ("linkcss", ""),
  ("embedded", ""),
];

fn convert(src: &str, html5s: bool, flags: u64) -> Option<String> {
  let r = std::panic::catch_unwind(|| {
    let bump = Bump::new();
    let mut p = Parser::from_str(src, SourceFile::Tmp, &bump);
    let mut s = JobSettings::default();
    s.safe_mode = SafeMode::Server;
    s.strict = false;
    for (i, (name, value)) in FLAGS.iter().enumerate() {
      if flags >> i & 1 == 1 {
        match *name {
          "embedded" => s.embedded = true,
          "doctype" => s.doctype = Some(DocType::Book),
          _ => s.job_attrs.insert_unchecked(*name, JobAttr::readonly(if value.is_empty() { AttrValue::Bool(true) } else { AttrValue::String(value.to_string()) })),
        }
      }
    }
    p.apply_job_settings(s);
    let doc = p.parse().ok()?.document;
    if html5s {
      asciidork_backend_html5s::convert(doc).ok()
    } else {
      asciidork_dr_html_backend::convert(doc).ok()
    }
  });
  // a crash says nothing about escaping
  r.ok().flatten()
}

fn ref_len(s: &str) -> usize {
  // length of the character reference `s` starts with, 0 if none
  let Some(end) = s.find(';') else { return 0 };
  let body = &s[1..end];
  let ok = if let Some(h) = body.strip_prefix("#x") {
    !h.is_empty() && h.bytes().all(|b| b.is_ascii_hexdigit())
  } else if let Some(d) = body.strip_prefix('#') {
    !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit())
  } else {
    !body.is_empty() && body.bytes().all(|b| b.is_ascii_alphanumeric())
  };
  if ok { end + 1 } else { 0 }
}

/// walk the output as an HTML tokenizer would; complain about what the processor cannot have written
fn audit(html: &str) -> Result<(), String> {
  let mut rest = html;
  // the default stylesheet is fixed text
  let mut buf = String::new();
  if let (Some(a), Some(b)) = (html.find("<style>"), html.find("</style>")) {
    buf.push_str(&html[..a]);
    buf.push_str(&html[b + 8..]);
    rest = &buf;
  }
  let at = |r: &str| trunc(r, 60);
  while let Some(c) = rest.chars().next() {
    match c {
      '<' => {
        if rest.starts_with("<!DOCTYPE html>") {
          rest = &rest[15..];
          continue;
        }
        let start = rest;
        rest = &rest[1..];
        let close = rest.starts_with('/');
        if close {
          rest = &rest[1..];
        }
        let n = rest.find(|c: char| !c.is_ascii_alphanumeric()).unwrap_or(rest.len());
        let name = &rest[..n];
        if name.is_empty() || name.starts_with("zz") || !name.starts_with(|c: char| c.is_ascii_lowercase()) {
          return Err(format!("raw `<` or a tag of the document's: {}", at(start)));
        }
        rest = &rest[n..];
        loop {
          rest = rest.trim_start_matches(' ');
          if rest.starts_with("/>") {
            rest = &rest[2..];
            break;
          }
          if rest.starts_with('>') {
            rest = &rest[1..];
            break;
          }
          let n = rest.find(|c: char| !(c.is_ascii_lowercase() || c.is_ascii_digit() || c == '-')).unwrap_or(rest.len());
          let attr = &rest[..n];
          if close || attr.is_empty() || attr.contains("zx") {
            return Err(format!("attribute of the document's in {}: {}", at(start), at(rest)));
          }
          rest = &rest[n..];
          if rest.starts_with("=\"") {
            let Some(q) = rest[2..].find('"') else {
              return Err(format!("unclosed attribute value in {}", at(start)));
            };
            let value = &rest[2..2 + q];
            if value.contains(['<', '>']) {
              return Err(format!("raw angle bracket in the value of {attr} in {}: {}", at(start), at(value)));
            }
            amps(value)?;
            rest = &rest[2 + q + 1..];
          } else if !rest.starts_with([' ', '>']) {
            return Err(format!("broken tag {}: {}", at(start), at(rest)));
          }
        }
      }
      '>' => return Err(format!("raw `>`: {}", at(rest))),
      '&' => {
        let n = ref_len(rest);
        if n == 0 {
          return Err(format!("raw `&`: {}", at(rest)));
        }
        rest = &rest[n..];
      }
      c => rest = &rest[c.len_utf8()..],
    }
  }
  Ok(())
}

fn amps(value: &str) -> Result<(), String> {
  for (i, _) in value.match_indices('&') {
    if ref_len(&value[i..]) == 0 {
      return Err(format!("raw `&` in an attribute value: {}", trunc(&value[i..], 60)));
    }
  }
  Ok(())
}

/// what text must come out as: numeric references stay, everything else special is escaped
fn escaped(s: &str, verbatim: bool) -> String {
  let mut out = String::new();
  for (i, c) in s.char_indices() {
    match c {
      '&' if !verbatim && s[i..].starts_with("&#") && ref_len(&s[i..]) > 0 => out.push('&'),
      '&' => out.push_str("&amp;"),
      '<' => out.push_str("&lt;"),
      '>' => out.push_str("&gt;"),
      c => out.push(c),
    }
  }
  out
}

fn main() {
  run("escape", |r| {
    const FIXED: &[&str] = &[
      "<zz zx=\"1\">", "\" zx=\"1", "\" zx=\"1\" y=\"", "' zx='1", "\\\" zx=\\\"1", "a&b", "&lt;&<&#", "&#8217;é",
      "\"zx=\"1", "\">a<zz>", "zz\"zx=1", "&#x1F600;<", "a &#38;lt; b", "<b>", "<!-- zz -->", "</p><zz>", "&#60;&#6a;",
      "x<y", "x>y", "é&#8217;", "<é>", "x & y", "&&#", "\"", "&#;", "&#12", "é<zz>é", "<zz/zx>",
    ];
    const PIECES: &[&str] = &[
      "<", ">", "&", "\"", "'", "#", "&#", "&#8217;", "&#x41;", ";", "zz", "zx", "=", " ", "a", "é", "1", "/", "<zz>", "\" zx=\"",
      "-", "_", "*", ",", ".", "http://", "{", "}", "(C)", "...", "^", "~", ":", "%", "😀", "]", "[", "<<", ">>", "\\", "!",
    ];
    let some = |r: &mut R| {
      let mut flags = 0;
      for i in 0..FLAGS.len() {
        if r.rng.chance(1, 4) {
          flags |= 1u64 << i;
        }
      }
      flags
    };
    let shown = |src: &str, flags: u64| {
      let names: Vec<_> = FLAGS.iter().enumerate().filter(|(i, _)| flags >> i & 1 == 1).map(|(_, f)| format!("{}={}", f.0, f.1)).collect();
      if names.is_empty() { src.to_string() } else { format!("{src}\n(with {})", names.join(" ")) }
    };
    let one = |r: &mut R, t: &str, p: &str, flags: u64| {
      let src = t.replace("@@", "\u{1}").replace('@', p).replace('\u{1}', "@");
      for h5 in [false, true] {
        // `\\<-` is known to keep its `<` (a test pins it)
        let key = if src.contains("\\<-") { "escaped-left-arrow" } else { "injected" };
        r.check(key, if h5 { "html5" } else { "dr-html" }, &shown(&src, flags), || match convert(&src, h5, flags) {
          Some(html) => audit(&html),
          None => Ok(()),
        });
      }
    };
    for t in TEMPLATES {
      for p in FIXED {
        one(r, t, p, 0);
        let flags = some(r);
        one(r, t, p, flags);
      }
    }
    // text that passes through unformatted comes out exactly escaped
    const TEXT: &[&str] = &["<", ">", "&", "&#8217;", "&#x41;", "&#", ";", "a", "é", "1", " b", "x", "😀", "\"", "%"];
    for i in 0..r.tier(1500, 12000) {
      if !r.time_left() {
        break;
      }
      let (a, b, ha, hb) = EXACT[i % EXACT.len()];
      let p = loop {
        let p = format!("w{}w", r.rng.string(TEXT, 6));
        // pairs that mean something in running text
        if !["<<", ">>", "&;", "& b", ";; "].iter().any(|x| p.contains(x)) && !p.contains("  ") {
          break p;
        }
      };
      // named references are kept in running text, so leave them to the audit
      let named = p.match_indices('&').any(|(i, _)| ref_len(&p[i..]) > 0 && !p[i..].starts_with("&#"));
      if named {
        continue;
      }
      let src = format!("{a}{p}{b}\n");
      for h5 in [false, true] {
        r.check("text", if h5 { "text html5" } else { "text dr-html" }, &src, || {
          let Some(html) = convert(&src, h5, 0) else { return Ok(()) };
          audit(&html)?;
          // (no reference is one in verbatim text)
          let want = escaped(&p, a.contains("--") || a.contains(".."));
          if h5 && !ha.starts_with("<pre") && !ha.contains("ruby") {
            if html.contains(&want) { return Ok(()) }
          } else if html.contains(&format!("{ha}{want}{hb}")) {
            return Ok(());
          }
          Err(format!("expected {ha}{want}{hb} in {}", trunc(html.split("<body").last().unwrap_or(&html), 400)))
        });
      }
    }
    // random payloads in every place
    for _ in 0..r.tier(12000, 120000) {
      if !r.time_left() {
        break;
      }
      let t = *r.rng.pick(TEMPLATES);
      let p = if r.rng.chance(1, 3) {
        format!("{}{}", r.rng.pick(FIXED), r.rng.pick(FIXED))
      } else {
        r.rng.string(PIECES, 7)
      };
      if p.starts_with("//") || p.is_empty() {
        continue;
      }
      let flags = some(r);
      one(r, t, &p, flags);
    }
    one(r, "@", "x \\<- y", 0);
    // whole documents made of pieces, no template
    const DOC: &[&str] = &[
      "<zz>", "<", ">", "&", "\"", " zx=\"1\"", "*", "_", "#", "`", "^", "~", "[", "]", "[.", "[#", "<<", ">>", "xref:", "link:",
      "image:", "icon:", "kbd:[", "btn:[", "footnote:[", "mailto:", "http://x.com", "a@b.co", "((", "))", "\n", "\n\n", "* ",
      ". ", "|===\n", "|", "----\n", "....\n", "====\n", "x", " ", "é", "{", "}", "&#8217;", "&amp;", "\\", ",", ".", "=", "== ", "::", ": ",
      "<1>", "<.>", "//", "'", "\"`", "`\"", "--", "->", "[[", "]]", "anchor:", "menu:", "indexterm:[", "[quote,", "[source,",
      "video::", "audio::", "image::", "toc::[]\n", ":a: ", "{a}", "(C)", "...", ";", "%", "1", "zz",
    ];
    for _ in 0..r.tier(15000, 150000) {
      if !r.time_left() {
        break;
      }
      let src = r.rng.string(DOC, 24);
      let flags = if r.rng.chance(1, 2) { some(r) } else { 0 };
      for h5 in [false, true] {
        // `\\<-` is known to keep its `<` (a test pins it)
        let key = if src.contains("\\<-") { "escaped-left-arrow" } else { "injected" };
        r.check(key, if h5 { "soup html5" } else { "soup dr-html" }, &shown(&src, flags), || match convert(&src, h5, flags) {
          Some(html) => audit(&html),
          None => Ok(()),
        });
      }
    }
  });
}
