//! the command line tool's reader of files and of stylesheets, on a scratch tree with links in and out of the base directory
use asciidork_core::*;
use asciidork_parser::prelude::Parser;
use asciidork_parser::verif::*;
use std::collections::BTreeMap;
use std::path::{Path as P, PathBuf};
use std::result::Result;
use vx_harness::*;

mod resolver {
  // stands in for the network client: it only records what it was asked for
  mod minreq {
    pub struct Req(String);
    pub struct Resp(String);
    pub fn get(u: String) -> Req {
      Req(u)
    }
    impl Req {
      pub fn send(self) -> std::result::Result<Resp, String> {
        Ok(Resp(format!("FETCHED {}", self.0)))
      }
    }
    impl Resp {
      pub fn as_bytes(&self) -> &[u8] {
        self.0.as_bytes()
      }
    }
  }
  include!("/repo/cli/src/resolver.rs");
}
mod css {
  include!("/repo/cli/src/css.rs");
}
use resolver::CliResolver;

const COMPS: &[&str] = &[
  "..", ".", "x.adoc", "X.adoc", "sub", "y.adoc", "deep", "z.adoc", "link_in", "link_out", "dir_in", "dir_out", "base", "base-evil", "basex", "out.adoc", "outdir", "baselink", "x.css", "out.css", "up", "missing",
];

struct Tree {
  root: PathBuf,
  content: BTreeMap<PathBuf, String>,
}

fn tree() -> Tree {
  let scr = std::env::var("VX_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
  let root = scr.join(format!("cliread-{}", std::process::id()));
  std::fs::create_dir_all(&root).unwrap();
  let root = std::fs::canonicalize(root).unwrap();
  let mut content = BTreeMap::new();
  for d in ["base/sub/deep", "base/outdir", "base-evil", "basex", "outdir", "base/sub/base"] {
    std::fs::create_dir_all(root.join(d)).unwrap();
  }
  for f in [
    "base/x.adoc", "base/x.css", "base/x.svg", "base/sub/y.adoc", "base/sub/x.css", "base/sub/deep/z.adoc", "base/outdir/z.adoc", "base/sub/base/x.adoc", "base-evil/x.adoc", "base-evil/x.css", "base-evil/x.svg", "basex/x.adoc", "out.adoc", "out.css",
    "out.svg", "outdir/x.adoc", "outdir/x.css", "outdir/x.svg", "x.adoc", "x.css", "y.adoc", "docinfo.html", "outdir/docinfo.html",
  ] {
    let c = if f.starts_with("base/") { format!("INBASE {f}\n") } else { format!("SECRET {f}\n") };
    std::fs::write(root.join(f), &c).unwrap();
    content.insert(root.join(f), c);
  }
  for (l, t) in [
    ("base/link_in", "sub/y.adoc"), ("base/link_out", "../out.adoc"), ("base/dir_in", "sub"), ("base/dir_out", "../outdir"), ("base/up", ".."), ("base/sub/link_out", "../../base-evil/x.adoc"), ("base/sub/up", "../../base-evil"),
    ("baselink", "base"), ("outdir/link_in", "../base/x.adoc"), ("base/l.css", "../out.css"), ("base/docinfo.html", "../docinfo.html"), ("base/loop", "loop"),
  ] {
    let _ = std::os::unix::fs::symlink(t, root.join(l));
  }
  Tree { root, content }
}

const MODES: &[SafeMode] = &[SafeMode::Unsafe, SafeMode::Safe, SafeMode::Server, SafeMode::Secure];

fn one(t: &Tree, base: Option<&P>, strict: bool, path: &str, mode: SafeMode) -> Result<(), String> {
  let mut res = CliResolver::new(base.map(|b| b.to_path_buf()), strict);
  let mut buf: Vec<u8> = vec![];
  let got = res.resolve(IncludeTarget::FilePath(path.to_string()), &mut buf, mode);
  let canon = std::fs::canonicalize(path).ok();
  let inside = match (&canon, base.and_then(|b| std::fs::canonicalize(b).ok())) {
    (Some(c), Some(b)) => c.components().zip(b.components()).filter(|(x, y)| x == y).count() == b.components().count(),
    _ => false,
  };
  let file = canon.as_ref().and_then(|c| t.content.get(c));
  let may = (mode == SafeMode::Unsafe || inside) && file.is_some();
  let must = may && (!strict || canon.as_deref() == Some(P::new(path)));
  match got {
    Ok(n) => {
      if !may {
        return Err(format!("read {:?} which is not permitted", String::from_utf8_lossy(&buf)));
      }
      let want = file.unwrap();
      if strict && canon.as_deref() != Some(P::new(path)) {
        return Err("strict mode read a path that is not the real one".into());
      }
      if n != want.len() || &buf[..n] != want.as_bytes() {
        return Err(format!("content {:?}, expected {want:?}", String::from_utf8_lossy(&buf)));
      }
    }
    Err(e) => {
      if must {
        return Err(format!("refused: {e:?}"));
      }
      if buf.iter().any(|b| *b != 0) {
        return Err(format!("refused, yet the buffer holds {:?}", String::from_utf8_lossy(&buf)));
      }
    }
  }
  Ok(())
}

fn doc(t: &Tree, base: &P, src: &str, mode: SafeMode) -> Result<String, String> {
  let b = Bump::new();
  let mut p = Parser::from_str(src, SourceFile::Path(Path::new(base.join("t.adoc").to_str().unwrap())), &b);
  p.apply_job_settings(JobSettings { safe_mode: mode, strict: false, ..JobSettings::default() });
  p.set_resolver(Box::new(CliResolver::new(Some(base.to_path_buf()), false)));
  let mut res = match p.parse() {
    Ok(r) => r,
    Err(_) => return Ok(String::new()),
  };
  let css = css::resolve(&mut res.document).is_ok();
  let _ = (t, css);
  asciidork_dr_html_backend::convert(res.document).map_err(|e| format!("{e:?}"))
}

fn main() {
  run("cliread", |r: &mut R| {
    let t = tree();
    let root = t.root.to_str().unwrap().to_string();
    let base = t.root.join("base");
    std::env::set_current_dir(&base).unwrap();
    let bases: Vec<Option<PathBuf>> = vec![Some(base.clone()), Some(t.root.join("baselink")), Some(base.join("sub/..")), Some(P::new(".").to_path_buf()), None, Some(t.root.join("nowhere")), Some(base.join("sub")), Some(P::new("").to_path_buf())];
    // every path of up to three components below each of four starting points
    let starts = [root.clone(), format!("{root}/base"), format!("{root}/baselink"), String::new()];
    let mut paths: Vec<String> = vec![];
    for s in &starts {
      let pre = if s.is_empty() { String::new() } else { format!("{s}/") };
      for a in COMPS {
        paths.push(format!("{pre}{a}"));
        for b in COMPS {
          paths.push(format!("{pre}{a}/{b}"));
        }
      }
    }
    for p in &paths {
      for m in MODES {
        for (i, b) in bases.iter().enumerate() {
          for strict in [false, true] {
            r.check("containment", "file paths", format!("{m:?} base#{i} strict={strict} {}", p.replace(&root, "ROOT")), || one(&t, b.as_deref(), strict, p, *m));
          }
        }
      }
    }
    let n = r.tier(20_000, 400_000);
    for _ in 0..n {
      if !r.time_left() {
        break;
      }
      let k = 3 + r.rng.below(5);
      let mut p = r.rng.pick(&starts).clone();
      for _ in 0..k {
        if !p.is_empty() {
          p.push('/');
        }
        p.push_str(*r.rng.pick(COMPS));
      }
      let m = *r.rng.pick(MODES);
      let bi = r.rng.below(bases.len());
      let strict = r.rng.chance(1, 4);
      r.check("containment", "random file paths", format!("{m:?} base#{bi} strict={strict} {}", p.replace(&root, "ROOT")), || one(&t, bases[bi].as_deref(), strict, &p, m));
    }
    // a URI is handed to the client as it is and its answer is passed on
    for u in ["https://h/x.adoc", "http://h/a b"] {
      r.check("uri", "uris", u, || {
        let mut buf: Vec<u8> = vec![];
        let n = CliResolver::new(Some(base.clone()), false).resolve(IncludeTarget::Uri(u.into()), &mut buf, SafeMode::Safe).map_err(|e| format!("{e:?}"))?;
        let want = format!("FETCHED {u}");
        if &buf[..n] == want.as_bytes() { Ok(()) } else { Err(format!("{:?}", String::from_utf8_lossy(&buf))) }
      });
    }
    // whole documents: nothing outside the base directory shows up
    let targets = [
      "x.adoc", "../out.adoc", "link_out", "dir_out/x.adoc", "up/out.adoc", "../base-evil/x.adoc", "sub/link_out", "sub/up/x.adoc", "{r}/out.adoc", "{r}/base-evil/x.adoc", "./../out.adoc", "sub/../../out.adoc", "dir_in/../out.adoc", "dir_in/y.adoc", "{r}/base/x.adoc",
      "../out.svg", "x.svg", "{r}/base-evil/x.svg", "dir_out/x.svg", "../base/../out.svg", "sub/../x.adoc",
    ];
    for tg in targets {
      let tg = tg.replace("{r}", &root);
      let css = tg.replace(".adoc", ".css").replace(".svg", ".css");
      let dir = P::new(&tg).parent().map(|p| p.to_string_lossy().to_string()).unwrap_or_default();
      let docs = [
        (format!("include::{tg}[]\n"), true), (format!("image::{tg}[opts=inline]\n"), false), (format!("image:{tg}[opts=inline]\n"), false), (format!(":data-uri:\n\nimage::{tg}[]\n"), false), (format!(":data-uri:\n:imagesdir: {dir}\n\nimage::x.svg[]\n"), false),
        (format!(":docinfo: shared\n:docinfodir: {dir}\n\nx\n"), false), (format!(":stylesheet: {css}\n\nx\n"), true), (format!(":stylesdir: {dir}\n:stylesheet: x.css\n\nx\n"), true), (format!(":data-uri:\n:icons:\n:iconsdir: {dir}\n:icontype: svg\n\nNOTE: x\n"), false),
        (format!("|===\na|include::{tg}[]\n|===\n"), true), ("= T\n:docinfo: shared\n\nx\n".into(), false),
      ];
      for (src, can_unsafe) in docs {
        for m in MODES {
          r.check("leak", "documents", format!("{m:?} {}", src.replace(&root, "ROOT")), || {
            let html = doc(&t, &base, &src, *m)?;
            if *m != SafeMode::Unsafe && (html.contains("SECRET") || html.contains("U0VDUkVU")) {
              return Err(format!("a file outside the base directory was read: {html}"));
            }
            if *m == SafeMode::Secure && !src.contains("stylesheet") && (html.contains("INBASE") || html.contains("SU5CQVNF")) {
              return Err("secure mode read a file".into());
            }
            let _ = can_unsafe;
            Ok(())
          });
        }
      }
    }
    // what is permitted is read
    let table: &[(&str, &str)] = &[
      ("include::x.adoc[]\n", "INBASE base/x.adoc"), ("include::dir_in/y.adoc[]\n", "INBASE base/sub/y.adoc"), ("include::link_in[]\n", "INBASE base/sub/y.adoc"), ("include::sub/../x.adoc[]\n", "INBASE base/x.adoc"), ("image::x.svg[opts=inline]\n", "INBASE base/x.svg"),
      (":data-uri:\n\nimage::x.svg[]\n", "SU5CQVNFIGJhc2UveC5zdmcK"), (":stylesheet: x.css\n\nx\n", "INBASE base/x.css"), (":stylesdir: sub\n:stylesheet: x.css\n\nx\n", "INBASE base/sub/x.css"),
    ];
    for (src, want) in table {
      for m in MODES {
        if *m == SafeMode::Secure {
          continue;
        }
        r.check("read-refused", "permitted", format!("{m:?} {src}"), || {
          let html = doc(&t, &base, src, *m)?;
          if html.contains(want) { Ok(()) } else { Err(html) }
        });
      }
    }
    for (src, want) in [("include::../out.adoc[]\n", "SECRET out"), (":stylesheet: ../out.css\n\nx\n", "SECRET out"), ("include::link_out[]\n", "SECRET out")] {
      r.check("read-refused", "permitted", format!("unsafe {src}"), || {
        let html = doc(&t, &base, src, SafeMode::Unsafe)?;
        if html.contains(want) { Ok(()) } else { Err(html) }
      });
    }
    let _ = std::env::set_current_dir("/");
    let _ = std::fs::remove_dir_all(&t.root);
  });
}
