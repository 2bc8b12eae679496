//! `-a` values: the real module of the command line tool
use vx_harness::*;
mod args {
  include!("/repo/cli/src/args.rs");
  pub fn vx_parse(s: &str) -> std::result::Result<(String, JobAttr), &'static str> {
    parse_attr(s)
  }
  pub fn vx_settings(items: &[(String, JobAttr)], safe: SafeMode, dt: Option<DocType>) -> std::result::Result<JobSettings, String> {
    let mut a = Args::parse_from(["asciidork"]);
    a.attributes = items.to_vec();
    a.safe_mode = safe;
    a.doctype = dt;
    a.try_into()
  }
}
use asciidork_core::*;

fn expected(s: &str) -> Option<(String, JobAttr)> {
  let (head, val) = match s.split_once('=') {
    Some((h, v)) => (h, if v.is_empty() { None } else { Some(v) }),
    None => (s, None),
  };
  let mut h = head;
  let (mut unset, mut soft) = (false, false);
  if let Some(x) = h.strip_prefix('!') {
    unset = true;
    h = x;
  }
  if let Some(x) = h.strip_prefix('@') {
    soft = true;
    h = x;
  }
  if let Some(x) = h.strip_suffix('@') {
    soft = true;
    h = x;
  }
  if let Some(x) = h.strip_suffix('!') {
    unset = true;
    h = x;
  }
  let word = |c: char| c.is_alphanumeric() || c == '_';
  if h.is_empty() || !h.starts_with(word) || !h.chars().all(|c| word(c) || c == '-') {
    return None;
  }
  let key = h.to_lowercase();
  match (unset, val) {
    (true, Some(_)) => None,
    (_, None) => Some((key, JobAttr { readonly: !soft, value: AttrValue::Bool(!unset) })),
    (_, Some(v)) => {
      let (ro, v) = if soft { (false, v) } else if let Some(x) = v.strip_suffix('@') { (false, x) } else { (true, v) };
      Some((key, JobAttr { readonly: ro, value: AttrValue::String(v.to_string()) }))
    }
  }
}

fn case(s: &str) -> std::result::Result<(), String> {
  let got = args::vx_parse(s).ok();
  let want = expected(s);
  if got == want { Ok(()) } else { Err(format!("{got:?}, expected {want:?}")) }
}

fn main() {
  run("args", |r| {
    let al = ["a", "B", "-", "_", "!", "@", "=", " ", ".", "\n", "é", "1", ":"];
    let depth = r.tier(4, 5);
    let mut layer = vec![String::new()];
    for _ in 0..depth {
      let mut next = vec![];
      for p in &layer {
        for c in al {
          let s = format!("{p}{c}");
          r.check("args-attr", "short", format!("{s:?}"), || case(&s));
          next.push(s);
        }
      }
      layer = next;
    }
    let n = r.tier(20000, 300000);
    for _ in 0..n {
      let s = r.rng.string(&al, 12);
      r.check("args-attr", "random", format!("{s:?}"), || case(&s));
    }
    // several attributes: the last one given counts
    let keys = ["foo", "bar", "icons", "showtitle", "notitle"];
    for _ in 0..r.tier(3000, 30000) {
      let n = 1 + r.rng.below(5);
      let items: Vec<(String, JobAttr)> = (0..n)
        .map(|_| {
          let v = *r.rng.pick(&[AttrValue::Bool(true), AttrValue::Bool(false)].each_ref().map(|x| x.is_true()));
          let ro = r.rng.chance(1, 2);
          (r.rng.pick(&keys).to_string(), JobAttr { readonly: ro, value: AttrValue::Bool(v) })
        })
        .collect();
      r.check("args-settings", "settings", format!("{items:?}"), || {
        let j = args::vx_settings(&items, SafeMode::Safe, None)?;
        let mut want: std::collections::HashMap<String, JobAttr> = Default::default();
        for (k, v) in &items {
          if k == "showtitle" {
            want.remove("notitle");
          } else if k == "notitle" {
            want.remove("showtitle");
          }
          want.insert(k.clone(), v.clone());
        }
        for k in keys {
          if j.job_attrs.get(k) != want.get(k) {
            return Err(format!("{k}: {:?}, expected {:?}", j.job_attrs.get(k), want.get(k)));
          }
        }
        Ok(())
      });
    }
  })
}
