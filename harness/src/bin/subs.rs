//! substitution editing: the real module, with a child module for access to its fields
extern crate asciidork_ast as ast;
use vx_harness::*;

mod substitutions {
  include!("/repo/parser/src/substitutions.rs");
  pub mod vx {
    use super::*;
    pub fn parts(s: &Substitutions) -> (Vec<Option<Subs>>, u8) {
      (s.order.to_vec(), s.flags)
    }
    pub fn make(v: &[Subs]) -> Substitutions {
      let mut order = [None; 7];
      let mut flags = 0;
      for (i, s) in v.iter().enumerate() {
        order[i] = Some(*s);
        flags |= s.bitflag_pos();
      }
      Substitutions { order, flags }
    }
  }
}
use substitutions::*;

const ALL: [Subs; 7] = [
  Subs::SpecialChars,
  Subs::InlineFormatting,
  Subs::AttrRefs,
  Subs::CharReplacement,
  Subs::Macros,
  Subs::PostReplacement,
  Subs::Callouts,
];

fn view(s: &Substitutions) -> Result<Vec<Subs>, String> {
  let (order, _) = vx::parts(s);
  let n = order.iter().take_while(|o| o.is_some()).count();
  if order[n..].iter().any(|o| o.is_some()) {
    return Err(format!("gap in order {order:?}"));
  }
  let v: Vec<Subs> = order[..n].iter().map(|o| o.unwrap()).collect();
  for s2 in ALL {
    let cnt = v.iter().filter(|x| **x == s2).count();
    if cnt > 1 {
      return Err(format!("{s2:?} listed twice in {v:?}"));
    }
    if (cnt == 1) != s.contains(s2) {
      return Err(format!("contains({s2:?}) = {} but order is {v:?}", s.contains(s2)));
    }
  }
  let acc = [
    s.special_chars(),
    s.inline_formatting(),
    s.attr_refs(),
    s.char_replacement(),
    s.macros(),
    s.post_replacement(),
    s.callouts(),
  ];
  for (i, a) in acc.iter().enumerate() {
    if *a != v.contains(&ALL[i]) {
      return Err(format!("accessor of {:?} says {a}, order is {v:?}", ALL[i]));
    }
  }
  Ok(v)
}

fn perms(k: usize, cur: &mut Vec<Subs>, out: &mut Vec<Vec<Subs>>) {
  out.push(cur.clone());
  if k == 0 {
    return;
  }
  for s in ALL {
    if !cur.contains(&s) {
      cur.push(s);
      perms(k - 1, cur, out);
      cur.pop();
    }
  }
}

fn main() {
  run("subs", |r| {
    use Subs::*;
    let consts: Vec<(&str, Substitutions, Vec<Subs>)> = vec![
      ("normal", Substitutions::normal(), vec![SpecialChars, InlineFormatting, AttrRefs, CharReplacement, Macros, PostReplacement]),
      ("attr_value", Substitutions::attr_value(), vec![SpecialChars, InlineFormatting, AttrRefs, CharReplacement]),
      ("verbatim", Substitutions::verbatim(), vec![SpecialChars, Callouts]),
      ("only_special_chars", Substitutions::only_special_chars(), vec![SpecialChars]),
      ("all", Substitutions::all(), ALL.to_vec()),
      ("none", Substitutions::none(), vec![]),
    ];
    for (n, s, want) in consts {
      r.check("subs-const", "constant", n, || {
        let v = view(&s)?;
        if v == want { Ok(()) } else { Err(format!("{v:?} != {want:?}")) }
      });
    }
    let mut states = vec![];
    perms(7, &mut vec![], &mut states);
    for st in states {
      for s in ALL {
        for op in ["insert", "remove", "prepend", "append"] {
          let inp = format!("{st:?} {op} {s:?}");
          let st2 = st.clone();
          r.check("subs-op", op, inp, move || {
            let mut x = vx::make(&st2);
            let without: Vec<Subs> = st2.iter().copied().filter(|y| *y != s).collect();
            let want: Vec<Subs> = match op {
              "insert" => {
                x.insert(s);
                if st2.contains(&s) { st2.clone() } else { [st2.clone(), vec![s]].concat() }
              }
              "remove" => {
                x.remove(s);
                without
              }
              "prepend" => {
                x.prepend(s);
                [vec![s], without].concat()
              }
              _ => {
                x.append(s);
                [without, vec![s]].concat()
              }
            };
            let v = view(&x)?;
            if v == want { Ok(()) } else { Err(format!("result {v:?}, expected {want:?}")) }
          });
        }
      }
    }
    meta_cases(r);
  })
}

use asciidork_parser::verif as px;

/// what one `subs=` value does to a list, in the manual's terms
fn expected(cur: &[Subs], attr: &str) -> Vec<Subs> {
  use Subs::*;
  let mut l: Vec<Subs> = if attr.contains(['-', '+']) { cur.to_vec() } else { vec![] };
  for part in attr.split(',') {
    if part.len() < 4 {
      continue;
    }
    let (mode, name) = if let Some(n) = part.strip_prefix('+') {
      ('a', n)
    } else if let Some(n) = part.strip_suffix('+') {
      ('p', n)
    } else if let Some(n) = part.strip_prefix('-') {
      ('r', n)
    } else {
      ('s', part)
    };
    let members: &[Subs] = match name {
      "normal" => &[SpecialChars, InlineFormatting, AttrRefs, CharReplacement, Macros, PostReplacement],
      "verbatim" => &[SpecialChars, Callouts],
      "specialchars" => &[SpecialChars],
      "callouts" => &[Callouts],
      "quotes" => &[InlineFormatting],
      "attributes" => &[AttrRefs],
      "replacements" => &[CharReplacement],
      "macros" => &[Macros],
      "post_replacements" => &[PostReplacement],
      _ => &[],
    };
    for m in members {
      match mode {
        'a' | 's' => {
          if !l.contains(m) {
            l.push(*m)
          }
        }
        'p' => {
          l.retain(|x| x != m);
          l.insert(0, *m)
        }
        _ => l.retain(|x| x != m),
      }
    }
  }
  l
}

fn px_sub(s: Subs) -> px::Subs {
  match s {
    Subs::SpecialChars => px::Subs::SpecialChars,
    Subs::InlineFormatting => px::Subs::InlineFormatting,
    Subs::AttrRefs => px::Subs::AttrRefs,
    Subs::CharReplacement => px::Subs::CharReplacement,
    Subs::Macros => px::Subs::Macros,
    Subs::PostReplacement => px::Subs::PostReplacement,
    Subs::Callouts => px::Subs::Callouts,
  }
}

fn px_list(l: &[Subs]) -> px::Substitutions {
  let mut s = px::Substitutions::none();
  l.iter().for_each(|x| s.insert(px_sub(*x)));
  s
}

fn meta_case(cur: &[Subs], attr: &str) -> Result<(), String> {
  let bump = px::Bump::new();
  let mut al = asciidork_ast::AttrList::new(px::SourceLocation::new(0, 0, 0).into(), &bump);
  let loc = px::SourceLocation::new(0, 0, 0);
  let key = asciidork_ast::SourceString::new(px::BumpString::from_str_in("subs", &bump), loc);
  let val = asciidork_ast::InlineNode::new(
    asciidork_ast::Inline::Text(px::BumpString::from_str_in(attr, &bump)),
    loc,
  );
  let mut nodes = asciidork_ast::InlineNodes::new(&bump);
  nodes.push(val);
  al.insert_named(key, nodes);
  let mut multi = asciidork_ast::MultiAttrList::new_in(&bump);
  multi.push(al);
  let got = px::customize_subs::from_meta(px_list(cur), &multi);
  let want = expected(cur, attr);
  if got != px_list(&want) {
    return Err(format!("{got:?}, expected {want:?}"));
  }
  Ok(())
}

fn meta_cases(r: &mut R) {
  use Subs::*;
  let names = [
    "none", "normal", "verbatim", "specialchars", "callouts", "quotes", "attributes", "replacements", "macros",
    "post_replacements",
  ];
  let mut parts: Vec<String> = vec![];
  for n in names {
    parts.extend([n.to_string(), format!("+{n}"), format!("{n}+"), format!("-{n}"), format!("+{n}+")]);
  }
  parts.extend(["", "+", "-+", "foo", "quote", "+quotesx", "é+", "normal-"].map(String::from));
  let curs: Vec<Vec<Subs>> = vec![
    vec![],
    vec![SpecialChars, InlineFormatting, AttrRefs, CharReplacement, Macros, PostReplacement],
    vec![SpecialChars, Callouts],
    vec![Macros, AttrRefs],
    vec![Callouts, PostReplacement, Macros, CharReplacement, AttrRefs, InlineFormatting, SpecialChars],
  ];
  for cur in &curs {
    for a in &parts {
      r.check("subs-attr", "one-part", format!("{cur:?} subs={a:?}"), || meta_case(cur, a));
      for b in &parts {
        let s = format!("{a},{b}");
        r.check("subs-attr", "two-parts", format!("{cur:?} subs={s:?}"), || meta_case(cur, &s));
      }
    }
  }
  let n = r.tier(4000, 60000);
  for _ in 0..n {
    let k = 3 + r.rng.below(3);
    let s = (0..k).map(|_| parts[r.rng.below(parts.len())].clone()).collect::<Vec<_>>().join(",");
    let cur = curs[r.rng.below(curs.len())].clone();
    r.check("subs-attr", "many-parts", format!("{cur:?} subs={s:?}"), || meta_case(&cur, &s));
  }
}
