//! contracts of substitution editing, over every well-formed state (loops bounded by the array length 7)
mod substitutions {
  include!("/repo/parser/src/substitutions.rs");

  mod contracts {
    use super::*;

    fn any_sub() -> Subs {
      match kani::any::<u8>() {
        0 => Subs::SpecialChars,
        1 => Subs::InlineFormatting,
        2 => Subs::AttrRefs,
        3 => Subs::CharReplacement,
        4 => Subs::Macros,
        5 => Subs::PostReplacement,
        _ => Subs::Callouts,
      }
    }
    fn bit(s: Subs) -> u8 {
      match s {
        Subs::SpecialChars => 1,
        Subs::InlineFormatting => 2,
        Subs::AttrRefs => 4,
        Subs::CharReplacement => 8,
        Subs::Macros => 16,
        Subs::PostReplacement => 32,
        Subs::Callouts => 64,
      }
    }
    /// invariant: a duplicate-free prefix of `Some`s, `None` after it, flags = the set of members
    fn wf(s: &Substitutions) -> bool {
      let mut seen = 0u8;
      let mut ended = false;
      let mut i = 0;
      while i < 7 {
        match s.order[i] {
          Some(x) => {
            if ended || seen & bit(x) != 0 {
              return false;
            }
            seen |= bit(x);
          }
          None => ended = true,
        }
        i += 1;
      }
      seen == s.flags
    }
    fn any_state() -> Substitutions {
      let n: usize = kani::any();
      kani::assume(n <= 7);
      let mut order = [None; 7];
      let mut flags = 0;
      let mut i = 0;
      while i < 7 {
        if i < n {
          let s = any_sub();
          order[i] = Some(s);
          flags |= bit(s);
        }
        i += 1;
      }
      let s = Substitutions { order, flags };
      kani::assume(wf(&s));
      s
    }
    fn len(s: &Substitutions) -> usize {
      let mut n = 0;
      while n < 7 && s.order[n].is_some() {
        n += 1;
      }
      n
    }
    /// `a` without `sub`, order kept
    fn without(a: &Substitutions, sub: Subs) -> ([Option<Subs>; 7], usize) {
      let mut out = [None; 7];
      let mut j = 0;
      let mut i = 0;
      while i < 7 {
        if let Some(x) = a.order[i] {
          if bit(x) != bit(sub) {
            out[j] = Some(x);
            j += 1;
          }
        }
        i += 1;
      }
      (out, j)
    }
    fn same(a: &[Option<Subs>; 7], b: &[Option<Subs>; 7]) -> bool {
      let mut i = 0;
      while i < 7 {
        let x = match a[i] { Some(s) => bit(s), None => 0 };
        let y = match b[i] { Some(s) => bit(s), None => 0 };
        if x != y {
          return false;
        }
        i += 1;
      }
      true
    }

    #[kani::proof]
    #[kani::unwind(9)]
    fn subs_insert() {
      let old = any_state();
      let sub = any_sub();
      let mut s = old;
      s.insert(sub);
      assert!(wf(&s), "insert keeps the invariant");
      let mut want = old.order;
      if old.flags & bit(sub) == 0 {
        want[len(&old)] = Some(sub);
      }
      assert!(same(&s.order, &want), "insert adds at the end exactly when absent");
      kani::cover!(len(&old) == 6 && len(&s) == 7, "seventh substitution reachable");
    }
    #[kani::proof]
    #[kani::unwind(9)]
    fn subs_remove() {
      let old = any_state();
      let sub = any_sub();
      let mut s = old;
      s.remove(sub);
      assert!(wf(&s), "remove keeps the invariant");
      assert!(same(&s.order, &without(&old, sub).0), "remove drops exactly that substitution");
      kani::cover!(len(&old) == 7 && len(&s) == 6, "removal reachable");
    }
    #[kani::proof]
    #[kani::unwind(9)]
    fn subs_prepend() {
      let old = any_state();
      let sub = any_sub();
      let mut s = old;
      s.prepend(sub);
      assert!(wf(&s), "prepend keeps the invariant");
      let (rest, n) = without(&old, sub);
      let mut want = [None; 7];
      want[0] = Some(sub);
      let mut i = 0;
      while i < 6 {
        want[i + 1] = rest[i];
        i += 1;
      }
      assert!(n <= 6 && same(&s.order, &want), "prepend moves that substitution to the front");
      kani::cover!(n == 6, "full list reachable");
    }
    #[kani::proof]
    #[kani::unwind(9)]
    fn subs_append() {
      let old = any_state();
      let sub = any_sub();
      let mut s = old;
      s.append(sub);
      assert!(wf(&s), "append keeps the invariant");
      let (mut want, n) = without(&old, sub);
      want[n] = Some(sub);
      assert!(same(&s.order, &want), "append moves that substitution to the end");
      kani::cover!(n == 6, "full list reachable");
    }
    #[kani::proof]
    #[kani::unwind(9)]
    fn subs_queries() {
      let s = any_state();
      let x = any_sub();
      assert!(s.contains(x) == (s.flags & bit(x) != 0));
      assert!(s.special_chars() == (s.flags & 1 != 0));
      assert!(s.inline_formatting() == (s.flags & 2 != 0));
      assert!(s.attr_refs() == (s.flags & 4 != 0));
      assert!(s.char_replacement() == (s.flags & 8 != 0));
      assert!(s.macros() == (s.flags & 16 != 0));
      assert!(s.post_replacement() == (s.flags & 32 != 0));
      assert!(s.callouts() == (s.flags & 64 != 0));
      kani::cover!(s.callouts() && !s.macros(), "states reachable");
    }
    #[kani::proof]
    #[kani::unwind(9)]
    fn subs_groups() {
      assert!(wf(&Substitutions::normal()) && Substitutions::normal().flags == 0b0111111);
      assert!(wf(&Substitutions::attr_value()) && Substitutions::attr_value().flags == 0b0001111);
      assert!(wf(&Substitutions::verbatim()) && Substitutions::verbatim().flags == 0b1000001);
      assert!(wf(&Substitutions::only_special_chars()) && Substitutions::only_special_chars().flags == 1);
      assert!(wf(&Substitutions::all()) && Substitutions::all().flags == 0b1111111);
      assert!(wf(&Substitutions::none()) && Substitutions::none().flags == 0);
      assert!(wf(&Substitutions::default()) && Substitutions::default().flags == 0b0111111);
    }
  }
}
