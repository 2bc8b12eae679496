//! tokens put together are the source text (real lexer, byte-level oracle)
use asciidork_parser::variants::token::*;
use asciidork_parser::verif::*;
use std::result::Result;
use vx_harness::*;

fn ws(b: u8) -> bool {
  matches!(b, 0x20 | 0x09 | 0x0b | 0x0c)
}
fn delim_at(s: &[u8], p: usize) -> Option<(usize, u8)> {
  if p >= s.len() || !(p == 0 || s[p - 1] == b'\n') {
    return None;
  }
  let c = s[p];
  if !b"_-*=.+/`".contains(&c) {
    return None;
  }
  let n = s[p..].iter().take_while(|b| **b == c).count();
  if c == b'`' {
    return if n == 3 { Some((3, c)) } else { None };
  }
  if p + n < s.len() && s[p + n] != b'\n' && s[p + n] != b'\r' {
    return None;
  }
  let ok = match c {
    b'-' => n == 2 || n == 4,
    _ => n >= 4,
  };
  if ok { Some((n, c)) } else { None }
}
fn all(s: &[u8], c: u8) -> bool {
  s.iter().all(|b| *b == c)
}
fn digits(s: &[u8]) -> bool {
  s.iter().all(|b| b.is_ascii_digit())
}
fn callout(s: &[u8]) -> bool {
  s == b"<.>"
    || s == b"<!--.-->"
    || s.len() >= 3 && s[0] == b'<' && s[s.len() - 1] == b'>' && digits(&s[1..s.len() - 1])
    || s.len() >= 8 && s.starts_with(b"<!--") && s.ends_with(b"-->") && digits(&s[4..s.len() - 3])
}
fn kind_ok(k: TokenKind, s: &[u8]) -> bool {
  let one = |b: u8| s == [b];
  match k {
    EqualSigns => all(s, b'='),
    Dashes => all(s, b'-'),
    Dots => all(s, b'.'),
    ForwardSlashes => all(s, b'/'),
    OpenParens => all(s, b'('),
    CloseParens => all(s, b')'),
    Whitespace => s.iter().all(|b| ws(*b)),
    Digits => digits(s),
    Ampersand => one(b'&'),
    LessThan => one(b'<'),
    GreaterThan => one(b'>'),
    Comma => one(b','),
    Caret => one(b'^'),
    Tilde => one(b'~'),
    Underscore => one(b'_'),
    Star => one(b'*'),
    Bang => one(b'!'),
    QuestionMark => one(b'?'),
    Backtick => one(b'`'),
    Plus => one(b'+'),
    OpenBracket => one(b'['),
    CloseBracket => one(b']'),
    OpenBrace => one(b'{'),
    CloseBrace => one(b'}'),
    Hash => one(b'#'),
    Percent => one(b'%'),
    DoubleQuote => one(b'"'),
    SingleQuote => one(b'\''),
    Pipe => one(b'|'),
    Backslash => one(b'\\'),
    Colon => one(b':'),
    SemiColon => one(b';'),
    Newline => s == b"\n" || s == b"\r\n",
    AttrRef => {
      s.len() >= 3
        && s[0] == b'{'
        && s[s.len() - 1] == b'}'
        && s[1..s.len() - 1].iter().all(|b| b.is_ascii_alphanumeric() || *b == b'-' || *b == b'_')
    }
    Entity => {
      s.len() >= 3 && s[0] == b'&' && s[s.len() - 1] == b';' && {
        let body = &s[1..s.len() - 1];
        body.iter().all(|b| b.is_ascii_alphanumeric()) && body[0].is_ascii_alphabetic()
          || body.len() >= 2 && body[0] == b'#' && digits(&body[1..])
          || body.len() >= 3 && body[0] == b'#' && body[1] == b'x' && body[2..].iter().all(|b| b.is_ascii_hexdigit())
      }
    }
    TermDelimiter => s == b"::" || s == b";;" || s == b":::" || s == b"::::",
    CalloutNumber => callout(s),
    DelimiterLine => s.len() >= 2 && all(s, s[0]),
    MacroName => s.len() >= 2 && s[s.len() - 1] == b':',
    Directive => s.len() >= 3 && s.ends_with(b"::"),
    UriScheme | MaybeEmail | Punctuation | AttrPassDbl | Word => !s.is_empty(),
    _ => false,
  }
}
fn maximal(k: TokenKind, s: &[u8], e: usize) -> bool {
  if e >= s.len() {
    return true;
  }
  match k {
    EqualSigns => s[e] != b'=',
    Dashes => s[e] != b'-',
    Dots => s[e] != b'.',
    ForwardSlashes => s[e] != b'/',
    OpenParens => s[e] != b'(',
    CloseParens => s[e] != b')',
    Whitespace => !ws(s[e]),
    Digits => !s[e].is_ascii_digit(),
    TermDelimiter => matches!(s[e], b' ' | b'\t' | b'\n' | b'\r'),
    _ => true,
  }
}
/// the character reference starting at `p`, unless escaped
fn entity_at(s: &[u8], p: usize) -> Option<usize> {
  if s[p] != b'&' || p > 0 && s[p - 1] == b'\\' {
    return None;
  }
  let q = p + s[p..].iter().position(|b| *b == b';')?;
  if kind_ok(Entity, &s[p..=q]) && q - p >= 3 { Some(q + 1 - p) } else { None }
}
fn check_tok(t: &Token, src: &[u8], pos: usize, idx: u16) -> Result<usize, String> {
  let l = t.lexeme.as_bytes();
  let e = pos + l.len();
  if l.is_empty() {
    return Err(format!("empty token {t:?} at {pos}"));
  }
  if e > src.len() || l != &src[pos..e] {
    return Err(format!("token {:?} `{}` at {pos} is not the source text there", t.kind, t.lexeme));
  }
  if t.loc.start as usize != pos || t.loc.end as usize != e || t.loc.include_depth != idx {
    return Err(format!("token `{}` located at {:?}, expected {pos}..{e} of source {idx}", t.lexeme, t.loc));
  }
  if !kind_ok(t.kind, l) {
    return Err(format!("`{}` does not fit its kind {:?}", t.lexeme, t.kind));
  }
  if (t.kind == Entity) != entity_at(src, pos).is_some() {
    return Err(format!("character reference at {pos}: expected {:?}, got {:?} `{}`", entity_at(src, pos), t.kind, t.lexeme));
  }
  let d = delim_at(src, pos);
  if (t.kind == DelimiterLine) != d.is_some() || d.is_some_and(|(n, _)| n != l.len()) {
    return Err(format!("delimiter line at {pos}: expected {d:?}, got {:?} `{}`", t.kind, t.lexeme));
  }
  if t.kind != DelimiterLine && !maximal(t.kind, src, e) {
    return Err(format!("{:?} `{}` at {pos} stops in the middle of its run", t.kind, t.lexeme));
  }
  Ok(e)
}

fn single(src: &str) -> Result<(), String> {
  let b = Bump::new();
  let mut l = Lexer::from_str(&b, SourceFile::Tmp, src);
  let s = src.as_bytes();
  let mut pos = 0;
  loop {
    let peeked = l.peek();
    if peeked != s.get(pos).copied() || l.is_eof() != (pos == s.len()) {
      return Err(format!("peek at {pos} is {peeked:?}"));
    }
    // the whole line (backticks can name a language, tokenizing allows for that)
    let alone = delim_at(s, pos).filter(|(n, _)| matches!(s.get(pos + n), None | Some(b'\n' | b'\r')));
    if l.at_delimiter_line().map(|(n, c)| (n as usize, c)) != alone {
      return Err(format!("delimiter line at {pos}: {:?}, expected {alone:?}", l.at_delimiter_line()));
    }
    let t = l.next_token();
    if t.kind == Eof {
      return if pos == s.len() { Ok(()) } else { Err(format!("end reported at {pos} of {}", s.len())) };
    }
    pos = check_tok(&t, s, pos, 0)?;
    if pos == s.len() && l.next_token().kind != Eof {
      return Err("token after the end".into());
    }
    if pos == s.len() {
      return Ok(());
    }
  }
}

/// a document of nested pushed sources, read token by token / line by line
fn nested(rng: &mut Rng) -> (String, Result<(), String>) {
  let words = ["a", "b c", "====", "--", "x: y", "", "==", "<1>", "{a}", "é&amp;", "----"];
  let mut desc = String::new();
  let text = |rng: &mut Rng| {
    let n = rng.below(4);
    let mut s = String::new();
    for _ in 0..n {
      s.push_str(*rng.pick::<&str>(&words));
      s.push_str(if rng.chance(1, 5) { "\r\n" } else { "\n" });
    }
    if rng.chance(1, 2) {
      s.push_str(*rng.pick::<&str>(&words));
    }
    s
  };
  let b = Bump::new();
  let root = text(rng);
  desc.push_str(&format!("0:{root:?} "));
  let mut l = Lexer::from_str(&b, SourceFile::Tmp, &root);
  let mut srcs: Vec<(Vec<u8>, usize)> = vec![(root.into_bytes(), 0)];
  let mut stack: Vec<usize> = vec![0];
  let mut pending = false;
  let res = (|| {
    for _ in 0..400 {
      // where the next byte is
      let mut st = stack.clone();
      while st.len() > 1 && srcs[*st.last().unwrap()].1 >= srcs[*st.last().unwrap()].0.len() {
        st.pop();
      }
      let cur = *st.last().unwrap();
      let expect = srcs[cur].0.get(srcs[cur].1).copied();
      if l.peek() != expect || l.is_eof() != expect.is_none() {
        return Err(format!("peek {:?}, expected {expect:?} of source {cur} at {}", l.peek(), srcs[cur].1));
      }
      let at_nl = matches!(expect, Some(b'\n' | b'\r'));
      if l.at_newline() != at_nl {
        return Err("at_newline".into());
      }
      match rng.below(10) {
        0 if !pending && srcs.len() < 8 && (srcs[cur].1 == 0 || srcs[cur].0.get(srcs[cur].1 - 1) == Some(&b'\n')) && stack == st => {
          // an include: the rest of this source waits
          let t = text(rng);
          desc.push_str(&format!("push {}:{t:?} at {}/{} ", srcs.len(), cur, srcs[cur].1));
          let mut bytes = t.into_bytes();
          l.push_source(SourceFile::Tmp, 0, None, BumpVec::from_iter_in(bytes.iter().copied(), &b));
          if bytes.last() != Some(&b'\n') {
            bytes.push(b'\n');
          }
          srcs.push((bytes, 0));
          stack.push(srcs.len() - 1);
          pending = true;
        }
        1 => {
          desc.push_str("empty-lines ");
          pending = false;
          l.consume_empty_lines();
          loop {
            let c = *stack.last().unwrap();
            while matches!(srcs[c].0.get(srcs[c].1), Some(b'\n' | b'\r')) {
              srcs[c].1 += 1;
            }
            if srcs[c].1 >= srcs[c].0.len() && stack.len() > 1 {
              stack.pop();
            } else {
              break;
            }
          }
        }
        2 if at_nl && matches!(expect, Some(b'\n')) => {
          desc.push_str("skip-newline ");
          pending = false;
          l.skip_newline();
          stack = st;
          srcs[cur].1 += 1;
        }
        3 if expect.is_some() && stack == st => {
          let d = delim_at(&srcs[cur].0, srcs[cur].1).filter(|(n, _)| matches!(srcs[cur].0.get(srcs[cur].1 + n), None | Some(b'\n' | b'\r')));
          // only meaningful once the pushed source is entered
          if srcs[cur].1 > 0 && l.at_delimiter_line().map(|(n, c)| (n as usize, c)) != d {
            return Err(format!("delimiter line: {:?}, expected {d:?}", l.at_delimiter_line()));
          }
        }
        _ => {
          pending = false;
          let t = l.next_token();
          if expect.is_none() {
            return if t.kind == Eof { Ok(()) } else { Err(format!("{t:?} after the end")) };
          }
          if t.kind == Eof {
            return Err(format!("end reported, source {cur} has text left at {}", srcs[cur].1));
          }
          stack = st;
          srcs[cur].1 = check_tok(&t, &srcs[cur].0, srcs[cur].1, cur as u16)?;
        }
      }
    }
    Ok(())
  })();
  (desc, res)
}

fn tmp_buffer(buf: &str, mode: usize, included: bool) -> Result<(), String> {
  let b = Bump::new();
  let mut l = Lexer::from_str(&b, SourceFile::Tmp, "tail text");
  if included {
    // the buffer stands for text of an included source
    l.push_source(SourceFile::Tmp, 0, None, BumpVec::from_iter_in("k\n".bytes(), &b));
    l.next_token();
  }
  let rep = SourceLocation::new(3, 9, 0);
  l.set_tmp_buf(buf, match mode {
    0 => BufLoc::Repeat(rep),
    1 => BufLoc::Offset(7),
    _ => BufLoc::From(rep),
  });
  let (mut pos, s) = (0, buf.as_bytes());
  while pos < s.len() {
    if l.peek() != Some(s[pos]) {
      return Err(format!("peek at {pos} of the buffer: {:?}", l.peek()));
    }
    let t = l.next_token();
    let e = pos + t.lexeme.len();
    if e == pos || e > s.len() || t.lexeme.as_bytes() != &s[pos..e] {
      return Err(format!("buffer token `{}` at {pos}", t.lexeme));
    }
    let (ws, we) = match mode {
      0 => (3, 9),
      1 => (pos as u32 + 7, e as u32 + 7),
      _ => (pos as u32 + 3, e as u32 + 3),
    };
    let depth = if mode == 1 && included { 1 } else { 0 };
    if (t.loc.start, t.loc.end, t.loc.include_depth) != (ws, we, depth) {
      return Err(format!("buffer token `{}` located at {:?}, expected {ws}..{we}", t.lexeme, t.loc));
    }
    pos = e;
  }
  let mut rest = String::new();
  while !l.is_eof() {
    rest.push_str(&l.next_token().lexeme);
  }
  if rest == if included { "\ntail text" } else { "tail text" } { Ok(()) } else { Err(format!("after the buffer: `{rest}`")) }
}

fn all_strings(alpha: &[&str], maxlen: usize) -> Vec<String> {
  let mut out = vec![String::new()];
  let mut last = out.clone();
  for _ in 0..maxlen {
    last = last.iter().flat_map(|s| alpha.iter().map(move |a| format!("{s}{a}"))).collect();
    out.extend(last.iter().cloned());
  }
  out
}

fn main() {
  run("lexer", |r| {
    let alpha = [
      "a", "1", " ", "\n", "\r", "-", "=", "`", ":", ";", "<", ">", "!", "&", "#", "x", "{", "}", "@", ".", "é", "\\", "_", "’",
    ];
    let families: [&[&str]; 5] = [
      &["&", "#", "x", "1", "a", "g", ";", "\\"],
      &["<", "!", "--", ".", "1", "2", ">"],
      &["{", "a", "-", "_", "é", "}", "1", ":"],
      &["\n", "\r", "-", "`", "=", ".", "r", " "],
      &["a", "@", ".", ":", " ", "-", "é"],
    ];
    for f in families {
      for s in all_strings(f, r.tier(6, 7)) {
        r.check("lex-lossless", "exhaustive family", &s, || single(&s));
      }
    }
    let maxlen = r.tier(3, 5);
    for len in 0..=maxlen {
      let mut idx = vec![0usize; len];
      'all: loop {
        let s: String = idx.iter().map(|i| alpha[*i]).collect();
        r.check("lex-lossless", "exhaustive", &s, || single(&s));
        let mut k = 0;
        loop {
          if k == len {
            break 'all;
          }
          idx[k] += 1;
          if idx[k] < alpha.len() {
            break;
          }
          idx[k] = 0;
          k += 1;
        }
      }
      if !r.time_left() {
        break;
      }
    }
    let parts = [
      "a", "foo", "12", " ", "  ", "\t", "\n", "\r\n", "\r", "--", "----", "=", "==", "====", "=====", "=======", "``", "```", "````", "rust",
      "::", ":::", "::::", ";;", ":", ";", "<1>", "<12>", "<.>", "<!--.-->", "<!--1-->", "<!--12--", "<!--", "<1", "<.", "&amp;", "&#12;",
      "&#x1F;", "&#", "&#x", "&a", "{foo}", "{foo-bar_9}", "{", "}", "{é}", "\\{a}", "\\&amp;", "foo@bar.com", "foo@b.c@d", "@", "a@b", "é", "日本",
      "😀", "\u{a0}", "\u{202f}", "\u{2007}", "\u{2060}", "\u{3000}", "\u{feff}", "‘", "’", "“", "”", "…", "\u{1b}ass:", "\u{1b}", "http://", "https:",
      "ftp://", "file:///", "mailto://", "irc://", "include::", "ifdef::", "endif::", "ifeval::[", "footnote:", "xfootnote:", "indexterm:[",
      "xindexterm:[", "xindexterm2:", "image:", "image::", "kbd:[", "pass:", "link:", "((", ")))", "...", "//", "////", "****", "____", "++++", "....",
      "-", "*", "_", "#", "%", "|", "\"", "'", "\\", "^", "~", "+", "[", "]", "?", "!", ",", "&",
    ];
    let n = r.tier(60000, 3000000);
    for _ in 0..n {
      let s = r.rng.string(&parts, 12);
      r.check("lex-lossless", "random", &s, || single(&s));
      if !r.time_left() {
        break;
      }
    }
    for _ in 0..r.tier(4000, 100000) {
      let s = r.rng.string(&parts, 6);
      if s.is_empty() {
        continue;
      }
      for m in 0..3 {
        r.check("lex-buffer", "temporary buffer", &s, || tmp_buffer(&s, m, false).and(tmp_buffer(&s, m, true)));
      }
    }
    for _ in 0..r.tier(40000, 600000) {
      let mut rng = Rng(r.rng.next());
      let seed = rng.0;
      let mut out = None;
      let desc = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| nested(&mut rng)));
      match desc {
        Ok((d, res)) => {
          out = Some((d, res));
        }
        Err(_) => {}
      }
      match out {
        Some((d, res)) => {
          r.check("lex-nested", "pushed sources", d, || res);
        }
        None => {
          r.check("lex-nested", "pushed sources", format!("seed {seed}"), || Err(format!("panicked at {}", last_panic())));
        }
      }
    }
  })
}
