//@include prelude.inc
use vstd::string::*;
verus! {
// unit: document attributes and who may set them (core/src/document_meta.rs, attrs.rs, job_attrs.rs, job_settings.rs, validate.rs)
//@gsub HashMap<String, AttrValue> ==> VxMap<AttrValue>
//@gsub HashMap<String, JobAttr> ==> VxMap<JobAttr>
//@gsub HashMap<u64, String> ==> VxOpaque
//@gsub Rc<RefCell<HashSet<String>>> ==> VxOpaque
//@gsub HashSet<String> ==> VxOpaque
//@gsub HashMap::new() ==> VxMap::new()
//@gsub format!($x) ==> vx_msg()
//@gsub impl Into<AttrValue> ==> impl VxInto
// ---- trusted models: a hash map is a finite map from texts, a string its characters ----
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct VxMap<V> { m: std::collections::HashMap<String, V> }
impl<V: View> View for VxMap<V> { type V = Map<Seq<char>, V::V>; uninterp spec fn view(&self) -> Map<Seq<char>, V::V>; }
impl<V: View> VxMap<V> {
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V::V>::empty(), { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &str) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(k@) && v@ == self@[k@], None => !self@.contains_key(k@) }, { self.m.get(k) }
    #[verifier::external_body]
    fn insert(&mut self, k: String, v: V) ensures final(self)@ == old(self)@.insert(k@, v@), { self.m.insert(k, v); }
    #[verifier::external_body]
    fn remove(&mut self, k: &str) ensures final(self)@ == old(self)@.remove(k@), { self.m.remove(k); }
    #[verifier::external_body]
    fn extend(&mut self, o: Self) ensures final(self)@ == old(self)@.union_prefer_right(o@), { self.m.extend(o.m); }
}
#[verifier::external_body]
fn vx_take(a: &mut Attrs) -> (r: Attrs) ensures r@ == old(a)@, final(a)@ == Map::<Seq<char>, AV>::empty(), { unimplemented!() }
#[verifier::external_body]
pub struct VxOpaque { x: u8 }
#[verifier::external_body]
fn vx_opaque() -> VxOpaque { unimplemented!() }
#[verifier::external_body]
fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@), { a == b }
#[verifier::external_body]
fn vx_string(a: &str) -> (r: String) ensures r@ == a@, { a.to_owned() }
#[verifier::external_body]
fn vx_msg() -> (r: String) { unimplemented!() }
#[verifier::external_body]
fn vx_in_list(l: &[&str], s: &str) -> (r: bool) ensures r == exists|i: int| 0 <= i < l@.len() && (#[trigger] l@[i])@ == s@, { l.contains(&s) }
/// a derived `Clone`: equal to the original
#[verifier::external_body]
fn vx_clone_meta(m: &DocumentMeta) -> (r: DocumentMeta) ensures r@ == m@, r.embedded == m.embedded, { unimplemented!() }
#[verifier::external_body]
fn vx_clone_str(m: &String) -> (r: String) ensures r@ == m@, { m.clone() }

//@item core/src/attrs.rs :: - :: enum AttrValue
//@end
//@item core/src/job_attrs.rs :: - :: struct JobAttr
//@end
//@item core/src/attrs.rs :: - :: struct Attrs
//@end
//@item core/src/job_attrs.rs :: - :: struct JobAttrs
//@end
//@item core/src/doctype.rs :: - :: enum DocType
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item core/src/types.rs :: - :: enum SafeMode
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item core/src/types.rs :: - :: enum IconMode
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item core/src/types.rs :: - :: struct Author
//@end
//@item core/src/document_meta.rs :: - :: struct DocumentMeta
//@end
//@item core/src/job_settings.rs :: - :: struct JobSettings
//@end

// ---- specification ----
/// a value: a text, or set / unset
pub enum AV { S(Seq<char>), B(bool) }
pub struct JV { pub readonly: bool, pub value: AV }
impl View for AttrValue { type V = AV; open spec fn view(&self) -> AV { match self { AttrValue::String(s) => AV::S(s@), AttrValue::Bool(b) => AV::B(*b) } } }
impl View for JobAttr { type V = JV; open spec fn view(&self) -> JV { JV { readonly: self.readonly, value: self.value@ } } }
impl View for Attrs { type V = Map<Seq<char>, AV>; closed spec fn view(&self) -> Map<Seq<char>, AV> { self.0@ } }
impl View for JobAttrs { type V = Map<Seq<char>, JV>; closed spec fn view(&self) -> Map<Seq<char>, JV> { self.0@ } }
/// everything attribute lookup depends on
pub struct M { pub doctype: DocType, pub job: Map<Seq<char>, JV>, pub doc: Map<Seq<char>, AV>, pub header: Map<Seq<char>, AV>, pub dflt: Map<Seq<char>, AV>, pub safe: SafeMode }
impl View for DocumentMeta {
    type V = M;
    closed spec fn view(&self) -> M { M { doctype: self.doctype, job: self.job_attrs@, doc: self.doc_attrs@, header: self.header_attrs@, dflt: self.default_attrs@, safe: self.safe_mode } }
}
spec fn lookup<T>(m: Map<Seq<char>, T>, k: Seq<char>) -> Option<T> { if m.contains_key(k) { Some(m[k]) } else { None } }
/// what the document itself says: body over header
spec fn own_value(m: M, k: Seq<char>) -> Option<AV> {
    match lookup(m.doc, k) { Some(v) => Some(v), None => lookup(m.header, k) }
}
/// ... and failing that the built-in default
spec fn doc_value(m: M, k: Seq<char>) -> Option<AV> {
    match own_value(m, k) { Some(v) => Some(v), None => lookup(m.dflt, k) }
}
spec fn flag(b: bool) -> Option<AV> { if b { Some(AV::B(true)) } else { None } }
/// the value in force: a locked job value wins, else the document's own, else the job's, else the built-in default
spec fn in_force(m: M, k: Seq<char>) -> Option<AV> {
    if k == "doctype-article"@ { flag(m.doctype == DocType::Article) }
    else if k == "doctype-book"@ { flag(m.doctype == DocType::Book) }
    else if k == "doctype-inline"@ { flag(m.doctype == DocType::Inline) }
    else if k == "doctype-manpage"@ { flag(m.doctype == DocType::Manpage) }
    else {
        match lookup(m.job, k) {
            Some(j) if j.readonly => Some(j.value),
            Some(j) => match own_value(m, k) { Some(v) => Some(v), None => Some(j.value) },
            None => match doc_value(m, k) { Some(v) => Some(v), None => if k == "doctitle"@ { doc_value(m, "_asciidork_derived_doctitle"@) } else { None } },
        }
    }
}
spec fn locked(m: M, k: Seq<char>) -> bool { m.job.contains_key(k) && m.job[k].readonly }
spec fn text_of(d: DocType) -> Seq<char> { match d { DocType::Article => "article"@, DocType::Book => "book"@, DocType::Manpage => "manpage"@, DocType::Inline => "inline"@ } }
spec fn doctype_named(s: Seq<char>) -> Option<DocType> {
    if s == "article"@ { Some(DocType::Article) } else if s == "book"@ { Some(DocType::Book) } else if s == "manpage"@ { Some(DocType::Manpage) } else if s == "inline"@ { Some(DocType::Inline) } else { None }
}
/// the text a value stands for: a set attribute is the empty text, an unset one has none
spec fn text(v: AV) -> Option<Seq<char>> { match v { AV::S(s) => Some(s), AV::B(true) => Some(Seq::empty()), AV::B(false) => None } }
spec fn opt_text(v: Option<AV>) -> Option<Seq<char>> { match v { Some(v) => text(v), None => None } }
spec fn job_only(k: Seq<char>) -> bool {
    k == "allow-uri-read"@ || k == "max-attribute-value-size"@ || k == "max-include-depth"@ || k == "doc"@ || k == "docdir"@ || k == "docfile"@ || k == "docfilesuffix"@ || k == "docname"@
}
spec fn header_only(k: Seq<char>) -> bool {
    k == "experimental"@ || k == "reproducible"@ || k == "skip-front-matter"@ || k == "lang"@ || k == "last-update-label"@ || k == "manname-title"@ || k == "nolang"@
    || k == "toc-title"@ || k == "untitled-label"@ || k == "version-label"@ || k == "app-name"@ || k == "author"@ || k == "authorinitials"@ || k == "authors"@
    || k == "copyright"@ || k == "doctitle"@ || k == "doctype"@ || k == "description"@ || k == "email"@ || k == "firstname"@ || k == "keywords"@ || k == "lastname"@
    || k == "middlename"@ || k == "orgname"@ || k == "revdate"@ || k == "revnumber"@ || k == "revremark"@ || k == "title"@ || k == "copycss"@ || k == "css-signature"@
    || k == "linkcss"@ || k == "stylesdir"@ || k == "stylesheet"@ || k == "toc-class"@ || k == "webfonts"@
}
/// values the reader rejects
spec fn acceptable(k: Seq<char>, v: AV) -> bool {
    if k == "attribute-missing"@ { v == AV::S("skip"@) || v == AV::S("warn"@) || v == AV::S("drop"@) || v == AV::S("drop-line"@) }
    else if k == "attribute-undefined"@ { v == AV::S("drop"@) || v == AV::S("drop-line"@) }
    else if k == "showtitle"@ || k == "notitle"@ { v is B }
    else { true }
}
/// `showtitle` and `notitle` are two names of one switch: setting one takes the other out
spec fn put<T>(m: Map<Seq<char>, T>, k: Seq<char>, v: T) -> Map<Seq<char>, T> {
    (if k == "showtitle"@ { m.remove("notitle"@) } else if k == "notitle"@ { m.remove("showtitle"@) } else { m }).insert(k, v)
}
spec fn refused_for_doctype(m: M, k: Seq<char>) -> bool {
    (k == "chapter-refsig"@ || k == "chapter-signifier"@ || k == "part-refsig"@ || k == "part-signifier"@) && m.doctype != DocType::Book
}
spec fn with_doctype(m: M, d: DocType) -> M { M { doctype: d, header: put(m.header, "doctype"@, AV::S(text_of(d))), ..m } }
/// an attribute entry in the header
spec fn header_ok(m: M, k: Seq<char>, v: AV) -> bool {
    !job_only(k) && (if k == "doctype"@ { match text(v) { Some(s) => doctype_named(s).is_some(), None => false } } else { !refused_for_doctype(m, k) && acceptable(k, v) })
}
spec fn header_step(m: M, k: Seq<char>, v: AV) -> M {
    if !header_ok(m, k, v) { m }
    else if k == "doctype"@ { if locked(m, k) { m } else { with_doctype(m, doctype_named(text(v).unwrap()).unwrap()) } }
    else { M { header: put(m.header, k, v), ..m } }
}
/// an attribute entry in the body
spec fn body_ok(k: Seq<char>, v: AV) -> bool { !job_only(k) && !header_only(k) && acceptable(k, v) }
spec fn body_step(m: M, k: Seq<char>, v: AV) -> M { if body_ok(k, v) { M { doc: put(m.doc, k, v), ..m } } else { m } }
spec fn without_attr(m: M, k: Seq<char>) -> M { M { header: m.header.remove(k), doc: m.doc.remove(k), job: m.job.remove(k), ..m } }
/// what was set so far comes before everything the cell says
spec fn settled(m: M) -> M { M { header: m.header.union_prefer_right(m.doc), doc: Map::empty(), ..m } }
spec fn for_cell(m: M) -> M {
    without_attr(without_attr(without_attr(without_attr(without_attr(with_doctype(without_attr(settled(m), "doctype"@), DocType::Article), "toc"@), "toc-placement"@), "toc-position"@), "showtitle"@), "notitle"@)
}
/// the document type and the `doctype` attribute say the same
spec fn agree(m: M) -> bool {
    in_force(m, "doctype"@) == Some(AV::S(text_of(m.doctype))) && !m.doc.contains_key("doctype"@) && !m.dflt.contains_key("doctype"@)
}
pub enum Op { Header(Seq<char>, AV), Body(Seq<char>, AV), ClearBody }
spec fn step(m: M, o: Op) -> M { match o { Op::Header(k, v) => header_step(m, k, v), Op::Body(k, v) => body_step(m, k, v), Op::ClearBody => M { doc: Map::empty(), ..m } } }
spec fn run(m: M, os: Seq<Op>) -> M
    decreases os.len(),
{ if os.len() == 0 { m } else { step(run(m, os.drop_last()), os.last()) } }
/// whatever a document does, in whatever order: job values stay, locked attributes keep their value, the document type stays in step
proof fn theorem_locked(m: M, os: Seq<Op>, k: Seq<char>)
    requires agree(m), job_only(k) ==> !m.doc.contains_key(k),
    ensures job_only(k) ==> !run(m, os).doc.contains_key(k), run(m, os).job == m.job, run(m, os).dflt == m.dflt, agree(run(m, os)),
        locked(m, k) && k != "doctype-article"@ && k != "doctype-book"@ && k != "doctype-inline"@ && k != "doctype-manpage"@ ==> in_force(run(m, os), k) == Some(m.job[k].value),
        job_only(k) ==> in_force(run(m, os), k) == in_force(m, k),
        locked(m, "doctype"@) ==> run(m, os).doctype == m.doctype,
    decreases os.len(),
{
    lits();
    if os.len() > 0 {
        theorem_locked(m, os.drop_last(), k);
        let a = run(m, os.drop_last());
        match os.last() { Op::Header(x, v) => { lemma_agree_header(a, x, v); } Op::Body(x, v) => {} Op::ClearBody => {} }
    }
}
proof fn lemma_agree_header(m: M, k: Seq<char>, v: AV)
    requires agree(m),
    ensures agree(header_step(m, k, v)), locked(m, "doctype"@) ==> header_step(m, k, v).doctype == m.doctype,
{ lits(); }
//@distinct lits doctype doctype-article doctype-book doctype-inline doctype-manpage doctitle showtitle notitle attribute-missing attribute-undefined toc toc-placement toc-position allow-uri-read max-attribute-value-size max-include-depth doc docdir docfile docfilesuffix docname chapter-refsig chapter-signifier part-refsig part-signifier
//@differs lits_dflt doctype empty blank attribute-missing attribute-undefined appendix-caption appendix-refsig caution-caption chapter-refsig example-caption figure-caption important-caption last-update-label note-caption part-refsig section-refsig table-caption tip-caption toc-title untitled-label version-label warning-caption sp nbsp zwsp wj apos quot lsquo rsquo ldquo rdquo deg plus brvbar vbar amp lt gt startsb endsb caret asterisk tilde backslash backtick two-colons two-semicolons cpp pp copycss stylesdir iconsdir stylesheet webfonts
//@distinct lits_types article book manpage inline
//@distinct lits_safe safe-mode-unsafe safe-mode-safe safe-mode-server safe-mode-secure safe-mode-level safe-mode-name doctype doctitle

// ---- the code ----
impl DocType {
//@extract core/src/doctype.rs :: impl DocType :: fn to_str
//@ spec
ensures r@ == text_of(*self),
//@end
//@extract core/src/doctype.rs :: impl FromStr for DocType :: fn from_str
//@ sub Result<Self, Self::Err> ==> Result<DocType, &'static str>
//@ spec
ensures match r { Ok(d) => doctype_named(s@) == Some(d), Err(_) => doctype_named(s@).is_none() },
//@end
}
//@extract core/src/attrs.rs :: impl From<&str> for AttrValue :: fn from
//@ rename vx_av_str
//@ sub -> Self ==> -> AttrValue
//@ sub s.to_owned() ==> vx_string(s)
//@ spec
ensures r@ == AV::S(s@),
//@end
//@extract core/src/attrs.rs :: impl From<bool> for AttrValue :: fn from
//@ rename vx_av_bool
//@ sub -> Self ==> -> AttrValue
//@ spec
ensures r@ == AV::B(b),
//@end
//@extract core/src/attrs.rs :: impl From<String> for AttrValue :: fn from
//@ rename vx_av_string
//@ sub -> Self ==> -> AttrValue
//@ spec
ensures r@ == AV::S(s@),
//@end
/// `Into<AttrValue>`: the three conversions above, and a value itself
trait VxInto: Sized {
    spec fn av(&self) -> AV;
    fn into(self) -> (r: AttrValue) ensures r@ == self.av();
}
impl VxInto for &str { spec fn av(&self) -> AV { AV::S(self@) } fn into(self) -> (r: AttrValue) { vx_av_str(self) } }
impl VxInto for bool { spec fn av(&self) -> AV { AV::B(*self) } fn into(self) -> (r: AttrValue) { vx_av_bool(self) } }
impl VxInto for String { spec fn av(&self) -> AV { AV::S(self@) } fn into(self) -> (r: AttrValue) { vx_av_string(self) } }
impl VxInto for AttrValue { spec fn av(&self) -> AV { self@ } fn into(self) -> (r: AttrValue) { self } }
impl AttrValue {
//@extract core/src/attrs.rs :: impl AttrValue :: fn is_true
//@ spec
ensures r == (self@ == AV::B(true)),
//@end
//@extract core/src/attrs.rs :: impl AttrValue :: fn is_false
//@ spec
ensures r == (self@ == AV::B(false)),
//@end
//@extract core/src/attrs.rs :: impl AttrValue :: fn str
//@ spec
ensures match r { Some(s) => text(self@) == Some(s@), None => text(self@).is_none() },
//@ body
proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@end
}
trait ReadAttr {
    spec fn spec_get(&self, k: Seq<char>) -> Option<AV>;
    fn get(&self, key: &str) -> (r: Option<&AttrValue>)
        ensures match r { Some(v) => self.spec_get(key@) == Some(v@), None => self.spec_get(key@).is_none() };
//@extract core/src/attrs.rs :: trait ReadAttr :: fn is_true
//@ optchain
//@ spec
ensures r == (self.spec_get(key@) == Some(AV::B(true))),
//@end
//@extract core/src/attrs.rs :: trait ReadAttr :: fn is_false
//@ optchain
//@ spec
ensures r == (self.spec_get(key@) == Some(AV::B(false))),
//@end
//@extract core/src/attrs.rs :: trait ReadAttr :: fn is_set
//@ spec
ensures r == self.spec_get(key@).is_some(),
//@end
//@extract core/src/attrs.rs :: trait ReadAttr :: fn is_unset
//@ spec
ensures r == self.spec_get(key@).is_none(),
//@end
//@extract core/src/attrs.rs :: trait ReadAttr :: fn str
//@ optchain
//@ spec
ensures match r { Some(s) => opt_text(self.spec_get(key@)) == Some(s@), None => opt_text(self.spec_get(key@)).is_none() },
//@end
//@extract core/src/attrs.rs :: trait ReadAttr :: fn string
//@ sub ToOwned::to_owned ==> vx_string
//@ optchain
//@ spec
ensures match r { Some(s) => opt_text(self.spec_get(key@)) == Some(s@), None => opt_text(self.spec_get(key@)).is_none() },
//@end
//@extract core/src/attrs.rs :: trait ReadAttr :: fn str_or
//@ optchain
//@ spec
ensures r@ == (match opt_text(self.spec_get(key@)) { Some(s) => s, None => default@ }),
//@end
//@extract core/src/attrs.rs :: trait ReadAttr :: fn string_or
//@ sub default.to_owned() ==> vx_string(default)
//@ sub ToOwned::to_owned ==> vx_string
//@ optchain
//@ spec
ensures r@ == (match opt_text(self.spec_get(key@)) { Some(s) => s, None => default@ }),
//@end
//@extract core/src/attrs.rs :: trait ReadAttr :: fn true_if
//@ spec
ensures match r { Some(v) => predicate && v@ == AV::B(true), None => !predicate },
//@end
}
impl ReadAttr for Attrs {
    spec fn spec_get(&self, k: Seq<char>) -> Option<AV> { lookup(self@, k) }
//@extract core/src/attrs.rs :: impl ReadAttr for Attrs :: fn get
//@end
}
trait RemoveAttr: Sized {
    spec fn without(&self, k: Seq<char>, o: &Self) -> bool;
    spec fn is(&self, o: &Self) -> bool;
    proof fn same(&self, o: &Self) ensures *self == *o ==> self.is(o);
    fn remove(&mut self, key: &str) ensures final(self).without(key@, old(self));
}
impl RemoveAttr for Attrs {
    spec fn without(&self, k: Seq<char>, o: &Self) -> bool { self@ == o@.remove(k) }
    spec fn is(&self, o: &Self) -> bool { self@ == o@ }
    proof fn same(&self, o: &Self) {}
//@extract core/src/attrs.rs :: impl RemoveAttr for Attrs :: fn remove
//@end
}
impl RemoveAttr for JobAttrs {
    spec fn without(&self, k: Seq<char>, o: &Self) -> bool { self@ == o@.remove(k) }
    spec fn is(&self, o: &Self) -> bool { self@ == o@ }
    proof fn same(&self, o: &Self) {}
//@extract core/src/job_attrs.rs :: impl RemoveAttr for JobAttrs :: fn remove
//@end
}
//@extract core/src/validate.rs :: - :: fn one_of
//@ sub options.contains(&value.as_str()) ==> vx_in_list(options, value.as_str())
//@ spec
ensures r.is_ok() == (match value@ { AV::S(s) => exists|i: int| 0 <= i < options@.len() && (#[trigger] options@[i])@ == s, AV::B(_) => false }),
//@end
//@extract core/src/validate.rs :: - :: fn bool
//@ rename vx_bool
//@ sub key: impl Into<String> ==> key: &String
//@ sub key.into() ==> vx_clone_str(key)
//@ spec
ensures r.is_ok() == (value@ is B),
//@end
//@extract core/src/validate.rs :: - :: fn attr
//@ sub key: impl Into<String> ==> key: &String
//@ sub key.into() ==> vx_clone_str(key)
//@ sub bool( ==> vx_bool(
//@ sub &key == $x { ==> vx_str_eq(key.as_str(), $x) {
//@ spec
ensures r.is_ok() == acceptable(key@, value@),
    match r { Ok(_) => if key@ == "showtitle"@ { final(attrs).without("notitle"@, old(attrs)) } else if key@ == "notitle"@ { final(attrs).without("showtitle"@, old(attrs)) } else { final(attrs).is(old(attrs)) },
        Err(_) => final(attrs).is(old(attrs)) },
//@ body
proof { old(attrs).same(old(attrs)); lits();
    let a = ["skip", "warn", "drop", "drop-line"]; assert(a@[0] == "skip" && a@[1] == "warn" && a@[2] == "drop" && a@[3] == "drop-line"); 
    let b = ["drop", "drop-line"]; assert(b@[0] == "drop" && b@[1] == "drop-line"); }
//@end
impl Attrs {
//@extract core/src/attrs.rs :: impl Attrs :: fn extend
//@ spec
ensures final(self)@ == old(self)@.union_prefer_right(other@),
//@end
//@extract core/src/attrs.rs :: impl Attrs :: fn empty
//@ spec
ensures r@ == Map::<Seq<char>, AV>::empty(),
//@end
//@extract core/src/attrs.rs :: impl Attrs :: fn insert
//@ sub key: impl Into<String> ==> key: &str
//@ sub key.into() ==> vx_string(key)
//@ sub validate::attr ==> attr
//@ spec
ensures r.is_ok() == acceptable(key@, value@), final(self)@ == (if acceptable(key@, value@) { put(old(self)@, key@, value@) } else { old(self)@ }),
//@end
}
impl JobAttr {
//@extract core/src/job_attrs.rs :: impl JobAttr :: fn modifiable
//@ spec
ensures r@ == (JV { readonly: false, value: value.av() }),
//@end
//@extract core/src/job_attrs.rs :: impl JobAttr :: fn readonly
//@ spec
ensures r@ == (JV { readonly: true, value: value.av() }),
//@end
}
impl JobAttrs {
//@extract core/src/job_attrs.rs :: impl JobAttrs :: fn empty
//@ spec
ensures r@ == Map::<Seq<char>, JV>::empty(),
//@end
//@extract core/src/job_attrs.rs :: impl JobAttrs :: fn insert
//@ sub key: impl Into<String> ==> key: String
//@ sub key.into() ==> key
//@ sub validate::attr ==> attr
//@ spec
ensures r.is_ok() == acceptable(key@, job_attr@.value), final(self)@ == (if acceptable(key@, job_attr@.value) { put(old(self)@, key@, job_attr@) } else { old(self)@ }),
//@end
//@extract core/src/job_attrs.rs :: impl JobAttrs :: fn insert_unchecked
//@ sub key: impl Into<String> ==> key: &str
//@ sub key.into() ==> vx_string(key)
//@ spec
ensures final(self)@ == old(self)@.insert(key@, job_attr@),
//@end
//@extract core/src/job_attrs.rs :: impl JobAttrs :: fn get
//@ spec
ensures match r { Some(v) => self@.contains_key(key@) && v@ == self@[key@], None => !self@.contains_key(key@) },
//@end
//@extract core/src/job_attrs.rs :: impl JobAttrs :: fn remove
//@ spec
ensures final(self)@ == old(self)@.remove(key@),
//@end
}
//@list core/src/document_meta.rs :: static ref JOB_ONLY :: fn vx_job_only
//@ spec
ensures r == job_only(key@),
//@end
//@list core/src/document_meta.rs :: static ref HEADER_ONLY :: fn vx_header_only
//@ spec
ensures r == header_only(key@),
//@end
impl DocumentMeta {
//@extract core/src/document_meta.rs :: impl Default for DocumentMeta :: fn default
//@ rename vx_default
//@ sub SafeMode::default() ==> SafeMode::Secure
//@ sub DocType::default() ==> DocType::Article
//@ sub Attrs::defaults() ==> vx_defaults()
//@ sub ?HashSet::new() ==> vx_opaque()
//@ sub ?Rc::default() ==> vx_opaque()
//@ sub VxMap::new() ==> vx_opaque()
//@ spec
ensures r@ == (M { doctype: DocType::Article, job: Map::empty(), doc: Map::empty(), header: Map::empty(), dflt: defaults(), safe: SafeMode::Secure }), !r.embedded,
//@end
//@extract core/src/document_meta.rs :: impl DocumentMeta :: fn new
//@ sub Default::default() ==> DocumentMeta::vx_default()
//@ spec
ensures r@ == (M { doctype: DocType::Article, job: with_safe_mode(job_attrs@, safe_mode), doc: Map::empty(), header: Map::empty(), dflt: defaults(), safe: safe_mode }), !r.embedded,
//@end
//@extract core/src/document_meta.rs :: impl DocumentMeta :: fn remove_attr
//@ spec
ensures final(self)@ == without_attr(old(self)@, key@), final(self).embedded == old(self).embedded,
//@end
//@extract core/src/document_meta.rs :: impl DocumentMeta :: fn clone_for_cell
//@ sub self.clone() ==> vx_clone_meta(self)
//@ sub std::mem::take ==> vx_take
//@ spec
ensures r@ == for_cell(self@), r.embedded == self.embedded,
    agree(self@) ==> agree(r@) && r@.doctype == DocType::Article,
    // nothing a cell is not disconnected from is unlocked
    forall|k: Seq<char>| k != "doctype"@ && k != "toc"@ && k != "toc-placement"@ && k != "toc-position"@ && k != "showtitle"@ && k != "notitle"@ ==>
        lookup(r@.job, k) == #[trigger] lookup(self@.job, k),
    // ... and the cell starts with the values in force where it is
    forall|k: Seq<char>| k != "doctype"@ && k != "toc"@ && k != "toc-placement"@ && k != "toc-position"@ && k != "showtitle"@ && k != "notitle"@ ==>
        own_value(r@, k) == #[trigger] own_value(self@, k),
//@ body
proof { lits(); }
//@end
//@extract core/src/document_meta.rs :: impl DocumentMeta :: fn insert_header_attr
//@ sub JOB_ONLY.contains(key) ==> vx_job_only(key)
//@ sub s.parse::<DocType>().ok() ==> (match DocType::from_str(s) { Ok(d) => Some(d), Err(_) => None })
//@ sub "Invalid doctype: expected `article`, `book`, `manpage`, or `inline`".into() ==> vx_msg()
//@ optchain
//@ spec
ensures r.is_ok() == header_ok(old(self)@, key@, value.av()), final(self)@ == header_step(old(self)@, key@, value.av()), final(self).embedded == old(self).embedded,
    agree(old(self)@) ==> agree(final(self)@),
//@ body
proof { lits(); if agree(self@) { lemma_agree_header(self@, key@, value.av()); } }
//@end
//@extract core/src/document_meta.rs :: impl DocumentMeta :: fn insert_doc_attr
//@ sub JOB_ONLY.contains(key) ==> vx_job_only(key)
//@ sub HEADER_ONLY.contains(key) ==> vx_header_only(key)
//@ spec
ensures r.is_ok() == body_ok(key@, value.av()), final(self)@ == body_step(old(self)@, key@, value.av()), final(self).embedded == old(self).embedded,
    agree(old(self)@) ==> agree(final(self)@),
//@ body
proof { lits(); }
//@end
//@extract core/src/document_meta.rs :: impl DocumentMeta :: fn insert_job_attr
//@ sub key: impl Into<String> ==> key: String
//@ sub key.into() ==> key
//@ spec
ensures r.is_ok() == acceptable(key@, job_attr@.value),
    final(self)@ == (if acceptable(key@, job_attr@.value) { M { job: put(old(self)@.job, key@, job_attr@), ..old(self)@ } } else { old(self)@ }),
    final(self).embedded == old(self).embedded,
    key@ != "doctype"@ && agree(old(self)@) ==> agree(final(self)@),
//@ body
proof { lits(); }
//@end
//@extract core/src/document_meta.rs :: impl DocumentMeta :: fn clear_doc_attrs
//@ spec
ensures final(self)@ == (M { doc: Map::empty(), ..old(self)@ }), final(self).embedded == old(self).embedded, agree(old(self)@) ==> agree(final(self)@),
//@ body
proof { lits(); }
//@end
//@extract core/src/document_meta.rs :: impl DocumentMeta :: fn set_doctype
//@ sub self.doctype.to_str().into() ==> vx_av_str(self.doctype.to_str())
//@ spec
ensures final(self)@ == with_doctype(old(self)@, doctype), final(self).embedded == old(self).embedded,
//@ body
proof { lits(); }
//@end
//@extract core/src/document_meta.rs :: impl DocumentMeta :: fn get_doctype
//@ spec
ensures r == self@.doctype,
//@end
//@extract core/src/document_meta.rs :: impl DocumentMeta :: fn icon_mode
//@ spec
ensures r == (match in_force(self@, "icons"@) { Some(AV::B(true)) => IconMode::Image, Some(AV::S(s)) => if s == "font"@ { IconMode::Font } else if s == "image"@ || s == ""@ { IconMode::Image } else { IconMode::Text }, _ => IconMode::Text }),
//@end
//@extract core/src/document_meta.rs :: impl DocumentMeta :: fn explicit_attr
//@ spec
ensures match r { Some(v) => own_value(self@, key@) == Some(v@), None => own_value(self@, key@).is_none() },
//@end
//@extract core/src/document_meta.rs :: impl DocumentMeta :: fn resolve_attr
//@ spec
ensures match r { Some(v) => doc_value(self@, key@) == Some(v@), None => doc_value(self@, key@).is_none() },
//@end
//@extract core/src/document_meta.rs :: impl DocumentMeta :: fn header_attrs
//@ spec
ensures r@ == self@.header,
//@end
//@extract core/src/document_meta.rs :: impl DocumentMeta :: fn show_doc_title
//@ spec
ensures ({ let n = in_force(self@, "notitle"@); let s = in_force(self@, "showtitle"@); let on = Some(AV::B(true)); let off = Some(AV::B(false));
    r == (if n == on || s == off { false } else { !self.embedded || s == on || n == off }) }),
//@end
}
impl ReadAttr for DocumentMeta {
    spec fn spec_get(&self, k: Seq<char>) -> Option<AV> { in_force(self@, k) }
//@extract core/src/document_meta.rs :: impl ReadAttr for DocumentMeta :: fn get
//@ optchain or,or_else,unwrap_or
//@ sub _ if key == "doctitle" => ==> _ if vx_str_eq(key, "doctitle") =>
//@ body
proof { lits(); }
//@end
}
//@pairs core/src/attrs.rs :: fn defaults :: fn vx_defaults_map
//@ spec
ensures r@ == defaults(),
//@end
fn vx_defaults() -> (r: Attrs) ensures r@ == defaults(), { Attrs(vx_defaults_map()) }
spec fn with_safe_mode(j: Map<Seq<char>, JV>, s: SafeMode) -> Map<Seq<char>, JV> {
    let (n, l, u) = match s { SafeMode::Unsafe => ("safe-mode-unsafe"@, "0"@, "UNSAFE"@), SafeMode::Safe => ("safe-mode-safe"@, "1"@, "SAFE"@),
        SafeMode::Server => ("safe-mode-server"@, "10"@, "SERVER"@), SafeMode::Secure => ("safe-mode-secure"@, "20"@, "SECURE"@) };
    j.insert(n, JV { readonly: true, value: AV::B(true) }).insert("safe-mode-level"@, JV { readonly: true, value: AV::S(l) }).insert("safe-mode-name"@, JV { readonly: true, value: AV::S(u) })
}
//@extract core/src/job_settings.rs :: impl From<JobSettings> for DocumentMeta :: fn from
//@ rename vx_meta_from
//@ sub -> Self ==> -> DocumentMeta
//@ sub s.parse::<DocType>().ok() ==> (match DocType::from_str(s) { Ok(d) => Some(d), Err(_) => None })
//@ optchain
//@ spec
ensures agree(r@), r@.safe == settings.safe_mode, r.embedded == settings.embedded, r@.doc == Map::<Seq<char>, AV>::empty(),
    // the doctype option wins and locks; otherwise a doctype among the job attributes; otherwise article
    r@.doctype == (match settings.doctype { Some(d) => d, None => match job_doctype(settings.job_attrs@) { Some(d) => d, None => DocType::Article } }),
    settings.doctype.is_some() ==> locked(r@, "doctype"@),
    settings.doctype.is_none() ==> (locked(r@, "doctype"@) <==> (job_doctype(settings.job_attrs@).is_some() && settings.job_attrs@["doctype"@].readonly)),
    // all other job attributes arrive as given
    forall|k: Seq<char>| k != "doctype"@ && !is_safe_mode_name(k) ==> lookup(r@.job, k) == #[trigger] lookup(settings.job_attrs@, k),
    locked(r@, "safe-mode-level"@) && locked(r@, "safe-mode-name"@),
//@ body
proof { lits(); lits_safe(); lits_dflt(); lits_types(); reveal_strlit("article"); reveal_strlit("book"); reveal_strlit("manpage"); reveal_strlit("inline"); assert("article"@.len() == 7 && "book"@.len() == 4 && "manpage"@.len() == 7 && "inline"@.len() == 6); }
//@end
spec fn job_doctype(j: Map<Seq<char>, JV>) -> Option<DocType> {
    match lookup(j, "doctype"@) { Some(a) => match text(a.value) { Some(s) => doctype_named(s), None => None }, None => None }
}
spec fn is_safe_mode_name(k: Seq<char>) -> bool { k == "safe-mode-unsafe"@ || k == "safe-mode-safe"@ || k == "safe-mode-server"@ || k == "safe-mode-secure"@ || k == "safe-mode-level"@ || k == "safe-mode-name"@ }

// ---- who calls it: the parser's own job-level settings ----
/// only the fields these functions touch
pub struct Document { pub meta: DocumentMeta }
pub struct Lexer { pub file: SourceFile }
pub struct Parser { pub document: Document, pub lexer: Lexer }
#[verifier::external_body]
pub struct Path { x: u8 }
pub uninterp spec fn path_text(p: Path) -> Seq<char>;
pub uninterp spec fn path_stem(p: Path) -> Seq<char>;
pub uninterp spec fn path_ext(p: Path) -> Seq<char>;
pub uninterp spec fn path_dir(p: Path) -> Path;
impl Path {
    #[verifier::external_body] fn file_stem(&self) -> (r: &str) ensures r@ == path_stem(*self), { unimplemented!() }
    #[verifier::external_body] fn extension(&self) -> (r: &str) ensures r@ == path_ext(*self), { unimplemented!() }
    #[verifier::external_body] fn dirname(&self) -> (r: Path) ensures r == path_dir(*self), { unimplemented!() }
    #[verifier::external_body] fn vx_text(&self) -> (r: String) ensures r@ == path_text(*self), { unimplemented!() }
}
#[verifier::external_body]
fn vx_concat(a: &str, b: &str) -> (r: String) ensures r@ == a@ + b@, { unimplemented!() }
#[verifier::external_body]
fn vx_home() -> (r: Option<String>) { unimplemented!() }
#[verifier::external_body]
fn vx_clone_file(f: &SourceFile) -> (r: SourceFile) ensures r == *f, { unimplemented!() }
//@item parser/src/parser.rs :: - :: enum SourceFile
//@end
//@distinct lits_job docfilesuffix docname asciidork-docfilename docdir docfile user-home data-uri max-attribute-value-size linkcss icons doctype doctitle doctype-article doctype-book doctype-inline doctype-manpage showtitle notitle attribute-missing attribute-undefined
spec fn locked_to(m: M, k: Seq<char>, v: AV) -> bool { m.job.contains_key(k) && m.job[k] == (JV { readonly: true, value: v }) }
spec fn job_set(m: M, k: Seq<char>, v: AV) -> M { M { job: put(m.job, k, JV { readonly: true, value: v }), ..m } }
spec fn locked_if_unset(m: M, k: Seq<char>, v: AV) -> M { if in_force(m, k).is_none() { job_set(m, k, v) } else { m } }
/// what secure mode fixes before the document is read
spec fn secured(m: M) -> M {
    if m.safe != SafeMode::Secure { m } else {
        locked_if_unset(locked_if_unset(locked_if_unset(job_set(m, "data-uri"@, AV::B(false)), "max-attribute-value-size"@, AV::S("4096"@)), "linkcss"@, AV::S(""@)), "icons"@, AV::B(false))
    }
}
/// embedding files is off for good in secure mode, whatever the document says
proof fn theorem_secure(m: M, os: Seq<Op>)
    requires agree(m), m.safe == SafeMode::Secure,
    ensures agree(secured(m)), in_force(run(secured(m), os), "data-uri"@) == Some(AV::B(false)),
{
    lits_job();
    let s = secured(m);
    assert(locked_to(s, "data-uri"@, AV::B(false)));
    if job_only("data-uri"@) { reveal_strlit("data-uri"); reveal_strlit("allow-uri-read"); reveal_strlit("max-include-depth"); reveal_strlit("doc"); reveal_strlit("docdir"); reveal_strlit("docfile"); reveal_strlit("docname"); assert("data-uri"@.len() == 8 && "allow-uri-read"@.len() == 14 && "max-include-depth"@.len() == 17 && "doc"@.len() == 3 && "docdir"@.len() == 6); }
    theorem_locked(s, os, "data-uri"@);
}
impl Lexer {
    fn source_file(&self) -> (r: &SourceFile) ensures *r == self.file, { &self.file }
}
impl Parser {
//@extract parser/src/tasks/attr_refs.rs :: impl Parser :: fn insert_job_attr
//@ sub .insert_job_attr(key, JobAttr::readonly(value)) .unwrap() ==> .insert_job_attr(vx_string(key), JobAttr::readonly(value)).unwrap()
//@ spec
requires acceptable(key@, value.av()),
ensures final(self).document.meta@ == job_set(old(self).document.meta@, key@, value.av()), final(self).lexer == old(self).lexer,
//@end
//@extract parser/src/parser.rs :: impl Parser :: fn lockdown_secure_mode
//@ sub meta.insert_job_attr($k, $v) ==> meta.insert_job_attr(vx_string($k), $v)
//@ sub _ = meta ==> let _ = meta
//@ spec
ensures final(self).document.meta@ == secured(old(self).document.meta@), agree(old(self).document.meta@) ==> agree(final(self).document.meta@),
//@ body
proof { lits_job(); }
//@end
//@extract parser/src/tasks/attr_refs.rs :: impl Parser :: fn set_source_file_attrs
//@ sub self.lexer.source_file().clone() ==> vx_clone_file(self.lexer.source_file())
//@ sub let filename = vx_msg() ==> let filename = vx_concat(file_stem, ext)
//@ sub ext.to_string() ==> vx_string(ext)
//@ sub file_stem.to_string() ==> vx_string(file_stem)
//@ sub filename.clone() ==> vx_clone_str(&filename)
//@ sub path.to_string() ==> path.vx_text()
//@ sub path.dirname().to_string() ==> path.dirname().vx_text()
//@ sub std::env::home_dir() ==> vx_home()
//@ sub home.to_str().unwrap_or(".") ==> home
//@ spec
ensures final(self).lexer == old(self).lexer, agree(old(self).document.meta@) ==> agree(final(self).document.meta@),
    final(self).document.meta@.doctype == old(self).document.meta@.doctype, final(self).document.meta@.safe == old(self).document.meta@.safe,
    final(self).document.meta@.doc == old(self).document.meta@.doc, final(self).document.meta@.header == old(self).document.meta@.header,
    match old(self).lexer.file {
        SourceFile::Path(p) => {
            let m = final(self).document.meta@; let f = path_stem(p) + path_ext(p);
            // where the file lies is told to the document in the lenient modes only
            &&& locked_to(m, "docname"@, AV::S(path_stem(p))) &&& locked_to(m, "docfilesuffix"@, AV::S(path_ext(p))) &&& locked_to(m, "asciidork-docfilename"@, AV::S(f))
            &&& (m.safe == SafeMode::Server || m.safe == SafeMode::Secure ==> locked_to(m, "docdir"@, AV::S(""@)) && locked_to(m, "docfile"@, AV::S(f)) && locked_to(m, "user-home"@, AV::S("."@)))
            &&& (m.safe == SafeMode::Safe || m.safe == SafeMode::Unsafe ==> locked_to(m, "docdir"@, AV::S(path_text(path_dir(p)))) && locked_to(m, "docfile"@, AV::S(path_text(p))))
        }
        _ => final(self).document.meta@ == old(self).document.meta@,
    },
//@ body
proof { lits_job(); }
//@end
}
#[verifier::opaque]
spec fn header_put(m: M, k: Seq<char>, v: Seq<char>) -> M { if acceptable(k, AV::S(v)) { M { header: put(m.header, k, AV::S(v)), ..m } } else { m } }
/// what an entry for `k` leaves alone
spec fn header_frame(a: M, b: M, k: Seq<char>) -> bool {
    a.job == b.job && a.doc == b.doc && a.doctype == b.doctype && a.safe == b.safe && a.dflt == b.dflt && (k != "doctype"@ && agreed(a) ==> agreed(b))
    && (k != "author"@ ==> lookup(a.header, "author"@) == lookup(b.header, "author"@))
}
#[verifier::opaque]
spec fn agreed(m: M) -> bool { agree(m) }
impl DocumentMeta {
//@extract core/src/document_meta.rs :: impl DocumentMeta :: fn insert_string_attr
//@ sub _ = self ==> let _ = self
//@ spec
ensures final(self)@ == header_put(old(self)@, key@, value@), final(self).embedded == old(self).embedded, final(self).authors == old(self).authors, header_frame(old(self)@, final(self)@, key@),
//@ body
proof { reveal(header_put); reveal(agreed); lits(); lits_author(); }
//@end
//@extract core/src/document_meta.rs :: impl DocumentMeta :: fn add_author
//@ sub &vx_msg() ==> &vx_numbered()
//@ sub author.fullname() ==> vx_msg()
//@ sub author.initials() ==> vx_msg()
//@ sub email.clone() ==> vx_clone_str(email)
//@ sub author.last_name.clone() ==> vx_clone_str(&author.last_name)
//@ sub author.first_name.clone() ==> vx_clone_str(&author.first_name)
//@ sub middle_name.clone() ==> vx_clone_str(middle_name)
//@ spec
requires old(self).authors.len() < usize::MAX,
ensures final(self)@.job == old(self)@.job, final(self)@.doc == old(self)@.doc, final(self)@.doctype == old(self)@.doctype, final(self)@.safe == old(self)@.safe,
    agreed(old(self)@) ==> agreed(final(self)@), final(self).authors@ == old(self).authors@.push(author),
    // the first author stays the main one
    old(self).authors.len() > 0 ==> lookup(final(self)@.header, "author"@) == lookup(old(self)@.header, "author"@),
//@ body
proof { lits_author(); lits(); }
//@end
}
/// `format!("author_{n}")` and the like: one of the numbered author keys
#[verifier::external_body]
fn vx_numbered() -> (r: String) ensures r@ != "doctype"@, r@ != "author"@, r@ != "showtitle"@, r@ != "notitle"@, { unimplemented!() }
//@distinct lits_author author email lastname middlename firstname authorinitials authors doctype showtitle notitle

// ---- attributes given on the command line ----
/// what the expression matches: `[!][@]name[!][@][=value]`, in full
//@expect cli/src/args.rs :: Regex::new(r"(?s)^(!)?(@)?(\w(?:[\w-]*))(!)?(@)?(?:=(.+)?)?$").unwrap()
pub struct VxCaps { pub b1: bool, pub a1: bool, pub key: String, pub b2: bool, pub a2: bool, pub value: Option<String> }
pub uninterp spec fn attr_name(s: Seq<char>) -> bool;
spec fn mark(b: bool, c: char) -> Seq<char> { if b { seq![c] } else { Seq::empty() } }
spec fn caps_of(c: VxCaps, s: Seq<char>) -> bool {
    let head = mark(c.b1, '!') + mark(c.a1, '@') + c.key@ + mark(c.b2, '!') + mark(c.a2, '@');
    attr_name(c.key@) && (match c.value { Some(v) => v@.len() > 0 && s == head + seq!['='] + v@, None => s == head || s == head + seq!['='] })
}
#[verifier::external_body]
fn vx_attr_re(s: &str) -> (r: Option<VxCaps>) ensures match r { Some(c) => caps_of(c, s@), None => !exists|c: VxCaps| caps_of(c, s@) }, { unimplemented!() }
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn vx_lower(s: &str) -> (r: String) ensures r@ == lower(s@), { s.to_lowercase() }
#[verifier::external_body]
fn vx_ends_with(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == c), { s.ends_with(c) }
/// `&s[..s.len() - 1]`, one byte: the last character has to be that short
#[verifier::external_body]
fn vx_chop(s: &str) -> (r: &str)
    requires s@.len() > 0, (s@.last() as u32) < 128,
    ensures r@ == s@.drop_last(), { &s[..s.len() - 1] }
impl VxCaps {
    fn val(&self) -> (r: Option<&str>) ensures match r { Some(v) => self.value.is_some() && v@ == self.value.unwrap()@, None => self.value.is_none() },
    { match &self.value { Some(v) => Some(v.as_str()), None => None } }
}
/// `!` unsets (and takes no value), `@` on either side of the name or at the value's end leaves the document free to change it
spec fn job_of(unset: bool, soft: bool, v: Option<Seq<char>>) -> Option<JV> {
    match v {
        None => Some(JV { readonly: !soft, value: AV::B(!unset) }),
        Some(x) => if unset { None } else if soft { Some(JV { readonly: false, value: AV::S(x) }) }
            else if x.last() == '@' { Some(JV { readonly: false, value: AV::S(x.drop_last()) }) } else { Some(JV { readonly: true, value: AV::S(x) }) },
    }
}
spec fn opt_view(v: Option<String>) -> Option<Seq<char>> { match v { Some(x) => Some(x@), None => None } }
//@extract cli/src/args.rs :: - :: fn parse_attr
//@ sub ATTR_RE.captures(input).ok_or("Invalid attribute")? ==> match vx_attr_re(input) { Some(c) => c, None => return Err("Invalid attribute") }
//@ sub captures.get(3).unwrap().as_str().to_lowercase().to_string() ==> vx_lower(captures.key.as_str())
//@ sub captures.get(1).is_some() ==> captures.b1
//@ sub captures.get(2).is_some() ==> captures.a1
//@ sub captures.get(4).is_some() ==> captures.b2
//@ sub captures.get(5).is_some() ==> captures.a2
//@ sub captures.get(6).map(|m| m.as_str()) ==> captures.val()
//@ sub value.ends_with($x) ==> vx_ends_with(value, $x)
//@ sub &value[..value.len() - 1] ==> vx_chop(value)
//@ spec
ensures match r {
    Ok((k, j)) => exists|c: VxCaps| caps_of(c, input@) && k@ == lower(c.key@) && job_of(c.b1 || c.b2, c.a1 || c.a2, opt_view(c.value)) == Some(j@),
    Err(_) => (!exists|c: VxCaps| caps_of(c, input@)) || (exists|c: VxCaps| caps_of(c, input@) && job_of(c.b1 || c.b2, c.a1 || c.a2, opt_view(c.value)).is_none()) },
//@end
/// documented built-in values
spec fn defaults() -> Map<Seq<char>, AV> {
    Map::empty()
    .insert("empty"@, AV::S(""@))
    .insert("blank"@, AV::S(""@))
    .insert("attribute-missing"@, AV::S("skip"@))
    .insert("attribute-undefined"@, AV::S("drop-line"@))
    .insert("appendix-caption"@, AV::S("Appendix"@))
    .insert("appendix-refsig"@, AV::S("Appendix"@))
    .insert("caution-caption"@, AV::S("Caution"@))
    .insert("chapter-refsig"@, AV::S("Chapter"@))
    .insert("example-caption"@, AV::S("Example"@))
    .insert("figure-caption"@, AV::S("Figure"@))
    .insert("important-caption"@, AV::S("Important"@))
    .insert("last-update-label"@, AV::S("Last updated"@))
    .insert("note-caption"@, AV::S("Note"@))
    .insert("part-refsig"@, AV::S("Part"@))
    .insert("section-refsig"@, AV::S("Section"@))
    .insert("table-caption"@, AV::S("Table"@))
    .insert("tip-caption"@, AV::S("Tip"@))
    .insert("toc-title"@, AV::S("Table of Contents"@))
    .insert("untitled-label"@, AV::S("Untitled"@))
    .insert("version-label"@, AV::S("Version"@))
    .insert("warning-caption"@, AV::S("Warning"@))
    .insert("sp"@, AV::S(" "@))
    .insert("nbsp"@, AV::S("&#160;"@))
    .insert("zwsp"@, AV::S("&#8203;"@))
    .insert("wj"@, AV::S("&#8288;"@))
    .insert("apos"@, AV::S("&#39;"@))
    .insert("quot"@, AV::S("&#34;"@))
    .insert("lsquo"@, AV::S("&#8216;"@))
    .insert("rsquo"@, AV::S("&#8217;"@))
    .insert("ldquo"@, AV::S("&#8220;"@))
    .insert("rdquo"@, AV::S("&#8221;"@))
    .insert("deg"@, AV::S("&#176;"@))
    .insert("plus"@, AV::S("&#43;"@))
    .insert("brvbar"@, AV::S("&#166;"@))
    .insert("vbar"@, AV::S("|"@))
    .insert("amp"@, AV::S("&"@))
    .insert("lt"@, AV::S("<"@))
    .insert("gt"@, AV::S(">"@))
    .insert("startsb"@, AV::S("["@))
    .insert("endsb"@, AV::S("]"@))
    .insert("caret"@, AV::S("^"@))
    .insert("asterisk"@, AV::S("*"@))
    .insert("tilde"@, AV::S("~"@))
    .insert("backslash"@, AV::S("\\"@))
    .insert("backtick"@, AV::S("`"@))
    .insert("two-colons"@, AV::S("::"@))
    .insert("two-semicolons"@, AV::S(";;"@))
    .insert("cpp"@, AV::S("C++"@))
    .insert("pp"@, AV::S("&#43;&#43;"@))
    .insert("copycss"@, AV::S(""@))
    .insert("stylesdir"@, AV::S("."@))
    .insert("iconsdir"@, AV::S("./images/icons"@))
    .insert("stylesheet"@, AV::S(""@))
    .insert("webfonts"@, AV::S(""@))
}
} // verus!
fn main() {}
