//! Observations of the library under test, normalised for comparison with the
//! specification.
use crate::json::{self, J};
use justjson::doc::{GenericDocument, Node, NodeCollection};
use justjson::parser::{JsonKind, ParseConfig, ParseDelegate, Parser};
use justjson::{AnyStr, Error, ErrorKind, JsonNumber, JsonString};
use std::fmt::Debug;

pub fn config(c: &J) -> ParseConfig {
    let mut r = ParseConfig::new().allowing_all_types_at_root(c.at(2).bool());
    if c.at(0).bool() {
        r = r.allowing_trailing_commas();
    }
    let lim = c.at(1).int();
    if lim < 0 {
        r.without_recursion_limit()
    } else {
        r.with_recursion_limit(lim as usize)
    }
}
pub fn is_default(c: &J) -> bool {
    !c.at(0).bool() && c.at(1).int() == 128 && c.at(2).bool()
}

/// all of 0..n if they are few, else those around the sizes that matter
pub fn places(n: usize) -> Vec<usize> {
    if n <= 700 {
        return (0..n).collect();
    }
    let mut r: Vec<usize> = [1, 128, 256, 1024, 4096, 65536, n / 2, n - 1]
        .iter()
        .flat_map(|m| m - 1..=m + 1)
        .chain([127 * 3, 255 * 3, n / 3])
        .filter(|k| *k < n)
        .collect();
    r.sort_unstable();
    r.dedup();
    r
}

// ------------------------------------------------------------------ errors

#[derive(Clone, Debug, PartialEq)]
pub struct NErr {
    pub kind: String,
    pub byte: i64,
    pub off: usize,
}

pub fn kind_name<D: Debug>(k: &ErrorKind<D>) -> (String, i64) {
    let n = match k {
        ErrorKind::Utf8 => "Utf8",
        ErrorKind::UnexpectedEof => "UnexpectedEof",
        ErrorKind::ExpectedObjectKey => "ExpectedObjectKey",
        ErrorKind::ExpectedColon => "ExpectedColon",
        ErrorKind::ExpectedValue => "ExpectedValue",
        ErrorKind::ExpectedCommaOrEndOfObject => "ExpectedCommaOrEndOfObject",
        ErrorKind::ExpectedCommaOrEndOfArray => "ExpectedCommaOrEndOfArray",
        ErrorKind::IllegalTrailingComma => "IllegalTrailingComma",
        ErrorKind::Unexpected(b) => return ("Unexpected".into(), i64::from(*b)),
        ErrorKind::TrailingNonWhitespace => "TrailingNonWhitespace",
        ErrorKind::ObjectKeysMustBeStrings => "ObjectKeysMustBeStrings",
        ErrorKind::ExpectedExponent => "ExpectedExponent",
        ErrorKind::ExpectedDecimalDigit => "ExpectedDecimalDigit",
        ErrorKind::ExpectedDigit => "ExpectedDigit",
        ErrorKind::InvalidHexadecimal => "InvalidHexadecimal",
        ErrorKind::InvalidEscape => "InvalidEscape",
        ErrorKind::UnclosedObject => "UnclosedObject",
        ErrorKind::UnclosedArray => "UnclosedArray",
        ErrorKind::UnclosedString => "UnclosedString",
        ErrorKind::ExpectedString => "ExpectedString",
        ErrorKind::ExpectedNumber => "ExpectedNumber",
        ErrorKind::RecursionLimitReached => "RecursionLimitReached",
        ErrorKind::PayloadsShouldBeObjectOrArray => "PayloadsShouldBeObjectOrArray",
        ErrorKind::PaylodTooLarge => "PaylodTooLarge",
        ErrorKind::ErrorFromDelegate(d) => return (format!("ErrorFromDelegate:{d:?}"), -1),
        _ => "?",
    };
    (n.to_string(), -1)
}

pub fn nerr<D: Debug>(e: &Error<D>) -> NErr {
    let (kind, byte) = kind_name(e.kind());
    NErr { kind, byte, off: e.offset() }
}

// ---------------------------------------------------------------- literals

/// A literal the library handed out: its text and, if it is borrowed from the
/// input, where.
#[derive(Clone, Debug)]
pub struct Lit {
    pub text: Vec<u8>,
    pub pos: Option<(usize, usize)>,
}

pub fn lit(text: &str, base: &[u8]) -> Lit {
    let p = text.as_ptr() as usize;
    let b = base.as_ptr() as usize;
    let pos = if p >= b && p + text.len() <= b + base.len() { Some((p - b, p - b + text.len())) } else { None };
    Lit { text: text.as_bytes().to_vec(), pos }
}

#[derive(Clone, Debug)]
pub struct SLit {
    pub lit: Lit,
    pub esc: bool,
    pub cps: Vec<u32>,
}

/// every string the library hands out must be UTF-8 (unsafe code builds them)
pub fn assert_utf8(s: &str) {
    if std::str::from_utf8(s.as_bytes()).is_err() {
        panic!("NOT-UTF8: the library handed out an ill-formed string");
    }
}

pub fn slit(x: &JsonString<'_>, base: &[u8]) -> SLit {
    let l = match x.as_json_str() {
        Some(AnyStr::Borrowed(t)) => {
            assert_utf8(t);
            lit(t, base)
        }
        Some(t) => {
            assert_utf8(t.as_str());
            Lit { text: t.as_str().as_bytes().to_vec(), pos: None }
        }
        None => Lit { text: x.as_json().collect::<String>().into_bytes(), pos: None },
    };
    SLit { lit: l, esc: x.as_str().is_none(), cps: x.decoded().map(|c| c as u32).collect() }
}

fn nlit(n: &JsonNumber<'_>, base: &[u8]) -> Lit {
    assert_utf8(n.source());
    lit(n.source(), base)
}

// ------------------------------------------------------------------ events

#[derive(Clone, Debug)]
pub enum Ev {
    Null,
    Bool(bool),
    Num(Lit),
    Str(SLit),
    Key(SLit),
    Obj,
    Arr,
    Ov,
    Av,
    OEnd(usize),
    AEnd(usize),
    Bad(&'static str),
}

fn pos_json(l: &Lit) -> (J, J) {
    match l.pos {
        Some((a, b)) => (json::i(a), json::i(b)),
        None => (J::Int(-1), J::Int(-1)),
    }
}
fn cps_json(c: &[u32]) -> J {
    J::Arr(c.iter().map(|c| J::Int(i64::from(*c))).collect())
}
pub fn slit_json(tag: &str, x: &SLit) -> J {
    let (a, b) = pos_json(&x.lit);
    J::Arr(vec![json::s(tag), a, b, J::Bool(x.esc), cps_json(&x.cps)])
}
pub fn num_json(l: &Lit) -> J {
    let (a, b) = pos_json(l);
    J::Arr(vec![json::s("num"), a, b])
}

impl Ev {
    pub fn json(&self) -> J {
        let t = |x: &str| J::Arr(vec![json::s(x)]);
        match self {
            Ev::Null => t("null"),
            Ev::Bool(b) => J::Arr(vec![json::s("bool"), J::Bool(*b)]),
            Ev::Num(l) => num_json(l),
            Ev::Str(x) => slit_json("str", x),
            Ev::Key(x) => slit_json("key", x),
            Ev::Obj => t("obj"),
            Ev::Arr => t("arr"),
            Ev::Ov => t("ov"),
            Ev::Av => t("av"),
            Ev::OEnd(n) => J::Arr(vec![json::s("oend"), json::i(*n)]),
            Ev::AEnd(n) => J::Arr(vec![json::s("aend"), json::i(*n)]),
            Ev::Bad(s) => J::Arr(vec![json::s("bad"), json::s(s)]),
        }
    }
}

pub fn events_json(e: &[Ev]) -> J {
    J::Arr(e.iter().map(Ev::json).collect())
}

/// A delegate that writes down every call, hands out numbered handles, checks
/// that they come back to the right place, and can refuse its k-th call.
pub struct Rec<'i> {
    base: &'i [u8],
    pub log: Vec<Ev>,
    fail_at: Option<usize>,
    calls: usize,
    next: usize,
    last: Option<usize>,
    open: Vec<(usize, Option<usize>)>,
}

#[derive(Debug)]
pub struct Tok(usize, JsonKind);
#[derive(Debug)]
pub struct Container(usize, usize);

#[derive(Debug, PartialEq, Clone)]
pub struct Refused(pub usize);

impl<'i> Rec<'i> {
    pub fn new(base: &'i [u8], fail_at: Option<usize>) -> Self {
        Rec { base, log: vec![], fail_at, calls: 0, next: 0, last: None, open: vec![] }
    }
    fn call(&mut self, e: Ev) -> Result<(), Refused> {
        self.log.push(e);
        self.calls += 1;
        if self.fail_at == Some(self.calls) {
            Err(Refused(self.calls))
        } else {
            Ok(())
        }
    }
    fn value(&mut self, e: Ev, k: JsonKind) -> Result<Tok, Refused> {
        self.call(e)?;
        self.next += 1;
        self.last = Some(self.next);
        Ok(Tok(self.next, k))
    }
    fn begin(&mut self, e: Ev) -> Result<Container, Refused> {
        self.call(e)?;
        self.next += 1;
        self.open.push((self.next, None));
        Ok(Container(self.next, 0))
    }
    fn check(&mut self, ok: bool, why: &'static str) {
        if !ok {
            self.log.push(Ev::Bad(why));
        }
    }
    fn end(&mut self, c: &Container, e: Ev, k: JsonKind) -> Result<Tok, Refused> {
        let ok = self.open.pop().map(|o| o.0) == Some(c.0);
        self.check(ok, "ended a container that is not the innermost open one");
        self.value(e, k)
    }
}

impl<'a, 'b, 'i> ParseDelegate<'a> for &'b mut Rec<'i> {
    type Value = Tok;
    type Object = Container;
    type Array = Container;
    type Key = usize;
    type Error = Refused;
    fn null(&mut self) -> Result<Tok, Refused> {
        self.value(Ev::Null, JsonKind::Null)
    }
    fn boolean(&mut self, v: bool) -> Result<Tok, Refused> {
        self.value(Ev::Bool(v), JsonKind::Boolean)
    }
    fn number(&mut self, v: JsonNumber<'a>) -> Result<Tok, Refused> {
        let l = nlit(&v, self.base);
        self.value(Ev::Num(l), JsonKind::Number)
    }
    fn string(&mut self, v: JsonString<'a>) -> Result<Tok, Refused> {
        let l = slit(&v, self.base);
        self.value(Ev::Str(l), JsonKind::String)
    }
    fn begin_object(&mut self) -> Result<Container, Refused> {
        self.begin(Ev::Obj)
    }
    fn object_key(&mut self, o: &mut Container, key: JsonString<'a>) -> Result<usize, Refused> {
        let ok = self.open.last().map(|x| x.0) == Some(o.0);
        self.check(ok, "key given to an object that is not the innermost open container");
        let l = slit(&key, self.base);
        self.call(Ev::Key(l))?;
        self.next += 1;
        let id = self.next;
        if let Some(x) = self.open.last_mut() {
            x.1 = Some(id);
        }
        Ok(id)
    }
    fn object_value(&mut self, o: &mut Container, key: usize, v: Tok) -> Result<(), Refused> {
        let ok = self.open.last() == Some(&(o.0, Some(key)));
        self.check(ok, "value given with a foreign object or key");
        let ok = self.last.take() == Some(v.0);
        self.check(ok, "object_value got a value that is not the last one produced");
        self.call(Ev::Ov)?;
        o.1 += 1;
        Ok(())
    }
    fn object_is_empty(&self, o: &Container) -> bool {
        o.1 == 0
    }
    fn end_object(&mut self, o: Container) -> Result<Tok, Refused> {
        self.end(&o, Ev::OEnd(o.1), JsonKind::Object)
    }
    fn begin_array(&mut self) -> Result<Container, Refused> {
        self.begin(Ev::Arr)
    }
    fn array_value(&mut self, o: &mut Container, v: Tok) -> Result<(), Refused> {
        let ok = self.open.last().map(|x| x.0) == Some(o.0);
        self.check(ok, "value given to a foreign array");
        let ok = self.last.take() == Some(v.0);
        self.check(ok, "array_value got a value that is not the last one produced");
        self.call(Ev::Av)?;
        o.1 += 1;
        Ok(())
    }
    fn array_is_empty(&self, o: &Container) -> bool {
        o.1 == 0
    }
    fn end_array(&mut self, o: Container) -> Result<Tok, Refused> {
        self.end(&o, Ev::AEnd(o.1), JsonKind::Array)
    }
    fn kind_of(&self, v: &Tok) -> JsonKind {
        v.1
    }
}

pub enum How<'c> {
    Default,
    Config(&'c ParseConfig),
}

/// run the recording delegate; the result tells which value came back
pub fn rec_bytes(input: &[u8], how: &How<'_>, fail: Option<usize>) -> (Vec<Ev>, Result<(), NErr>) {
    let mut r = Rec::new(input, fail);
    let res = match how {
        How::Default => Parser::parse_json_bytes(input, &mut r),
        How::Config(c) => Parser::parse_json_bytes_with_config(input, **c, &mut r),
    };
    rec_done(r, res)
}
pub fn rec_str(input: &str, how: &How<'_>, fail: Option<usize>) -> (Vec<Ev>, Result<(), NErr>) {
    let mut r = Rec::new(input.as_bytes(), fail);
    let res = match how {
        How::Default => Parser::parse_json(input, &mut r),
        How::Config(c) => Parser::parse_json_with_config(input, **c, &mut r),
    };
    rec_done(r, res)
}
fn rec_done(mut r: Rec<'_>, res: Result<Tok, Error<Refused>>) -> (Vec<Ev>, Result<(), NErr>) {
    let out = match &res {
        Ok(t) => {
            let ok = r.last == Some(t.0);
            r.check(ok, "the parser returned a value that is not the root");
            Ok(())
        }
        Err(e) => Err(nerr(e)),
    };
    (r.log, out)
}

// ------------------------------------------------------------------- trees

#[derive(Clone, Debug)]
pub enum T {
    Null,
    Bool(bool),
    Num(Lit),
    Str(SLit),
    Arr(Vec<T>),
    Obj(Vec<(SLit, T)>),
}

#[derive(Clone, Debug)]
pub enum N {
    Leaf(T),
    Obj(usize),
    Arr(usize),
}

impl T {
    pub fn json(&self) -> J {
        match self {
            T::Null => J::Arr(vec![json::s("null")]),
            T::Bool(b) => J::Arr(vec![json::s("bool"), J::Bool(*b)]),
            T::Num(l) => num_json(l),
            T::Str(x) => slit_json("str", x),
            T::Arr(a) => J::Arr(vec![json::s("arr"), J::Arr(a.iter().map(T::json).collect())]),
            T::Obj(o) => J::Arr(vec![
                json::s("obj"),
                J::Arr(o.iter().map(|(k, v)| J::Arr(vec![slit_json("str", k), v.json()])).collect()),
            ]),
        }
    }
}
impl N {
    pub fn json(&self) -> J {
        match self {
            N::Leaf(t) => t.json(),
            N::Obj(n) => J::Arr(vec![json::s("obj"), json::i(*n)]),
            N::Arr(n) => J::Arr(vec![json::s("arr"), json::i(*n)]),
        }
    }
}

#[cfg(feature = "full")]
pub fn tree(v: &justjson::Value<'_>, base: &[u8]) -> T {
    use justjson::Value;
    match v {
        Value::Null => T::Null,
        Value::Boolean(b) => T::Bool(*b),
        Value::Number(n) => T::Num(nlit(n, base)),
        Value::String(x) => T::Str(slit(x, base)),
        Value::Array(a) => T::Arr(a.iter().map(|v| tree(v, base)).collect()),
        Value::Object(o) => T::Obj(o.iter().map(|e| (slit(&e.key, base), tree(&e.value, base))).collect()),
    }
}

pub fn node(n: &Node<'_>, base: &[u8]) -> N {
    match n {
        Node::Null => N::Leaf(T::Null),
        Node::Boolean(b) => N::Leaf(T::Bool(*b)),
        Node::Number(n) => N::Leaf(T::Num(nlit(n, base))),
        Node::String(x) => N::Leaf(T::Str(slit(x, base))),
        Node::Object { length } => N::Obj(*length),
        Node::Array { length } => N::Arr(*length),
    }
}

pub fn nodes<'a, B: NodeCollection<'a>>(d: &GenericDocument<'a, B>, base: &[u8]) -> Vec<N> {
    d.iter().map(|n| node(&n, base)).collect()
}

/// the tree the specification's delegate calls build
pub fn tree_of_events(ev: &[J], input: &[u8]) -> T {
    enum F {
        O(Vec<(SLit, T)>, Vec<SLit>),
        A(Vec<T>),
    }
    let mut stk: Vec<F> = vec![];
    let mut val: Option<T> = None;
    for e in ev {
        match e.at(0).str() {
            "null" => val = Some(T::Null),
            "bool" => val = Some(T::Bool(e.at(1).bool())),
            "num" => val = Some(T::Num(spec_lit(e, input))),
            "str" => val = Some(T::Str(spec_slit(e, input))),
            "key" => {
                if let Some(F::O(_, k)) = stk.last_mut() {
                    k.push(spec_slit(e, input));
                }
            }
            "obj" => stk.push(F::O(vec![], vec![])),
            "arr" => stk.push(F::A(vec![])),
            "ov" => {
                if let Some(F::O(m, k)) = stk.last_mut() {
                    m.push((k.pop().unwrap(), val.take().unwrap()));
                }
            }
            "av" => {
                if let Some(F::A(m)) = stk.last_mut() {
                    m.push(val.take().unwrap());
                }
            }
            _ => match stk.pop() {
                Some(F::O(m, _)) => val = Some(T::Obj(m)),
                Some(F::A(m)) => val = Some(T::Arr(m)),
                None => {}
            },
        }
    }
    val.expect("spec events build a tree")
}

pub fn spec_lit(e: &J, input: &[u8]) -> Lit {
    let (a, b) = (e.at(1).us(), e.at(2).us());
    Lit { text: input[a..b].to_vec(), pos: Some((a, b)) }
}
pub fn spec_slit(e: &J, input: &[u8]) -> SLit {
    SLit { lit: spec_lit(e, input), esc: e.at(3).bool(), cps: e.at(4).cps() }
}

pub fn flatten(t: &T, out: &mut Vec<N>) {
    match t {
        T::Arr(a) => {
            out.push(N::Arr(a.len()));
            for x in a {
                flatten(x, out);
            }
        }
        T::Obj(o) => {
            out.push(N::Obj(o.len()));
            for (k, v) in o {
                out.push(N::Leaf(T::Str(k.clone())));
                flatten(v, out);
            }
        }
        t => out.push(N::Leaf(t.clone())),
    }
}

// -------------------------------------------------------------- comparison

/// `place`: must the literal be borrowed from its own place?
pub fn lit_eq(a: &Lit, b: &Lit, place: bool) -> bool {
    a.text == b.text && (!place || a.text.is_empty() || a.pos == b.pos)
}
pub fn tree_eq(a: &T, b: &T, place: bool) -> bool {
    match (a, b) {
        (T::Null, T::Null) => true,
        (T::Bool(a), T::Bool(b)) => a == b,
        (T::Num(a), T::Num(b)) => lit_eq(a, b, place),
        (T::Str(a), T::Str(b)) => lit_eq(&a.lit, &b.lit, place),
        (T::Arr(a), T::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| tree_eq(a, b, place)),
        (T::Obj(a), T::Obj(b)) => {
            a.len() == b.len()
                && a.iter().zip(b).all(|(a, b)| lit_eq(&a.0.lit, &b.0.lit, place) && tree_eq(&a.1, &b.1, place))
        }
        _ => false,
    }
}
pub fn node_eq(a: &N, b: &N, place: bool) -> bool {
    match (a, b) {
        (N::Leaf(a), N::Leaf(b)) => tree_eq(a, b, place),
        (N::Obj(a), N::Obj(b)) | (N::Arr(a), N::Arr(b)) => a == b,
        _ => false,
    }
}
pub fn nodes_eq(a: &[N], b: &[N], place: bool) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| node_eq(a, b, place))
}
/// an observed call against the specified one
pub fn event_eq(o: &Ev, e: &J, input: &[u8]) -> bool {
    let tag = e.at(0).str();
    match o {
        Ev::Null => tag == "null",
        Ev::Bool(b) => tag == "bool" && e.at(1).bool() == *b,
        Ev::Num(l) => tag == "num" && lit_eq(l, &spec_lit(e, input), false),
        Ev::Str(x) => tag == "str" && lit_eq(&x.lit, &spec_lit(e, input), false),
        Ev::Key(x) => tag == "key" && lit_eq(&x.lit, &spec_lit(e, input), false),
        Ev::Obj => tag == "obj",
        Ev::Arr => tag == "arr",
        Ev::Ov => tag == "ov",
        Ev::Av => tag == "av",
        Ev::OEnd(n) => tag == "oend" && e.at(1).us() == *n,
        Ev::AEnd(n) => tag == "aend" && e.at(1).us() == *n,
        Ev::Bad(_) => false,
    }
}
pub fn events_eq(o: &[Ev], e: &[J], input: &[u8]) -> bool {
    o.len() == e.len() && o.iter().zip(e).all(|(o, e)| event_eq(o, e, input))
}
pub fn pushes(e: &J) -> bool {
    matches!(e.at(0).str(), "null" | "bool" | "num" | "str" | "key" | "obj" | "arr")
}
