//! Vectors about values: writers ("W"), equality ("E"), lookups and edits ("O").
use crate::json::J;
use crate::obs::assert_utf8;
use crate::strings::{dec_body, intern};
use crate::{ensure, guard, Ctx};
use justjson::doc::{Document, HeaplessDocument, Node};
use justjson::{Entry, JsonNumber, JsonString, Object, Value};
use std::fmt;

// ---------------------------------------------------------------- building

/// a string of the specification; None if the library refuses its literal
pub fn build_str(s: &J, how: usize) -> Option<JsonString<'static>> {
    match s.at(0).str() {
        "j" => {
            let b = s.at(1).bytes();
            let body = std::str::from_utf8(&b).expect("vector: spelled text is UTF-8");
            let lit = intern(&format!("\"{body}\""));
            if how % 3 == 2 {
                match Value::from_json_bytes(lit.as_bytes()) {
                    Ok(Value::String(s)) => Some(s),
                    _ => None,
                }
            } else {
                JsonString::from_json(lit).ok()
            }
        }
        _ => {
            let t = s.at(1).string();
            Some(if how % 2 == 0 { JsonString::from(intern(&t)) } else { JsonString::from(t) })
        }
    }
}

/// a value of the specification, built through the API in one of several ways
pub fn build(v: &J, how: usize) -> Option<Value<'static>> {
    Some(match v.at(0).str() {
        "null" => Value::Null,
        "bool" => {
            if how % 2 == 0 {
                Value::Boolean(v.at(1).bool())
            } else {
                Value::from(v.at(1).bool())
            }
        }
        "num" => Value::Number(JsonNumber::from_json(intern(std::str::from_utf8(&v.at(1).bytes()).expect("vector: number"))).ok()?),
        "str" => {
            let s = build_str(v.at(1), how)?;
            let raw = v.at(1).at(0).str() == "r";
            match how % 4 {
                0 => Value::String(s),
                1 => Value::from(s),
                2 if raw => Value::from(intern(&v.at(1).at(1).string())),
                3 if raw => Value::from(v.at(1).at(1).string()),
                _ => Value::String(s),
            }
        }
        "arr" => {
            let mut a = vec![];
            for (i, x) in v.at(1).arr().iter().enumerate() {
                a.push(build(x, how + i)?);
            }
            if how % 2 == 0 {
                Value::Array(a)
            } else {
                Value::from(a)
            }
        }
        "obj" => {
            let mut m = vec![];
            for (i, x) in v.at(1).arr().iter().enumerate() {
                m.push((build_str(x.at(0), how + i)?, build(x.at(1), how + i + 1)?));
            }
            let o: Object<'static> = match how % 4 {
                0 => m.into_iter().collect(),
                1 => m.into_iter().map(|(k, v)| Entry::new(k, v)).collect(),
                2 => {
                    let mut o = Object::new();
                    for (key, value) in m {
                        o.push(Entry { key, value });
                    }
                    o
                }
                _ => {
                    let mut o = Object::with_capacity(how % 7);
                    o.extend(m.into_iter().map(|(k, v)| Entry::new(k, v)));
                    o
                }
            };
            if how % 2 == 0 {
                Value::Object(o)
            } else {
                Value::from(o)
            }
        }
        k => panic!("vector: kind of value {k}"),
    })
}

/// A string against the specification's; `spelled`: a JSON form given by the
/// specification must be there, spelled so.
pub fn same_str(x: &JsonString<'_>, s: &J, spelled: bool) -> bool {
    if s.at(0).str() == "j" {
        let b = s.at(1).bytes();
        if spelled {
            return x.as_json().collect::<String>().as_bytes() == b;
        }
        let t = dec_body(&b).expect("vector: body");
        return x.decoded().map(|c| c as u32).eq(t);
    }
    x.decoded().map(|c| c as u32).eq(s.at(1).cps())
}

/// structural comparison that does not use the library's equality
pub fn same(x: &Value<'_>, v: &J, spelled: bool) -> bool {
    let tag = v.at(0).str();
    match x {
        Value::Null => tag == "null",
        Value::Boolean(b) => tag == "bool" && *b == v.at(1).bool(),
        Value::Number(n) => tag == "num" && n.source().as_bytes() == v.at(1).bytes(),
        Value::String(s) => tag == "str" && same_str(s, v.at(1), spelled),
        Value::Array(a) => tag == "arr" && a.len() == v.at(1).arr().len() && a.iter().zip(v.at(1).arr()).all(|(x, v)| same(x, v, spelled)),
        Value::Object(o) => {
            tag == "obj"
                && o.len() == v.at(1).arr().len()
                && o.iter().zip(v.at(1).arr()).all(|(e, m)| same_str(&e.key, m.at(0), spelled) && same(&e.value, m.at(1), spelled))
        }
    }
}

// ----------------------------------------------------------------- writing

/// does the output consist of these pieces?
pub fn matches(out: &str, pieces: &[J]) -> Result<(), String> {
    let b = out.as_bytes();
    let mut i = 0;
    for p in pieces {
        if p.at(0).str() == "l" {
            let want = p.at(1).bytes();
            if !b[i..].starts_with(&want) {
                return Err(format!("{out:?}: at {i} expected {:?}", String::from_utf8_lossy(&want)));
            }
            i += want.len();
        } else {
            if b.get(i) != Some(&b'"') {
                return Err(format!("{out:?}: at {i} expected a string"));
            }
            let mut j = i + 1;
            while j < b.len() && b[j] != b'"' {
                j += if b[j] == b'\\' { 2 } else { 1 };
            }
            if j >= b.len() {
                return Err(format!("{out:?}: the string at {i} does not end"));
            }
            let t = dec_body(&b[i + 1..j]);
            if t != Some(p.at(1).cps()) {
                return Err(format!("{out:?}: the string at {i} means {t:?} instead of {:?}", p.at(1).cps()));
            }
            i = j + 1;
        }
    }
    ensure(i == b.len(), || format!("{out:?}: more than expected from {i} on"))
}

/// a destination of its own
pub struct Own(pub String);
impl fmt::Write for Own {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.push_str(s);
        Ok(())
    }
}

pub enum Form<'m> {
    Compact,
    Pretty,
    Custom(&'m str, &'m str),
    Display,
    Alternate,
}

/// Every writer that takes a destination.
pub fn write_to<W: fmt::Write>(v: &Value<'_>, f: &Form<'_>, mut w: W) -> fmt::Result {
    match f {
        Form::Compact => v.write_json_to(w),
        Form::Pretty => v.pretty_write_json_to(w),
        Form::Custom(i, n) => v.pretty_write_json_to_custom(i, n, w),
        Form::Display => write!(w, "{v}"),
        Form::Alternate => write!(w, "{v:#}"),
    }
}

/// all the ways to write in a mode, each with what it produced
pub fn written(v: &Value<'_>, mode: &J) -> Vec<(&'static str, String)> {
    let to = |f: Form<'_>| {
        let mut o = Own(String::new());
        match write_to(v, &f, &mut o) {
            Ok(()) => o.0,
            Err(_) => format!("(error after {:?})", o.0),
        }
    };
    if !mode.at(0).bool() {
        return vec![
            ("to_json", v.to_json()),
            ("write_json_to", to(Form::Compact)),
            ("{}", format!("{v}")),
            ("write!({})", to(Form::Display)),
            ("to_string", v.to_string()),
        ];
    }
    let (i, n) = (mode.at(1).bytes(), mode.at(2).bytes());
    let (i, n) = (String::from_utf8(i).expect("vector: indentation"), String::from_utf8(n).expect("vector: line ending"));
    let mut r = vec![
        ("to_json_pretty_custom", v.to_json_pretty_custom(&i, &n)),
        ("pretty_write_json_to_custom", to(Form::Custom(&i, &n))),
    ];
    if i == "  " && n == "\n" {
        r.extend([
            ("to_json_pretty", v.to_json_pretty()),
            ("pretty_write_json_to", to(Form::Pretty)),
            ("{:#}", format!("{v:#}")),
            ("write!({:#})", to(Form::Alternate)),
        ]);
    }
    r
}

fn is_json_ws(b: &[u8]) -> bool {
    b.iter().all(|b| matches!(b, b' ' | b'\n' | b'\t' | b'\r'))
}

/// The same value from all sources: built, read from text, from bytes, through a document.
fn sources(v: &J, x: &str) -> Vec<(String, Value<'static>, bool)> {
    let mut r = vec![];
    for how in 0..6 {
        match build(v, how) {
            Some(b) => r.push((format!("built ({how})"), b, false)),
            None => return vec![],
        }
    }
    let src = intern(x);
    if let Ok(p) = Value::from_json(src) {
        r.push(("parsed from str".into(), p, true));
    }
    if let Ok(p) = Value::from_json_bytes(src.as_bytes()) {
        r.push(("parsed from bytes".into(), p, true));
    }
    if let Ok(d) = Document::from_json(src) {
        r.push(("converted from a document".into(), Value::from(d), true));
    }
    r
}

/// "W": a value and what the writing machine makes of it in every mode
pub fn write_vector(ctx: &mut Ctx, v: &J) {
    let t = v.get("t");
    let x = String::from_utf8(v.get("x").bytes()).expect("vector: UTF-8");
    let all = match guard(|| sources(t, &x)) {
        Ok(a) => a,
        Err(_) => vec![],
    };
    if all.is_empty() {
        ctx.note("values that could not be built");
        return;
    }
    for pretty in [false, true] {
        ctx.judge(if pretty { "pretty" } else { "compact" }, || {
            for m in v.get("o").arr().iter().filter(|m| m.at(0).bool() == pretty) {
                let ws = is_json_ws(&m.at(1).bytes()) && is_json_ws(&m.at(2).bytes());
                for (how, val, parsed) in &all {
                    let outs = written(val, m);
                    for (name, out) in &outs {
                        assert_utf8(out);
                        ensure(out == &outs[0].1, || format!("{how}: {name} writes {out:?}, {} {:?}", outs[0].0, outs[0].1))?;
                    }
                    let out = &outs[0].1;
                    if *parsed && !pretty {
                        // a parsed string is written as it was spelled
                        ensure(out == &x, || format!("{how}: written as {out:?} instead of {x:?}"))?;
                    } else {
                        matches(out, m.at(3).arr()).map_err(|e| format!("{how}: {e}"))?;
                    }
                    if ws {
                        let back = Value::from_json(out).map_err(|e| format!("{how}: {out:?} is refused: {e:?}"))?;
                        ensure(same(&back, t, false), || format!("{how}: {out:?} reads back as {back:?}"))?;
                        let again = Value::from_json_bytes(out.as_bytes()).map_err(|e| format!("{how}: {out:?} is refused: {e:?}"))?;
                        ensure(same(&again, t, false), || format!("{how}: {out:?} reads back as {again:?} from bytes"))?;
                    }
                }
            }
            Ok(())
        });
    }
    ctx.judge("sink", || {
        for m in v.get("o").arr() {
            let (i, n) = (String::from_utf8(m.at(1).bytes()).unwrap(), String::from_utf8(m.at(2).bytes()).unwrap());
            let mut forms = if m.at(0).bool() { vec![Form::Custom(&i, &n)] } else { vec![Form::Compact, Form::Display] };
            if i == "  " && n == "\n" {
                forms.extend([Form::Pretty, Form::Alternate]);
            }
            for f in &forms {
                for (how, val, _) in all.iter().step_by(5) {
                    sinks(val, f).map_err(|e| format!("{how}: {e}"))?;
                }
            }
        }
        Ok(())
    });
}

/// How a destination refuses.
#[derive(Clone, Copy, Debug)]
pub enum Refusal {
    /// the k-th call and all after it
    From(usize),
    /// only the k-th call
    Only(usize),
    /// whatever does not fit
    Capacity(usize),
    /// what does not fit, after taking the part that does
    Partial(usize),
    Never,
}
pub struct Sink {
    pub got: String,
    pub calls: usize,
    pub refused: bool,
    pub after: usize,
    pub how: Refusal,
}
impl Sink {
    pub fn new(how: Refusal) -> Self {
        Sink { got: String::new(), calls: 0, refused: false, after: 0, how }
    }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.refused {
            self.after += 1;
        }
        self.calls += 1;
        let refuse = match self.how {
            Refusal::From(k) => self.calls > k,
            Refusal::Only(k) => self.calls == k + 1,
            Refusal::Capacity(n) => self.got.len() + s.len() > n,
            Refusal::Partial(n) => {
                let r = self.got.len() + s.len() > n;
                if r {
                    let mut k = n - self.got.len().min(n);
                    while !s.is_char_boundary(k) {
                        k -= 1;
                    }
                    self.got.push_str(&s[..k]);
                }
                r
            }
            Refusal::Never => false,
        };
        if refuse {
            self.refused = true;
            return Err(fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

fn brief(t: &str) -> String {
    if t.len() > 2000 {
        format!("{}... ({} bytes)", t.chars().take(200).collect::<String>(), t.len())
    } else {
        t.to_string()
    }
}

/// the same for large values, with refusals at some places
pub fn sinks_sampled(v: &Value<'_>, _len: usize) -> Result<(), String> {
    for f in [Form::Compact, Form::Pretty, Form::Display, Form::Custom("\t", "\r\n")] {
        sinks(v, &f)?;
    }
    Ok(())
}

fn sinks(v: &Value<'_>, f: &Form<'_>) -> Result<(), String> {
    let mut s = Sink::new(Refusal::Never);
    let r = write_to(v, f, &mut s);
    let full = s.got.clone();
    ensure(r.is_ok(), || format!("writing to a destination that never refuses fails after {:?}", brief(&full)))?;
    let calls = s.calls;
    let mut modes: Vec<Refusal> = vec![];
    for k in crate::obs::places(calls) {
        modes.extend([Refusal::From(k), Refusal::Only(k)]);
    }
    for n in crate::obs::places(full.len()) {
        modes.extend([Refusal::Capacity(n), Refusal::Partial(n)]);
    }
    modes.push(Refusal::From(calls));
    modes.push(Refusal::Capacity(full.len()));
    for m in modes {
        let mut s = Sink::new(m);
        let r = write_to(v, f, &mut s);
        ensure(r.is_err() == s.refused, || format!("destination refusing {m:?}: {r:?}, but it refused: {}", s.refused))?;
        ensure(s.after == 0, || format!("destination refusing {m:?}: {} more writes after that", s.after))?;
        ensure(full.starts_with(&s.got), || format!("destination refusing {m:?} accepted {:?}, not a prefix of {:?}", brief(&s.got), brief(&full)))?;
        ensure(s.refused || s.got == full, || format!("destination {m:?} got {:?} instead of {:?}", brief(&s.got), brief(&full)))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- equality

/// "E": which values equal the i-th one
pub fn eq_row(ctx: &mut Ctx, v: &J) {
    let ts = v.get("ts").arr();
    let xs: Vec<&'static str> = v.get("xs").arr().iter().map(|x| intern(&String::from_utf8(x.bytes()).expect("vector: UTF-8"))).collect();
    let i = v.get("i").us() - 1;
    let mut made = 0u64;
    ctx.judge("value_eq", || {
        let mk = |k: usize, how: usize| -> Option<Value<'static>> {
            match how % 5 {
                0 => build(&ts[k], 0),
                1 => Value::from_json(xs[k]).ok(),
                2 => Value::from_json_bytes(xs[k].as_bytes()).ok(),
                3 => Document::from_json(xs[k]).ok().map(Value::from),
                _ => build(&ts[k], 3 + k % 4),
            }
        };
        let mine: Vec<Option<Value<'static>>> = (0..5).map(|h| mk(i, h)).collect();
        let di = Document::from_json(xs[i]);
        let hi = HeaplessDocument::<32>::from_json_bytes(xs[i].as_bytes());
        for (j, r) in v.get("r").arr().iter().enumerate() {
            let want = r.int() == 1;
            let d = |a: &str| format!("{a}: {} and {}", xs[i], xs[j]);
            for h in 0..5 {
                let y = match mk(j, h) {
                    Some(y) => y,
                    None => continue,
                };
                for x in mine.iter().flatten() {
                    made += 1;
                    ensure((*x == y) == want, || d("values ==") + &format!(" give {}", *x == y))?;
                    ensure((y == *x) == want, || d("values == (reversed)") + &format!(" give {}", y == *x))?;
                    ensure((*x != y) != want, || d("values !=") + &format!(" give {}", *x != y))?;
                    match (x, &y) {
                        (Value::Object(p), Value::Object(q)) => {
                            ensure((p == q) == want, || d("objects =="))?;
                            ensure((**p == **q) == want, || d("entry lists =="))?;
                            if p.len() == q.len() {
                                let each = p.iter().zip(q.iter()).all(|(a, b)| a == b);
                                ensure(each == want, || d("entries =="))?;
                            }
                        }
                        (Value::Number(p), Value::Number(q)) => ensure((p == q) == want, || d("numbers =="))?,
                        (Value::String(p), Value::String(q)) => ensure((p == q) == want, || d("strings =="))?,
                        _ => {}
                    }
                }
            }
            if let (Ok(a), Ok(b)) = (&di, Document::from_json(xs[j])) {
                ensure((*a == b) == want && (b == *a) == want, || d("documents =="))?;
                let (p, q): (Vec<Node<'_>>, Vec<Node<'_>>) = (a.iter().collect(), b.iter().collect());
                ensure((p == q) == want && (q == p) == want && (p != q) != want, || d("nodes =="))?;
                if let (1, 1) = (p.len(), q.len()) {
                    ensure((p[0] == q[0]) == want, || d("root nodes =="))?;
                }
            }
            if let (Ok(a), Ok(b)) = (&hi, HeaplessDocument::<32>::from_json(xs[j])) {
                ensure((*a == b) == want && (b == *a) == want, || d("fixed-capacity documents =="))?;
            }
        }
        Ok(())
    });
    if made > 0 {
        ctx.note("rows of compared values");
    }
}

// -------------------------------------------------------- lookups and edits

/// the place of a step, and the value there
fn step_mut<'v>(v: &'v mut Value<'static>, s: &J, how: usize) -> Option<&'v mut Value<'static>> {
    match s.at(0).str() {
        "i" => {
            let n = s.at(1).us();
            match how % 4 {
                0 => v.get_index_mut(n),
                1 => v.as_array_mut().and_then(|a| a.get_mut(n)),
                2 => Some(&mut v[n]),
                _ => match v {
                    Value::Array(a) => a.iter_mut().nth(n),
                    _ => None,
                },
            }
        }
        "e" => {
            let n = s.at(1).us();
            match how % 3 {
                0 => v.as_object_mut().and_then(|o| o.as_mut_slice().get_mut(n)).map(|e| &mut e.value),
                1 => match v {
                    Value::Object(o) => o.iter_mut().nth(n).map(|e| &mut e.value),
                    _ => None,
                },
                _ => v.as_object_mut().map(|o| &mut o[n].value),
            }
        }
        k => panic!("vector: step {k}"),
    }
}

/// what an edit returned
pub enum Back {
    Nothing,
    Value(Value<'static>),
    Member(Entry<'static>),
}

/// the values an edit needs, built before the edit
pub struct Args {
    pub values: Vec<Value<'static>>,
    pub members: Vec<(JsonString<'static>, Value<'static>)>,
    pub key: Option<JsonString<'static>>,
}

/// one edit, in one of several equivalent ways; `text` is a key to look for
pub fn edit(v: &mut Value<'static>, name: &str, n: usize, m: usize, text: &str, args: Args, how: usize) -> Result<Back, String> {
    let mut one = args.values;
    let mut mem = args.members;
    let value = |one: &mut Vec<Value<'static>>| one.pop().expect("vector: value argument");
    match name {
        "set" => {
            *v = value(&mut one);
            return Ok(Back::Nothing);
        }
        "take" => return Ok(Back::Value(std::mem::replace(v, Value::Null))),
        "setkey" => {
            let new = value(&mut one);
            let is = v.as_object().is_some();
            let old = match how % 5 {
                0 => v.get_mut(text).map(|x| std::mem::replace(x, new)),
                1 if is => v.as_object_mut().and_then(|o| o.get_mut(text)).map(|x| std::mem::replace(x, new)),
                2 if is => v.as_object_mut().and_then(|o| o.get_entry_mut(text)).map(|x| std::mem::replace(&mut x.value, new)),
                _ => {
                    // indexing panics exactly when there is nothing
                    let there = v.get(text).is_some();
                    match guard(|| std::mem::replace(&mut v[text], new)) {
                        Ok(old) => Some(old),
                        Err(p) if there => return Err(format!("indexing by a key that get finds: {p}")),
                        Err(_) => None,
                    }
                }
            };
            return Ok(old.map_or(Back::Nothing, Back::Value));
        }
        "rekey" => {
            let key = args.key.expect("vector: key argument");
            if let Some(o) = v.as_object_mut() {
                if let Some(e) = o.get_entry_mut(text) {
                    let old = std::mem::replace(&mut e.key, key);
                    let value = std::mem::replace(&mut e.value, Value::Null);
                    let back = clone_value(&value);
                    e.value = value;
                    return Ok(Back::Member(Entry { key: old, value: back }));
                }
            }
            return Ok(Back::Nothing);
        }
        _ => {}
    }
    Ok(match v {
        Value::Array(a) => match name {
            "push" => {
                a.push(value(&mut one));
                Back::Nothing
            }
            "insert" => {
                a.insert(n, value(&mut one));
                Back::Nothing
            }
            "remove" => Back::Value(a.remove(n)),
            "pop" => a.pop().map_or(Back::Nothing, Back::Value),
            "swap" => {
                a.swap(n, m);
                Back::Nothing
            }
            "clear" => {
                a.clear();
                Back::Nothing
            }
            "truncate" => {
                a.truncate(n);
                Back::Nothing
            }
            "extend" => {
                a.extend(one);
                Back::Nothing
            }
            "reverse" => {
                a.reverse();
                Back::Nothing
            }
            k => panic!("vector: edit {k}"),
        },
        Value::Object(o) => match name {
            "push" => {
                let (k, x) = mem.pop().expect("vector: member argument");
                o.push(if how % 2 == 0 { Entry::new(k, x) } else { Entry { key: k, value: x } });
                Back::Nothing
            }
            "insert" => {
                let (k, x) = mem.pop().expect("vector: member argument");
                o.insert(n, Entry::new(k, x));
                Back::Nothing
            }
            "remove" => Back::Member(o.remove(n)),
            "pop" => o.pop().map_or(Back::Nothing, Back::Member),
            "swap" => {
                o.swap(n, m);
                Back::Nothing
            }
            "clear" => {
                o.clear();
                Back::Nothing
            }
            "truncate" => {
                o.truncate(n);
                Back::Nothing
            }
            "extend" => {
                if how % 2 == 0 {
                    o.extend(mem.into_iter().map(|(k, x)| Entry::new(k, x)));
                } else {
                    // the same by rebuilding the object
                    let mut all: Vec<(JsonString<'static>, Value<'static>)> = o.drain(..).map(|e| (e.key, e.value)).collect();
                    all.extend(mem);
                    *o = all.into_iter().collect();
                }
                Back::Nothing
            }
            "reverse" => {
                if how % 2 == 0 {
                    o.reverse();
                } else {
                    let all: Vec<Entry<'static>> = o.drain(..).collect();
                    *o = all.into_iter().rev().collect();
                }
                Back::Nothing
            }
            k => panic!("vector: edit {k}"),
        },
        _ => panic!("vector: edit {name} of a leaf"),
    })
}

/// values cannot be cloned through the API; this rebuilds one
pub fn clone_value(v: &Value<'static>) -> Value<'static> {
    match v {
        Value::Null => Value::Null,
        Value::Boolean(b) => Value::Boolean(*b),
        Value::Number(n) => Value::Number(n.clone()),
        Value::String(s) => Value::String(s.clone()),
        Value::Array(a) => Value::Array(a.iter().map(clone_value).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|e| Entry { key: e.key.clone(), value: clone_value(&e.value) }).collect()),
    }
}

/// every way to look up a key: the position of what was found, -1 for nothing
pub fn find(v: &mut Value<'static>, text: &str) -> Result<i64, String> {
    let place = |v: &Value<'static>, got: Option<*const Value<'static>>| -> Result<i64, String> {
        match got {
            None => Ok(-1),
            Some(p) => {
                let o = v.as_object().ok_or("found in something that is not an object")?;
                o.iter().position(|e| std::ptr::eq(&e.value, p)).map(|i| i as i64).ok_or_else(|| "found something outside of the object".to_string())
            }
        }
    };
    let r = v.get(text).map(|x| x as *const _);
    let first = place(v, r)?;
    let all: Vec<(&str, Result<Option<*const Value<'static>>, String>)> = vec![
        ("get_mut", Ok(v.get_mut(text).map(|x| x as *const _))),
        ("Object::get", Ok(v.as_object().and_then(|o| o.get(text)).map(|x| x as *const _))),
        ("Object::get_mut", Ok(v.as_object_mut().and_then(|o| o.get_mut(text)).map(|x| x as *const _))),
        ("get_entry_mut", Ok(v.as_object_mut().and_then(|o| o.get_entry_mut(text)).map(|e| &e.value as *const _))),
        ("index", Ok(guard(|| &v[text] as *const _).ok())),
        ("index_mut", Ok(guard(|| &mut v[text] as *const _).ok())),
    ];
    for (name, got) in all {
        let p = place(v, got?)?;
        ensure(p == first, || format!("{name}({text:?}) finds member {p}, get finds {first} in {v:?}"))?;
    }
    Ok(first)
}

/// typed accessors and positions of a value (not of its parts)
pub fn accessors(v: &mut Value<'static>) -> Result<(), String> {
    let d = format!("{v:?}");
    let kind = match v {
        Value::Null => 0,
        Value::Boolean(_) => 1,
        Value::Number(_) => 2,
        Value::String(_) => 3,
        Value::Array(_) => 4,
        Value::Object(_) => 5,
    };
    let is = [
        v.is_null(),
        v.as_bool().is_some(),
        v.as_number().is_some(),
        v.as_string().is_some(),
        v.as_array().is_some(),
        v.as_object().is_some(),
    ];
    ensure((0..6).all(|k| is[k] == (k == kind)), || format!("{d}: null, bool, number, string, array, object: {is:?}"))?;
    ensure(v.as_array_mut().is_some() == (kind == 4) && v.as_object_mut().is_some() == (kind == 5), || format!("{d}: mutable accessors"))?;
    ensure(kind == 3 || v.as_str().is_none(), || format!("{d}: as_str of something else"))?;
    match v {
        Value::Null => {}
        Value::Boolean(b) => {
            let b = *b;
            ensure(v.as_bool() == Some(b), || format!("{d}: as_bool"))?;
        }
        Value::Number(n) => {
            let p: *const JsonNumber<'static> = n;
            ensure(v.as_number().is_some_and(|x| std::ptr::eq(x, p)), || format!("{d}: as_number"))?;
        }
        Value::String(s) => {
            let p: *const JsonString<'static> = s;
            let plain = s.as_str().map(str::to_string);
            ensure(v.as_string().is_some_and(|x| std::ptr::eq(x, p)), || format!("{d}: as_string"))?;
            ensure(v.as_str().map(str::to_string) == plain, || format!("{d}: as_str"))?;
        }
        Value::Array(a) => {
            let (p, n) = (a.as_ptr(), a.len());
            ensure(v.as_array().is_some_and(|x| x.as_ptr() == p && x.len() == n), || format!("{d}: as_array"))?;
            ensure(v.as_array_mut().is_some_and(|x| x.as_ptr() == p && x.len() == n), || format!("{d}: as_array_mut"))?;
        }
        Value::Object(o) => {
            let (p, n) = (o.as_ptr(), o.len());
            ensure(v.as_object().is_some_and(|x| x.as_ptr() == p && x.len() == n), || format!("{d}: as_object"))?;
            ensure(v.as_object_mut().is_some_and(|x| x.as_ptr() == p && x.len() == n), || format!("{d}: as_object_mut"))?;
        }
    }
    let n = match v {
        Value::Array(a) => a.len(),
        _ => 0,
    };
    let base: *const Value<'static> = match v {
        Value::Array(a) => a.as_ptr(),
        _ => std::ptr::null(),
    };
    for i in (0..n + 3).chain([usize::MAX]) {
        let want = (i < n).then(|| base.wrapping_add(i));
        let got = [
            v.get_index(i).map(|x| x as *const _),
            v.get_index_mut(i).map(|x| x as *const _),
            guard(|| &v[i] as *const _).ok(),
            guard(|| &mut v[i] as *const _).ok(),
        ];
        for (g, name) in got.iter().zip(["get_index", "get_index_mut", "index", "index_mut"]) {
            ensure(*g == want, || format!("{d}: {name}({i}) {} element {i}", if g.is_none() { "misses" } else { "is not" }))?;
        }
    }
    Ok(())
}

fn lookups(v: &mut Value<'static>, texts: &[String], found: &[J], at: &str) -> Result<(), String> {
    accessors(v).map_err(|e| format!("{at}: {e}"))?;
    for (t, f) in texts.iter().zip(found) {
        let got = find(v, t).map_err(|e| format!("{at}: {e}"))?;
        ensure(got == f.int(), || format!("{at}: {t:?} is found at member {got} instead of {} in {v:?}", f.int()))?;
    }
    Ok(())
}

/// "O": a value and a history of edits
pub fn edit_vector(ctx: &mut Ctx, v: &J) {
    let texts: Vec<String> = v.get("q").arr().iter().map(J::string).collect();
    let salt = ctx.current.len();
    for how in [0usize, 1, 2] {
        let how = how * 7 + salt;
        ctx.judge("edit", || {
            let mut x = match build(v.get("t"), how) {
                Some(x) => x,
                None => return Ok(()), // a literal that the library refuses; other checks judge that
            };
            ensure(same(&x, v.get("t"), false), || format!("built {x:?} instead of {}", v.get("t").text()))?;
            lookups(&mut x, &texts, v.get("f").arr(), "at first")?;
            for (n, o) in v.get("h").arr().iter().enumerate() {
                let name = o.at(0).str();
                let at = format!("edit {} ({name})", n + 1);
                let how = how + n * 3;
                let path = o.at(1).arr();
                let mut place = &mut x;
                for s in path {
                    place = match step_mut(place, s, how) {
                        Some(p) => p,
                        None => return Err(format!("{at}: nothing at {}", o.at(1).text())),
                    };
                }
                let (a, b) = (o.at(2), o.at(3));
                let list = matches!(place, Value::Array(_));
                let none = |j: &J| matches!(j.arr().first(), Some(J::Str(s)) if s == "none");
                let (mut num, mut num2, mut text) = (0, 0, String::new());
                let mut args = Args { values: vec![], members: vec![], key: None };
                let member = |j: &J| -> Option<(JsonString<'static>, Value<'static>)> { Some((build_str(j.at(0), how)?, build(j.at(1), how)?)) };
                let mut ok = true;
                let mut add = |j: &J, args: &mut Args| {
                    if list {
                        match build(j, how) {
                            Some(x) => args.values.push(x),
                            None => ok = false,
                        }
                    } else {
                        match member(j) {
                            Some(x) => args.members.push(x),
                            None => ok = false,
                        }
                    }
                };
                match name {
                    "set" => args.values.extend(build(a, how)),
                    "push" => add(a, &mut args),
                    "extend" => a.arr().iter().for_each(|j| add(j, &mut args)),
                    "insert" => {
                        num = a.us();
                        add(b, &mut args);
                    }
                    "remove" | "truncate" => num = a.us(),
                    "swap" => {
                        num = a.us();
                        num2 = b.us();
                    }
                    "setkey" => {
                        text = a.string();
                        args.values.extend(build(b, how));
                    }
                    "rekey" => {
                        text = a.string();
                        args.key = build_str(b, how);
                        ok = args.key.is_some();
                    }
                    _ => {}
                }
                if !ok {
                    return Ok(());
                }
                let back = edit(place, name, num, num2, &text, args, how).map_err(|e| format!("{at}: {e}"))?;
                lookups(place, &texts, o.at(7).arr(), &format!("{at}, there"))?;
                let r = o.at(4);
                ensure(
                    match &back {
                        Back::Nothing => none(r),
                        Back::Value(x) => !none(r) && same(x, r, false),
                        Back::Member(e) if name == "rekey" => !none(r) && same(&e.value, r, false),
                        Back::Member(e) => !none(r) && same_str(&e.key, r.at(0), false) && same(&e.value, r.at(1), false),
                    },
                    || format!("{at}: returned something else than {}", r.text()),
                )?;
                ensure(same(&x, o.at(5), false), || format!("{at}: {x:?} instead of {}", o.at(5).text()))?;
                lookups(&mut x, &texts, o.at(6).arr(), &at)?;
            }
            Ok(())
        });
    }
}
