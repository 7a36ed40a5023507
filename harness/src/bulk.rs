//! Vectors of kind "B": texts by the thousand, as walks with run lengths.  The
//! walk is spelled out here; what the specification says about it in arithmetic
//! must come out of the spelling (otherwise the vector is broken).
use crate::json::{bytes, i, obj, s, J};
#[cfg(feature = "full")]
use crate::ensure;
use crate::{text, Ctx};

struct Walk {
    src: Vec<u8>,
    compact: Vec<u8>,
    ev: Vec<J>,
    /// kind of container, values in it so far
    stk: Vec<(bool, usize)>,
    nodes: usize,
    blanks: usize,
    /// for a trailing text: events and source without its last quote
    cut: Option<(Vec<u8>, usize)>,
}

fn t(name: &str) -> J {
    J::Arr(vec![s(name)])
}

impl Walk {
    fn put(&mut self, b: &[u8]) {
        self.src.extend_from_slice(b);
        self.compact.extend_from_slice(b);
    }
    fn string(&mut self, tag: &str, body: &[u8], cps: &[u32]) {
        let at = self.src.len() + 1;
        self.put(b"\"");
        self.put(body);
        self.put(b"\"");
        self.nodes += 1;
        let esc = body.contains(&b'\\');
        self.ev.push(J::Arr(vec![s(tag), i(at), i(at + body.len()), J::Bool(esc), J::Arr(cps.iter().map(|c| J::Int(i64::from(*c))).collect())]));
    }
    fn before(&mut self, key: Option<(&[u8], &[u32])>) {
        if let Some((is_obj, n)) = self.stk.last().copied() {
            if n > 0 {
                self.put(b",");
            }
            self.stk.last_mut().unwrap().1 += 1;
            if is_obj {
                match key {
                    Some((b, c)) => self.string("key", b, c),
                    None => self.string("key", b"k", &[107]),
                }
                self.put(b":");
            }
        }
    }
    /// a value was completed
    fn after(&mut self) {
        match self.stk.last() {
            Some((true, _)) => self.ev.push(t("ov")),
            Some((false, _)) => self.ev.push(t("av")),
            None => {}
        }
    }
    fn leaf(&mut self, sort: &str) {
        self.before(None);
        let at = self.src.len();
        match sort {
            "num" => {
                self.put(b"1");
                self.ev.push(J::Arr(vec![s("num"), i(at), i(at + 1)]));
                self.nodes += 1;
            }
            "nul" => {
                self.put(b"null");
                self.ev.push(t("null"));
                self.nodes += 1;
            }
            "str" => self.string("str", b"a", &[97]),
            _ => self.string("str", b"\\n", &[10]),
        }
        self.after();
    }
    fn open(&mut self, kind: &str) {
        self.before(None);
        let o = kind == "o";
        self.put(if o { b"{" } else { b"[" });
        self.ev.push(t(if o { "obj" } else { "arr" }));
        self.nodes += 1;
        self.stk.push((o, 0));
    }
    fn close(&mut self) {
        let (o, n) = self.stk.pop().expect("vector: nothing to close");
        self.put(if o { b"}" } else { b"]" });
        self.ev.push(J::Arr(vec![s(if o { "oend" } else { "aend" }), i(n)]));
        self.after();
    }
    fn number(&mut self, a: &[u8], n: usize, b: &[u8]) {
        self.before(None);
        let at = self.src.len();
        self.put(a);
        self.put(&vec![b'1'; n]);
        self.put(b);
        self.ev.push(J::Arr(vec![s("num"), i(at), i(self.src.len())]));
        self.nodes += 1;
        self.after();
    }
    fn step(&mut self, m: &J) {
        self.cut = None;
        match m.at(0).str() {
            "open" => self.open(m.at(1).str()),
            "close" => self.close(),
            "leaf" => (0..m.at(2).us()).for_each(|_| self.leaf(m.at(1).str())),
            "each" => {
                for _ in 0..m.at(2).us() {
                    self.open(m.at(1).str());
                    (0..m.at(4).us()).for_each(|_| self.leaf(m.at(3).str()));
                    self.close();
                }
            }
            "blank" => {
                for k in 0..m.at(1).us() {
                    self.src.push(b" \n\t\r  "[(k + self.blanks) % 6]);
                }
                self.blanks += 1;
            }
            "digits" => {
                let n = m.at(2).us();
                match m.at(1).str() {
                    "int" => self.number(b"1", n, b""),
                    "frac" => self.number(b"0.", n, b""),
                    "exp" => self.number(b"1e", n, b""),
                    _ => self.number(b"-1", n, b".5E+0"),
                }
            }
            "text" => {
                let (body, cps) = runs(m.at(1).arr());
                self.before(Some((&body, &cps)));
                let n = self.ev.len();
                self.string("str", &body, &cps);
                self.cut = Some((self.src[..self.src.len() - 1].to_vec(), n));
                self.after();
            }
            x => panic!("vector: move {x}"),
        }
    }
}

fn runs(r: &[J]) -> (Vec<u8>, Vec<u32>) {
    let (mut b, mut c) = (vec![], vec![]);
    for x in r {
        let (body, cp): (&[u8], u32) = match x.at(0).str() {
            "ascii" => (b"a", 97),
            "acute" => ("\u{e9}".as_bytes(), 0xe9),
            "euro" => ("\u{20ac}".as_bytes(), 0x20ac),
            "cat" => ("\u{1f639}".as_bytes(), 0x1f639),
            "nl" => (b"\\n", 10),
            "uacute" => (b"\\u00e9", 0xe9),
            _ => (b"\\ud83d\\ude39", 0x1f639),
        };
        for _ in 0..x.at(1).us() {
            b.extend_from_slice(body);
            c.push(cp);
        }
    }
    (b, c)
}

fn must(c: bool, what: &str) {
    if !c {
        panic!("vector: {what}");
    }
}

fn vector(v: &J, input: &[u8], ok: bool, ev: &[J], er: J) -> J {
    obj(vec![("k", s("T")), ("c", v.get("c").clone()), ("in", bytes(input)), ("ok", J::Bool(ok)), ("ev", J::Arr(ev.to_vec())), ("er", er), ("more", J::Arr(vec![]))])
}

pub fn replay(ctx: &mut Ctx, v: &J) {
    let mut w = Walk { src: vec![], compact: vec![], ev: vec![], stk: vec![], nodes: 0, blanks: 0, cut: None };
    for m in v.get("w").arr() {
        w.step(m);
    }
    must(w.src.len() == v.get("pos").us(), "length of the walk");
    // refused: something illegal, or the end, where the walk ends
    let mut bad = w.src.clone();
    bad.push(b'!');
    text::replay(ctx, &vector(v, &bad, false, &w.ev, v.get("eb").clone()));
    if !v.get("ee").arr().is_empty() {
        text::replay(ctx, &vector(v, &w.src, false, &w.ev, v.get("ee").clone()));
    }
    if let Some((src, n)) = w.cut.take() {
        let cut = v.get("cut");
        for (k, tail) in [&[31u8][..], &[255], &[]].iter().enumerate() {
            let mut bad = src.clone();
            bad.extend_from_slice(tail);
            text::replay(ctx, &vector(v, &bad, false, &w.ev[..n], cut.at(k).clone()));
        }
    }
    while !w.stk.is_empty() {
        w.close();
    }
    must(w.src.len() == v.get("src").us() && w.compact.len() == v.get("compact").us() && w.nodes == v.get("nodes").us(), "totals of the walk");
    for (m, x) in v.get("w").arr().iter().filter(|m| m.at(0).str() == "text").zip(v.get("texts").arr()) {
        let (b, c) = runs(m.at(1).arr());
        let dec: usize = c.iter().map(|c| char::from_u32(*c).unwrap().len_utf8()).sum();
        must(b.len() == x.at(0).us() && dec == x.at(1).us() && c.len() == x.at(2).us() && b.contains(&b'\\') == x.at(3).bool(), "totals of a text");
    }
    text::replay(ctx, &vector(v, &w.src, true, &w.ev, J::Arr(vec![s(""), s(""), J::Int(-1), i(0), i(0)])));
    #[cfg(feature = "full")]
    values(ctx, v, &w);
}

#[cfg(feature = "full")]
fn values(ctx: &mut Ctx, v: &J, w: &Walk) {
    use crate::values::{write_to, Form, Own};
    use justjson::doc::{Document, Node};
    use justjson::{JsonString, Value};
    let x = std::str::from_utf8(&w.compact).expect("vector: UTF-8");
    let facts = v.get("facts").arr();
    ctx.judge("cursor", || {
        let d = match Document::from_json(x) {
            Ok(d) => d,
            Err(_) => return Ok(()),
        };
        let total = w.nodes;
        let mut c = d.iter();
        c.skip_next_value();
        ensure(c.clone().count() == 0 && c.next().is_none(), || "skipping the root leaves nodes".into())?;
        for f in facts.iter().take(3).chain(facts.iter().rev().take(3)) {
            let (at, end, n) = (f.at(1).us(), f.at(2).us(), f.at(3).us());
            let mut c = d.iter();
            for _ in 0..at {
                c.next();
            }
            let here = || format!("the container at node {at}");
            let k = c.clone();
            let mut skip = c.clone();
            skip.skip_next_value();
            let left = skip.count();
            ensure(left == total - end, || format!("skipping {} leaves {left} nodes instead of {}", here(), total - end))?;
            let mut read = c.clone();
            let value = read.next_value();
            ensure(
                match &value {
                    Some(Value::Array(a)) => f.at(0).str() == "a" && a.len() == n,
                    Some(Value::Object(o)) => f.at(0).str() == "o" && o.len() == n,
                    _ => false,
                },
                || format!("reading {} gives another value", here()),
            )?;
            let left = read.count();
            ensure(left == total - end, || format!("reading {} leaves {left} nodes instead of {}", here(), total - end))?;
            ensure(
                match c.next() {
                    Some(Node::Array { length }) => f.at(0).str() == "a" && length == n,
                    Some(Node::Object { length }) => f.at(0).str() == "o" && length == n,
                    _ => false,
                },
                || format!("{} is another node", here()),
            )?;
            ensure(k.count() == total - at, || format!("a clone moved along from {}", here()))?;
        }
        Ok(())
    });
    let v0 = match Value::from_json(x) {
        Ok(v) => v,
        Err(_) => {
            ctx.note("walks that could not be read");
            return;
        }
    };
    let to = |f: Form<'_>| {
        let mut o = Own(String::new());
        match write_to(&v0, &f, &mut o) {
            Ok(()) => o.0,
            Err(_) => format!("(error after {} bytes)", o.0.len()),
        }
    };
    let short = |t: &str| format!("{} bytes starting {:?}", t.len(), t.chars().take(60).collect::<String>());
    ctx.judge("compact", || {
        for (name, out) in [("to_json", v0.to_json()), ("write_json_to", to(Form::Compact)), ("{}", format!("{v0}"))] {
            ensure(out == x, || format!("{name} writes {} instead of {}", short(&out), short(x)))?;
        }
        Ok(())
    });
    ctx.judge("pretty", || {
        let sane = |name: &str, out: &str, len: usize| -> Result<(), String> {
            ensure(out.len() == len, || format!("{name} writes {} instead of {len}", short(out)))?;
            match Value::from_json(out) {
                Ok(back) => {
                    let again = back.to_json();
                    ensure(again == x, || format!("what {name} writes reads back as {} instead of {}", short(&again), short(x)))
                }
                Err(e) => Err(format!("what {name} writes is refused: {e:?}")),
            }
        };
        sane("to_json_pretty", &v0.to_json_pretty(), v.get("p2").us())?;
        sane("pretty_write_json_to", &to(Form::Pretty), v.get("p2").us())?;
        sane("{:#}", &format!("{v0:#}"), v.get("p2").us())?;
        sane("to_json_pretty_custom", &v0.to_json_pretty_custom("", ""), v.get("p0").us())?;
        sane("to_json_pretty_custom", &v0.to_json_pretty_custom("\t  ", "\r\n"), v.get("p3").us())?;
        sane("pretty_write_json_to_custom", &to(Form::Custom("\t  ", "\r\n")), v.get("p3").us())
    });
    ctx.judge("sink", || crate::values::sinks_sampled(&v0, x.len()));
    ctx.judge("value_eq", || {
        let fresh = || Value::from_json_bytes(x.as_bytes()).map_err(|e| format!("refused from bytes: {e:?}"));
        let again = fresh()?;
        ensure(v0 == again && again == v0, || "a value differs from the same value read again".into())?;
        // what differs in one place only differs
        fn leaves<'a, 'b>(v: &'b mut Value<'a>, out: &mut Vec<*mut Value<'a>>) {
            match v {
                Value::Array(a) => a.iter_mut().for_each(|v| leaves(v, out)),
                Value::Object(o) => o.iter_mut().for_each(|e| leaves(&mut e.value, out)),
                v => out.push(v),
            }
        }
        let n = {
            let mut c = fresh()?;
            let mut l = vec![];
            leaves(&mut c, &mut l);
            l.len()
        };
        for k in [0, n / 2, n.saturating_sub(2), n.saturating_sub(1)] {
            if k >= n {
                continue;
            }
            let mut other = fresh()?;
            change(&mut other, &mut { k });
            ensure(other != v0 && v0 != other, || format!("a value equals the value with leaf {k} of {n} changed"))?;
        }
        // strings: the same text in another representation, and one character more or other
        if let Value::String(p) = &v0 {
            let text: String = p.decoded().collect();
            let raw = JsonString::from(text.as_str());
            ensure(*p == raw && raw == *p && *p == text.as_str(), || format!("{} is not equal to its own text", short(&text)))?;
            let mut longer = text.clone();
            longer.push('a');
            let mut other: Vec<char> = text.chars().collect();
            if let Some(l) = other.last_mut() {
                *l = if *l == 'z' { 'y' } else { 'z' };
            } else {
                other.push('z');
            }
            let other: String = other.into_iter().collect();
            for o in [&longer, &other] {
                let r = JsonString::from(o.as_str());
                ensure(*p != r && r != *p && *p != o.as_str(), || format!("{} is equal to {}", short(&text), short(o)))?;
            }
        }
        Ok(())
    });
    let strings_of = |f: &dyn Fn(&JsonString<'_>, &str) -> Result<(), String>| -> Result<(), String> {
        if let Value::String(p) = &v0 {
            let text: String = p.decoded().collect();
            f(p, &text)?;
            f(&JsonString::from(text.as_str()), &text)?;
            f(&JsonString::from(text.clone()), &text)?;
        }
        Ok(())
    };
    ctx.judge("eq", || {
        strings_of(&|p, text| {
            let o = JsonString::from(text);
            ensure(*p == o && o == *p && *p == *text && *p == text, || format!("{} is not equal to its own text", short(text)))
        })
    });
    ctx.judge("ord", || {
        use std::cmp::Ordering::*;
        strings_of(&|p, text| {
            let mut more = text.to_string();
            more.push('a');
            let mut above: Vec<char> = text.chars().collect();
            if let Some(l) = above.last_mut() {
                *l = '\u{10ffff}';
            } else {
                above.push('b');
            }
            let above: String = above.into_iter().collect();
            for (t, want) in [(text, Equal), (more.as_str(), Less), (above.as_str(), Less)] {
                let o = JsonString::from(t);
                ensure(p.cmp(&o) == want && o.cmp(p) == want.reverse() && p.partial_cmp(&t) == Some(want), || {
                    format!("{} compares to {} as {:?}", short(text), short(t), p.cmp(&o))
                })?;
            }
            Ok(())
        })
    });
    ctx.judge("hash", || {
        use std::hash::{Hash, Hasher};
        #[derive(Default)]
        struct All(Vec<u8>);
        impl Hasher for All {
            fn finish(&self) -> u64 {
                self.0.len() as u64
            }
            fn write(&mut self, b: &[u8]) {
                self.0.extend_from_slice(b);
            }
        }
        strings_of(&|p, text| {
            let (mut a, mut b) = (All::default(), All::default());
            p.hash(&mut a);
            text.hash(&mut b);
            ensure(a.0 == b.0, || format!("{} hashes other bytes ({}) than its text ({})", short(text), a.0.len(), b.0.len()))
        })
    });
    ctx.judge("encode", || {
        strings_of(&|p, text| {
            for json in [p.as_json().collect::<String>(), format!("{}", p.as_json()), p.escape_if_needed().to_string()] {
                let lit = format!("\"{json}\"");
                match JsonString::from_json(&lit) {
                    Ok(b) => ensure(b.decoded().eq(text.chars()), || format!("the JSON form of {} means another text", short(text)))?,
                    Err(e) => return Err(format!("the JSON form of {} is refused: {e:?}", short(text))),
                }
            }
            Ok(())
        })
    });
    ctx.judge("rawmeta", || {
        strings_of(&|p, text| {
            let json: String = p.as_json().collect();
            ensure(p.len() == json.len(), || format!("{}: len {} instead of {}", short(text), p.len(), json.len()))?;
            ensure(p.decoded_len() == text.len(), || format!("{}: decoded_len {} instead of {}", short(text), p.decoded_len(), text.len()))?;
            ensure(p.is_empty() == text.is_empty(), || "is_empty".into())?;
            ensure(p.as_str().map_or(true, |s| s == text), || "as_str".into())
        })
    });
    ctx.judge("edit", || {
        fn last<'v, 'a>(v: &'v Value<'a>) -> Result<(), String> {
            match v {
                Value::Array(a) => {
                    for k in [0, 1, 254, 255, 256, 4095, 4096, 65535, 65536, a.len().saturating_sub(1), a.len()] {
                        let want = a.get(k).map(|x| x as *const Value<'a>);
                        ensure(v.get_index(k).map(|x| x as *const Value<'a>) == want, || format!("get_index({k}) of {} elements", a.len()))?;
                    }
                    a.last().map_or(Ok(()), last)
                }
                Value::Object(o) => {
                    ensure(o.iter().count() == o.len(), || "iter and len of an object".into())?;
                    let want = o.first().map(|e| &e.value as *const Value<'a>);
                    if o.iter().all(|e| e.key == "k") {
                        ensure(o.get("k").map(|x| x as *const Value<'a>) == want, || "get does not find the first".into())?;
                        ensure(v.get("k").map(|x| x as *const Value<'a>) == want, || "get does not find the first".into())?;
                    }
                    ensure(o.get("absent").is_none(), || "get finds what is not there".into())?;
                    o.last().map_or(Ok(()), |e| last(&e.value))
                }
                _ => Ok(()),
            }
        }
        last(&v0)
    });
}

/// change the k-th leaf
#[cfg(feature = "full")]
fn change(v: &mut justjson::Value<'_>, k: &mut usize) -> bool {
    use justjson::Value;
    match v {
        Value::Array(a) => a.iter_mut().any(|v| change(v, k)),
        Value::Object(o) => o.iter_mut().any(|e| change(&mut e.value, k)),
        v => {
            if *k == 0 {
                *v = Value::Boolean(true);
                return true;
            }
            *k -= 1;
            false
        }
    }
}
