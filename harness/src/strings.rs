//! Vectors about strings: rows of texts in all their spellings and
//! representations, and decoding tables.
use crate::json::J;
use crate::obs::*;
use crate::text::{meta, size_hints};
use crate::{ensure, Ctx};
use justjson::{AnyStr, JsonString};
#[cfg(feature = "full")]
use justjson::{Object, Value};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasher, Hash, Hasher};

thread_local! {
    static POOL: RefCell<HashSet<&'static str>> = RefCell::new(HashSet::new());
    static BACKSPACE: RefCell<u32> = const { RefCell::new(0) };
}

/// strings that live for ever, each once
pub fn intern(s: &str) -> &'static str {
    POOL.with(|p| {
        if let Some(x) = p.borrow().get(s) {
            return *x;
        }
        let l: &'static str = Box::leak(s.to_string().into_boxed_str());
        p.borrow_mut().insert(l);
        l
    })
}

pub fn set_backspace(b: u32) {
    BACKSPACE.with(|x| *x.borrow_mut() = b);
}
fn backspace() -> u32 {
    BACKSPACE.with(|x| *x.borrow())
}

/// What a string body denotes; only used on what the library writes for raw
/// strings, and checked against the specification's machine on every string of
/// every vector ("vector:" panics are tool errors).
pub fn dec_body(b: &[u8]) -> Option<Vec<u32>> {
    let s = std::str::from_utf8(b).ok()?;
    let mut out = vec![];
    let mut it = s.chars();
    let hex4 = |it: &mut std::str::Chars<'_>| -> Option<u32> {
        let mut v = 0;
        for _ in 0..4 {
            v = v * 16 + it.next().filter(char::is_ascii)?.to_digit(16)?;
        }
        Some(v)
    };
    while let Some(c) = it.next() {
        match c {
            '"' => return None,
            c if (c as u32) < 32 => return None,
            '\\' => out.push(match it.next()? {
                c @ ('"' | '\\' | '/') => c as u32,
                'b' => backspace(),
                'f' => 12,
                'n' => 10,
                'r' => 13,
                't' => 9,
                'u' => {
                    let h = hex4(&mut it)?;
                    match h {
                        0xd800..=0xdbff => {
                            if it.next()? != '\\' || it.next()? != 'u' {
                                return None;
                            }
                            let l = hex4(&mut it)?;
                            if !(0xdc00..=0xdfff).contains(&l) {
                                return None;
                            }
                            0x10000 + (h - 0xd800) * 1024 + (l - 0xdc00)
                        }
                        0xdc00..=0xdfff => return None,
                        h => h,
                    }
                }
                _ => return None,
            }),
            c => out.push(c as u32),
        }
    }
    Some(out)
}

pub fn check_decoder(body: &[u8], cps: &[u32]) {
    if dec_body(body).as_deref() != Some(cps) {
        panic!("vector: the harness decodes {body:?} differently from the specification ({cps:?})");
    }
}

pub fn text(cps: &[u32]) -> String {
    cps.iter().map(|c| char::from_u32(*c).expect("vector: scalar")).collect()
}

/// one string in one representation
#[derive(Clone)]
pub struct Rep {
    pub how: &'static str,
    /// the literal it was parsed from
    pub body: Option<&'static str>,
    pub s: JsonString<'static>,
}

/// All representations of a text: parsed from each spelling, and made from Rust strings.
pub fn reps(t: &str, bodies: &[J]) -> Vec<Rep> {
    let mut v = vec![];
    for (n, b) in bodies.iter().enumerate() {
        let bytes = b.bytes();
        let body = intern(std::str::from_utf8(&bytes).expect("vector: spelled text is UTF-8"));
        check_decoder(body.as_bytes(), &t.chars().map(|c| c as u32).collect::<Vec<_>>());
        let lit = intern(&format!("\"{body}\""));
        if let Ok(s) = JsonString::from_json(lit) {
            v.push(Rep { how: "parsed from str", body: Some(body), s });
        }
        // alternate between the other ways to read it
        #[cfg(feature = "full")]
        {
            if n % 2 == 0 {
                if let Ok(Value::String(s)) = Value::from_json_bytes(lit.as_bytes()) {
                    v.push(Rep { how: "parsed from bytes", body: Some(body), s });
                }
            } else {
                let doc = intern(&format!("{{{lit}:0}}"));
                if let Ok(Value::Object(mut o)) = Value::from_json_bytes(doc.as_bytes()) {
                    if let Some(e) = o.pop() {
                        v.push(Rep { how: "parsed as a key from bytes", body: Some(body), s: e.key });
                    }
                }
            }
        }
        #[cfg(not(feature = "full"))]
        {
            let _ = n;
            if let Ok(d) = justjson::doc::HeaplessDocument::<2>::from_json_bytes(lit.as_bytes()) {
                if let Some(justjson::doc::Node::String(s)) = d.iter().next() {
                    v.push(Rep { how: "parsed from bytes", body: Some(body), s });
                }
            }
        }
    }
    v.push(Rep { how: "made from &str", body: None, s: JsonString::from(intern(t)) });
    #[cfg(feature = "full")]
    v.push(Rep { how: "made from String", body: None, s: JsonString::from(t.to_string()) });
    v
}

fn desc(r: &Rep) -> String {
    format!("{:?} ({})", r.body.unwrap_or("-"), r.how)
}

// ----------------------------------------------------------------- hashing

#[derive(Default, Clone)]
pub struct Stream {
    pub bytes: Vec<u8>,
    pub chunks: Vec<usize>,
}
impl Hasher for Stream {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.bytes.extend_from_slice(b);
        self.chunks.push(b.len());
    }
}
/// what Hash feeds a hasher
pub fn stream(x: impl Hash) -> Stream {
    let mut s = Stream::default();
    x.hash(&mut s);
    s
}
fn sip(x: impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
        }
    }
}
fn fnv(x: impl Hash) -> u64 {
    let mut h = Fnv(0xcbf2_9ce4_8422_2325);
    x.hash(&mut h);
    h.finish()
}

fn ord(c: i64) -> Ordering {
    match c {
        -1 => Ordering::Less,
        0 => Ordering::Equal,
        _ => Ordering::Greater,
    }
}

/// both texts as views of one buffer, where one lies in the other
fn aliased(a: &str, b: &str) -> Vec<(&'static str, &'static str)> {
    let (long, short) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let buf = intern(long);
    let mut at = vec![];
    if long.starts_with(short) {
        at.push(0);
    }
    if long.ends_with(short) && long.len() > short.len() {
        at.push(long.len() - short.len());
    }
    at.into_iter()
        .map(|o| {
            let part = &buf[o..o + short.len()];
            if a.len() >= b.len() {
                (buf, part)
            } else {
                (part, buf)
            }
        })
        .collect()
}

/// a string that was parsed, and its JSON form taken as a text of its own: the
/// same bytes in the same place
fn own_bodies(a: &[Rep]) -> Vec<(&Rep, JsonString<'static>, Ordering)> {
    a.iter()
        .filter_map(|x| {
            let body = x.s.as_json_str()?;
            let view: &str = body.as_str();
            // the views of parsed strings live as long as the interned literals
            let here = x.body?;
            let lit = intern(&format!("\"{here}\""));
            let part = &lit[1..lit.len() - 1];
            if !std::ptr::eq(part.as_ptr(), view.as_ptr()) {
                return None;
            }
            let cps = |t: &str| t.chars().map(|c| c as u32).collect::<Vec<_>>();
            Some((x, JsonString::from(part), dec_body(here.as_bytes())?.cmp(&cps(part))))
        })
        .collect()
}

pub fn pairs(ctx: &mut Ctx, v: &J) {
    let at = text(&v.get("a").get("t").cps());
    let a = reps(&at, v.get("a").get("sp").arr());
    let others: Vec<(String, Vec<Rep>, i64)> = v
        .get("bs")
        .arr()
        .iter()
        .map(|b| {
            let t = text(&b.at(0).cps());
            let r = reps(&t, b.at(1).arr());
            (t, r, b.at(2).int())
        })
        .collect();

    ctx.judge("eq", || {
        for (x, y, o) in own_bodies(&a) {
            let want = o == Ordering::Equal;
            ensure((x.s == y) == want && (y == x.s) == want, || format!("{} == its own JSON form as a text: {}", desc(x), x.s == y))?;
        }
        for (bt, bs, c) in &others {
            let want = *c == 0;
            for (p, q) in aliased(&at, bt) {
                let (x, y) = (JsonString::from(p), JsonString::from(q));
                ensure((x == y) == want && (y == x) == want && (x == q) == want && (y == p) == want, || {
                    format!("{p:?} == {q:?} (views of one buffer): {}", x == y)
                })?;
                for (x, y) in a.iter().zip(bs) {
                    // a parsed string against part of its own source
                    ensure((x.s == q) == want && (y.s == p) == want, || format!("{} == {q:?} (views)", desc(x)))?;
                }
            }
            for x in &a {
                for (n, got) in [("== &str", x.s == bt.as_str()), ("== str", x.s == *bt.as_str()), ("!= &str", !(x.s != bt.as_str()))] {
                    ensure(got == want, || format!("{} {n} {bt:?}: {got}", desc(x)))?;
                }
                for y in bs {
                    ensure((x.s == y.s) == want, || format!("{} == {}: {}", desc(x), desc(y), x.s == y.s))?;
                    ensure((y.s == x.s) == want, || format!("{} == {}: {}", desc(y), desc(x), y.s == x.s))?;
                    ensure((x.s != y.s) != want, || format!("{} != {}: {}", desc(x), desc(y), x.s != y.s))?;
                }
                #[cfg(feature = "full")]
                {
                    let y = &bs[bs.len() / 2];
                    let (p, q) = (Value::String(x.s.clone()), Value::String(y.s.clone()));
                    ensure((p == q) == want && (q == p) == want, || format!("values {} == {}", desc(x), desc(y)))?;
                    let (p, q) = (
                        Value::Object(Object::from_iter([(x.s.clone(), Value::Null)])),
                        Value::Object(Object::from_iter([(y.s.clone(), Value::Null)])),
                    );
                    ensure((p == q) == want && (q == p) == want, || format!("keys {} == {}", desc(x), desc(y)))?;
                    let (p, q) = (justjson::doc::Node::String(x.s.clone()), justjson::doc::Node::String(y.s.clone()));
                    ensure((p == q) == want, || format!("nodes {} == {}", desc(x), desc(y)))?;
                }
            }
        }
        Ok(())
    });

    ctx.judge("ord", || {
        for (x, y, want) in own_bodies(&a) {
            ensure(x.s.cmp(&y) == want && y.cmp(&x.s) == want.reverse(), || format!("{} cmp its own JSON form as a text: {:?}", desc(x), x.s.cmp(&y)))?;
        }
        for (bt, bs, c) in &others {
            let want = ord(*c);
            for (p, q) in aliased(&at, bt) {
                let (x, y) = (JsonString::from(p), JsonString::from(q));
                ensure(x.cmp(&y) == want && y.cmp(&x) == want.reverse() && x.partial_cmp(&q) == Some(want), || {
                    format!("{p:?} cmp {q:?} (views of one buffer): {:?}", x.cmp(&y))
                })?;
            }
            for x in &a {
                for (n, got) in [("&str", x.s.partial_cmp(&bt.as_str())), ("str", x.s.partial_cmp(bt.as_str()))] {
                    ensure(got == Some(want), || format!("{} against {n} {bt:?}: {got:?}", desc(x)))?;
                }
                ensure((x.s < bt.as_str()) == (want == Ordering::Less), || format!("{} < {bt:?}", desc(x)))?;
                ensure((x.s >= bt.as_str()) == (want != Ordering::Less), || format!("{} >= {bt:?}", desc(x)))?;
                for y in bs {
                    let got = x.s.cmp(&y.s);
                    ensure(got == want, || format!("{} cmp {}: {got:?} instead of {want:?}", desc(x), desc(y)))?;
                    let got = y.s.cmp(&x.s);
                    ensure(got == want.reverse(), || format!("{} cmp {}: {got:?} instead of {:?}", desc(y), desc(x), want.reverse()))?;
                    let got = x.s.partial_cmp(&y.s);
                    ensure(got == Some(want), || format!("{} partial_cmp {}: {got:?}", desc(x), desc(y)))?;
                    ensure((x.s < y.s) == (want == Ordering::Less) && (x.s > y.s) == (want == Ordering::Greater), || {
                        format!("{} < {}", desc(x), desc(y))
                    })?;
                }
                let y = &bs[bs.len() / 2].s;
                let m = x.s.clone().max(y.clone());
                ensure(m == if want == Ordering::Greater { at.as_str() } else { bt.as_str() }, || format!("max of {} and {bt:?}", desc(x)))?;
            }
        }
        Ok(())
    });

    let mut chunky = false;
    ctx.judge("hash", || {
        let plain = stream(at.as_str());
        let (ps, pf) = (sip(at.as_str()), fnv(at.as_str()));
        let rs = std::collections::hash_map::RandomState::new();
        let pr = rs.hash_one(at.as_str());
        for x in &a {
            let s = stream(&x.s);
            ensure(s.bytes == plain.bytes, || format!("{} feeds {:?}, the plain string {:?}", desc(x), s.bytes, plain.bytes))?;
            chunky |= s.chunks != plain.chunks;
            ensure(sip(&x.s) == ps && fnv(&x.s) == pf && rs.hash_one(&x.s) == pr, || format!("{} hashes differently from {at:?}", desc(x)))?;
        }
        #[cfg(feature = "full")]
        {
            // strings find each other in maps exactly when their texts are equal
            let mut m: HashMap<&JsonString<'static>, usize> = HashMap::new();
            for (n, x) in a.iter().enumerate() {
                let old = m.insert(&x.s, n);
                ensure(old.is_some() == (n > 0), || format!("{} does not find {} in a map", desc(x), desc(&a[0])))?;
            }
            for (_, bs, c) in &others {
                for y in bs.iter().take(3) {
                    ensure(m.contains_key(&y.s) == (*c == 0), || format!("looking up {} among {at:?}", desc(y)))?;
                }
            }
        }
        Ok(())
    });
    if chunky {
        ctx.note("chunk-sensitive-hash");
    }

    ctx.judge("anystr", || {
        let all = |t: &'static str| -> Vec<AnyStr<'static>> {
            let mut v = vec![AnyStr::Borrowed(t), AnyStr::from(t)];
            #[cfg(feature = "full")]
            v.extend([AnyStr::Owned(t.to_string()), AnyStr::from(t.to_string())]);
            let c = v.clone();
            v.extend(c);
            v
        };
        let mine = all(intern(&at));
        for x in &mine {
            let b: &str = std::borrow::Borrow::borrow(x);
            let d: &str = x;
            ensure(x.as_str() == at && x.as_ref() == at && b == at && d == at && x.len() == at.len(), || format!("{x:?} does not expose {at:?}"))?;
            ensure(format!("{}", x.as_str()) == at, || format!("{x:?} shows otherwise"))?;
            ensure(stream(x).bytes == stream(at.as_str()).bytes && sip(x) == sip(at.as_str()), || format!("{x:?} hashes differently"))?;
        }
        for (bt, _, c) in &others {
            let want = ord(*c);
            let eq = *c == 0;
            for (p, q) in aliased(&at, bt) {
                let (x, y) = (AnyStr::Borrowed(p), AnyStr::Borrowed(q));
                ensure((x == y) == eq && (y == x) == eq && (x == q) == eq && (y == *p) == eq, || format!("{p:?} == {q:?} (views of one buffer): {}", x == y))?;
                ensure(x.partial_cmp(&y) == Some(want) && y.partial_cmp(&x) == Some(want.reverse()) && x.partial_cmp(&q) == Some(want), || {
                    format!("{p:?} against {q:?} (views of one buffer) is not {want:?}")
                })?;
                ensure((stream(&x).bytes == stream(&y).bytes) == eq, || format!("{p:?} and {q:?} (views of one buffer) hash the same: {}", !eq))?;
            }
            let theirs = all(intern(bt));
            for x in &mine {
                ensure((*x == bt.as_str()) == eq && (*x == *bt.as_str()) == eq, || format!("{x:?} == {bt:?}"))?;
                ensure(x.partial_cmp(&bt.as_str()) == Some(want) && x.partial_cmp(bt.as_str()) == Some(want), || {
                    format!("{x:?} against {bt:?} is not {want:?}")
                })?;
                ensure((*x < bt.as_str()) == (want == Ordering::Less), || format!("{x:?} < {bt:?}"))?;
                for y in &theirs {
                    ensure((x == y) == eq && (y == x) == eq && (x != y) != eq, || format!("{x:?} == {y:?}"))?;
                    ensure(x.partial_cmp(y) == Some(want) && y.partial_cmp(x) == Some(want.reverse()), || format!("{x:?} against {y:?} is not {want:?}"))?;
                    ensure((x < y) == (want == Ordering::Less) && (x <= y) == (want != Ordering::Greater), || format!("{x:?} < {y:?}"))?;
                }
            }
            let mut set: HashSet<AnyStr<'static>> = HashSet::new();
            for y in theirs {
                set.insert(y);
            }
            ensure(set.len() == 1, || format!("{} different members from {bt:?}", set.len()))?;
            ensure(set.contains(at.as_str()) == eq, || format!("a set of {bt:?} contains {at:?}"))?;
            ensure(mine.iter().all(|x| set.contains(x) == eq), || format!("a set of {bt:?} contains {at:?} (as AnyStr)"))?;
        }
        Ok(())
    });

    // the rest concerns single strings: every text appears once as the left side of a row
    ctx.judge("decode", || {
        for x in &a {
            decoded(&x.s, &at, &desc(x))?;
        }
        Ok(())
    });
    ctx.judge("encode", || {
        for x in &a {
            encoded(&x.s, &at, x.body, &desc(x))?;
        }
        Ok(())
    });
    ctx.judge("meta", || {
        for x in &a {
            measured(&x.s, &at, x.body, &desc(x))?;
        }
        Ok(())
    });
}

/// every way to get the decoded text
pub fn decoded(x: &JsonString<'_>, t: &str, d: &str) -> Result<(), String> {
    let got: String = x.decoded().collect();
    ensure(got == t, || format!("{d}: decoded() yields {got:?} instead of {t:?}"))?;
    ensure(format!("{x}") == t, || format!("{d}: Display yields {:?}", format!("{x}")))?;
    ensure(format!("{}", x.decoded()) == t, || format!("{d}: Display of decoded()"))?;
    #[cfg(feature = "full")]
    {
        ensure(x.decode_if_needed().as_str() == t, || format!("{d}: decode_if_needed yields {:?}", x.decode_if_needed().as_str()))?;
        ensure(x.clone().decode_if_needed() == t, || format!("{d}: decode_if_needed of a clone"))?;
        let v = Value::String(x.clone());
        ensure(v.as_str().map_or(true, |s| s == t), || format!("{d}: Value::as_str {:?}", v.as_str()))?;
    }
    // a cursor shows what it has not yielded yet, and its clones go their own way
    let mut it = x.decoded();
    let mut rest = t.chars();
    loop {
        let c = it.clone();
        ensure(format!("{it}") == rest.as_str(), || format!("{d}: decoded() shows {:?} with {:?} left", format!("{it}"), rest.as_str()))?;
        let (p, q) = (it.next(), rest.next());
        ensure(p == q && c.collect::<String>().chars().next() == q, || format!("{d}: decoded() yields {p:?} instead of {q:?}"))?;
        if q.is_none() {
            break;
        }
    }
    ensure(it.next().is_none(), || format!("{d}: decoded() goes on after its end"))
}

/// every way to get the JSON form
pub fn encoded(x: &JsonString<'_>, t: &str, body: Option<&str>, d: &str) -> Result<(), String> {
    let out: String = x.as_json().collect();
    match body {
        Some(b) => ensure(out == b, || format!("{d}: written as {out:?}"))?,
        None => {
            let cps: Vec<u32> = t.chars().map(|c| c as u32).collect();
            let got = dec_body(out.as_bytes());
            ensure(got.as_ref() == Some(&cps), || format!("{d}: {t:?} is encoded as {out:?}, which means {got:?}"))?;
        }
    }
    ensure(format!("{}", x.as_json()) == out, || format!("{d}: Display of as_json() shows {:?}, it yields {out:?}", format!("{}", x.as_json())))?;
    if let Some(s) = x.as_json_str() {
        ensure(s.as_str() == out, || format!("{d}: as_json_str {:?} but as_json {out:?}", s.as_str()))?;
    }
    let mut it = x.as_json();
    let mut rest = out.chars();
    loop {
        ensure(format!("{it}") == rest.as_str(), || format!("{d}: as_json() shows {:?} with {:?} left", format!("{it}"), rest.as_str()))?;
        let q = rest.next();
        ensure(it.next() == q, || format!("{d}: as_json() is not {out:?}"))?;
        if q.is_none() {
            break;
        }
    }
    ensure(it.next().is_none(), || format!("{d}: as_json() goes on after its end"))?;
    #[cfg(feature = "full")]
    {
        let e = x.escape_if_needed();
        ensure(e.as_str() == out, || format!("{d}: escape_if_needed {:?} but as_json {out:?}", e.as_str()))?;
        let q = format!("\"{out}\"");
        let v = Value::String(x.clone());
        ensure(v.to_json() == q, || format!("{d}: Value::to_json {:?} but as_json {out:?}", v.to_json()))?;
        ensure(v.to_json_pretty() == q, || format!("{d}: Value::to_json_pretty {:?} but as_json {out:?}", v.to_json_pretty()))?;
        let o = Value::Object(Object::from_iter([(x.clone(), Value::Array(vec![v]))]));
        ensure(o.to_json() == format!("{{{q}:[{q}]}}"), || format!("{d}: as a key {:?}", o.to_json()))?;
        // and it comes back
        let back = JsonString::from_json(&q).map_err(|e| format!("{d}: encoded as {q}, refused with {:?}", nerr(&e)))?;
        ensure(back.decoded().collect::<String>() == t, || format!("{d}: {q} reads back as {back}"))?;
    }
    Ok(())
}

/// lengths, emptiness, direct access
pub fn measured(x: &JsonString<'_>, t: &str, body: Option<&str>, d: &str) -> Result<(), String> {
    if let Some(b) = body {
        let want = SLit {
            lit: Lit { text: b.as_bytes().to_vec(), pos: None },
            esc: b.contains('\\'),
            cps: t.chars().map(|c| c as u32).collect(),
        };
        return meta(x, &want).map_err(|e| format!("{e} ({d})"));
    }
    let out: String = x.as_json().collect();
    ensure(x.len() == out.len(), || format!("{d}: len {} but the JSON form {out:?} has {}", x.len(), out.len()))?;
    ensure(x.decoded_len() == t.len(), || format!("{d}: decoded_len {} instead of {}", x.decoded_len(), t.len()))?;
    ensure(x.is_empty() == t.is_empty(), || format!("{d}: is_empty {}", x.is_empty()))?;
    ensure(x.as_str() == Some(t), || format!("{d}: as_str {:?}", x.as_str()))?;
    if let Some(s) = x.as_json_str() {
        ensure(s.as_str() == out, || format!("{d}: as_json_str {:?}", s.as_str()))?;
    }
    #[cfg(feature = "full")]
    {
        let made_borrowed = d.contains("&str");
        let dec = x.decode_if_needed();
        ensure(dec.as_str() == t, || format!("{d}: decode_if_needed"))?;
        if made_borrowed {
            ensure(matches!(dec, AnyStr::Borrowed(_)), || format!("{d}: decode_if_needed copies"))?;
            if out == t {
                ensure(matches!(x.escape_if_needed(), AnyStr::Borrowed(_)), || format!("{d}: escape_if_needed copies"))?;
            }
        }
        ensure(x.escape_if_needed().as_str() == out, || format!("{d}: escape_if_needed"))?;
    }
    size_hints(x).map_err(|e| format!("{e} ({d})"))
}

// ------------------------------------------------------------------ tables

/// `\uHHLL` for every LL
pub fn unit_row(ctx: &mut Ctx, v: &J) {
    ctx.judge("decode", || {
        let h = v.get("h").us();
        for (l, want) in v.get("r").arr().iter().enumerate() {
            let u = h * 256 + l;
            for lit in [format!("\"\\u{u:04x}\""), format!("\"\\u{u:04X}\""), format!("\"x\\u{u:04x}y\"")] {
                code(&lit, want.int())?;
            }
        }
        Ok(())
    });
}

/// `\uHHHH\uLLLL` for a high surrogate
pub fn pair_row(ctx: &mut Ctx, v: &J) {
    ctx.judge("decode", || {
        let h = v.get("h").us();
        for (l, want) in v.get("l").arr().iter().zip(v.get("r").arr()) {
            let l = l.us();
            for lit in [format!("\"\\u{h:04x}\\u{l:04X}\""), format!("\"\\u{h:04X}\\u{l:04x}\""), format!("\"é\\u{h:04x}\\u{l:04x}0\"")] {
                code(&lit, want.int())?;
            }
        }
        Ok(())
    });
}

fn code(lit: &str, want: i64) -> Result<(), String> {
    let bytes = lit.as_bytes();
    let got = JsonString::from_json(lit);
    if want < 0 {
        ensure(got.is_err(), || format!("{lit} is accepted: {got:?}"))?;
        let r = justjson::parser::Parser::validate_json_bytes(bytes);
        return ensure(r.is_err(), || format!("{lit} is accepted from bytes"));
    }
    let c = char::from_u32(want as u32).expect("vector: scalar");
    let s = got.map_err(|e| format!("{lit} is refused: {:?}", nerr(&e)))?;
    let all: Vec<char> = s.decoded().collect();
    let lead = match lit.as_bytes()[1] {
        b'\\' => vec![c],
        b'x' => vec!['x', c, 'y'],
        _ => vec!['é', c, '0'],
    };
    ensure(all == lead, || format!("{lit} decodes to {all:?} instead of {lead:?}"))?;
    ensure(format!("{s}").chars().eq(lead.iter().copied()), || format!("{lit} is shown as {:?}", format!("{s}")))?;
    #[cfg(feature = "full")]
    {
        ensure(s.decode_if_needed().chars().eq(lead.iter().copied()), || format!("{lit}: decode_if_needed"))?;
        let v = Value::from_json_bytes(bytes).map_err(|e| format!("{lit} is refused from bytes: {:?}", nerr(&e)))?;
        let t: String = lead.iter().collect();
        match &v {
            Value::String(x) => {
                ensure(x.decoded().eq(lead.iter().copied()), || format!("{lit} from bytes decodes to {x}"))?;
                ensure(x.decoded_len() == t.len(), || format!("{lit} from bytes: decoded_len {}", x.decoded_len()))?;
            }
            v => return Err(format!("{lit} from bytes: {v:?}")),
        }
        ensure(s.decoded_len() == t.len(), || format!("{lit}: decoded_len {}", s.decoded_len()))?;
    }
    Ok(())
}

/// which byte sequences after a lead byte are well-formed UTF-8
pub fn utf8_row(ctx: &mut Ctx, v: &J) {
    ctx.judge("utf8", || {
        let l = v.get("l").us() as u8;
        for (t, r) in v.get("tails").arr().iter().zip(v.get("r").arr()) {
            let tail = t.bytes();
            for (b, want) in r.arr().iter().enumerate() {
                let want = want.int() == 1;
                for pre in [&b""[..], b"a", b"\\n", "é".as_bytes()] {
                    let mut lit = vec![b'"'];
                    lit.extend_from_slice(pre);
                    lit.extend_from_slice(&[l, b as u8]);
                    lit.extend_from_slice(&tail);
                    lit.push(b'"');
                    let r = justjson::parser::Parser::validate_json_bytes(&lit);
                    ensure(r.is_ok() == want, || format!("{lit:?}: {r:?}, but well-formed: {want}"))?;
                    #[cfg(feature = "full")]
                    match Value::from_json_bytes(&lit) {
                        Ok(Value::String(x)) => {
                            ensure(want, || format!("{lit:?} is accepted as a value"))?;
                            let s: String = x.decoded().collect();
                            assert_utf8(&s);
                            let wantt = std::str::from_utf8(&lit[1 + pre.len()..lit.len() - 1]).expect("vector: UTF-8");
                            ensure(s.ends_with(wantt), || format!("{lit:?} decodes to {s:?}"))?;
                        }
                        Ok(v) => return Err(format!("{lit:?}: {v:?}")),
                        Err(e) => ensure(!want, || format!("{lit:?} is refused: {:?}", nerr(&e)))?,
                    }
                }
            }
        }
        Ok(())
    });
}
