//! Recording behaviours of the library for validation against the
//! specification.
use crate::gen::{self, Rng};
use crate::json::{self, J};
use crate::obs::*;
use crate::{guard, PROGRESS};
use justjson::parser::{ParseConfig, Parser};
use std::io::{Seek, SeekFrom, Write};
use std::sync::atomic::Ordering;

pub fn run(suite: &str, seed: u64, count: usize, out: &str, progress: Option<&str>) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).expect("out"));
    let mut p = progress.map(|p| std::fs::File::create(p).expect("progress"));
    let mut r = Rng::new(seed);
    let corpus = corpus();
    for i in 0..count {
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        let mut before = |v: &J| {
            if let Some(p) = &mut p {
                let t = v.text();
                let _ = p.seek(SeekFrom::Start(0));
                let _ = p.set_len(0);
                let _ = p.write_all(t.as_bytes());
            }
        };
        let line = match suite {
            "text" => text_trace(&mut r, i, &corpus, &mut before),
            #[cfg(feature = "full")]
            "str" => str_trace(&mut r, i, &mut before),
            #[cfg(feature = "full")]
            "scalars" => scalar_trace(&mut r, i, seed, &mut before),
            "num" => num_trace(&mut r, i, &mut before),
            "tok" => tok_trace(&mut r, i, &corpus, &mut before),
            #[cfg(feature = "full")]
            "write" => write_trace(&mut r, i, &mut before),
            #[cfg(feature = "full")]
            "obj" => obj_trace(&mut r, i, &mut before),
            #[cfg(feature = "full")]
            "doc" => doc_trace(&mut r, i, &corpus, &mut before),
            _ => {
                eprintln!("TOOL unknown suite {suite}");
                std::process::exit(4);
            }
        };
        writeln!(f, "{}", line.text()).expect("write");
    }
    f.flush().expect("flush");
    println!("DONE {}", json::obj(vec![("recorded", J::Int(count as i64))]).text());
}

/// the repository's own test inputs, small ones
fn corpus() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for d in ["/repo/tests/JSONTestSuite/test_parsing", "/repo/tests/JSONTestSuite/test_transform", "/repo/tests/jsonorg", "/repo/tests/roundtrip"] {
        if let Ok(rd) = std::fs::read_dir(d) {
            let mut names: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
            names.sort();
            for n in names {
                if let Ok(b) = std::fs::read(&n) {
                    if b.len() <= 160 {
                        v.push(b);
                    }
                }
            }
        }
    }
    v
}

fn cfg_json(tc: bool, lim: i64, roots: bool) -> J {
    J::Arr(vec![J::Bool(tc), J::Int(lim), J::Bool(roots)])
}

pub fn input(r: &mut Rng, i: usize, corpus: &[Vec<u8>], tc: bool) -> Vec<u8> {
    let mut v = vec![];
    let large = r.roll();
    match i % 8 {
        0 if !corpus.is_empty() => {
            v = r.pick(corpus).clone();
            if r.chance(1, 3) {
                gen::mutate(r, &mut v);
            }
        }
        1 => {
            // one string
            gen::ws(r, &mut v);
            v.push(b'"');
            let n = r.count(&[0, 1, 2, 3, 4, 5, 6], &[16, 33, 64, 130]);
            gen::body(r, n, &mut v);
            v.push(b'"');
            if r.chance(1, 3) {
                gen::mutate(r, &mut v);
            }
        }
        2 => {
            gen::number(r, &mut v);
            if r.chance(1, 2) {
                gen::mutate(r, &mut v);
            }
        }
        3 | 4 | 5 => gen::value(r, 3, tc, &mut v),
        _ => {
            gen::value(r, 3, tc, &mut v);
            gen::mutate(r, &mut v);
        }
    }
    v.truncate(if large { 900 } else { 220 });
    v
}

fn text_trace(r: &mut Rng, i: usize, corpus: &[Vec<u8>], before: &mut dyn FnMut(&J)) -> J {
    let tc = r.chance(1, 3);
    let lim: i64 = *r.pick(&[128, 128, 128, -1, 0, 1, 2, 3]);
    let roots = r.chance(2, 3);
    let (tc, lim, roots) = if r.chance(1, 2) { (false, 128, true) } else { (tc, lim, roots) };
    let deep = i % 64 == 7;
    let v = if deep { deep_input(r) } else { input(r, i, corpus, tc) };
    let c = cfg_json(tc, lim, roots);
    let head = json::obj(vec![("c", c.clone()), ("in", json::bytes(&v))]);
    before(&head);
    let cfg = config(&c);
    let run = guard(|| {
        // alternate between the two UTF-8 policies where both apply
        let st = std::str::from_utf8(&v).ok().filter(|_| i % 2 == 0);
        match st {
            Some(s) => {
                let (ev, res) = rec_str(s, &How::Config(&cfg), None);
                (ev, res, Parser::validate_json_with_config(s, cfg).map(|k| format!("{k:?}")).map_err(|e| nerr(&e)), true)
            }
            None => {
                let (ev, res) = rec_bytes(&v, &How::Config(&cfg), None);
                (ev, res, Parser::validate_json_bytes_with_config(&v, cfg).map(|k| format!("{k:?}")).map_err(|e| nerr(&e)), false)
            }
        }
    });
    let mut o = vec![("c".to_string(), c), ("in".to_string(), json::bytes(&v))];
    match run {
        Ok((ev, res, kind, is_str)) => {
            o.push(("s".into(), J::Bool(is_str)));
            o.push(("ev".into(), events_json(&ev)));
            o.push(("r".into(), res_json(&res)));
            o.push((
                "vk".into(),
                match &kind {
                    Ok(k) => J::Arr(vec![json::s("ok"), json::s(k)]),
                    Err(e) => J::Arr(vec![json::s("err"), json::s(&e.kind), J::Int(e.byte), json::i(e.off)]),
                },
            ));
            let (tree, nodes) = trees(&v, &cfg);
            o.push(("tree".into(), tree));
            o.push(("nodes".into(), nodes));
        }
        Err(p) => {
            o.push(("s".into(), J::Bool(false)));
            o.push(("ev".into(), J::Arr(vec![])));
            o.push(("r".into(), J::Arr(vec![json::s("panic"), json::s(&p), J::Int(-1), J::Int(0)])));
            o.push(("vk".into(), J::Arr(vec![json::s("panic"), json::s(&p)])));
            o.push(("tree".into(), J::Arr(vec![])));
            o.push(("nodes".into(), J::Arr(vec![])));
        }
    }
    J::Obj(o)
}

fn res_json(r: &Result<(), NErr>) -> J {
    match r {
        Ok(()) => J::Arr(vec![json::s("ok"), json::s(""), J::Int(-1), J::Int(0)]),
        Err(e) => J::Arr(vec![json::s("err"), json::s(&e.kind), J::Int(e.byte), json::i(e.off)]),
    }
}

#[cfg(feature = "full")]
fn trees(v: &[u8], cfg: &ParseConfig) -> (J, J) {
    use justjson::doc::Document;
    use justjson::Value;
    guard(|| {
        let t = match Value::from_json_bytes_with_config(v, *cfg) {
            Ok(x) => {
                // in document order: TLC's JSON reader has a nesting limit
                let mut flat = vec![];
                flatten(&tree(&x, v), &mut flat);
                J::Arr(flat.iter().map(N::json).collect())
            }
            Err(_) => J::Arr(vec![]),
        };
        let n = match Document::from_json_bytes_with_config(v, *cfg) {
            Ok(d) => J::Arr(nodes(&d, v).iter().map(N::json).collect()),
            Err(_) => J::Arr(vec![]),
        };
        (t, n)
    })
    .unwrap_or_else(|_| (J::Arr(vec![J::Arr(vec![json::s("panic")])]), J::Arr(vec![J::Arr(vec![json::s("panic")])])))
}
/// without allocation there are no values; the fixed-capacity document is both
#[cfg(not(feature = "full"))]
fn trees(v: &[u8], cfg: &ParseConfig) -> (J, J) {
    use justjson::doc::HeaplessDocument;
    let n = guard(|| match HeaplessDocument::<1024>::from_json_bytes_with_config(v, *cfg) {
        Ok(d) => J::Arr(nodes(&d, v).iter().map(N::json).collect()),
        Err(_) => J::Arr(vec![]),
    })
    .unwrap_or_else(|_| J::Arr(vec![J::Arr(vec![json::s("panic")])]));
    (n.clone(), n)
}

/// around the default limit
fn deep_input(r: &mut Rng) -> Vec<u8> {
    let n = 120 + r.below(14);
    let mut v = vec![];
    let mut close = vec![];
    for k in 0..n {
        if r.chance(1, 2) {
            v.push(b'[');
            if r.chance(1, 12) {
                v.extend_from_slice(b"[],");
            }
            close.push(b']');
        } else {
            v.extend_from_slice(b"{\"\":");
            close.push(b'}');
        }
        if k + 1 == n {
            v.push(b'1');
        }
    }
    while let Some(b) = close.pop() {
        v.push(b);
    }
    v
}

/// how a string of the recording came to be
#[cfg(feature = "full")]
struct Made {
    desc: J,
    s: justjson::JsonString<'static>,
    text: String,
    borrowed: bool,
}

/// a text spelled as a literal body
pub fn spell(r: &mut Rng, t: &str) -> Vec<u8> {
    let style = r.below(4);
    let mut out = vec![];
    for c in t.chars() {
        let raw_ok = c >= ' ' && c != '"' && c != '\\';
        let esc = match style {
            0 => !raw_ok,
            1 => true,
            _ => !raw_ok || r.chance(1, 3),
        };
        if !esc {
            let mut b = [0; 4];
            out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
            continue;
        }
        let short = match c {
            '"' | '\\' | '/' => Some(c as u8),
            '\n' => Some(b'n'),
            '\r' => Some(b'r'),
            '\t' => Some(b't'),
            '\x0c' => Some(b'f'),
            _ => None,
        };
        match short {
            Some(x) if r.chance(2, 3) => out.extend_from_slice(&[b'\\', x]),
            _ => {
                for u in c.encode_utf16(&mut [0; 2]) {
                    let h = if r.chance(1, 2) { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") };
                    out.extend_from_slice(h.as_bytes());
                }
            }
        }
    }
    out
}

#[cfg(feature = "full")]
fn make(r: &mut Rng, t: &str) -> Made {
    use crate::strings::intern;
    use justjson::{JsonString, Value};
    let mk_raw = |s: JsonString<'static>, borrowed| Made {
        desc: json::obj(vec![("r", json::s("raw")), ("t", json::cps(t)), ("b", J::Arr(vec![]))]),
        s,
        text: t.to_string(),
        borrowed,
    };
    let k = r.below(6);
    match k {
        0 => return mk_raw(JsonString::from(intern(t)), true),
        1 => return mk_raw(JsonString::from(t.to_string()), false),
        _ => {}
    }
    let b = spell(r, t);
    let lit = intern(&format!("\"{}\"", String::from_utf8_lossy(&b)));
    let s = match k {
        2 | 3 => JsonString::from_json(lit).ok(),
        4 => match Value::from_json_bytes(lit.as_bytes()) {
            Ok(Value::String(s)) => Some(s),
            _ => None,
        },
        _ => match Value::from_json_bytes(intern(&format!("[1,{{{lit} : 0}}]")).as_bytes()) {
            Ok(Value::Array(mut a)) => match a.pop() {
                Some(Value::Object(mut o)) => o.pop().map(|e| e.key),
                _ => None,
            },
            _ => None,
        },
    };
    match s {
        Some(s) => Made {
            desc: json::obj(vec![("r", json::s("json")), ("t", J::Arr(vec![])), ("b", json::bytes(&b))]),
            s,
            text: t.to_string(),
            borrowed: true,
        },
        // refused: another property's business
        None => mk_raw(JsonString::from(t.to_string()), false),
    }
}

#[cfg(feature = "full")]
fn str_trace(r: &mut Rng, i: usize, before: &mut dyn FnMut(&J)) -> J {
    r.roll();
    let n = r.count(&[0, 1, 1, 2, 2, 3, 3, 4, 6, 9, 14, 30], &[31, 32, 60, 130]);
    let mut t: Vec<char> = (0..n).map(|_| gen::scalar(r)).collect();
    if r.chance(1, 3) {
        for c in &mut t {
            if r.chance(2, 3) {
                *c = *r.pick(&['a', 'b', '\n', 'é', 'u', '\\', '0']);
            }
        }
    }
    // a near relative
    let mut u = t.clone();
    match i % 5 {
        0 => {
            u = (0..r.below(4)).map(|_| gen::scalar(r)).collect();
        }
        1 => {}
        2 => {
            if r.chance(1, 2) {
                u.push(gen::scalar(r));
            } else {
                u.pop();
            }
        }
        _ => {
            if !u.is_empty() {
                let k = r.below(u.len());
                let c = u[k] as u32;
                u[k] = match r.below(4) {
                    0 => char::from_u32(c + 1).unwrap_or('z'),
                    1 => char::from_u32(c.wrapping_sub(1)).unwrap_or('y'),
                    2 => char::from_u32(c ^ 0x10000).unwrap_or('x'),
                    _ => gen::scalar(r),
                };
            }
        }
    }
    let (t, u): (String, String) = (t.into_iter().collect(), u.into_iter().collect());
    str_record(r, &t, &u, before)
}

/// every scalar value: 64 of them per recording; recording `i` of seed `s` is block s*n+i
#[cfg(feature = "full")]
fn scalar_trace(r: &mut Rng, i: usize, seed: u64, before: &mut dyn FnMut(&J)) -> J {
    // the blocks of one shard are consecutive; the last three digits of the seed are the shard
    let block = (seed % 1000) as u32 * 2200 + i as u32;
    let t: String = (0..64).filter_map(|k| char::from_u32((block * 64 + k) % 0x110000)).collect();
    str_record(r, &t, &t, before)
}

#[cfg(feature = "full")]
fn str_record(r: &mut Rng, t: &str, u: &str, before: &mut dyn FnMut(&J)) -> J {
    use crate::strings::stream;
    use justjson::{AnyStr, Object, Value};
    use std::cmp::Ordering;
    before(&json::obj(vec![("t", json::s(t)), ("u", json::s(u))]));
    let (a, b) = match guard(|| (make(r, t), make(r, u))) {
        Ok(x) => x,
        Err(p) => return json::obj(vec![("panic", json::s(&p))]),
    };
    let o = |c: Ordering| J::Int(c as i64);
    let sip = |x: &justjson::JsonString<'_>| {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        x.hash(&mut h);
        h.finish()
    };
    let obs = guard(|| {
        let (x, y) = (&a.s, &b.s);
        let js: String = x.as_json().collect();
        let q = format!("\"{js}\"");
        let forms = format!("{}", x.as_json()) == js
            && x.escape_if_needed().as_str() == js
            && Value::String(x.clone()).to_json() == q
            && Value::Object(Object::from_iter([(x.clone(), Value::Null)])).to_json() == format!("{{{q}:null}}")
            && format!("{:#}", Value::Array(vec![Value::String(x.clone())])) == format!("[\n  {q}\n]");
        let mut hints = vec![];
        for dec in [true, false] {
            let mut left = if dec { x.decoded().count() } else { x.as_json().count() };
            let mut d = x.decoded();
            let mut e = x.as_json();
            let mut steps = 0;
            loop {
                let (lo, hi) = if dec { d.size_hint() } else { e.size_hint() };
                if steps < 4 || left < 2 {
                    hints.push(J::Arr(vec![json::i(lo), hi.map_or(J::Int(-1), json::i), json::i(left)]));
                }
                steps += 1;
                let more = if dec { d.next().is_some() } else { e.next().is_some() };
                if !more || left == 0 {
                    break;
                }
                left -= 1;
            }
        }
        let (p, w) = (if r_bool(&a) { AnyStr::from(a.text.as_str()) } else { AnyStr::from(a.text.clone()) }, AnyStr::from(b.text.clone()));
        let any = J::Arr(vec![
            J::Bool(p == w),
            J::Bool(w == p),
            o(p.partial_cmp(&w).unwrap_or(Ordering::Equal)),
            o(w.partial_cmp(&p).unwrap_or(Ordering::Equal)),
            J::Bool(p == b.text.as_str()),
            o(p.partial_cmp(b.text.as_str()).unwrap_or(Ordering::Equal)),
            J::Bool(p.as_str() == a.text && stream(&p).bytes == stream(a.text.as_str()).bytes),
        ]);
        let shown = format!("{x}");
        let dec = x.decode_if_needed();
        vec![
            ("eq", J::Arr(vec![J::Bool(x == y), J::Bool(y == x), J::Bool(*x == b.text.as_str()), J::Bool(x != y)])),
            (
                "cmp",
                J::Arr(vec![
                    o(x.cmp(y)),
                    o(y.cmp(x)),
                    o(x.partial_cmp(b.text.as_str()).unwrap_or(Ordering::Equal)),
                    o(x.partial_cmp(y).unwrap_or(Ordering::Equal)),
                ]),
            ),
            ("ha", json::bytes(&stream(x).bytes)),
            ("hb", json::bytes(&stream(y).bytes)),
            ("hp", json::bytes(&stream(a.text.as_str()).bytes)),
            ("sip", J::Bool(sip(x) == sip(y))),
            ("dec", J::Arr(x.decoded().map(|c| J::Int(i64::from(c as u32))).collect())),
            ("show", json::cps(&shown)),
            ("owned", json::cps(dec.as_str())),
            ("json", json::bytes(js.as_bytes())),
            ("forms", J::Bool(forms)),
            ("len", json::i(x.len())),
            ("dlen", json::i(x.decoded_len())),
            ("empty", J::Bool(x.is_empty())),
            (
                "direct",
                match x.as_str() {
                    None => J::Arr(vec![json::s("none")]),
                    Some(s) => J::Arr(vec![json::s("some"), json::cps(s)]),
                },
            ),
            ("jstr", J::Bool(x.as_json_str().map_or(false, |s| s.as_str() == js))),
            ("decb", J::Bool(matches!(dec, AnyStr::Borrowed(_)))),
            ("escb", J::Bool(matches!(x.escape_if_needed(), AnyStr::Borrowed(_)))),
            ("hints", J::Arr(hints)),
            ("any", any),
        ]
    });
    match obs {
        Ok(v) => {
            let mut l = vec![("a", a.desc.clone()), ("b", b.desc.clone())];
            l.extend(v);
            json::obj(l)
        }
        Err(p) => json::obj(vec![("a", a.desc.clone()), ("b", b.desc.clone()), ("panic", json::s(&p))]),
    }
}

#[cfg(feature = "full")]
fn r_bool(m: &Made) -> bool {
    m.borrowed
}

/// calls of a tokenizer in a random order
fn tok_trace(r: &mut Rng, i: usize, corpus: &[Vec<u8>], before: &mut dyn FnMut(&J)) -> J {
    use crate::cursor::{call, class, Got};
    use justjson::parser::Tokenizer;
    let v = input(r, i, corpus, true);
    let ops: Vec<&'static str> = (0..2 + r.below(24)).map(|_| *r.pick(&["p", "n", "n", "e"])).collect();
    let head = json::obj(vec![("in", json::bytes(&v)), ("h", J::Arr(ops.iter().map(|o| json::s(o)).collect()))]);
    before(&head);
    fn run<const U: bool>(mut t: Tokenizer<'_, U>, ops: &[&str], v: &[u8]) -> J {
        let mut h = vec![];
        for o in ops {
            let g = match call(&mut t, o) {
                Got::Peek(k) => J::Arr(vec![json::s("peek"), json::s(&k)]),
                Got::None => J::Arr(vec![json::s("none")]),
                Got::Err(e) => J::Arr(vec![json::s("err"), json::s(&e.kind), J::Int(e.byte), json::i(e.off)]),
                Got::Tok(k) => {
                    let p = |l: &Lit, d: usize| l.pos.map_or((J::Int(-1), J::Int(-1)), |(a, b)| (json::i(a.wrapping_sub(d)), json::i(b + d)));
                    let mut x = vec![json::s("tok"), json::s(class(&k))];
                    match &k {
                        justjson::parser::Token::Number(n) => {
                            let (a, b) = p(&lit(n.source(), v), 0);
                            x.extend([a, b]);
                        }
                        justjson::parser::Token::String(s) => {
                            let l = slit(s, v);
                            let (a, b) = p(&l.lit, 1);
                            x.extend([a, b, J::Arr(l.cps.iter().map(|c| J::Int(i64::from(*c))).collect())]);
                        }
                        _ => {}
                    }
                    J::Arr(x)
                }
            };
            h.push(J::Arr(vec![json::s(o), g, json::i(t.offset())]));
        }
        J::Arr(h)
    }
    let h = guard(|| match std::str::from_utf8(&v).ok().filter(|_| i % 2 == 0) {
        Some(s) => run(Tokenizer::for_json(s), &ops, &v),
        None => run(Tokenizer::for_json_bytes(&v), &ops, &v),
    });
    match h {
        Ok(h) => json::obj(vec![("in", json::bytes(&v)), ("h", h)]),
        Err(p) => json::obj(vec![("in", json::bytes(&v)), ("h", J::Arr(vec![])), ("panic", json::s(&p))]),
    }
}

/// a number literal: near a bound of some type, around a float boundary, odd
fn num_trace(r: &mut Rng, i: usize, before: &mut dyn FnMut(&J)) -> J {
    let mut v: Vec<u8> = vec![];
    if r.chance(1, 3) {
        v.push(b'-');
    }
    let near = |r: &mut Rng| -> String {
        let bits = *r.pick(&[7u32, 8, 15, 16, 31, 32, 63, 64, 127]);
        let base: u128 = 1u128 << bits;
        let d = *r.pick(&[0u128, 1, 2, 3, 5, 9, 10, 17]);
        (if r.chance(1, 2) { base + d } else { base - d.min(base) }).to_string()
    };
    match i % 8 {
        0 => v.extend_from_slice(near(r).as_bytes()),
        1 => {
            // one digit of a bound changed, added or removed
            let mut d = if r.chance(1, 3) { u128::MAX.to_string().into_bytes() } else { near(r).into_bytes() };
            let k = r.below(d.len());
            match r.below(4) {
                0 => d.insert(k, b'0' + r.below(10) as u8),
                1 if d.len() > 1 => {
                    d.remove(k);
                }
                _ => d[k] = b'0' + r.below(10) as u8,
            }
            while d.len() > 1 && d[0] == b'0' {
                d.remove(0);
            }
            v.extend_from_slice(&d);
        }
        2 => {
            // a random double, written in one of the usual ways
            let f = f64::from_bits(r.next() & 0x7fff_ffff_ffff_ffff);
            let f = if f.is_finite() { f } else { 1.5 };
            v.extend_from_slice(if f.abs() > 1e60 || f.abs() < 1e-60 || r.chance(1, 2) { format!("{f:e}") } else { format!("{f}") }.as_bytes());
        }
        3 => {
            // halfway between two doubles (or floats), sometimes just off it
            let m = (1u64 << 53) | (r.next() >> 11);
            let (m, sh) = if r.chance(1, 2) { (m, 0) } else { (m >> 29, 29) };
            let half = (u128::from(m) * 2 + 1) << (r.below(40) + sh);
            let mut d = half.to_string();
            match r.below(3) {
                0 => d.push_str(".0000000000000000000000000000001"),
                1 => d = format!("{}.99999999999999999999999", half - 1),
                _ => {}
            }
            v.extend_from_slice(d.as_bytes());
            if r.chance(1, 3) {
                v.extend_from_slice(b"e0");
            }
        }
        4 => {
            // small numbers with many zeros
            let z = r.below(50);
            v.extend_from_slice(b"0.");
            v.extend(std::iter::repeat(b'0').take(z));
            let n = 1 + r.below(25);
            gen::digits(r, n, &mut v);
        }
        5 => {
            // near the ends of the ranges
            let e = *r.pick(&[308i64, 309, 307, 38, 39, 37, -323, -324, -325, -308, -307, -45, -46, -44, -38, -37, 400, -400, 0]);
            let n = *r.pick(&[1usize, 2, 5, 17, 19, 30]);
            v.push(b'1' + r.below(9) as u8);
            v.push(b'.');
            gen::digits(r, n, &mut v);
            v.push(*r.pick(b"eE"));
            if e >= 0 && r.chance(1, 2) {
                v.push(b'+');
            }
            v.extend_from_slice(e.to_string().as_bytes());
        }
        6 => {
            // special points
            let d = *r.pick(&[
                "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "1.797693134862315807e308", "1.797693134862315808e308",
                "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "2.470328229206232720e-324", "2.470328229206232721e-324",
                "2.2250738585072011e-308", "2.2250738585072012e-308", "2.2250738585072014e-308", "3.4028234663852886e38", "3.4028235677973366e38",
                "3.4028235677973365e38", "3.40282356779733661637539395458142568447e38", "3.40282356779733661637539395458142568448e38",
                "1.401298464324817e-45", "7.006492321624085e-46", "7.006492321624086e-46", "1.1754943508222875e-38", "1.1754942106924411e-38",
                "0", "0.0", "0e0", "0E+10", "0.000e-999", "9007199254740993", "9007199254740992.5", "9007199254740993.00000000000000000001",
                "16777217", "16777217.0000001", "16777219", "33554434.5", "123456789012345678901234567890", "0.1", "0.2", "0.3", "1e23", "8.5e22", "1e22",
                "1e400", "1e-400", "1E+0000000000000000000000000000001", "10000000000000000000000e-22", "5e-324", "3e-324", "2e-324", "1.0", "1.5", "0.5e1", "1e0",
            ]);
            v.extend_from_slice(d.as_bytes());
        }
        _ => {
            let mut w = vec![];
            gen::number(r, &mut w);
            v.extend_from_slice(w.strip_prefix(b"-").unwrap_or(&w));
        }
    }
    before(&json::bytes(&v));
    let lit = String::from_utf8(v).expect("TOOL: ASCII");
    match guard(|| crate::numbers::trace(&lit)) {
        Ok(j) => j,
        Err(p) => json::obj(vec![("in", json::bytes(lit.as_bytes())), ("places", J::Int(0)), ("obs", J::Arr(vec![])), ("panic", json::s(&p))]),
    }
}

/// operations of cursors over a document in a random order
#[cfg(feature = "full")]
fn doc_trace(r: &mut Rng, i: usize, corpus: &[Vec<u8>], before: &mut dyn FnMut(&J)) -> J {
    use justjson::doc::Document;
    let tc = r.chance(1, 4);
    let c = cfg_json(tc, if r.chance(1, 2) { 128 } else { -1 }, true);
    let cfg = config(&c);
    let mut v = vec![];
    for t in 0..20 {
        v.clear();
        if t == 19 {
            v.extend_from_slice(b"[[], {\"a\": 1}]");
        } else if r.chance(1, 4) && !corpus.is_empty() {
            v = r.pick(corpus).clone();
        } else {
            gen::value(r, 4, tc, &mut v);
        }
        if v.len() <= 260 && guard(|| Document::from_json_bytes_with_config(&v, cfg).is_ok()).unwrap_or(false) && (t > 8 || v.len() > 8) {
            break;
        }
    }
    let head = json::obj(vec![("c", c.clone()), ("in", json::bytes(&v))]);
    before(&head);
    let h = guard(|| {
        let d = match std::str::from_utf8(&v).ok().filter(|_| i % 2 == 0) {
            Some(s) => Document::from_json_with_config(s, cfg),
            None => Document::from_json_bytes_with_config(&v, cfg),
        };
        let d = match d {
            Ok(d) => d,
            Err(_) => return None,
        };
        let mut cur = vec![d.iter()];
        let mut h = vec![];
        for _ in 0..2 + r.below(20) {
            let k = r.below(cur.len());
            let (op, res) = match r.below(8) {
                0 | 1 | 2 | 3 => ("next", J::Arr(cur[k].next().map(|n| node(&n, &v).json()).map_or(vec![], |j| j.arr().to_vec()))),
                4 | 5 => {
                    let mut flat = vec![];
                    if let Some(x) = cur[k].next_value() {
                        flatten(&tree(&x, &v), &mut flat);
                    }
                    ("value", J::Arr(flat.iter().map(N::json).collect()))
                }
                6 if cur.len() < 4 => {
                    let n = cur[k].clone();
                    cur.push(n);
                    ("clone", J::Arr(vec![]))
                }
                _ => {
                    cur[k].skip_next_value();
                    ("skip", J::Arr(vec![]))
                }
            };
            h.push(J::Arr(vec![json::i(k + 1), json::s(op), json::i(cur[k].clone().count()), res]));
        }
        Some(J::Arr(h))
    });
    match h {
        Ok(Some(h)) => json::obj(vec![("c", c), ("in", json::bytes(&v)), ("h", h)]),
        Ok(None) => json::obj(vec![("c", c), ("in", json::bytes(b"0")), ("h", J::Arr(vec![])), ("refused", json::bytes(&v))]),
        Err(p) => json::obj(vec![("c", c), ("in", json::bytes(&v)), ("h", J::Arr(vec![])), ("panic", json::s(&p))]),
    }
}

/// a value: read from a text, built through the API, or both
#[cfg(feature = "full")]
pub fn any_value(r: &mut Rng, depth: usize) -> justjson::Value<'static> {
    use crate::strings::intern;
    use justjson::{Entry, JsonNumber, JsonString, Object, Value};
    let s = |r: &mut Rng| -> JsonString<'static> {
        let t: String = (0..r.count(&[0, 1, 1, 2, 3, 6], &[16, 33, 65])).map(|_| gen::scalar(r)).collect();
        let raw = |r: &mut Rng, t: &str| if r.chance(1, 2) { JsonString::from(intern(t)) } else { JsonString::from(t.to_string()) };
        if r.chance(1, 2) {
            return raw(r, &t);
        }
        let b = spell(r, &t);
        JsonString::from_json(intern(&format!("\"{}\"", String::from_utf8_lossy(&b)))).unwrap_or_else(|_| raw(r, &t))
    };
    match if depth == 0 { r.below(6) } else { r.below(11) } {
        0 => Value::Null,
        1 => Value::Boolean(r.chance(1, 2)),
        2 | 3 => {
            let mut v = vec![];
            gen::number(r, &mut v);
            JsonNumber::from_json(intern(&String::from_utf8_lossy(&v))).map_or(Value::Null, Value::Number)
        }
        4 | 5 => Value::String(s(r)),
        6 => {
            let mut v = vec![];
            gen::value(r, depth, false, &mut v);
            match std::str::from_utf8(&v).ok().and_then(|t| Value::from_json(intern(t)).ok()) {
                Some(v) => v,
                None => Value::Array(vec![]),
            }
        }
        7 | 8 => {
            let n = r.count(&[0, 1, 1, 2, 3, 4], &[9, 17, 33]);
            Value::Array((0..n).map(|_| any_value(r, depth - 1)).collect())
        }
        _ => {
            let n = r.count(&[0, 1, 1, 2, 3], &[9, 17, 33]);
            let mut o = Object::new();
            for _ in 0..n {
                let key = s(r);
                let value = any_value(r, depth - 1);
                o.push(Entry { key, value });
            }
            Value::Object(o)
        }
    }
}

/// the value as a list of nodes of the specification
#[cfg(feature = "full")]
pub fn spec_nodes(v: &justjson::Value<'_>, out: &mut Vec<J>) {
    use justjson::{JsonString, Value};
    let st = |s: &JsonString<'_>| {
        let x = match s.as_json_str() {
            Some(b) => J::Arr(vec![json::s("j"), json::bytes(b.as_str().as_bytes())]),
            None => J::Arr(vec![json::s("r"), J::Arr(s.decoded().map(|c| J::Int(i64::from(c as u32))).collect())]),
        };
        J::Arr(vec![json::s("str"), x])
    };
    match v {
        Value::Null => out.push(J::Arr(vec![json::s("null")])),
        Value::Boolean(b) => out.push(J::Arr(vec![json::s("bool"), J::Bool(*b)])),
        Value::Number(n) => out.push(J::Arr(vec![json::s("num"), json::bytes(n.source().as_bytes())])),
        Value::String(s) => out.push(st(s)),
        Value::Array(a) => {
            out.push(J::Arr(vec![json::s("arr"), json::i(a.len())]));
            a.iter().for_each(|x| spec_nodes(x, out));
        }
        Value::Object(o) => {
            out.push(J::Arr(vec![json::s("obj"), json::i(o.len())]));
            for e in o.iter() {
                out.push(st(&e.key));
                spec_nodes(&e.value, out);
            }
        }
    }
}

#[cfg(feature = "full")]
fn write_trace(r: &mut Rng, i: usize, before: &mut dyn FnMut(&J)) -> J {
    use crate::values::{write_to, written, Form, Refusal, Sink};
    use justjson::Value;
    let made = guard(|| {
        r.roll();
        let mut v = any_value(r, 3);
        if i % 16 == 3 {
            // deep indentation
            for k in 0..10 + r.below(40) {
                let x = any_value(r, 0);
                v = if k % 2 == 0 || r.chance(1, 3) {
                    Value::Array(if r.chance(1, 4) { vec![x, v] } else { vec![v] })
                } else {
                    Value::Object([(justjson::JsonString::from("k"), v)].into_iter().collect())
                };
            }
        }
        v
    });
    let v = match made {
        Ok(v) => v,
        Err(_) => Value::Null,
    };
    let (p, ind, nl): (bool, &str, &str) = match r.below(8) {
        0 | 1 | 2 => (false, "", ""),
        3 => (true, "  ", "\n"),
        4 => (true, "\t", "\r\n"),
        5 => (true, *r.pick(&["", " ", "    ", "\t ", "\n"]), *r.pick(&["\n", "\r\n", "", " ", "\r"])),
        6 => (true, *r.pick(&["", "  "]), *r.pick(&["\n", "\n\n"])),
        _ => (true, *r.pick(&["é", "--", "\u{2028}", "\"", "{}"]), *r.pick(&["\n", "// \n", "ß"])),
    };
    let m = J::Arr(vec![J::Bool(p), json::bytes(ind.as_bytes()), json::bytes(nl.as_bytes())]);
    let obs = guard(|| {
        let mut n = vec![];
        spec_nodes(&v, &mut n);
        let head = json::obj(vec![("n", J::Arr(n.clone())), ("m", m.clone())]);
        before(&head);
        let outs = written(&v, &m);
        let same = outs.iter().all(|o| o.1 == outs[0].1);
        let out = outs[0].1.clone();
        let mut sinks = vec![];
        for k in 0..6 {
            let f = match (p, k % 2) {
                (false, 0) => Form::Compact,
                (false, _) => Form::Display,
                (true, 0) if ind == "  " && nl == "\n" => Form::Alternate,
                _ => Form::Custom(ind, nl),
            };
            let how = match r.below(5) {
                0 => Refusal::From(r.below(1 + out.len() / 2)),
                1 => Refusal::Only(r.below(1 + out.len() / 3)),
                2 => Refusal::Capacity(r.below(out.len() + 2)),
                3 => Refusal::Partial(r.below(out.len() + 2)),
                _ => Refusal::Never,
            };
            let mut s = Sink::new(how);
            let e = write_to(&v, &f, &mut s).is_err();
            sinks.push(J::Arr(vec![J::Bool(s.refused), J::Bool(e), json::i(s.after), json::bytes(s.got.as_bytes())]));
        }
        vec![
            ("n", J::Arr(n)),
            ("m", m.clone()),
            ("out", json::bytes(out.as_bytes())),
            ("same", J::Bool(same)),
            ("sinks", J::Arr(sinks)),
        ]
    });
    match obs {
        Ok(o) => json::obj(o),
        Err(p) => json::obj(vec![("panic", json::s(&p))]),
    }
}

/// a value as a tree of the specification
#[cfg(feature = "full")]
fn spec_tree(v: &justjson::Value<'_>) -> J {
    use justjson::Value;
    match v {
        Value::Null => J::Arr(vec![json::s("null")]),
        Value::Boolean(b) => J::Arr(vec![json::s("bool"), J::Bool(*b)]),
        Value::Number(n) => J::Arr(vec![json::s("num"), json::bytes(n.source().as_bytes())]),
        Value::String(s) => J::Arr(vec![json::s("str"), spec_str(s)]),
        Value::Array(a) => J::Arr(vec![json::s("arr"), J::Arr(a.iter().map(spec_tree).collect())]),
        Value::Object(o) => {
            J::Arr(vec![json::s("obj"), J::Arr(o.iter().map(|e| J::Arr(vec![spec_str(&e.key), spec_tree(&e.value)])).collect())])
        }
    }
}
#[cfg(feature = "full")]
fn spec_str(s: &justjson::JsonString<'_>) -> J {
    match s.as_json_str() {
        Some(b) => J::Arr(vec![json::s("j"), json::bytes(b.as_str().as_bytes())]),
        None => J::Arr(vec![json::s("r"), J::Arr(s.decoded().map(|c| J::Int(i64::from(c as u32))).collect())]),
    }
}

/// a small value whose objects have colliding keys
#[cfg(feature = "full")]
fn edited_value(r: &mut Rng, depth: usize) -> justjson::Value<'static> {
    use crate::strings::intern;
    use justjson::{Entry, JsonNumber, JsonString, Object, Value};
    match if depth == 0 { r.below(5) } else { r.below(10) } {
        0 => Value::Null,
        1 => Value::from(r.chance(1, 2)),
        2 => JsonNumber::from_json(intern(*r.pick(&["0", "-1.5e3", "7"]))).map_or(Value::Null, Value::Number),
        3 => Value::from(*r.pick(&["", "a", "\n"])),
        4 => JsonString::from_json(*r.pick(&[r#""\n""#, r#""a""#, r#""\u0061""#])).map_or(Value::Null, Value::from),
        5 | 6 => Value::from((0..r.count(&[0, 1, 2, 3], &[9, 17, 33])).map(|_| edited_value(r, depth - 1)).collect::<Vec<_>>()),
        _ => {
            let mut o = Object::new();
            for _ in 0..r.count(&[0, 1, 2, 3, 4], &[9, 17, 33]) {
                let k = edited_key(r);
                let v = edited_value(r, depth - 1);
                o.push(Entry::new(k, v));
            }
            Value::from(o)
        }
    }
}
#[cfg(feature = "full")]
const KEY_TEXTS: [&str; 10] = ["a", "b", "", "\n", "\"", "\\", "\u{e9}", "\u{1f600}", "aa", "\\n"];
#[cfg(feature = "full")]
fn edited_key(r: &mut Rng) -> justjson::JsonString<'static> {
    use crate::strings::intern;
    use justjson::JsonString;
    let n = if r.chance(2, 3) { 3 } else { KEY_TEXTS.len() };
    let t = KEY_TEXTS[r.below(n)];
    match r.below(3) {
        0 => JsonString::from(t),
        1 => JsonString::from(t.to_string()),
        _ => {
            let b = spell(r, t);
            JsonString::from_json(intern(&format!("\"{}\"", String::from_utf8_lossy(&b)))).unwrap_or_else(|_| JsonString::from(t))
        }
    }
}

/// a history of random edits of a random value
#[cfg(feature = "full")]
fn obj_trace(r: &mut Rng, i: usize, before: &mut dyn FnMut(&J)) -> J {
    use crate::values::{clone_value, edit, find, Args, Back};
    use justjson::Value;
    let none = || J::Arr(vec![json::s("none")]);
    before(&json::i(i));
    let mut hist = vec![];
    let mut first = none();
    let res = guard(|| -> Result<(), String> {
        r.roll();
        let mut v = edited_value(r, 3);
        first = spec_tree(&v);
        for _ in 0..1 + r.below(10) {
            // a random place
            let mut path = vec![];
            let mut place = &mut v;
            while r.chance(2, 3) {
                let n = match place {
                    Value::Array(a) => a.len(),
                    Value::Object(o) => o.len(),
                    _ => 0,
                };
                if n == 0 {
                    break;
                }
                let k = r.below(n);
                let by_key = r.chance(1, 3);
                place = match place {
                    Value::Array(a) => {
                        path.push(J::Arr(vec![json::s("i"), json::i(k)]));
                        &mut a[k]
                    }
                    Value::Object(o) => {
                        if by_key {
                            // through the key, which leads to the first member that has it
                            let t: String = o[k].key.decoded().collect();
                            path.push(J::Arr(vec![json::s("k"), json::cps(&t)]));
                            if o.get(&t).is_none() {
                                return Err(format!("key {t:?} not found"));
                            }
                            o.get_mut(&t).expect("the key that get finds")
                        } else {
                            path.push(J::Arr(vec![json::s("e"), json::i(k)]));
                            &mut o[k].value
                        }
                    }
                    _ => unreachable!(),
                };
            }
            let (list, len) = match place {
                Value::Array(a) => (true, a.len()),
                Value::Object(o) => (false, o.len()),
                _ => (false, usize::MAX),
            };
            let few = if r.chance(1, 2) { 3 } else { KEY_TEXTS.len() };
            let text = KEY_TEXTS[r.below(few)];
            let name = if len == usize::MAX {
                *r.pick(&["set", "take", "setkey", "rekey"])
            } else {
                *r.pick(&["set", "take", "setkey", "setkey", "rekey", "push", "push", "insert", "remove", "pop", "swap", "clear", "truncate", "extend", "reverse"])
            };
            if len == 0 && (name == "remove" || name == "swap") {
                continue;
            }
            let (mut n, mut m) = (0, 0);
            let mut args = Args { values: vec![], members: vec![], key: None };
            let (mut a, mut b) = (none(), none());
            let added = |r: &mut Rng, args: &mut Args| -> J {
                if list {
                    let x = edited_value(r, 1);
                    let j = spec_tree(&x);
                    args.values.push(x);
                    j
                } else {
                    let (k, x) = (edited_key(r), edited_value(r, 1));
                    let j = J::Arr(vec![spec_str(&k), spec_tree(&x)]);
                    args.members.push((k, x));
                    j
                }
            };
            match name {
                "set" => {
                    let x = edited_value(r, 1);
                    a = spec_tree(&x);
                    args.values.push(x);
                }
                "setkey" => {
                    let x = edited_value(r, 1);
                    a = json::cps(text);
                    b = spec_tree(&x);
                    args.values.push(x);
                }
                "rekey" => {
                    let k = edited_key(r);
                    a = json::cps(text);
                    b = spec_str(&k);
                    args.key = Some(k);
                }
                "push" => a = added(r, &mut args),
                "insert" => {
                    n = r.below(len + 1);
                    a = json::i(n);
                    b = added(r, &mut args);
                }
                "extend" => {
                    let k = r.below(4);
                    a = J::Arr((0..k).map(|_| added(r, &mut args)).collect());
                }
                "remove" => {
                    n = r.below(len);
                    a = json::i(n);
                }
                "truncate" => {
                    n = r.below(len + 2);
                    a = json::i(n);
                }
                "swap" => {
                    n = r.below(len);
                    m = r.below(len);
                    a = json::i(n);
                    b = json::i(m);
                }
                _ => {}
            }
            let how = r.below(60);
            let back = edit(place, name, n, m, text, args, how)?;
            let found = find(place, text)?;
            crate::values::accessors(place)?;
            let ret = match &back {
                Back::Nothing => none(),
                Back::Value(x) => spec_tree(x),
                Back::Member(e) if name == "rekey" => spec_tree(&e.value),
                Back::Member(e) => J::Arr(vec![spec_str(&e.key), spec_tree(&e.value)]),
            };
            let _ = clone_value(&v);
            hist.push(J::Arr(vec![json::s(name), J::Arr(path), a, b, ret, spec_tree(&v), json::cps(text), J::Int(found)]));
        }
        Ok(())
    });
    let mut f = vec![("t", first), ("h", J::Arr(hist))];
    match res {
        Ok(Ok(())) => {}
        Ok(Err(p)) | Err(p) => f.push(("panic", json::s(&p))),
    }
    json::obj(f)
}
