//! Number conversions: "N" vectors (integers) and "F" vectors (floats).
use crate::json::{self, J};
use crate::{ensure, Ctx};
use justjson::doc::{HeaplessDocument, Node};
use justjson::parser::{Token, Tokenizer};
use justjson::JsonNumber;
#[cfg(feature = "full")]
use justjson::{doc::Document, Value};

pub const TYPES: [&str; 12] = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"];
/// the fixed-width type a type behaves as on this platform
pub fn like(t: &str) -> &str {
    match (t, usize::BITS) {
        ("usize", 64) => "u64",
        ("usize", _) => "u32",
        ("isize", 64) => "i64",
        ("isize", _) => "i32",
        _ => t,
    }
}

macro_rules! ints {
    ($n:expr) => {
        [
            $n.as_u8().map(|x| x.to_string()),
            $n.as_u16().map(|x| x.to_string()),
            $n.as_u32().map(|x| x.to_string()),
            $n.as_u64().map(|x| x.to_string()),
            $n.as_u128().map(|x| x.to_string()),
            $n.as_usize().map(|x| x.to_string()),
            $n.as_i8().map(|x| x.to_string()),
            $n.as_i16().map(|x| x.to_string()),
            $n.as_i32().map(|x| x.to_string()),
            $n.as_i64().map(|x| x.to_string()),
            $n.as_i128().map(|x| x.to_string()),
            $n.as_isize().map(|x| x.to_string()),
        ]
    };
}
macro_rules! parsed {
    ($n:expr, $($t:ty),*) => { [$($n.parse::<$t>().ok().map(|x| x.to_string())),*] };
}

/// everything a number (or a value) converts to
#[derive(Clone, PartialEq, Debug)]
pub struct Seen {
    pub src: String,
    pub ints: [Option<String>; 12],
    pub f64: Option<u64>,
    pub f32: Option<u32>,
}

pub fn of_number(src: &str, n: &JsonNumber<'_>, out: &mut Vec<Seen>) {
    out.push(Seen { src: src.into(), ints: ints!(n), f64: n.as_f64().map(f64::to_bits), f32: n.as_f32().map(f32::to_bits) });
    out.push(Seen {
        src: format!("{src}, parse"),
        ints: parsed!(n, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize),
        f64: n.parse::<f64>().ok().map(f64::to_bits),
        f32: n.parse::<f32>().ok().map(f32::to_bits),
    });
}

#[cfg(feature = "full")]
pub fn of_value(src: &str, v: &Value<'_>, out: &mut Vec<Seen>) {
    out.push(Seen { src: src.into(), ints: ints!(v), f64: v.as_f64().map(f64::to_bits), f32: v.as_f32().map(f32::to_bits) });
}

fn first_number<'a>(nodes: impl Iterator<Item = Node<'a>>) -> Option<JsonNumber<'a>> {
    nodes.into_iter().find_map(|n| match n {
        Node::Number(n) => Some(n),
        _ => None,
    })
}

/// the literal `lit` in every place where a number can come from; `None` when
/// some place does not yield the number (other checks judge that)
pub fn seen(lit: &str, full: bool) -> Vec<Seen> {
    let mut out = vec![];
    if let Ok(n) = JsonNumber::from_json(lit) {
        of_number("JsonNumber::from_json", &n, &mut out);
        of_number("clone", &n.clone(), &mut out);
    }
    #[cfg(feature = "full")]
    if let Ok(v) = Value::from_json(lit) {
        of_value("Value", &v, &mut out);
        if let Some(n) = v.as_number() {
            of_number("Value::as_number", n, &mut out);
            of_value("Value::Number", &Value::Number(n.clone()), &mut out);
        }
    }
    if !full {
        return out;
    }
    let padded = format!(" \t{lit}\n");
    if let Ok(n) = JsonNumber::from_json(&padded) {
        of_number("JsonNumber::from_json with spaces", &n, &mut out);
    }
    let arr = format!("[{lit},{lit} ]");
    if let Some(Ok(Token::Number(n))) = Tokenizer::for_json_bytes(arr.as_bytes()).nth(1) {
        of_number("token", &n, &mut out);
    }
    if let Ok(d) = HeaplessDocument::<4>::from_json(&arr) {
        if let Some(n) = first_number(d.into_iter()) {
            of_number("fixed-capacity document", &n, &mut out);
        }
    }
    #[cfg(feature = "full")]
    {
        if let Ok(v) = Value::from_json_bytes(arr.as_bytes()) {
            for (i, x) in v.as_array().unwrap_or(&[]).iter().enumerate() {
                of_value(&format!("array element {i}"), x, &mut out);
            }
        }
        let o = format!("{{\"a\":{lit}}}");
        if let Ok(v) = Value::from_json(&o) {
            if let Some(x) = v.get("a") {
                of_value("object value", x, &mut out);
            }
        }
        if let Ok(d) = Document::from_json_bytes(o.as_bytes()) {
            if let Some(n) = first_number(d.iter()) {
                of_number("document", &n, &mut out);
            }
        }
    }
    out
}

/// "N": a literal, the integer it is, and the types that hold it
pub fn ints_vector(ctx: &mut Ctx, v: &J) {
    let x = v.get("in").bytes();
    let lit = std::str::from_utf8(&x).expect("vector: UTF-8");
    let want = String::from_utf8(v.get("v").bytes()).expect("vector: digits");
    let types: Vec<&str> = v.get("ty").arr().iter().map(J::str).collect();
    let nothing = want.is_empty();
    ctx.judge("ints", || {
        let all = seen(lit, true);
        ensure(all.len() > 5 || nothing, || "the literal is not read as a number".to_string())?;
        for s in all.iter().filter(|s| !nothing || s.src.starts_with("Value") || s.src.contains("element") || s.src.starts_with("object")) {
            for (t, got) in TYPES.iter().zip(&s.ints) {
                let has = types.contains(&like(t));
                ensure(got.as_ref() == Some(&want).filter(|_| has), || {
                    format!("{}: {t} of {lit} is {got:?} instead of {:?}", s.src, Some(&want).filter(|_| has))
                })?;
            }
        }
        Ok(())
    });
    if nothing {
        ctx.judge("floats", || {
            for s in seen(lit, true).iter().filter(|s| s.src.starts_with("Value")) {
                ensure(s.f64.is_none() && s.f32.is_none(), || format!("{}: {lit} is {:?}, {:?} as floats", s.src, s.f64, s.f32))?;
            }
            Ok(())
        });
    }
}

/// "F": a literal and the bits of the float it must give
pub fn float_vector(ctx: &mut Ctx, v: &J) {
    let x = v.get("in").bytes();
    let lit = std::str::from_utf8(&x).expect("vector: UTF-8");
    let w = v.get("w").int();
    let want = v.get("bits").bytes().iter().fold(0u64, |a, b| (a << 8) | u64::from(*b));
    ctx.judge("floats", || {
        let all = seen(lit, lit.len() < 200);
        ensure(all.len() > 3, || "the literal is not read as a number".to_string())?;
        for s in &all {
            let got = if w == 64 { s.f64 } else { s.f32.map(u64::from) };
            ensure(got == Some(want), || {
                let show = |b: Option<u64>| b.map(|b| if w == 64 { format!("{:e}", f64::from_bits(b)) } else { format!("{:e}", f32::from_bits(b as u32)) });
                format!("{}: f{w} of {lit} is {:?} instead of {:?}", s.src, show(got), show(Some(want)))
            })?;
        }
        Ok(())
    });
}

/// one literal and the distinct sets of results it gave
pub fn trace(lit: &str) -> J {
    let mut obs: Vec<Seen> = vec![];
    let all = seen(lit, true);
    let places = all.len();
    for s in all {
        if !obs.iter().any(|o| o.ints == s.ints && o.f64 == s.f64 && o.f32 == s.f32) {
            obs.push(s);
        }
    }
    let opt = |b: Option<Vec<u8>>| json::bytes(&b.unwrap_or_default());
    json::obj(vec![
        ("in", json::bytes(lit.as_bytes())),
        ("places", json::i(places)),
        (
            "obs",
            J::Arr(
                obs.iter()
                    .map(|s| {
                        J::Arr(vec![
                            json::s(&s.src),
                            J::Arr(
                                TYPES
                                    .iter()
                                    .zip(&s.ints)
                                    .filter_map(|(t, r)| r.as_ref().map(|r| J::Arr(vec![json::s(like(t)), json::bytes(r.as_bytes())])))
                                    .collect(),
                            ),
                            opt(s.f64.map(|b| b.to_be_bytes().to_vec())),
                            opt(s.f32.map(|b| b.to_be_bytes().to_vec())),
                        ])
                    })
                    .collect(),
            ),
        ),
    ])
}
