//! Histories of cursors: over documents ("D") and over tokens ("K").
use crate::json::J;
use crate::obs::*;
use crate::{ensure, Ctx};
use justjson::doc::{DocumentIter, GenericDocument, HeaplessDocument, Node, NodeCollection};
#[cfg(feature = "full")]
use justjson::{doc::Document, Value};
use justjson::parser::{PeekableTokenKind, Token, Tokenizer};
use justjson::JsonString;

fn same_text(x: &JsonString<'_>, s: &J) -> bool {
    let b = s.at(1).bytes();
    x.as_json().collect::<String>().as_bytes() == b && x.decoded().map(|c| c as u32).eq(crate::strings::dec_body(&b).expect("vector: body"))
}

fn same_node(n: &Node<'_>, v: &J) -> bool {
    let t = v.at(0).str();
    match n {
        Node::Null => t == "null",
        Node::Boolean(b) => t == "bool" && *b == v.at(1).bool(),
        Node::Number(n) => t == "num" && n.source().as_bytes() == v.at(1).bytes(),
        Node::String(s) => t == "str" && same_text(s, v.at(1)),
        Node::Object { length } => t == "obj" && *length == v.at(1).us(),
        Node::Array { length } => t == "arr" && *length == v.at(1).us(),
    }
}

fn run<'a, B: NodeCollection<'a>>(d: &GenericDocument<'a, B>, h: &[J], name: &str) -> Result<(), String> {
    let mut cur: Vec<DocumentIter<'_, 'a>> = vec![d.iter()];
    for (n, o) in h.iter().enumerate() {
        let c = o.at(0).us() - 1;
        let op = o.at(1).str();
        let at = || format!("{name}, step {}: {op} on cursor {}", n + 1, c + 1);
        match op {
            "next" => {
                let got = cur[c].next();
                let ok = match &got {
                    None => o.at(3).arr().is_empty(),
                    Some(g) => !o.at(3).arr().is_empty() && same_node(g, o.at(3)),
                };
                ensure(ok, || format!("{} yields {got:?} instead of {}", at(), o.at(3).text()))?;
            }
            #[cfg(feature = "full")]
            "value" => {
                let got: Option<Value<'_>> = cur[c].next_value();
                let ok = match &got {
                    None => o.at(3).arr().is_empty(),
                    Some(g) => !o.at(3).arr().is_empty() && crate::values::same(g, o.at(3), true),
                };
                ensure(ok, || format!("{} reads {got:?} instead of {}", at(), o.at(3).text()))?;
            }
            "clone" => {
                let k = cur[c].clone();
                cur.push(k);
            }
            _ => cur[c].skip_next_value(),
        }
        let left = cur[c].clone().count();
        ensure(left == o.at(2).us(), || format!("{}: {left} nodes left instead of {}", at(), o.at(2).text()))?;
    }
    // what the histories left of every cursor is the tail of the list
    let all: Vec<Node<'_>> = d.into_iter().collect();
    for (c, k) in cur.into_iter().enumerate() {
        let tail: Vec<Node<'_>> = k.collect();
        ensure(all.ends_with(&tail), || format!("{name}: cursor {} ends with {tail:?}, not a tail of {all:?}", c + 1))?;
    }
    Ok(())
}

/// "D": a text and a history of cursor operations on its document
pub fn doc_history(ctx: &mut Ctx, v: &J) {
    let x = v.get("x").bytes();
    let s = std::str::from_utf8(&x).expect("vector: UTF-8");
    let h = v.get("h").arr();
    let n = ctx.current.len();
    let mut made = 0;
    ctx.judge("cursor", || {
        #[cfg(feature = "full")]
        {
            let d = if n % 2 == 0 { Document::from_json(s) } else { Document::from_json_bytes(&x) };
            if let Ok(d) = d {
                made += 1;
                run(&d, h, "document")?;
            }
        }
        let d = if n % 2 == 1 { HeaplessDocument::<32>::from_json(s) } else { HeaplessDocument::from_json_bytes(&x) };
        if let Ok(d) = d {
            made += 1;
            run(&d, h, "fixed-capacity document")?;
        }
        Ok(())
    });
    if made == 0 {
        ctx.note("documents that could not be parsed");
    }
}

// ------------------------------------------------------------------ tokens

pub fn peek_name(k: Option<PeekableTokenKind>) -> String {
    match k {
        None => "none".into(),
        Some(k) => format!("{k:?}"),
    }
}

pub enum Got<'a> {
    Peek(String),
    Tok(Token<'a>),
    None,
    Err(NErr),
}

pub fn call<'a, const U: bool>(t: &mut Tokenizer<'a, U>, op: &str) -> Got<'a> {
    match op {
        "p" => Got::Peek(peek_name(t.peek())),
        "n" => match t.next() {
            None => Got::None,
            Some(Ok(t)) => Got::Tok(t),
            Some(Err(e)) => Got::Err(nerr(&e)),
        },
        _ => match t.next_or_eof() {
            Ok(t) => Got::Tok(t),
            Err(e) => Got::Err(nerr(&e)),
        },
    }
}

pub fn class(t: &Token<'_>) -> &'static str {
    match t {
        Token::Null => "null",
        Token::Bool(true) => "true",
        Token::Bool(false) => "false",
        Token::String(_) => "str",
        Token::Number(_) => "num",
        Token::Object => "{",
        Token::ObjectEnd => "}",
        Token::Array => "[",
        Token::ArrayEnd => "]",
        Token::Colon => ":",
        Token::Comma => ",",
    }
}

fn same_result(g: &Got<'_>, e: &J, input: &[u8]) -> Result<(), String> {
    let tag = e.at(0).str();
    match g {
        Got::Peek(k) => ensure(tag == "peek" && e.at(1).str() == k, || format!("peek names {k} instead of {}", e.text())),
        Got::None => ensure(tag == "none", || format!("nothing instead of {}", e.text())),
        Got::Tok(t) => {
            ensure(tag == "tok" && class(t) == e.at(1).str(), || format!("token {t:?} instead of {}", e.text()))?;
            let (a, b) = (e.at(2).us(), e.at(3).us());
            match t {
                Token::Number(n) => ensure(n.source().as_bytes() == &input[a..b], || format!("number {} instead of {}", n.source(), e.text())),
                Token::String(x) => {
                    let l = slit(x, input);
                    ensure(l.lit.text == input[a + 1..b - 1] && l.cps == e.at(5).cps(), || format!("string {x:?} instead of {}", e.text()))
                }
                _ => Ok(()),
            }
        }
        Got::Err(r) => {
            ensure(tag == "err", || format!("error {r:?} instead of {}", e.text()))?;
            let alt = e.at(2).str();
            ensure(r.kind == e.at(1).str() || (!alt.is_empty() && r.kind == alt), || format!("error {r:?} instead of {}", e.text()))?;
            if r.kind == "Unexpected" {
                ensure(r.byte == e.at(3).int(), || format!("error {r:?} instead of {}", e.text()))?;
            }
            ensure(r.off >= e.at(4).us() && r.off <= e.at(5).us(), || format!("error at {} instead of {}", r.off, e.text()))
        }
    }
}

fn tokens<'a, const U: bool>(mut t: Tokenizer<'a, U>, h: &[J], input: &'a [u8], name: &str) -> Result<(), String> {
    ensure(t.offset() == 0, || format!("{name}: starts at {}", t.offset()))?;
    for (n, o) in h.iter().enumerate() {
        let at = || format!("{name}, call {} ({})", n + 1, o.at(0).str());
        let g = call(&mut t, o.at(0).str());
        same_result(&g, o.at(1), input).map_err(|e| format!("{}: {e}", at()))?;
        if o.at(2).int() >= 0 {
            ensure(t.offset() as i64 == o.at(2).int(), || format!("{}: offset {} instead of {}", at(), t.offset(), o.at(2).text()))?;
        }
    }
    // whatever happened, reading on comes to an end
    let mut k = 0;
    while t.next().is_some() {
        k += 1;
        ensure(k <= input.len() + 1, || format!("{name}: reading on does not end"))?;
    }
    ensure(t.offset() <= input.len(), || format!("{name}: offset {} of {}", t.offset(), input.len()))
}

/// "K": an input and a history of tokenizer calls
pub fn tok_history(ctx: &mut Ctx, v: &J) {
    let x = v.get("in").bytes();
    let h = v.get("h").arr();
    ctx.judge("tokens", || {
        tokens(Tokenizer::for_json_bytes(&x), h, &x, "bytes")?;
        if let Ok(s) = std::str::from_utf8(&x) {
            tokens(Tokenizer::for_json(s), h, &x, "str")?;
        }
        Ok(())
    });
}
