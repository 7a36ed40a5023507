//! Vectors of kind "T": an input, a configuration, and what the parser machine
//! of the specification does with it.
use crate::json::{bytes, obj, J};
use crate::obs::*;
use crate::{ensure, Ctx};
use justjson::doc::{GenericDocument, HeaplessDocument, Node, NodeCollection};
use justjson::parser::{JsonKind, ParseConfig, Parser};
#[cfg(feature = "full")]
use justjson::{doc::Document, AnyStr, Value};
use justjson::{ErrorKind, JsonNumber, JsonString};

const CAP: usize = 24;

pub struct Case {
    pub input: Vec<u8>,
    pub cfg: ParseConfig,
    pub default: bool,
    pub ok: bool,
    pub ev: Vec<J>,
    pub kind: String,
    pub alt: String,
    pub byte: i64,
    pub lo: usize,
    pub hi: usize,
}

/// the outcome at one entry point
pub struct Outcome {
    pub name: &'static str,
    pub res: Result<(), NErr>,
    pub out: Out,
}
pub enum Out {
    None,
    Kind(JsonKind),
    Events(Vec<Ev>),
    #[cfg(feature = "full")]
    Tree(T),
    Nodes(Vec<N>),
}

pub fn case(v: &J) -> Case {
    let er = v.get("er");
    Case {
        input: v.get("in").bytes(),
        cfg: config(v.get("c")),
        default: is_default(v.get("c")),
        ok: v.get("ok").bool(),
        ev: v.get("ev").arr().to_vec(),
        kind: er.at(0).str().to_string(),
        alt: er.at(1).str().to_string(),
        byte: er.at(2).int(),
        lo: er.at(3).us(),
        hi: er.at(4).us(),
    }
}

/// root kind the specification's calls imply
fn spec_kind(ev: &[J]) -> &'static str {
    match ev[0].at(0).str() {
        "null" => "Null",
        "bool" => "Boolean",
        "num" => "Number",
        "str" => "String",
        "obj" => "Object",
        _ => "Array",
    }
}
fn kind_str(k: JsonKind) -> &'static str {
    match k {
        JsonKind::Null => "Null",
        JsonKind::Boolean => "Boolean",
        JsonKind::Number => "Number",
        JsonKind::String => "String",
        JsonKind::Object => "Object",
        JsonKind::Array => "Array",
    }
}

fn kind_out(r: Result<JsonKind, justjson::Error>) -> (Result<(), NErr>, Out) {
    match r {
        Ok(k) => (Ok(()), Out::Kind(k)),
        Err(e) => (Err(nerr(&e)), Out::None),
    }
}
fn ev_out(r: (Vec<Ev>, Result<(), NErr>)) -> (Result<(), NErr>, Out) {
    (r.1, Out::Events(r.0))
}
#[cfg(feature = "full")]
fn tree_out(r: Result<Value<'_>, justjson::Error>, base: &[u8]) -> (Result<(), NErr>, Out) {
    match r {
        Ok(v) => (Ok(()), Out::Tree(tree(&v, base))),
        Err(e) => (Err(nerr(&e)), Out::None),
    }
}
fn doc_out<'a, B: NodeCollection<'a>>(
    r: Result<GenericDocument<'a, B>, justjson::Error>,
    base: &[u8],
) -> (Result<(), NErr>, Out) {
    match r {
        Ok(d) => (Ok(()), Out::Nodes(nodes(&d, base))),
        Err(e) => (Err(nerr(&e)), Out::None),
    }
}

/// Every parsing entry point, applied to the input.  `fits`: the nodes fit a
/// fixed-capacity document.
pub fn entries(input: &[u8], cfg: &ParseConfig, default: bool, fits: bool, which: &dyn Fn(&str) -> bool) -> Vec<Outcome> {
    let mut v: Vec<Outcome> = vec![];
    macro_rules! entry {
        ($name:literal, $e:expr) => {
            if which($name) {
                let (res, out) = $e;
                v.push(Outcome { name: $name, res, out });
            }
        };
    }
    let hc = How::Config(cfg);
    let hd = How::Default;
    entry!("validate_json_bytes_with_config", kind_out(Parser::validate_json_bytes_with_config(input, *cfg)));
    entry!("parse_json_bytes_with_config", ev_out(rec_bytes(input, &hc, None)));
    #[cfg(feature = "full")]
    entry!("Value::from_json_bytes_with_config", tree_out(Value::from_json_bytes_with_config(input, *cfg), input));
    #[cfg(feature = "full")]
    entry!("Document::from_json_bytes_with_config", doc_out(Document::from_json_bytes_with_config(input, *cfg), input));
    if fits {
        entry!(
            "HeaplessDocument::from_json_bytes_with_config",
            doc_out(HeaplessDocument::<CAP>::from_json_bytes_with_config(input, *cfg), input)
        );
    }
    if default {
        entry!("validate_json_bytes", kind_out(Parser::validate_json_bytes(input)));
        entry!("parse_json_bytes", ev_out(rec_bytes(input, &hd, None)));
        #[cfg(feature = "full")]
        entry!("Value::from_json_bytes", tree_out(Value::from_json_bytes(input), input));
        #[cfg(feature = "full")]
        entry!("Document::from_json_bytes", doc_out(Document::from_json_bytes(input), input));
        if fits {
            entry!(
                "HeaplessDocument::from_json_bytes",
                doc_out(HeaplessDocument::<CAP>::from_json_bytes(input), input)
            );
        }
    }
    if let Ok(st) = std::str::from_utf8(input) {
        entry!("validate_json_with_config", kind_out(Parser::validate_json_with_config(st, *cfg)));
        entry!("parse_json_with_config", ev_out(rec_str(st, &hc, None)));
        #[cfg(feature = "full")]
        entry!("Value::from_json_with_config", tree_out(Value::from_json_with_config(st, *cfg), input));
        #[cfg(feature = "full")]
        entry!("Document::from_json_with_config", doc_out(Document::from_json_with_config(st, *cfg), input));
        if fits {
            entry!(
                "HeaplessDocument::from_json_with_config",
                doc_out(HeaplessDocument::<CAP>::from_json_with_config(st, *cfg), input)
            );
        }
        if default {
            entry!("validate_json", kind_out(Parser::validate_json(st)));
            entry!("parse_json", ev_out(rec_str(st, &hd, None)));
            #[cfg(feature = "full")]
            entry!("Value::from_json", tree_out(Value::from_json(st), input));
            #[cfg(feature = "full")]
            entry!("Document::from_json", doc_out(Document::from_json(st), input));
            if fits {
                entry!("HeaplessDocument::from_json", doc_out(HeaplessDocument::<CAP>::from_json(st), input));
            }
        }
    }
    v
}

fn any(_: &str) -> bool {
    true
}

/// does an observed error satisfy the specification's?
fn err_ok(c: &Case, e: &NErr) -> Result<(), String> {
    ensure(e.kind == c.kind || (!c.alt.is_empty() && e.kind == c.alt), || {
        format!("error kind {} instead of {}{}", e.kind, c.kind, if c.alt.is_empty() { String::new() } else { format!(" or {}", c.alt) })
    })?;
    ensure(c.kind != "Unexpected" || e.byte == c.byte, || format!("Unexpected({}) instead of Unexpected({})", e.byte, c.byte))?;
    ensure(e.off >= c.lo && e.off <= c.hi, || format!("{} at offset {} outside {}..={}", e.kind, e.off, c.lo, c.hi))
}

/// the same vector with a continuation of its input
pub fn continued(v: &J, more: &J) -> J {
    let mut input = v.get("in").bytes();
    input.extend(more.bytes());
    obj(vec![
        ("k", v.get("k").clone()),
        ("c", v.get("c").clone()),
        ("in", bytes(&input)),
        ("ok", v.get("ok").clone()),
        ("ev", v.get("ev").clone()),
        ("er", v.get("er").clone()),
        ("more", J::Arr(vec![])),
    ])
}

pub fn replay(ctx: &mut Ctx, v: &J) {
    let c = case(v);
    let n_nodes = c.ev.iter().filter(|e| pushes(e)).count();
    // a refused text may push one more node than the calls it justifies complete
    let fits = n_nodes <= CAP;
    let input = &c.input[..];
    let utf8 = std::str::from_utf8(input).ok();
    ctx.note(if c.ok { "accepted" } else { "rejected" });

    ctx.judge("accept", || {
        for o in entries(input, &c.cfg, c.default, fits, &any) {
            ensure(o.res.is_ok() == c.ok, || {
                format!("{} {:?}, but the specification {} the input", o.name, o.res, if c.ok { "accepts" } else { "rejects" })
            })?;
        }
        Ok(())
    });

    ctx.judge("content", || {
        // what accepted texts yield under this configuration, at every entry point
        if !c.ok {
            return Ok(());
        }
        let want = tree_of_events(&c.ev, input);
        let mut flat = vec![];
        flatten(&want, &mut flat);
        for o in entries(input, &c.cfg, c.default, fits, &any) {
            if o.res.is_err() {
                continue;
            }
            let same = match &o.out {
                Out::None => true,
                Out::Kind(k) => kind_str(*k) == spec_kind(&c.ev),
                Out::Events(e) => events_eq(e, &c.ev, input),
                #[cfg(feature = "full")]
                Out::Tree(t) => tree_eq(t, &want, false),
                Out::Nodes(n) => nodes_eq(n, &flat, false),
            };
            ensure(same, || format!("{} accepts but yields other content", o.name))?;
        }
        Ok(())
    });

    ctx.judge("err", || {
        if c.ok {
            return Ok(());
        }
        for o in entries(input, &c.cfg, c.default, fits, &any) {
            if let Err(e) = &o.res {
                err_ok(&c, e).map_err(|w| format!("{}: {w}", o.name))?;
                ensure(e.off <= input.len(), || format!("{}: offset {} beyond the input", o.name, e.off))?;
            }
        }
        let all = entries(input, &c.cfg, c.default, fits, &any);
        for p in all.windows(2) {
            if let (Err(a), Err(b)) = (&p[0].res, &p[1].res) {
                ensure(a == b, || format!("{} reports {:?}, {} reports {:?}", p[0].name, a, p[1].name, b))?;
            }
        }
        // the error does not depend on what follows the point where it was decided
        if c.hi < input.len() {
            for tail in [&b"\x00"[..], b"\"", b"}]", b" ", b"\xc3\xa9"] {
                let mut longer = input.to_vec();
                longer.extend_from_slice(tail);
                let w = |n: &str| n == "parse_json_bytes_with_config" || n == "validate_json_with_config";
                for o in entries(&longer, &c.cfg, false, false, &w) {
                    match &o.res {
                        Ok(()) => return Err(format!("{} accepts the input followed by {:?}", o.name, tail)),
                        Err(e) => err_ok(&c, e).map_err(|w| format!("{} on the input followed by {:?}: {w}", o.name, tail))?,
                    }
                }
            }
        }
        Ok(())
    });

    ctx.judge("utf8", || {
        let all = entries(input, &c.cfg, c.default, fits, &any);
        let valid = utf8.is_some();
        for o in &all {
            // UTF-8 decides: an otherwise acceptable text with bad UTF-8 is refused as such,
            // and well-formed content is never refused as ill-formed
            if c.ok {
                ensure(o.res.is_ok(), || format!("{} refuses well-formed text: {:?}", o.name, o.res))?;
            }
            if let Err(e) = &o.res {
                ensure(e.kind != "Utf8" || c.kind == "Utf8", || format!("{} reports ill-formed UTF-8 where there is none", o.name))?;
            }
            if c.kind == "Utf8" {
                ensure(o.res.is_err(), || format!("{} accepts ill-formed UTF-8 or a lone surrogate", o.name))?;
            }
        }
        if valid {
            // pair every bytes entry point with its str twin
            for o in &all {
                if o.name.contains("_bytes") {
                    let twin = o.name.replace("_bytes", "");
                    if let Some(t) = all.iter().find(|t| t.name == twin) {
                        ensure(same_outcome(o, t), || format!("{} and {} disagree: {:?} vs {:?}", o.name, t.name, o.res, t.res))?;
                    }
                }
            }
        }
        Ok(())
    });

    #[cfg(feature = "full")]
    ctx.judge("value", || {
        if !c.ok {
            return Ok(());
        }
        let want = tree_of_events(&c.ev, input);
        for o in entries(input, &c.cfg, c.default, false, &|n| n.starts_with("Value::")) {
            if let Out::Tree(t) = &o.out {
                ensure(tree_eq(t, &want, true), || format!("{} yields {} instead of {}", o.name, t.json().text(), want.json().text()))?;
            }
        }
        Ok(())
    });

    ctx.judge("doc", || {
        if !c.ok {
            return Ok(());
        }
        let want = tree_of_events(&c.ev, input);
        let mut flat = vec![];
        flatten(&want, &mut flat);
        for o in entries(input, &c.cfg, c.default, fits, &|n| n.contains("Document")) {
            if let Out::Nodes(n) = &o.out {
                ensure(nodes_eq(n, &flat, true), || format!("{} lists other nodes than the text has", o.name))?;
            }
        }
        #[cfg(feature = "full")]
        {
            if let Ok(d) = Document::from_json_bytes_with_config(input, c.cfg) {
                let v = Value::from(d);
                ensure(tree_eq(&tree(&v, input), &want, true), || "the value made from the document differs from the text".into())?;
                if let Ok(p) = Value::from_json_bytes_with_config(input, c.cfg) {
                    ensure(v == p && p == v, || "the value made from the document is not equal to the parsed value".into())?;
                }
            }
            if let Some(st) = utf8 {
                if let Ok(d) = Document::from_json_with_config(st, c.cfg) {
                    let v = Value::from(d);
                    ensure(tree_eq(&tree(&v, input), &want, true), || "the value made from the document (str) differs from the text".into())?;
                }
            }
            if fits {
                if let Ok(d) = HeaplessDocument::<CAP>::from_json_bytes_with_config(input, c.cfg) {
                    let v = Value::from(d);
                    ensure(tree_eq(&tree(&v, input), &want, true), || "the value made from the heapless document differs from the text".into())?;
                }
            }
        }
        Ok(())
    });

    ctx.judge("events", || {
        for o in entries(input, &c.cfg, c.default, false, &|n| n.starts_with("parse_json")) {
            if let Out::Events(e) = &o.out {
                ensure(events_eq(e, &c.ev, input), || {
                    format!("{} called {} instead of {}", o.name, events_json(e).text(), J::Arr(c.ev.clone()).text())
                })?;
                ensure(o.res.is_ok() == c.ok, || format!("{} verdict {:?}", o.name, o.res))?;
            }
        }
        Ok(())
    });

    ctx.judge("faults", || {
        let hc = How::Config(&c.cfg);
        let hd = How::Default;
        for k in places(c.ev.len() + 1).into_iter().map(|k| k + 1) {
            let mut runs = vec![("parse_json_bytes_with_config", rec_bytes(input, &hc, Some(k)))];
            if let Some(st) = utf8 {
                runs.push(("parse_json_with_config", rec_str(st, &hc, Some(k))));
            }
            if c.default {
                runs.push(("parse_json_bytes", rec_bytes(input, &hd, Some(k))));
                if let Some(st) = utf8 {
                    runs.push(("parse_json", rec_str(st, &hd, Some(k))));
                }
            }
            for (name, (log, res)) in runs {
                if k <= c.ev.len() {
                    ensure(events_eq(&log, &c.ev[..k], input), || {
                        format!("{name}: after call {k} failed the calls were {}", events_json(&log).text())
                    })?;
                    let want = format!("ErrorFromDelegate:Refused({k})");
                    match &res {
                        Err(e) if e.kind == want => {
                            ensure(e.off <= input.len(), || format!("{name}: offset {} beyond the input", e.off))?;
                        }
                        r => return Err(format!("{name}: call {k} failed but the parse returned {r:?}")),
                    }
                } else {
                    ensure(res.is_ok() == c.ok, || format!("{name}: no call failed but {res:?}"))?;
                }
            }
        }
        Ok(())
    });

    ctx.judge("front", || {
        for o in entries(input, &c.cfg, c.default, false, &|n| n.starts_with("validate")) {
            match &o.out {
                Out::Kind(k) => {
                    ensure(c.ok, || format!("{} accepts a text the specification rejects", o.name))?;
                    ensure(kind_str(*k) == spec_kind(&c.ev), || format!("{} says {:?}", o.name, k))?;
                }
                _ => ensure(!c.ok, || format!("{} rejects: {:?}", o.name, o.res))?,
            }
        }
        if !c.default {
            return Ok(());
        }
        let st = match utf8 {
            Some(s) => s,
            None => return Ok(()),
        };
        let root_event = c.ev.first().map(|e| e.at(0).str().to_string());
        // string
        let r = JsonString::from_json(st);
        front(&c, root_event.as_deref(), "str", "ExpectedString", r.as_ref().map(|_| ()).map_err(nerr), "JsonString::from_json")?;
        if let Ok(x) = &r {
            let got = slit(x, input);
            let want = spec_slit(&c.ev[0], input);
            ensure(lit_eq(&got.lit, &want.lit, true) && got.cps == want.cps, || {
                format!("JsonString::from_json yields {} instead of {}", slit_json("str", &got).text(), slit_json("str", &want).text())
            })?;
            #[cfg(feature = "full")]
            if let Ok(Value::String(y)) = Value::from_json(st) {
                ensure(*x == y, || "JsonString::from_json differs from the full parse".into())?;
            }
        }
        // number
        let r = JsonNumber::from_json(st);
        front(&c, root_event.as_deref(), "num", "ExpectedNumber", r.as_ref().map(|_| ()).map_err(nerr), "JsonNumber::from_json")?;
        if let Ok(x) = &r {
            let want = spec_lit(&c.ev[0], input);
            ensure(lit_eq(&crate::obs::lit(x.source(), input), &want, true), || format!("JsonNumber::from_json yields {:?}", x.source()))?;
            #[cfg(feature = "full")]
            if let Ok(Value::Number(y)) = Value::from_json(st) {
                ensure(*x == y, || "JsonNumber::from_json differs from the full parse".into())?;
            }
        }
        Ok(())
    });

    ctx.judge("decode", || {
        // decoded text of every string in the text, as a key and as a value
        if !c.ok {
            return Ok(());
        }
        strings(&c, &mut |x, want| {
            let got: Vec<u32> = x.decoded().map(|c| c as u32).collect();
            ensure(got == want.cps, || format!("decoded() yields {got:?} instead of {:?}", want.cps))?;
            let text: String = want.cps.iter().map(|c| char::from_u32(*c).unwrap()).collect();
            let shown = format!("{x}");
            ensure(shown == text, || format!("Display yields {shown:?} instead of {text:?}"))?;
            let shown = format!("{}", x.decoded());
            ensure(shown == text, || format!("Display of decoded() yields {shown:?} instead of {text:?}"))?;
            #[cfg(feature = "full")]
            {
                let d = x.decode_if_needed();
                ensure(d.as_str() == text, || format!("decode_if_needed yields {:?} instead of {text:?}", d.as_str()))?;
            }
            if let Some(s) = x.as_str() {
                ensure(s == text, || format!("as_str yields {s:?} instead of {text:?}"))?;
            }
            Ok(())
        })
    });

    ctx.judge("meta", || {
        if !c.ok {
            return Ok(());
        }
        strings(&c, &mut |x, want| meta(x, want))
    });

    ctx.judge("total", || {
        let _ = entries(input, &c.cfg, c.default, fits, &any);
        let mut longer = input.to_vec();
        for cut in places(input.len()) {
            let _ = entries(&input[..cut], &c.cfg, false, false, &|n| n.starts_with("validate"));
        }
        longer.extend_from_slice(&[0xF0, 0x9F, 0x98]);
        let _ = entries(&longer, &c.cfg, c.default, false, &any);
        everything(input, &c.cfg);
        Ok(())
    });

    ctx.judge("capacity", || capacity(&c, utf8));
}

/// metadata of a parsed string
pub fn meta(x: &JsonString<'_>, want: &SLit) -> Result<(), String> {
    let text: String = want.cps.iter().map(|c| char::from_u32(*c).unwrap()).collect();
    ensure(x.len() == want.lit.text.len(), || format!("len {} instead of {}", x.len(), want.lit.text.len()))?;
    ensure(x.decoded_len() == text.len(), || format!("decoded_len {} instead of {}", x.decoded_len(), text.len()))?;
    ensure(x.is_empty() == text.is_empty(), || format!("is_empty {}", x.is_empty()))?;
    ensure(x.as_str().is_some() == !want.esc, || format!("as_str {:?} but escapes: {}", x.as_str(), want.esc))?;
    if let Some(s) = x.as_str() {
        ensure(s == text, || format!("as_str {s:?}"))?;
    }
    match x.as_json_str() {
        None => return Err("as_json_str offers nothing for a parsed string".into()),
        Some(s) => ensure(s.as_str().as_bytes() == want.lit.text, || format!("as_json_str {:?}", s.as_str()))?,
    }
    let json: String = x.as_json().collect();
    ensure(json.as_bytes() == want.lit.text, || format!("as_json {json:?}"))?;
    ensure(format!("{}", x.as_json()) == json, || "Display of as_json differs from its characters".into())?;
    #[cfg(feature = "full")]
    {
        let d = x.decode_if_needed();
        ensure(matches!(d, AnyStr::Borrowed(_)) == !want.esc, || "decode_if_needed borrows/copies wrongly".into())?;
        ensure(d.as_str() == text, || "decode_if_needed text".into())?;
        let e = x.escape_if_needed();
        ensure(matches!(e, AnyStr::Borrowed(_)), || "escape_if_needed copies a parsed string".into())?;
        ensure(e.as_str().as_bytes() == want.lit.text, || "escape_if_needed text".into())?;
    }
    size_hints(x)
}

pub fn size_hints(x: &JsonString<'_>) -> Result<(), String> {
    let mut d = x.decoded();
    let mut left = x.decoded().count();
    loop {
        let (lo, hi) = d.size_hint();
        ensure(lo <= left && hi.map_or(true, |h| h >= left), || format!("decoded(): size_hint {:?} with {left} characters left", d.size_hint()))?;
        if d.next().is_none() {
            break;
        }
        left -= 1;
    }
    let mut d = x.as_json();
    let mut left = x.as_json().count();
    loop {
        let (lo, hi) = d.size_hint();
        ensure(lo <= left && hi.map_or(true, |h| h >= left), || format!("as_json(): size_hint {:?} with {left} characters left", d.size_hint()))?;
        if d.next().is_none() {
            break;
        }
        left -= 1;
    }
    Ok(())
}

/// apply `f` to every string literal of an accepted text, however obtained
fn strings(c: &Case, f: &mut dyn FnMut(&JsonString<'_>, &SLit) -> Result<(), String>) -> Result<(), String> {
    let want: Vec<SLit> =
        c.ev.iter().filter(|e| matches!(e.at(0).str(), "str" | "key")).map(|e| spec_slit(e, &c.input)).collect();
    if want.is_empty() {
        return Ok(());
    }
    struct Collect<'a>(Vec<JsonString<'a>>);
    let mut got = Collect(vec![]);
    {
        use justjson::parser::ParseDelegate;
        impl<'a> ParseDelegate<'a> for &mut Collect<'a> {
            type Value = JsonKind;
            type Object = usize;
            type Array = usize;
            type Key = ();
            type Error = ();
            fn null(&mut self) -> Result<JsonKind, ()> {
                Ok(JsonKind::Null)
            }
            fn boolean(&mut self, _: bool) -> Result<JsonKind, ()> {
                Ok(JsonKind::Boolean)
            }
            fn number(&mut self, _: JsonNumber<'a>) -> Result<JsonKind, ()> {
                Ok(JsonKind::Number)
            }
            fn string(&mut self, v: JsonString<'a>) -> Result<JsonKind, ()> {
                self.0.push(v);
                Ok(JsonKind::String)
            }
            fn begin_object(&mut self) -> Result<usize, ()> {
                Ok(0)
            }
            fn object_key(&mut self, _: &mut usize, key: JsonString<'a>) -> Result<(), ()> {
                self.0.push(key);
                Ok(())
            }
            fn object_value(&mut self, o: &mut usize, _: (), _: JsonKind) -> Result<(), ()> {
                *o += 1;
                Ok(())
            }
            fn object_is_empty(&self, o: &usize) -> bool {
                *o == 0
            }
            fn end_object(&mut self, _: usize) -> Result<JsonKind, ()> {
                Ok(JsonKind::Object)
            }
            fn begin_array(&mut self) -> Result<usize, ()> {
                Ok(0)
            }
            fn array_value(&mut self, o: &mut usize, _: JsonKind) -> Result<(), ()> {
                *o += 1;
                Ok(())
            }
            fn array_is_empty(&self, o: &usize) -> bool {
                *o == 0
            }
            fn end_array(&mut self, _: usize) -> Result<JsonKind, ()> {
                Ok(JsonKind::Array)
            }
            fn kind_of(&self, v: &JsonKind) -> JsonKind {
                *v
            }
        }
    }
    let input = &c.input[..];
    let r = Parser::parse_json_bytes_with_config(input, c.cfg, &mut got);
    if r.is_ok() && got.0.len() == want.len() {
        for (x, w) in got.0.iter().zip(&want) {
            f(x, w).map_err(|e| format!("{e} (string {:?} parsed from bytes)", String::from_utf8_lossy(&w.lit.text)))?;
            let y = x.clone();
            f(&y, w).map_err(|e| format!("{e} (clone of string {:?})", String::from_utf8_lossy(&w.lit.text)))?;
        }
    }
    if let Ok(st) = std::str::from_utf8(input) {
        let mut got = Collect(vec![]);
        let r = Parser::parse_json_with_config(st, c.cfg, &mut got);
        if r.is_ok() && got.0.len() == want.len() {
            for (x, w) in got.0.iter().zip(&want) {
                f(x, w).map_err(|e| format!("{e} (string {:?} parsed from str)", String::from_utf8_lossy(&w.lit.text)))?;
            }
        }
    }
    Ok(())
}

fn front(c: &Case, first: Option<&str>, mine: &str, expected: &str, r: Result<(), NErr>, name: &str) -> Result<(), String> {
    match first {
        // the first thing read is of another type
        Some(k) if k != mine => match r {
            Err(e) if e.kind == expected => ensure(e.off <= c.input.len(), || format!("{name}: offset {}", e.off)),
            // a text that is not JSON at all may also be refused for that
            Err(_) if !c.ok => Ok(()),
            r => Err(format!("{name}: {r:?} for a root of type {k}, instead of {expected}")),
        },
        _ => match r {
            Ok(()) => ensure(c.ok, || format!("{name} accepts a text the specification rejects")),
            Err(e) => {
                ensure(!c.ok, || format!("{name} rejects: {e:?}"))?;
                err_ok(c, &e).map_err(|w| format!("{name}: {w}"))
            }
        },
    }
}

fn same_outcome(a: &Outcome, b: &Outcome) -> bool {
    if a.res != b.res {
        return false;
    }
    match (&a.out, &b.out) {
        (Out::None, Out::None) => true,
        (Out::Kind(a), Out::Kind(b)) => a == b,
        (Out::Events(a), Out::Events(b)) => events_json(a) == events_json(b),
        #[cfg(feature = "full")]
        (Out::Tree(a), Out::Tree(b)) => a.json() == b.json() && tree_eq(a, b, true),
        (Out::Nodes(a), Out::Nodes(b)) => nodes_eq(a, b, true),
        _ => false,
    }
}

/// use everything a parse yields, only to see that nothing panics
pub fn everything(input: &[u8], cfg: &ParseConfig) {
    fn string(x: &JsonString<'_>) {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        x.hash(&mut h);
        let _ = h.finish();
        let _ = (x.len(), x.decoded_len(), x.is_empty(), x.as_str(), x.as_json_str());
        let d: String = x.decoded().collect();
        assert_utf8(&d);
        let e: String = x.as_json().collect();
        assert_utf8(&e);
        let _ = format!("{x} {x:?} {} {}", x.decoded(), x.as_json());
        let _ = *x == d.as_str();
        let _ = x.partial_cmp(&d.as_str());
        let _ = *x == x.clone();
        let _ = x.cmp(x);
        let r = JsonString::from(d.as_str());
        let _ = (*x == r, r == *x, x.cmp(&r), r.cmp(x), r.len(), r.as_json().collect::<String>());
        #[cfg(feature = "full")]
        {
            let _ = (x.decode_if_needed(), x.escape_if_needed());
            let o = JsonString::from(d.clone());
            let _ = (*x == o, o.escape_if_needed());
        }
        let _ = size_hints(x);
    }
    fn number(n: &JsonNumber<'_>) {
        let _ = (n.as_u8(), n.as_u16(), n.as_u32(), n.as_u64(), n.as_u128(), n.as_usize());
        let _ = (n.as_i8(), n.as_i16(), n.as_i32(), n.as_i64(), n.as_i128(), n.as_isize());
        let _ = (n.as_f32(), n.as_f64(), n.source().len(), format!("{n:?}"));
    }
    fn walk<'a, B: NodeCollection<'a>>(d: &GenericDocument<'a, B>) {
        for n in d {
            match &n {
                Node::String(x) => string(x),
                Node::Number(n) => number(n),
                _ => {}
            }
        }
        let len = d.iter().count();
        for i in 0..len.min(12) {
            let mut it = d.iter();
            for _ in 0..i {
                let _ = it.next();
            }
            it.skip_next_value();
            let _ = it.next();
        }
    }
    let _ = HeaplessDocument::<8>::from_json_bytes_with_config(input, *cfg).map(|d| walk(&d));
    let mut t = justjson::parser::Tokenizer::for_json_bytes(input);
    let mut steps = 0;
    while let Some(x) = t.next() {
        let _ = (t.peek(), t.offset());
        if let Err(e) = &x {
            let _ = format!("{e} {e:?}");
        }
        steps += 1;
        if steps > 2 * input.len() + 2 {
            panic!("the tokenizer does not come to an end");
        }
    }
    let mut t = justjson::parser::Tokenizer::for_json_bytes(input);
    for _ in 0..input.len() + 2 {
        let _ = t.next_or_eof();
    }
    if let Err(e) = Parser::validate_json_bytes_with_config(input, *cfg) {
        let _ = format!("{e} {e:?} {:?}", e.kind());
    }
    #[cfg(feature = "full")]
    {
        fn val(v: &Value<'_>) {
            match v {
                Value::String(x) => string(x),
                Value::Number(n) => number(n),
                Value::Array(a) => a.iter().for_each(val),
                Value::Object(o) => o.iter().for_each(|e| {
                    string(&e.key);
                    val(&e.value);
                }),
                _ => {}
            }
        }
        if let Ok(v) = Value::from_json_bytes_with_config(input, *cfg) {
            val(&v);
            let _ = (v.to_json(), v.to_json_pretty(), v.to_json_pretty_custom("\t", "\r\n"), format!("{v} {v:#} {v:?}"));
            let _ = (v.as_u64(), v.as_f64(), v.as_str(), v.as_bool(), v.is_null(), v.get("a"), v.get_index(0));
            let _ = v == v;
        }
        if let Ok(d) = Document::from_json_bytes_with_config(input, *cfg) {
            walk(&d);
            let len = d.iter().count();
            for i in 0..len.min(12) {
                let mut it = d.iter();
                for _ in 0..i {
                    let _ = it.next();
                }
                let _ = it.next_value();
            }
            let _ = Value::from(d);
        }
    }
}

// ---------------------------------------------------------------- capacity

/// A collection that refuses its k-th node with a chosen error.
pub struct Choosy<'a> {
    nodes: Vec<Node<'a>>,
}
thread_local! {
    static REFUSE: std::cell::RefCell<(usize, ErrorKind)> = const { std::cell::RefCell::new((0, ErrorKind::Utf8)) };
}
impl Default for Choosy<'_> {
    fn default() -> Self {
        Choosy { nodes: vec![] }
    }
}
impl<'a> AsRef<[Node<'a>]> for Choosy<'a> {
    fn as_ref(&self) -> &[Node<'a>] {
        &self.nodes
    }
}
impl<'a> AsMut<[Node<'a>]> for Choosy<'a> {
    fn as_mut(&mut self) -> &mut [Node<'a>] {
        &mut self.nodes
    }
}
impl<'a> IntoIterator for Choosy<'a> {
    type Item = Node<'a>;
    type IntoIter = std::vec::IntoIter<Node<'a>>;
    fn into_iter(self) -> Self::IntoIter {
        self.nodes.into_iter()
    }
}
impl<'a> NodeCollection<'a> for Choosy<'a> {
    fn push(&mut self, node: Node<'a>) -> Result<(), ErrorKind> {
        REFUSE.with(|r| {
            let r = r.borrow();
            if self.nodes.len() + 1 == r.0 {
                Err(r.1.clone())
            } else {
                self.nodes.push(node);
                Ok(())
            }
        })
    }
}

fn all_kinds() -> Vec<ErrorKind> {
    vec![
        ErrorKind::Utf8,
        ErrorKind::UnexpectedEof,
        ErrorKind::ExpectedObjectKey,
        ErrorKind::ExpectedColon,
        ErrorKind::ExpectedValue,
        ErrorKind::ExpectedCommaOrEndOfObject,
        ErrorKind::ExpectedCommaOrEndOfArray,
        ErrorKind::IllegalTrailingComma,
        ErrorKind::Unexpected(b'#'),
        ErrorKind::TrailingNonWhitespace,
        ErrorKind::ObjectKeysMustBeStrings,
        ErrorKind::ExpectedExponent,
        ErrorKind::ExpectedDecimalDigit,
        ErrorKind::ExpectedDigit,
        ErrorKind::InvalidHexadecimal,
        ErrorKind::InvalidEscape,
        ErrorKind::UnclosedObject,
        ErrorKind::UnclosedArray,
        ErrorKind::UnclosedString,
        ErrorKind::ExpectedString,
        ErrorKind::ExpectedNumber,
        ErrorKind::RecursionLimitReached,
        ErrorKind::PayloadsShouldBeObjectOrArray,
        ErrorKind::PaylodTooLarge,
    ]
}

fn capacity(c: &Case, utf8: Option<&str>) -> Result<(), String> {
    let input = &c.input[..];
    let need = c.ev.iter().filter(|e| pushes(e)).count();
    let flat = if c.ok {
        let mut f = vec![];
        flatten(&tree_of_events(&c.ev, input), &mut f);
        f
    } else {
        vec![]
    };
    let judge = |what: String, limit: usize, refusal: &str, r: Result<Vec<N>, NErr>| -> Result<(), String> {
        // `limit` nodes fit; the next one is refused with `refusal`
        if need > limit {
            match r {
                Err(e) if e.kind == refusal => ensure(e.off <= input.len(), || format!("{what}: offset {}", e.off)),
                r => Err(format!("{what}: {} nodes, room for {limit}, but {:?} instead of {refusal}", need, r.map(|n| n.len()))),
            }
        } else {
            match r {
                Ok(n) => {
                    ensure(c.ok, || format!("{what} accepts a text the specification rejects"))?;
                    ensure(nodes_eq(&n, &flat, true), || format!("{what} lists other nodes"))
                }
                Err(e) => {
                    ensure(!c.ok, || format!("{what}: {need} nodes, room for {limit}, refused with {e:?}"))?;
                    err_ok(c, &e).map_err(|w| format!("{what}: {w}"))
                }
            }
        }
    };
    macro_rules! heap {
        ($($n:literal)*) => {$(
            judge(concat!("HeaplessDocument<", $n, ">::from_json_bytes_with_config").into(), $n, "PaylodTooLarge",
                HeaplessDocument::<$n>::from_json_bytes_with_config(input, c.cfg).map(|d| nodes(&d, input)).map_err(|e| nerr(&e)))?;
            if c.default {
                judge(concat!("HeaplessDocument<", $n, ">::from_json_bytes").into(), $n, "PaylodTooLarge",
                    HeaplessDocument::<$n>::from_json_bytes(input).map(|d| nodes(&d, input)).map_err(|e| nerr(&e)))?;
            }
            if let Some(st) = utf8 {
                judge(concat!("HeaplessDocument<", $n, ">::from_json_with_config").into(), $n, "PaylodTooLarge",
                    HeaplessDocument::<$n>::from_json_with_config(st, c.cfg).map(|d| nodes(&d, input)).map_err(|e| nerr(&e)))?;
                if c.default {
                    judge(concat!("HeaplessDocument<", $n, ">::from_json").into(), $n, "PaylodTooLarge",
                        HeaplessDocument::<$n>::from_json(st).map(|d| nodes(&d, input)).map_err(|e| nerr(&e)))?;
                }
            }
        )*};
    }
    heap!(0 1 2 3 4 5 6 7 8 9 10 12 16 24);
    if need > 200 {
        heap!(255 256 257 1000 4095 4096 4097 65536);
    }
    let kinds = all_kinds();
    for k in places(need + 1).into_iter().map(|k| k + 1) {
        // every kind at every position would be much of the same: rotate
        for (i, kind) in kinds.iter().enumerate() {
            if need > 3 && (i + k + need) % (if need > 1000 { 23 } else { 5 }) != 0 {
                continue;
            }
            let (name, byte) = kind_name(kind);
            let run = |r: Result<GenericDocument<'_, Choosy<'_>>, justjson::Error>, what: &str| -> Result<(), String> {
                if let Err(e) = &r {
                    let n = nerr(e);
                    if k <= need {
                        ensure(n.byte == byte, || format!("{what}: the refusal's byte became {}", n.byte))?;
                    }
                }
                let r = r.map(|d| nodes(&d, input)).map_err(|e| nerr(&e));
                judge(format!("{what} refusing node {k} with {name}"), k - 1, &name, if k > need { r } else { r })
            };
            REFUSE.with(|r| *r.borrow_mut() = (k, kind.clone()));
            run(GenericDocument::from_json_bytes_with_config(input, c.cfg), "GenericDocument::from_json_bytes_with_config")?;
            if c.default {
                run(GenericDocument::from_json_bytes(input), "GenericDocument::from_json_bytes")?;
            }
            if let Some(st) = utf8 {
                run(GenericDocument::from_json_with_config(st, c.cfg), "GenericDocument::from_json_with_config")?;
                if c.default {
                    run(GenericDocument::from_json(st), "GenericDocument::from_json")?;
                }
            }
        }
    }
    Ok(())
}

/// "C": a history of a configuration; the fields it ends in and the verdicts
/// of parsers configured with it
pub fn config_history(ctx: &mut Ctx, v: &J) {
    let want = v.get("c");
    let probes: Vec<Vec<u8>> = v.get("p").arr().iter().map(|p| p.bytes()).collect();
    let verdicts = v.get("v").arr();
    ctx.judge("config", || {
        let mut c = ParseConfig::new();
        for (n, o) in v.get("h").arr().iter().enumerate() {
            let a = o.at(1).int();
            let lim = if a < 0 { None } else { Some(a as usize) };
            c = match o.at(0).str() {
                "new" => ParseConfig::new(),
                "default" => ParseConfig::default(),
                "strict" => ParseConfig::strict(),
                "unlimited" => c.without_recursion_limit(),
                "limit" => c.with_recursion_limit(a as usize),
                "roots" => c.allowing_all_types_at_root(a == 1),
                "commas" => c.allowing_trailing_commas(),
                "copy" => {
                    #[allow(clippy::clone_on_copy)]
                    let d = c.clone();
                    ensure(d == c, || format!("step {}: a copy differs", n + 1))?;
                    d
                }
                name => {
                    let mut d = c;
                    match name {
                        "setlimit" => d.recursion_limit = lim,
                        "setroots" => d.allow_all_types_at_root = a == 1,
                        _ => d.allow_trailing_commas = a == 1,
                    }
                    d
                }
            };
        }
        let lim = want.at(1).int();
        let fields = (c.allow_trailing_commas, c.recursion_limit.map_or(-1, |l| l as i64), c.allow_all_types_at_root);
        ensure(fields == (want.at(0).bool(), lim, want.at(2).bool()), || {
            format!("the configuration has (trailing commas, limit, all roots) = {fields:?} instead of {}", want.text())
        })?;
        ensure(c == config(want), || "configurations with the same fields are not equal".into())?;
        for (p, ok) in probes.iter().zip(verdicts) {
            for o in entries(p, &c, is_default(want), p.len() <= CAP, &any) {
                ensure(o.res.is_ok() == ok.bool(), || {
                    format!("{} {:?}, but {:?} is {}", o.name, o.res, String::from_utf8_lossy(p), if ok.bool() { "accepted" } else { "refused" })
                })?;
            }
        }
        Ok(())
    });
}

/// the text of a walk and where its opening brackets are
fn walk_text(moves: &[J], style: usize) -> (String, Vec<usize>) {
    fn open(t: &mut String, stack: &mut Vec<(bool, bool)>, at: &mut Vec<usize>, style: usize) {
        if let Some(top) = stack.last_mut() {
            if top.1 {
                t.push(',');
            }
            top.1 = true;
            if top.0 {
                t.push_str("\"k\":");
            }
        }
        let obj = match style {
            0 => false,
            1 => true,
            _ => at.len() % 3 == 1,
        };
        at.push(t.len());
        t.push(if obj { '{' } else { '[' });
        stack.push((obj, false));
    }
    fn close(t: &mut String, stack: &mut Vec<(bool, bool)>) {
        let top = stack.pop().expect("vector: a walk closes what it opened");
        t.push(if top.0 { '}' } else { ']' });
    }
    let (mut t, mut stack, mut at) = (String::new(), vec![], vec![]);
    for m in moves {
        for _ in 0..m.at(1).us() {
            match m.at(0).str() {
                "push" => open(&mut t, &mut stack, &mut at, style),
                "pop" => close(&mut t, &mut stack),
                _ => {
                    open(&mut t, &mut stack, &mut at, style);
                    close(&mut t, &mut stack);
                }
            }
        }
    }
    while !stack.is_empty() {
        close(&mut t, &mut stack);
    }
    (t, at)
}

/// vectors of kind "L": the nesting limit on walks of any size
pub fn walk(ctx: &mut Ctx, v: &J) {
    let lim = v.get("lim").int();
    let bad = v.get("bad").us();
    let mut cfg = ParseConfig::new();
    cfg.recursion_limit = usize::try_from(lim).ok();
    ctx.judge("nest", || {
        for style in 0..3 {
            let (t, at) = walk_text(v.get("w").arr(), style);
            let b = t.as_bytes();
            let mut got: Vec<(&str, Result<(), NErr>)> = vec![
                ("validate_json_bytes_with_config", Parser::validate_json_bytes_with_config(b, cfg).map(drop).map_err(|e| nerr(&e))),
                ("validate_json_with_config", Parser::validate_json_with_config(&t, cfg).map(drop).map_err(|e| nerr(&e))),
                ("parse_json_with_config", rec_str(&t, &How::Config(&cfg), None).1),
            ];
            if lim == 128 {
                got.push(("validate_json_bytes", Parser::validate_json_bytes(b).map(drop).map_err(|e| nerr(&e))));
                got.push(("validate_json", Parser::validate_json(&t).map(drop).map_err(|e| nerr(&e))));
                got.push(("parse_json_bytes", rec_bytes(b, &How::Default, None).1));
            }
            #[cfg(feature = "full")]
            {
                let d = Document::from_json_with_config(&t, cfg);
                if let Ok(d) = &d {
                    let n = d.iter().filter(|n| matches!(n, Node::Array { .. } | Node::Object { .. })).count();
                    ensure(n == at.len(), || format!("the document of {} containers has {n}", at.len()))?;
                    let mut c = d.iter();
                    c.skip_next_value();
                    ensure(c.next().is_none(), || "skipping the root leaves nodes".into())?;
                }
                got.push(("Document::from_json_with_config", d.map(drop).map_err(|e| nerr(&e))));
                got.push(("Document::from_json_bytes_with_config", Document::from_json_bytes_with_config(b, cfg).map(drop).map_err(|e| nerr(&e))));
                got.push(("Value::from_json_with_config", Value::from_json_with_config(&t, cfg).map(drop).map_err(|e| nerr(&e))));
                got.push(("Value::from_json_bytes_with_config", Value::from_json_bytes_with_config(b, cfg).map(drop).map_err(|e| nerr(&e))));
            }
            for (name, r) in got {
                let what = || format!("{name}, limit {lim}, walk {} (style {style})", v.get("w").text());
                match r {
                    Ok(()) => ensure(bad == 0, || format!("{} is accepted, but opening {bad} exceeds the limit", what()))?,
                    Err(e) => {
                        ensure(bad > 0, || format!("{} is refused with {e:?}", what()))?;
                        let hi = at[bad - 1];
                        // the end of the token before
                        let lo = t[..hi].rfind(|c| c != ' ').map_or(0, |p| p + 1);
                        ensure(e.kind == "RecursionLimitReached", || format!("{} is refused with {e:?}", what()))?;
                        ensure((lo..=hi).contains(&e.off), || format!("{}: the error is at {} instead of {lo}..={hi}", what(), e.off))?;
                    }
                }
            }
        }
        Ok(())
    });
}
