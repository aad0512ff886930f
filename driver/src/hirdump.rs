//! stdin: one JSON string (a regex pattern) per line; stdout: per line the HIR of the pattern (as the
//! `regex` crate parses it by default) or {"err": message}.
use regex_syntax::hir::{Class, Hir, HirKind, Look};
use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn conv(h: &Hir) -> Value {
    match h.kind() {
        HirKind::Empty => json!(["cat", []]),
        HirKind::Literal(l) => match std::str::from_utf8(&l.0) {
            Ok(s) => json!(["lit", s]),
            Err(_) => json!(["badlit"]),
        },
        HirKind::Class(Class::Unicode(c)) => {
            let v: Vec<Value> = c.ranges().iter().map(|r| json!([r.start() as u32, r.end() as u32])).collect();
            json!(["class", v])
        }
        HirKind::Class(Class::Bytes(c)) => {
            let v: Vec<Value> = c.ranges().iter().map(|r| json!([r.start() as u32, r.end() as u32])).collect();
            json!(["class", v])
        }
        HirKind::Look(l) => json!(["look", match l {
            Look::Start => "start",
            Look::End => "end",
            Look::StartLF => "startlf",
            Look::EndLF => "endlf",
            Look::StartCRLF => "startcrlf",
            Look::EndCRLF => "endcrlf",
            Look::WordAscii => "wa",
            Look::WordAsciiNegate => "wan",
            Look::WordUnicode => "wu",
            Look::WordUnicodeNegate => "wun",
            Look::WordStartAscii => "wsa",
            Look::WordEndAscii => "wea",
            Look::WordStartUnicode => "wsu",
            Look::WordEndUnicode => "weu",
            Look::WordStartHalfAscii => "wsha",
            Look::WordEndHalfAscii => "weha",
            Look::WordStartHalfUnicode => "wshu",
            Look::WordEndHalfUnicode => "wehu",
        }]),
        HirKind::Repetition(r) => json!(["rep", r.min, r.max, r.greedy, conv(&r.sub)]),
        HirKind::Capture(c) => json!(["cap", c.index, c.name.as_deref(), conv(&c.sub)]),
        HirKind::Concat(v) => json!(["cat", v.iter().map(conv).collect::<Vec<_>>()]),
        HirKind::Alternation(v) => json!(["alt", v.iter().map(conv).collect::<Vec<_>>()]),
    }
}

fn main() {
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
    for line in stdin.lock().lines() {
        // a pattern, or [pattern, size limit or null, nest limit or null]
        let q: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let p = q.as_str().or_else(|| q[0].as_str()).unwrap().to_string();
        let mut builder = regex::RegexBuilder::new(&p);
        if let Some(n) = q[1].as_u64() {
            builder.size_limit(n as usize);
        }
        if let Some(n) = q[2].as_u64() {
            builder.nest_limit(n as u32);
        }
        let v = match regex_syntax::Parser::new().parse(&p) {
            // the engine rejects some patterns the parser accepts (size limit)
            Ok(h) => match builder.build() {
                Ok(_) => json!({"hir": conv(&h), "caps": h.properties().explicit_captures_len()}),
                Err(e) => json!({"err": e.to_string()}),
            },
            Err(e) => json!({"err": e.to_string()}),
        };
        writeln!(out, "{}", serde_json::to_string(&v).unwrap()).unwrap();
        out.flush().unwrap();
    }
}
