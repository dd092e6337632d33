//! Conversion between the exchange format and the types of the library.
use crate::mini::{cps, i, s, J};

use piston_meta::meta_rules::*;
use piston_meta::*;
use read_token::{ParseNumberError, ParseStringError};
use std::sync::Arc;

pub fn prop(j: &J) -> Option<Arc<String>> { j.arr().get(0).map(|n| Arc::new(n.text())) }
fn prop_j(p: &Option<Arc<String>>) -> J {
    J::Arr(p.iter().map(|n| cps(n)).collect())
}

/// Large ids do not fit the integers of the model checker.
pub fn id(n: usize) -> J { if n > 2_000_000_000 { J::Int(-1) } else { i(n) } }

pub fn rule(j: &J) -> Rule {
    let debug_id = j.get("id").or_int(0) as usize;
    let sub = |k: &str| rule(j.get(k));
    let args = || j.get("args").arr().iter().map(rule).collect::<Vec<_>>();
    let property = prop(j.get("prop"));
    match j.get("k").str() {
        "ws" => Rule::Whitespace(Whitespace { optional: j.get("opt").bool(), debug_id }),
        "tag" => Rule::Tag(Tag {
            text: Arc::new(j.get("text").text()),
            not: j.get("not").bool(),
            inverted: j.get("inv").bool(),
            property,
            debug_id,
        }),
        "ua" => Rule::UntilAny(UntilAny {
            any_characters: Arc::new(j.get("any").text()),
            optional: j.get("opt").bool(),
            property,
            debug_id,
        }),
        "uaw" => Rule::UntilAnyOrWhitespace(UntilAnyOrWhitespace {
            any_characters: Arc::new(j.get("any").text()),
            optional: j.get("opt").bool(),
            property,
            debug_id,
        }),
        "text" => Rule::Text(Text { allow_empty: j.get("empty").bool(), property, debug_id }),
        "num" => Rule::Number(Number { property, debug_id, allow_underscore: j.get("us").bool() }),
        "sel" => Rule::Select(Select { args: args(), debug_id }),
        "seq" => Rule::Sequence(Sequence { args: args(), debug_id }),
        "sep" => Rule::SeparateBy(Box::new(SeparateBy {
            rule: sub("rule"),
            by: sub("by"),
            optional: j.get("opt").bool(),
            allow_trail: j.get("trail").bool(),
            debug_id,
        })),
        "rep" => Rule::Repeat(Box::new(Repeat { rule: sub("rule"), optional: j.get("opt").bool(), debug_id })),
        "lines" => Rule::Lines(Box::new(Lines { rule: sub("rule"), indent: j.get("indent").bool(), debug_id })),
        "node" => Rule::Node(Node {
            name: Arc::new(j.get("name").text()),
            property,
            debug_id,
            index: match j.get("idx").or_int(0) { 0 => None, n => Some(n as usize - 1) },
        }),
        "opt" => Rule::Optional(Box::new(Optional { rule: sub("rule"), debug_id })),
        "not" => Rule::Not(Box::new(Not { rule: sub("rule"), debug_id })),
        "fast" => {
            let mut table = [255u8; 256];
            for e in j.get("table").arr() { table[e.arr()[0].usize()] = e.arr()[1].int() as u8; }
            Rule::FastSelect(Box::new(FastSelect { table, args: args(), tail: j.get("tail").bool(), debug_id }))
        }
        k => panic!("harness: unknown rule {}", k),
    }
}

pub fn rule_j(r: &Rule) -> J {
    let args = |v: &[Rule]| J::Arr(v.iter().map(rule_j).collect());
    match *r {
        Rule::Whitespace(ref x) => obj! {"k" => s("ws"), "opt" => J::Bool(x.optional), "id" => id(x.debug_id)},
        Rule::Tag(ref x) => obj! {"k" => s("tag"), "text" => cps(&x.text), "not" => J::Bool(x.not),
            "inv" => J::Bool(x.inverted), "prop" => prop_j(&x.property), "id" => id(x.debug_id)},
        Rule::UntilAny(ref x) => obj! {"k" => s("ua"), "any" => cps(&x.any_characters),
            "opt" => J::Bool(x.optional), "prop" => prop_j(&x.property), "id" => id(x.debug_id)},
        Rule::UntilAnyOrWhitespace(ref x) => obj! {"k" => s("uaw"), "any" => cps(&x.any_characters),
            "opt" => J::Bool(x.optional), "prop" => prop_j(&x.property), "id" => id(x.debug_id)},
        Rule::Text(ref x) => obj! {"k" => s("text"), "empty" => J::Bool(x.allow_empty),
            "prop" => prop_j(&x.property), "id" => id(x.debug_id)},
        Rule::Number(ref x) => obj! {"k" => s("num"), "us" => J::Bool(x.allow_underscore),
            "prop" => prop_j(&x.property), "id" => id(x.debug_id)},
        Rule::Select(ref x) => obj! {"k" => s("sel"), "args" => args(&x.args), "id" => id(x.debug_id)},
        Rule::FastSelect(ref x) => obj! {"k" => s("fast"), "args" => args(&x.args), "id" => id(x.debug_id),
            "tail" => J::Bool(x.tail),
            "table" => J::Arr(x.table.iter().enumerate().filter(|(_, &v)| v != 255)
                .map(|(n, &v)| J::Arr(vec![i(n), i(v as usize)])).collect())},
        Rule::Sequence(ref x) => obj! {"k" => s("seq"), "args" => args(&x.args), "id" => id(x.debug_id)},
        Rule::SeparateBy(ref x) => obj! {"k" => s("sep"), "rule" => rule_j(&x.rule), "by" => rule_j(&x.by),
            "opt" => J::Bool(x.optional), "trail" => J::Bool(x.allow_trail), "id" => id(x.debug_id)},
        Rule::Repeat(ref x) => obj! {"k" => s("rep"), "rule" => rule_j(&x.rule), "opt" => J::Bool(x.optional),
            "id" => id(x.debug_id)},
        Rule::Lines(ref x) => obj! {"k" => s("lines"), "rule" => rule_j(&x.rule), "indent" => J::Bool(x.indent),
            "id" => id(x.debug_id)},
        Rule::Node(ref x) => obj! {"k" => s("node"), "name" => cps(&x.name), "prop" => prop_j(&x.property),
            "idx" => match x.index { None => i(0), Some(n) => i(n + 1) }, "id" => id(x.debug_id)},
        Rule::Optional(ref x) => obj! {"k" => s("opt"), "rule" => rule_j(&x.rule), "id" => id(x.debug_id)},
        Rule::Not(ref x) => obj! {"k" => s("not"), "rule" => rule_j(&x.rule), "id" => id(x.debug_id)},
    }
}

/// A grammar: its rules and, if given, their names.
pub fn grammar_of(j: &J) -> Syntax {
    let mut res = Syntax::new();
    let names = j.get("names").arr();
    for (n, r) in j.get("rules").arr().iter().enumerate() {
        let name = names.get(n).map(|x| x.text()).unwrap_or_else(|| format!("n{}", n + 1));
        res.push(Arc::new(name), rule(r));
    }
    res
}
pub fn syntax_j(x: &Syntax) -> (J, J) {
    (J::Arr(x.rules.iter().map(rule_j).collect()), J::Arr(x.names.iter().map(|n| cps(n)).collect()))
}

/// Shortest decimal notation of a number: sign, digits without trailing zero, exponent.
pub fn f64_j(v: f64) -> J {
    if !v.is_finite() { return J::Arr(vec![i(if v.is_nan() { 4 } else if v > 0.0 { 2 } else { 3 }), i(0), i(0)]); }
    // Nine significant digits: the last ones of the real value are rounding.
    let t = format!("{:.8e}", v);
    let (neg, t) = match t.strip_prefix('-') { Some(r) => (1, r.to_string()), None => (0, t) };
    let (m, e) = t.split_once('e').unwrap();
    let mut e: i64 = e.parse().unwrap();
    let mut digits = String::new();
    match m.split_once('.') {
        Some((a, b)) => { digits.push_str(a); digits.push_str(b); e -= b.len() as i64; }
        None => digits.push_str(m),
    }
    while digits.len() > 1 && digits.ends_with('0') { digits.pop(); e += 1; }
    if digits == "0" { e = 0; }
    J::Arr(vec![i(neg), J::Int(digits.parse().unwrap()), J::Int(e)])
}
pub fn f64_of(j: &J) -> f64 {
    let a = j.arr();
    match a[0].int() {
        2 => f64::INFINITY,
        3 => -f64::INFINITY,
        4 => f64::NAN,
        n => format!("{}{}e{}", if n == 1 { "-" } else { "" }, a[1].int(), a[2].int()).parse().unwrap(),
    }
}

/// All digits of a number: sign, exponent, digits.
fn exact_f64(d: &J) -> f64 {
    let a = d.arr();
    let digits: String = a[2..].iter().map(|x| x.int().to_string()).collect();
    let digits = if digits.is_empty() { "0".to_string() } else { digits };
    format!("{}{}e{}", if a[0].int() == 1 { "-" } else { "" }, digits, a[1].int()).parse().unwrap()
}

pub fn item(j: &J) -> Range<MetaData> {
    let n = Arc::new(j.get("n").text());
    let v = j.get("v");
    let d = match j.get("t").str() {
        "start" => MetaData::StartNode(n),
        "end" => MetaData::EndNode(n),
        "bool" => MetaData::Bool(n, v.arr()[0].bool()),
        "f64" => MetaData::F64(n, match j.get("d") { J::Null => f64_of(v), d => exact_f64(d) }),
        "str" => MetaData::String(n, Arc::new(v.text())),
        k => panic!("harness: unknown item {}", k),
    };
    let o = j.get("o").or_int(0) as usize;
    let e = j.get("e").or_int(0) as usize;
    Range::new(o, e - o).wrap(d)
}
pub fn items(j: &J) -> Vec<Range<MetaData>> { j.arr().iter().map(item).collect() }

pub fn item_j(d: &Range<MetaData>) -> J {
    let (t, n, v) = match d.data {
        MetaData::StartNode(ref n) => ("start", n, J::Arr(vec![])),
        MetaData::EndNode(ref n) => ("end", n, J::Arr(vec![])),
        MetaData::Bool(ref n, v) => ("bool", n, J::Arr(vec![i(v as usize)])),
        MetaData::F64(ref n, v) => ("f64", n, f64_j(v)),
        MetaData::String(ref n, ref v) => ("str", n, cps(v)),
    };
    obj! {"t" => s(t), "n" => cps(n), "v" => v, "o" => num(d.offset), "e" => num(d.offset.saturating_add(d.length))}
}
/// Offsets of broken results may be anything: keep them representable.
pub fn num(n: usize) -> J { if n > 1_000_000_000 { J::Int(1_000_000_000) } else { i(n) } }
pub fn items_j(v: &[Range<MetaData>]) -> J { J::Arr(v.iter().map(item_j).collect()) }

pub fn err_j(e: &Range<ParseError>) -> J {
    let none = J::Arr(vec![]);
    let (k, d, x) = match e.data {
        ParseError::ExpectedWhitespace(d) => ("ExpectedWhitespace", d, none),
        ParseError::ExpectedNewLine(d) => ("ExpectedNewLine", d, none),
        ParseError::ExpectedSomething(d) => ("ExpectedSomething", d, none),
        ParseError::ExpectedNumber(d) => ("ExpectedNumber", d, none),
        ParseError::ParseNumberError(ref w, d) => (match *w {
            ParseNumberError::ExpectedDigits => "ExpectedDigits",
            ParseNumberError::Invalid => "Invalid",
            ParseNumberError::OverflowInfinity => "OverflowInfinity",
            ParseNumberError::OverflowNegInfinity => "OverflowNegInfinity",
        }, d, none),
        ParseError::ExpectedText(d) => ("ExpectedText", d, none),
        ParseError::EmptyTextNotAllowed(d) => ("EmptyTextNotAllowed", d, none),
        ParseError::ParseStringError(ref w, d) => (match *w {
            ParseStringError::ExpectedFourHexadecimals => "ExpectedFourHexadecimals",
            ParseStringError::ExpectedHexadecimal => "ExpectedHexadecimal",
            ParseStringError::ExpectedValidUnicode => "ExpectedValidUnicode",
            ParseStringError::ExpectedValidEscapeCharacter => "ExpectedValidEscapeCharacter",
        }, d, none),
        ParseError::ExpectedTag(ref t, d) => ("ExpectedTag", d, cps(t)),
        ParseError::DidNotExpectTag(ref t, d) => ("DidNotExpectTag", d, cps(t)),
        ParseError::InvalidRule(_, d) => ("InvalidRule", d, none),
        ParseError::NoRules => ("NoRules", 0, none),
        ParseError::ExpectedEnd => ("ExpectedEnd", 0, none),
        ParseError::Conversion(ref m) => ("Conversion", 0, cps(m)),
    };
    obj! {"k" => s(k), "o" => num(e.offset), "e" => num(e.offset.saturating_add(e.length)), "id" => id(d), "x" => x}
}
pub fn no_err() -> J {
    obj! {"k" => s("none"), "o" => i(0), "e" => J::Int(-1), "id" => i(0), "x" => J::Arr(vec![])}
}
pub fn err_of(j: &J) -> Range<ParseError> {
    let d = j.get("id").or_int(0) as usize;
    let x = || Arc::new(j.get("x").text());
    let e = match j.get("k").str() {
        "ExpectedWhitespace" => ParseError::ExpectedWhitespace(d),
        "ExpectedNewLine" => ParseError::ExpectedNewLine(d),
        "ExpectedSomething" => ParseError::ExpectedSomething(d),
        "ExpectedNumber" => ParseError::ExpectedNumber(d),
        "ExpectedText" => ParseError::ExpectedText(d),
        "EmptyTextNotAllowed" => ParseError::EmptyTextNotAllowed(d),
        "ExpectedTag" => ParseError::ExpectedTag(x(), d),
        "DidNotExpectTag" => ParseError::DidNotExpectTag(x(), d),
        "NoRules" => ParseError::NoRules,
        "ExpectedEnd" => ParseError::ExpectedEnd,
        "Invalid" => ParseError::ParseNumberError(ParseNumberError::Invalid, d),
        "ExpectedDigits" => ParseError::ParseNumberError(ParseNumberError::ExpectedDigits, d),
        "ExpectedHexadecimal" => ParseError::ParseStringError(ParseStringError::ExpectedHexadecimal, d),
        "ExpectedFourHexadecimals" => ParseError::ParseStringError(ParseStringError::ExpectedFourHexadecimals, d),
        "ExpectedValidUnicode" => ParseError::ParseStringError(ParseStringError::ExpectedValidUnicode, d),
        "ExpectedValidEscapeCharacter" => ParseError::ParseStringError(ParseStringError::ExpectedValidEscapeCharacter, d),
        "InvalidRule" => ParseError::InvalidRule("bad", d),
        "Conversion" => ParseError::Conversion((*x()).clone()),
        k => panic!("harness: unknown error {}", k),
    };
    let o = j.get("o").usize();
    Range::new(o, j.get("e").usize() - o).wrap(e)
}
