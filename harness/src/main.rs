//! Runs cases against the real library and prints what was observed.
//!
//!   mbt exec GRAMMARS CASES FROM TO   one observation per line, "<index> <json>"
//!   mbt one CASE                      a single case with its grammar inline
//!
//! A case that crashes or does not return is noticed by the driver.
#[macro_use]
mod mini;
mod conv;

use conv::*;
use mini::{cps, i, s, J};
use piston_meta::bootstrap::{self, Convert};
use piston_meta::meta_rules::IndentSettings;
use piston_meta::tokenizer::TokenizerState;
use piston_meta::{load_syntax_data, parse, parse_errstr, parse_errstr_with_indent, parse_with_indent, syntax, syntax_errstr, MetaData, ParseError, ParseErrorHandler, Range, Syntax};
use piston_meta_search::Search;
use read_token::ReadToken;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Barrier, Condvar, Mutex};

struct Grammar {

    plain: Syntax,
    fast: Option<Syntax>,
    faster: Option<Syntax>,
}

fn grammar(j: &J) -> Grammar {
    Grammar { plain: grammar_of(j), fast: None, faster: None }
}

impl Grammar {
    /// The grammar as given (0), optimized (1), optimized twice (2).
    fn level(&mut self, n: i64) -> &Syntax {
        match n {
            0 => &self.plain,
            1 => {
                if self.fast.is_none() { self.fast = Some(self.plain.clone().optimize()); }
                self.fast.as_ref().unwrap()
            }
            _ => {
                if self.faster.is_none() {
                    self.faster = Some(self.plain.clone().optimize().optimize());
                }
                self.faster.as_ref().unwrap()
            }
        }
    }
}

fn indent(c: &J) -> IndentSettings {
    IndentSettings {
        indent: c.get("ind").or_int(0) as u32,
        align_first: if let J::Null = *c.get("align") { true } else { c.get("align").bool() },
        tab_spaces: c.get("tab").or_int(4) as u8,
    }
}

/// A collection with these items, as often as `times` says, and more on top;
/// with room to spare, or none.
fn collection(c: &J, field: &str) -> Vec<Range<MetaData>> {
    let xs = items(c.get(field));
    let times = c.get("pre_times").or_int(1) as usize;
    let mut out = Vec::with_capacity(xs.len() * times + c.get("room").or_int(0) as usize);
    for _ in 0..times { out.extend(xs.iter().cloned()); }
    out
}

/// Another one like it (a clone has no room to spare).
fn again(c: &J, xs: &[Range<MetaData>]) -> Vec<Range<MetaData>> {
    let mut out = Vec::with_capacity(xs.len() + c.get("room").or_int(0) as usize);
    out.extend(xs.iter().cloned());
    out
}

/// Result of a parse into a collection that already holds `pre`.
fn parse_result(res: Result<(), Range<ParseError>>, tokens: &[Range<MetaData>], pre: &[Range<MetaData>]) -> J {
    let kept = tokens.len() >= pre.len() && tokens[..pre.len()] == *pre;
    match res {
        Ok(()) => obj! {"r" => s("ok"), "pre" => J::Bool(kept),
            "items" => items_j(if kept { &tokens[pre.len()..] } else { tokens }), "err" => no_err()},
        Err(ref e) => obj! {"r" => s("err"), "pre" => J::Bool(kept), "items" => J::Arr(vec![]), "err" => err_j(e)},
    }
}

fn do_parse(c: &J, g: &Syntax) -> J {
    let text = c.get("t").text();
    let pre = collection(c, "pre");
    let mut tokens = again(c, &pre);
    let ind = indent(c);
    let plain = ind.indent == 0 && ind.align_first && ind.tab_spaces == 4;
    let res = if plain && !c.get("explicit").bool() { parse(g, &text, &mut tokens) }
        else { parse_with_indent(g, &text, &mut tokens, &ind) };
    let mut out = parse_result(res, &tokens, &pre);
    if c.get("errstr").bool() {
        let mut tokens = again(c, &pre);
        let res = if plain && !c.get("explicit").bool() { parse_errstr(g, &text, &mut tokens) }
            else { parse_errstr_with_indent(g, &text, &mut tokens, &ind) };
        let rep = match res {
            Ok(()) => J::Arr(vec![]),
            Err(m) => cps(&m),
        };
        if let J::Obj(ref mut v) = out { v.push(("rep".into(), rep)); }
    }
    out
}

/// A single rule, called in the middle of a document and of a collection.
fn do_rule(c: &J, g: &Syntax) -> J {
    let text = c.get("t").text();
    let at = text.char_indices().nth(c.get("at").or_int(0) as usize).map(|(n, _)| n).unwrap_or(text.len());
    let buf = items(c.get("buf"));
    let state = c.get("state").usize();
    let r = rule(c.get("rule"));
    let mut ind = indent(c);
    let mut tokens = buf.clone();
    let src = ReadToken::new(&text[at..], at);
    // The start of a document, as those who write their own loop begin it.
    let start = if state == 0 { TokenizerState::new() } else { TokenizerState(state) };
    let res = r.parse(&mut tokens, &start, &src, &g.rules, &mut ind);
    let kept = |tokens: &Vec<Range<MetaData>>| tokens.len() >= state && tokens[..state] == buf[..state];
    match res {
        Ok((range, TokenizerState(n), err)) => {
            let pre = kept(&tokens) && n >= state && n <= tokens.len();
            obj! {"r" => s("ok"), "pre" => J::Bool(pre), "o" => num(range.offset), "e" => num(range.next_offset()),
                "items" => items_j(if pre { &tokens[state..n] } else { &[] }),
                "err" => err.as_ref().map(err_j).unwrap_or_else(no_err), "ind" => num(ind.indent as usize)}
        }
        Err(ref e) => obj! {"r" => s("err"), "pre" => J::Bool(kept(&tokens)), "o" => i(0), "e" => i(0),
            "items" => J::Arr(vec![]), "err" => err_j(e), "ind" => num(ind.indent as usize)},
    }
}

fn syntax_result(res: Result<Syntax, Range<ParseError>>) -> J {
    match res {
        Ok(x) => {
            let (r, n) = syntax_j(&x);
            obj! {"r" => s("ok"), "rules" => r, "names" => n, "err" => no_err()}
        }
        Err(ref e) => obj! {"r" => s("err"), "rules" => J::Arr(vec![]), "names" => J::Arr(vec![]), "err" => err_j(e)},
    }
}

fn convert_result(data: &[Range<MetaData>]) -> J {
    let mut ignored = vec![];
    match bootstrap::convert(data, &mut ignored) {
        Ok(x) => {
            let (r, n) = syntax_j(&x);
            obj! {"r" => s("ok"), "rules" => r, "names" => n, "ignored" => J::Arr(ignored.iter()
                .map(|r| J::Arr(vec![num(r.offset), num(r.length)])).collect())}
        }
        Err(()) => obj! {"r" => s("err"), "rules" => J::Arr(vec![]), "names" => J::Arr(vec![]),
            "ignored" => J::Arr(vec![])},
    }
}

/// Grammar text to metadata with given rules, and on to rules.
fn do_meta(c: &J) -> J {
    let text = c.get("t").text();
    match c.get("with").str() {
        // What users call.
        "syntax" => {
            let mut out = syntax_result(syntax(&text));
            if c.get("errstr").bool() {
                let rep = match syntax_errstr(&text) { Ok(_) => J::Arr(vec![]), Err(m) => cps(&m) };
                if let J::Obj(ref mut v) = out { v.push(("rep".into(), rep)); }
            }
            out
        }
        // The two steps behind it, without optimization.
        "builtin" => {
            let mut tokens = vec![];
            match parse(&bootstrap::rules(), &text, &mut tokens) {
                Ok(()) => {
                    let mut out = convert_result(&tokens);
                    if let J::Obj(ref mut v) = out {
                        v.push(("err".into(), no_err()));
                        v.push(("items".into(), items_j(&tokens)));
                    }
                    out
                }
                Err(ref e) => obj! {"r" => s("rej"), "rules" => J::Arr(vec![]), "names" => J::Arr(vec![]),
                    "ignored" => J::Arr(vec![]), "err" => err_j(e), "items" => J::Arr(vec![])},
            }
        }
        k => panic!("harness: unknown {}", k),
    }
}

/// Reads `text` with the grammar compiled from `lang`, itself read by the
/// built-in rules, or by the grammar compiled from `meta`.
fn do_boot(c: &J) -> J {
    let fix = c.get("op").str() == "fix";
    let mut before = J::Arr(vec![]);
    let file = |k: &str| std::fs::read_to_string(c.get(k).str()).expect("harness: file");
    // A chain of self descriptions: each compiled by the one before.
    let mut g = bootstrap::rules();
    if c.get("fast").bool() { g = g.optimize(); }
    for f in c.get("chain").arr() {
        let src = std::fs::read_to_string(f.str()).expect("harness: file");
        let mut tokens = vec![];
        if let Err(ref e) = parse(&g, &src, &mut tokens) {
            return obj! {"r" => s("chain"), "at" => f.clone(), "err" => err_j(e)};
        }
        if fix { before = syntax_j(&g).0; }
        let mut ignored = vec![];
        g = match bootstrap::convert(&tokens, &mut ignored) {
            Ok(x) => x,
            Err(()) => return obj! {"r" => s("chain"), "at" => f.clone(), "err" => no_err()},
        };
        if ignored.len() > 0 { return obj! {"r" => s("chain"), "at" => f.clone(), "err" => no_err()}; }
        if c.get("fast").bool() { g = g.optimize(); }
    }
    if fix { return obj! {"r" => s("ok"), "rules" => syntax_j(&g).0, "before" => before}; }
    let text = if let J::Null = *c.get("file") { c.get("t").text() } else { file("file") };
    let mut tokens = vec![];
    match parse(&g, &text, &mut tokens) {
        Ok(()) => obj! {"r" => s("ok"), "items" => items_j(&tokens), "err" => no_err()},
        Err(ref e) => obj! {"r" => s("err"), "items" => J::Arr(vec![]), "err" => err_j(e)},
    }
}

/// What users do: compile grammar text, then read documents.
fn do_run(c: &J) -> J {
    let g = match syntax(&c.get("gt").text()) {
        Ok(g) => g,
        Err(ref e) => return obj! {"r" => s("err"), "err" => err_j(e), "docs" => J::Arr(vec![])},
    };
    obj! {"r" => s("ok"), "docs" => J::Arr(c.get("docs").arr().iter().map(|t| {
        let mut tokens = vec![];
        let res = parse(&g, &t.text(), &mut tokens);
        parse_result(res, &tokens, &[])
    }).collect())}
}

/// A writer that takes a few bytes at a time, and then no more.
struct Narrow { got: Vec<u8>, room: usize, chunk: usize, calls: usize }
impl Write for Narrow {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        use std::io::{Error, ErrorKind};
        self.calls += 1;
        if self.calls % 3 == 0 && self.chunk % 2 == 1 { return Err(Error::new(ErrorKind::Interrupted, "again")); }
        if buf.len() > 0 && self.got.len() >= self.room { return Err(Error::new(ErrorKind::Other, "full")); }
        let n = buf.len().min(self.chunk).min(self.room - self.got.len());
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

/// What a narrow writer got: its bytes, and whether the call said that all went well.
fn narrow(c: &J, f: impl FnOnce(&mut Narrow) -> std::io::Result<()>) -> J {
    let mut w = Narrow { got: vec![], room: c.get("room").usize(), chunk: c.get("chunk").usize(), calls: 0 };
    let ok = f(&mut w).is_ok();
    obj! {"all" => J::Bool(ok), "bytes" => J::Arr(w.got.iter().map(|b| i(*b as usize)).collect())}
}

/// Standard output and error of this program, called with other arguments.
fn child(args: &[&str]) -> (bool, Vec<u8>, Vec<u8>) {
    let o = std::process::Command::new(std::env::current_exe().expect("harness: program")).args(args)
        .stdin(std::process::Stdio::null()).output().expect("harness: child");
    (o.status.success(), o.stdout, o.stderr)
}

/// What a call prints to standard output.
fn printed(c: &J) -> Vec<u8> {
    let f = std::env::temp_dir().join(format!("mbt-print-{}", std::process::id()));
    std::fs::write(&f, c.to_text()).expect("harness: file");
    let (ok, out, _) = child(&["print", f.to_str().unwrap()]);
    std::fs::remove_file(&f).expect("harness: file");
    if !ok { panic!("no success"); }
    out
}

/// Both texts from files; what is wrong is told on standard error.
fn do_load(c: &J) -> J {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let dir = std::env::temp_dir().join(format!("mbt-load-{}-{}", std::process::id(), n));
    std::fs::create_dir(&dir).expect("harness: directory");
    let (g, t) = (dir.join("g"), dir.join("t"));
    std::fs::write(&g, c.get("gt").text()).expect("harness: file");
    std::fs::write(&t, c.get("t").text()).expect("harness: file");
    let (ok, out, err) = child(&["load", g.to_str().unwrap(), t.to_str().unwrap()]);
    std::fs::remove_dir_all(&dir).expect("harness: directory");
    let text = |x: Vec<u8>| String::from_utf8(x).expect("no text");
    let rep = cps(&text(err));
    if ok {
        let mut o = mini::parse(&text(out));
        if let J::Obj(ref mut v) = o { v.push(("rep".into(), rep)); }
        return o;
    }
    // The error that is reported, and of which text.
    let (of, e) = match syntax(&c.get("gt").text()) {
        Err(e) => ("gt", e),
        Ok(x) => match parse(&x, &c.get("t").text(), &mut vec![]) {
            Err(e) => ("t", e),
            Ok(()) => return obj! {"r" => s("err"), "rep" => rep, "of" => s("none"), "err" => no_err()},
        }
    };
    obj! {"r" => s("err"), "rep" => rep, "of" => s(of), "err" => err_j(&e)}
}

fn do_json(c: &J) -> J {
    let data = items(c.get("data"));
    let w = if c.get("print").bool() { printed(c) } else {
        let mut w = Busy(vec![]);
        piston_meta::json::write(&mut w, &data).expect("harness: write");
        w.0
    };
    let part = if let J::Null = *c.get("room") { J::Arr(vec![]) } else { narrow(c, |w| piston_meta::json::write(w, &data)) };
    match String::from_utf8(w) {
        Ok(t) => obj! {"r" => s("ok"), "out" => cps(&t), "part" => part},
        Err(_) => obj! {"r" => s("utf8"), "out" => J::Arr(vec![]), "part" => part},
    }
}

fn do_report(c: &J) -> J {
    let text = c.get("t").text();
    let mut h = ParseErrorHandler::new(&text);
    // Reports made before do not matter.
    for e in c.get("past").arr() {
        h.write(&mut Vec::new(), err_of(e)).expect("harness: write");
        h.write_msg(&mut Vec::new(), err_of(e).range(), "past").expect("harness: write");
    }
    let msg = if c.get("how").str() == "msg" { c.get("msg").text() } else { String::new() };
    fn tell<W: Write>(h: &mut ParseErrorHandler, w: &mut W, c: &J, msg: &str) -> std::io::Result<()> {
        let e = err_of(c.get("err"));
        if c.get("how").str() == "msg" { h.write_msg(w, e.range(), msg) } else { h.write(w, e) }
    }
    let mut w = Busy(vec![]);
    tell(&mut h, &mut w, c, &msg).expect("harness: write");
    let w = w.0;
    let part = if let J::Null = *c.get("room") { J::Arr(vec![]) } else { narrow(c, |w| tell(&mut h, w, c, &msg)) };
    match String::from_utf8(w) {
        Ok(t) => obj! {"r" => s("ok"), "out" => cps(&t), "part" => part},
        Err(_) => obj! {"r" => s("utf8"), "out" => J::Arr(vec![]), "part" => part},
    }
}

fn range_j(r: Range) -> J { J::Arr(vec![num(r.offset), num(r.length)]) }

/// A walk of the conversion cursor: every step reads, then moves on success.
fn do_cursor(c: &J) -> J {
    let data = items(c.get("data"));
    let start = Convert::new(&data);
    let mut cur = start;
    let mut marks = vec![start];
    let mut out = vec![];
    for st in c.get("script").arr() {
        let a = st.arr();
        let name = || a[1].text();
        let step: Option<(Range, J)> = match a[0].str() {
            "start" => cur.start_node(&name()).ok().map(|r| (r, J::Arr(vec![]))),
            "end" => cur.end_node(&name()).ok().map(|r| (r, J::Arr(vec![]))),
            "str" => cur.meta_string(&name()).ok().map(|(r, v)| (r, cps(&v))),
            "f64" => cur.meta_f64(&name()).ok().map(|(r, v)| (r, f64_j(v))),
            "bool" => cur.meta_bool(&name()).ok().map(|(r, v)| (r, J::Arr(vec![i(v as usize)]))),
            "ignore" => Some((cur.ignore(), J::Arr(vec![]))),
            k => panic!("harness: unknown {}", k),
        };
        let (ok, r, v) = match step {
            Some((r, v)) => { cur.update(r); (true, range_j(r), v) }
            None => (false, J::Arr(vec![]), J::Arr(vec![])),
        };
        // What was consumed since each earlier point of the walk.
        let since: Vec<J> = marks.iter().map(|m| J::Arr(vec![
            range_j(cur.subtract(*m)),
            cur.source(*m).map(range_j).unwrap_or(J::Arr(vec![])),
        ])).collect();
        marks.push(cur);
        out.push(obj! {"ok" => J::Bool(ok), "range" => r, "v" => v, "left" => i(cur.remaining_data_len()),
            "since" => J::Arr(since)});
    }
    obj! {"r" => s("ok"), "steps" => J::Arr(out)}
}

/// A walk of the search cursor.
fn do_search(c: &J) -> J {
    let data = items(c.get("data"));
    let mut out = vec![];
    let mut cur = Search::new(&data);
    fn pos<'a>(whole: &[Range<MetaData>], x: &Search<'a>) -> J {
        // The cursor always is a suffix of the data.
        let suffix = x.data.len() <= whole.len()
            && (x.data.len() == 0 || x.data.as_ptr() == whole[whole.len() - x.data.len()..].as_ptr());
        obj! {"at" => if suffix { i(whole.len() - x.data.len()) } else { J::Int(-1) },
            "range" => x.range.map(|r| J::Arr(vec![num(r.offset), num(r.length)])).unwrap_or(J::Arr(vec![]))}
    }
    let fails = match c.get("fail") { J::Null => vec![], l => l.arr().iter().map(|x| x.int() as usize).collect() };
    for (step, st) in c.get("script").arr().iter().enumerate() {
        let a = st.arr();
        let name = a[1].text();
        let err = |e: Range<ParseError>| err_j(&e);
        let fail = fails.contains(&(step + 1));
        // Result of a step: value or error, and for searches the inner cursor.
        let (ok, v, e, inner, enter): (bool, J, J, J, Option<Search>) = {
            let none = || J::Arr(vec![]);
            let read = |r: Result<J, Range<ParseError>>| match r {
                Ok(v) => (true, v, no_err(), J::Arr(vec![]), None),
                Err(e) => (false, J::Arr(vec![]), err(e), J::Arr(vec![]), None),
            };
            macro_rules! find {
                ($m:ident ( $($x:expr),* )) => {{
                    let whole = &data;
                    let tmp = Search { range: cur.range, data: cur.data };
                    let found = leak(tmp).$m($($x,)* |inner| {
                        during();
                        // What to do with what was found may fail.
                        if fail { Err(Range::new(123, 4).wrap(ParseError::ExpectedTag(Arc::new("mine".into()), 9))) } else { Ok(inner) }
                    });
                    match found {
                        Ok(inner) => {
                            let p = pos(whole, &inner);
                            (true, none(), no_err(), p, Some(inner))
                        }
                        Err(e) => (false, none(), err(e), none(), None),
                    }
                }};
            }
            match a[0].str() {
                "bool" => read(cur.bool(&name).map(|v| J::Arr(vec![i(v as usize)]))),
                "f64" => read(cur.f64(&name).map(f64_j)),
                "str" => read(cur.string(&name).map(|v| cps(&v))),
                "node" => read(cur.node(&name).map(|_| none())),
                "end" => read(cur.end_node(&name).map(|_| none())),
                "for_bool" => find!(for_bool(&name, a[2].arr()[0].bool())),
                "for_f64" => find!(for_f64(&name, f64_of(&a[2]))),
                "for_str" => find!(for_string(&name, &a[2].text())),
                "for_node" => find!(for_node(&name)),
                "for_end" => find!(for_end_node(&name)),
                k => panic!("harness: unknown {}", k),
            }
        };
        let after = pos(&data, &cur);
        out.push(obj! {"ok" => J::Bool(ok), "v" => v, "err" => e, "inner" => inner, "after" => after});
        // "in": continue with the cursor the search handed over.
        if a.last().map(|x| *x == s("in")).unwrap_or(false) {
            if let Some(x) = enter { cur = x; }
        }
    }
    obj! {"r" => s("ok"), "steps" => J::Arr(out)}
}
/// Search methods borrow the cursor for the lifetime of the data.
fn leak<'a>(x: Search<'a>) -> &'a Search<'a> { Box::leak(Box::new(x)) }

/// References of a grammar, some of them linked already.
fn do_refs(c: &J) -> J {
    let mut g = grammar_of(c.get("grammar"));
    piston_meta::meta_rules::update_refs(&mut g);
    let (r, n) = syntax_j(&g);
    obj! {"r" => s("ok"), "rules" => r, "names" => n}
}

fn do_optimize(c: &J, g: &mut Grammar) -> J {
    let (r, n) = syntax_j(g.level(c.get("opt").or_int(1)));
    obj! {"r" => s("ok"), "rules" => r, "names" => n}
}

thread_local! {
    /// What to do while a call is busy: at the nth time it calls back; and what came of it.
    static DURING: std::cell::RefCell<(i64, Option<Box<dyn FnOnce() -> J>>, J)> = std::cell::RefCell::new((0, None, J::Null));
}

/// A call calls back: the time to do something else.
fn during() {
    let todo = DURING.with(|d| {
        let mut d = d.borrow_mut();
        d.0 -= 1;
        if d.0 <= 0 { d.1.take() } else { None }
    });
    if let Some(f) = todo {
        let o = f();
        DURING.with(|d| d.borrow_mut().2 = o);
    }
}

/// A writer that calls back.
struct Busy(Vec<u8>);
impl Write for Busy {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> { during(); self.0.write(buf) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

/// One call of a history.
fn call(st: &J, shared: &[Arc<Syntax>], tokens: &mut Vec<Range<MetaData>>) -> J {
    // Calls that are repeated have to go on giving the same.
    for _ in 1..st.get("times").or_int(1) {
        match st.get("do").str() {
            "compile" => drop(syntax(&st.get("t").text())),
            "parse" => drop(parse(&shared[st.get("g").usize() - 1], &st.get("t").text(), &mut vec![])),
            _ => (),
        }
    }
    match st.get("do").str() {
        "run" => do_run(st),
        "compile" => syntax_result(syntax(&st.get("t").text())),
        "parse" => do_parse(st, &shared[st.get("g").usize() - 1]),
        "into" => {
            let pre = tokens.clone();
            let text = st.get("t").text();
            let res = parse(&shared[st.get("g").usize() - 1], &text, tokens);
            let o = parse_result(res, &tokens, &pre);
            // A failed parse may leave unfinished items behind.
            if o.get("r").str() == "err" { tokens.truncate(pre.len()); }
            o
        }
        // Another operation, and maybe calls while it is busy.
        "case" => {
            if let J::Null = *st.get("within") { return run(st.get("case"), &mut vec![]); }
            let (list, again) = (st.get("within").clone(), shared.to_vec());
            let inner = Box::new(move || J::Arr(list.arr().iter().map(|x| call(x, &again, &mut vec![])).collect()));
            DURING.with(|d| *d.borrow_mut() = (st.get("when").or_int(1), Some(inner), J::Null));
            let mut o = run(st.get("case"), &mut vec![]);
            DURING.with(|d| d.borrow_mut().0 = 0);
            during();   // at last
            let inside = DURING.with(|d| d.borrow().2.clone());
            if let J::Obj(ref mut v) = o { v.push(("within".into(), inside)); }
            o
        }
        k => panic!("harness: unknown {}", k),
    }
}

/// Calls on several threads: all at once, or in the given order (of thread numbers).
fn do_history(c: &J, all: &mut [Grammar]) -> J {
    let mut shared: Vec<Arc<Syntax>> = vec![];
    for g in c.get("gs").arr() {
        let a = g.arr();
        shared.push(Arc::new(all[a[0].usize() - 1].level(a[1].int()).clone()));
    }
    let before: Vec<String> = shared.iter().map(|x| syntax_text(x)).collect();
    let lists = c.get("threads").arr().to_vec();
    let order: Option<Vec<usize>> = match *c.get("order") { J::Null => None, ref l => Some(l.arr().iter().map(|x| x.usize()).collect()) };
    let barrier = Arc::new(Barrier::new(lists.len()));
    let turn = Arc::new((Mutex::new(0usize), Condvar::new()));
    // One collection for all, or one for each thread.
    let one = c.get("one").bool();
    let held = collection(c, "held");
    let common: Arc<Mutex<Vec<Range<MetaData>>>> = Arc::new(Mutex::new(again(c, &held)));
    let handles: Vec<_> = lists.into_iter().enumerate().map(|(me, list)| {
        let (shared, barrier, order, turn, common) = (shared.clone(), barrier.clone(), order.clone(), turn.clone(), common.clone());
        // Documents parsed one after another into the same collection.
        let mut mine = again(c, &held);
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            barrier.wait();
            let mut out = vec![];
            for st in list.arr() {
                if let Some(ref order) = order {
                    let mut t = turn.0.lock().unwrap();
                    while order[*t] != me + 1 { t = turn.1.wait(t).unwrap(); }
                }
                out.push(if one { call(st, &shared, &mut common.lock().unwrap()) } else { call(st, &shared, &mut mine) });
                if order.is_some() { *turn.0.lock().unwrap() += 1; turn.1.notify_all(); }
            }
            J::Arr(out)
        }).unwrap()
    }).collect();
    let mut res = vec![];
    for h in handles {
        res.push(match h.join() { Ok(x) => x, Err(_) => return obj! {"r" => s("panic")} });
    }
    let same = shared.iter().map(|x| syntax_text(x)).collect::<Vec<_>>() == before;
    obj! {"r" => s("ok"), "threads" => J::Arr(res), "same" => J::Bool(same)}
}
fn syntax_text(x: &Syntax) -> String { let (r, n) = syntax_j(x); r.to_text() + &n.to_text() }

fn run(c: &J, all: &mut Vec<Grammar>) -> J {
    let op = c.get("op").str();
    let g = c.get("g").or_int(0) as usize;
    let opt = c.get("opt").or_int(0);
    match op {
        "parse" => do_parse(c, all[g - 1].level(opt)),
        "rule" => do_rule(c, all[g - 1].level(opt)),
        "meta" => do_meta(c),
        "boot" | "fix" => do_boot(c),
        "run" => do_run(c),
        "load" => do_load(c),
        "convert" => convert_result(&items(c.get("data"))),
        "cursor" => do_cursor(c),
        "search" => do_search(c),
        "json" => do_json(c),
        "report" => do_report(c),
        "refs" => do_refs(c),
        "optimize" => do_optimize(c, &mut all[g - 1]),
        "history" => do_history(c, all),
        k => panic!("harness: unknown op {}", k),
    }
}

fn guarded(c: &J, all: &mut Vec<Grammar>) -> J {
    match catch_unwind(AssertUnwindSafe(|| run(c, all))) {
        Ok(x) => x,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
            // A mistake of the harness is not an observation.
            if m.starts_with("harness:") { eprintln!("{}", m); std::process::exit(9); }
            obj! {"r" => s("panic"), "msg" => s(&m)}
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let worker = std::thread::Builder::new().stack_size(256 << 20).spawn(move || match a[1].as_str() {
        "exec" => {
            let read = |p: &str| std::fs::read_to_string(p).expect("read");
            let mut all: Vec<Grammar> =
                read(&a[2]).lines().map(|l| grammar(&mini::parse(l))).collect();
            let cases = read(&a[3]);
            let (from, to): (usize, usize) = (a[4].parse().unwrap(), a[5].parse().unwrap());
            let out = std::io::stdout();
            for (n, l) in cases.lines().enumerate().skip(from).take(to - from) {
                let o = guarded(&mini::parse(l), &mut all);
                let mut out = out.lock();
                writeln!(out, "{} {}", n, o.to_text()).unwrap();
                out.flush().unwrap();
            }
        }
        "load" => {
            let x = load_syntax_data(&a[2], &a[3]);
            println!("{}", parse_result(Ok(()), &x, &[]).to_text());
        }
        "print" => {
            let c = mini::parse(&std::fs::read_to_string(&a[2]).expect("read"));
            piston_meta::json::print(&items(c.get("data")));
        }
        "one" => {
            let c = mini::parse(&std::fs::read_to_string(&a[2]).expect("read"));
            let mut all: Vec<Grammar> = c.get("grammars").arr().iter().map(grammar).collect();
            println!("{}", guarded(c.get("case"), &mut all).to_text());
        }
        k => panic!("unknown command {}", k),
    }).unwrap();
    if worker.join().is_err() { std::process::exit(9); }
    let _ = std::io::stdout().flush();

}
