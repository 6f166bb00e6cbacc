// The file with `preprocess` is compiled here as it is; only the generated grammar is replaced by a stand-in.
extern crate num_bigint as num_bigint_dig;
use harness::*;
use program_structure::error_code::ReportCode;
#[allow(dead_code, unused)]
mod pl {
    pub mod lang {
        use program_structure::ast::AST;
        use program_structure::error_definition::Report;
        pub struct ParseAstParser;
        impl ParseAstParser {
            pub fn new() -> Self { ParseAstParser }
            pub fn parse<'a>(&self, _f: usize, _e: &mut Vec<Report>, _field: &num_bigint::BigInt, _n: bool, _s: &'a str)
                -> Result<AST, lalrpop_util::ParseError<usize, lalrpop_util::lexer::Token<'a>, &'static str>> { unimplemented!() }
        }
    }
    #[path = "/repo/parser/src/parser_logic.rs"]
    pub mod parser_logic;
}
/// reference: (text without comments, offset after the opening of an unclosed block comment)
fn clean(s: &str) -> (Vec<u8>, Option<usize>) {
    let b = s.as_bytes();
    let mut o = b.to_vec();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'/' && i + 1 < b.len() && b[i + 1] == b'/' {
            while i < b.len() && b[i] != b'\n' { o[i] = b' '; i += 1; }
        } else if b[i] == b'/' && i + 1 < b.len() && b[i + 1] == b'*' {
            let st = i + 2;
            let mut e = st;
            while e + 1 < b.len() && !(b[e] == b'*' && b[e + 1] == b'/') { e += 1; }
            if e + 1 >= b.len() { return (o, Some(st)); }
            for k in i..e + 2 { o[k] = b' '; }
            i = e + 2;
        } else { i += 1; }
    }
    (o, None)
}
fn one(s: &str, fid: usize) -> Result<bool, String> {
    let (want, open) = clean(s);
    match (pl::parser_logic::preprocess(s, fid), open) {
        (Ok(t), None) => {
            if t.len() != s.len() { return Err(format!("byte length {} becomes {}: {:?}", s.len(), t.len(), t)); }
            if t.as_bytes() != &want[..] { return Err(format!("got {:?}, expected {:?}", t, String::from_utf8_lossy(&want))); }
        }
        (Ok(t), Some(_)) => return Err(format!("an unclosed comment was accepted, giving {:?}", t)),
        (Err(_), None) => return Err("rejected although every comment is closed".into()),
        (Err(r), Some(at)) => {
            if r.len() != 1 || !matches!(r[0].get_code(), ReportCode::UnclosedComment) || !r[0].is_error() { return Err("wrong report for an unclosed comment".into()); }
            let p = r[0].get_primary();
            if p.len() != 1 || p[0].file_id != fid { return Err("report about the wrong file".into()); }
            if p[0].range.start != at { return Err(format!("unclosed comment opened just before byte {} is reported at {}", at, p[0].range.start)); }
        }
    }
    Ok(want != s.as_bytes() || open.is_some())
}
fn main() {
    let mut h = Harness::new("a case is a source text over an alphabet of comment delimiters, newlines, tokens and characters of every UTF-8 width; non-trivial when it contains a comment");
    let al: Vec<char> = "/*\na é€𝄞*/".chars().collect();
    // every text of up to 7 characters over / * newline a é
    let small = ['/', '*', '\n', 'a', 'é'];
    'o: for len in 0..8u32 {
        for code in 0..5u64.pow(len) {
            let mut c = code;
            let s: String = (0..len).map(|_| { let x = small[(c % 5) as usize]; c /= 5; x }).collect();
            h.case("preprocess", format!("{:?}", s), || one(&s, 3));
            if !h.time_left() { break 'o; }
        }
    }
    while h.time_left() {
        let n = h.rng.us(40);
        let s: String = (0..n).map(|_| *h.rng.pick(&al)).collect();
        h.case("preprocess", format!("{:?}", s), || one(&s, 1));
    }
    h.finish();
}
