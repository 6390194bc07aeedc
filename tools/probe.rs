// Prints the syntax trees of programs without white space and locations.
use ruruby_parse::*;
fn main() {
    for code in std::env::args().skip(1) {
        one(code);
    }
}
fn one(code: String) {
    let code = code.replace("\\n", "\n");
    match Parser::parse_program(code, std::path::PathBuf::from("p.rb")) {
        Ok(r) => {
            let s: String = format!("{:?} LVARS {:?}", r.node, r.lvar_collector.table());
            let mut out = String::new();
            let mut rest = s.as_str();
            while let Some(i) = rest.find(", loc: Loc(") {
                out += &rest[..i];
                rest = &rest[i..];
                let j = rest.find(')').unwrap();
                rest = &rest[j + 1..];
            }
            out += rest;
            println!("{}", out.replace("Annot { kind: ", "{").replace(' ', ""));
        }
        Err(e) => println!("ERR {:?}", e.kind),
    }
}
