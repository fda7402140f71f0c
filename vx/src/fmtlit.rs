//! Split a format string into literal pieces and argument references.
use crate::Res;

pub enum Piece {
    Lit(String),
    Arg(String),
    Pos(usize),
}

pub fn split(f: &str) -> Res<Vec<Piece>> {
    let mut out = Vec::new();
    let mut lit = String::new();
    let mut it = f.chars().peekable();
    let mut pos = 0;
    while let Some(c) = it.next() {
        match c {
            '{' => {
                if it.peek() == Some(&'{') { it.next(); lit.push('{'); continue; }
                let mut name = String::new();
                loop {
                    match it.next() { Some('}') => break, Some(c) => name.push(c), None => return Err("bad format string".into()) }
                }
                if name.contains(':') { return Err(format!("unsupported construct: format specifier {{{name}}}")); }
                if !lit.is_empty() { out.push(Piece::Lit(std::mem::take(&mut lit))); }
                if name.is_empty() { out.push(Piece::Pos(pos)); pos += 1; }
                else if let Ok(n) = name.parse::<usize>() { out.push(Piece::Pos(n)); }
                else { out.push(Piece::Arg(name)); }
            }
            '}' => { if it.peek() == Some(&'}') { it.next(); } lit.push('}'); }
            c => lit.push(c),
        }
    }
    if !lit.is_empty() { out.push(Piece::Lit(lit)); }
    Ok(out)
}
