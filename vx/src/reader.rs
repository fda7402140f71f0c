//! `//@readlits`: for every string literal the extracted functions write, lemmas that say what it
//! does to the reader of units/reader.vx.  The closed forms are found here by simulation and proved
//! by the verifier, so nothing here is trusted.
use std::collections::BTreeSet;

/// the state, its components as text
#[derive(Clone)]
enum St {
    C(String),
    Lt(String),
    Tag(String, String, String, String),          // stack, name, attributes, phase
    AName(String, String, String, u128),
    AEq(String, String, String),
    AVal(String, String, String),
    ARef(String, String, String, u128),
    Slash(String, String),
    Close(String, u128),
    Ref(String, u128),
}
use St::*;
fn show(s: &St) -> String {
    match s {
        C(k) => format!("St::C({k})"),
        Lt(k) => format!("St::Lt({k})"),
        Tag(k, t, a, p) => format!("St::Tag({k}, {t}, {a}, {p})"),
        AName(k, t, a, n) => format!("St::AName({k}, {t}, {a}, {n})"),
        AEq(k, t, a) => format!("St::AEq({k}, {t}, {a})"),
        AVal(k, t, a) => format!("St::AVal({k}, {t}, {a})"),
        ARef(k, t, a, n) => format!("St::ARef({k}, {t}, {a}, {n})"),
        Slash(k, t) => format!("St::Slash({k}, {t})"),
        Close(k, n) => format!("St::Close({k}, {n})"),
        Ref(k, n) => format!("St::Ref({k}, {n})"),
    }
}
fn is_ref(n: u128) -> bool {
    ["lt", "gt", "amp", "quot", "apos", "#39"].iter().any(|s| s.bytes().fold(0u128, |a, b| a * 256 + b as u128) == n)
}
fn step(s: St, c: char, req: &mut Vec<String>) -> Option<St> {
    let b = c as u32 as u128;
    let letter = c.is_ascii_alphanumeric();
    Some(match s {
        C(k) => match c {
            '<' => Lt(k),
            '>' => return None,
            '&' => { req.push(format!("texty({k})")); Ref(k, 0) }
            ' ' | '\n' | '\t' => C(k),
            _ => { req.push(format!("texty({k})")); C(k) }
        },
        Lt(k) => if c == '/' { Close(k, 0) } else if c.is_ascii_lowercase() { Tag(k, b.to_string(), "Set::<int>::empty()".into(), "0".into()) } else { return None },
        Tag(k, t, a, p) => match c {
            ' ' => Tag(k, t, a, "2".into()),
            '>' => { req.push(format!("may_open({k}, {t})")); C(format!("open({k}, {t})")) }
            '/' => Slash(k, t),
            _ if letter && p == "0" => { let n: u128 = t.parse().ok()?; Tag(k, (n.checked_mul(256)? + b).to_string(), a, p) }
            _ if letter && p == "2" => AName(k, t, a, b),
            _ if letter && p == "ph" => { req.push("ph == 2".into()); AName(k, t, a, b) }
            _ => return None,
        },
        AName(k, t, a, n) => match c {
            '=' => { req.push(format!("!{a}.contains({n})")); AEq(k, t, format!("{a}.insert({n})")) }
            _ if letter || c == '-' => AName(k, t, a, n.checked_mul(256)? + b),
            _ => return None,
        },
        AEq(k, t, a) => if c == '"' { AVal(k, t, a) } else { return None },
        AVal(k, t, a) => match c {
            '"' => Tag(k, t, a, "1".into()),
            '<' => return None,
            '&' => ARef(k, t, a, 0),
            _ => AVal(k, t, a),
        },
        ARef(k, t, a, n) => match c {
            ';' => if is_ref(n) { AVal(k, t, a) } else { return None },
            _ if letter || c == '#' => ARef(k, t, a, n.checked_mul(256)? + b),
            _ => return None,
        },
        Ref(k, n) => match c {
            ';' => if is_ref(n) { C(k) } else { return None },
            _ if letter || c == '#' => Ref(k, n.checked_mul(256)? + b),
            _ => return None,
        },
        Slash(k, t) => if c == '>' { req.push(format!("may_empty({k}, {t})")); C(format!("empty({k}, {t})")) } else { return None },
        Close(k, n) => match c {
            '>' => { req.push(format!("may_close({k}, {n})")); C(format!("pop({k})")) }
            _ if letter => Close(k, n.checked_mul(256)? + b),
            _ => return None,
        },
    })
}

pub fn lemmas(lits: &BTreeSet<String>) -> String {
    let mut o = String::new();
    let mut names = vec!["lit_none".to_string()];
    o.push_str("pub broadcast proof fn lit_none(st: St)\n    ensures #[trigger] run(st, \"\"@) == st\n{\n    reveal_strlit(\"\");\n    run_0(st, \"\"@);\n}\n");
    for (i, l) in lits.iter().enumerate() {
        if l.is_empty() || !l.is_ascii() { continue; }
        let starts = [
            ("c", "k: Stk", C("k".into())),
            ("t", "k: Stk, t: int, a: Set<int>, ph: int", Tag("k".into(), "t".into(), "a".into(), "ph".into())),
            ("v", "k: Stk, t: int, a: Set<int>", AVal("k".into(), "t".into(), "a".into())),
        ];
        for (sn, params, st) in starts {
            let mut s = st.clone();
            let mut req: Vec<String> = vec![];
            let mut ok = true;
            let mut trail = vec![];
            for c in l.chars() {
                match step(s.clone(), c, &mut req) { Some(n) => s = n, None => { ok = false; break; } }
                trail.push(show(&s));
            }
            if !ok || req.len() > 12 { continue; }
            // a state in the middle of a name is no place to stop
            if matches!(s, Lt(_) | AName(..) | Close(..) | Ref(..) | ARef(..)) { continue; }
            req.dedup();
            let n = format!("lit_{i}_{sn}");
            o.push_str(&format!("pub broadcast proof fn {n}({params})\n    requires {}\n    ensures #[trigger] run({}, {l:?}@) == {}\n{{\n    reveal_strlit({l:?});\n    let s = {l:?}@;\n    run_0({}, s);\n",
                if req.is_empty() { "true".to_string() } else { req.join(", ") }, show(&st), show(&s), show(&st)));
            for (j, t) in trail.iter().enumerate() {
                o.push_str(&format!("    run_next({}, s, {}); assert(run_to({}, s, {}) == {t});\n", show(&st), j + 1, show(&st), j + 1));
            }
            o.push_str("}\n");
            names.push(n);
        }
    }
    o.push_str(&format!("pub broadcast group group_lits {{ {} }}\n", names.join(", ")));
    o
}
