// A reader of markup, one character at a time: the judge of well-formedness.
// It keeps the stack of open elements, with the number of children seen where that number matters,
// and the attribute names of the tag being read.  `St::Bad` is never left.
pub enum Stk { Nil, Cons { t: int, n: int, pre: bool, rest: Box<Stk> } }
pub enum St {
    C(Stk),                               // between tags
    Lt(Stk),
    Tag(Stk, int, Set<int>, int),         // in a tag: name, attribute names; 0 in the name, 1 after a value, 2 after a blank
    AName(Stk, int, Set<int>, int),
    AEq(Stk, int, Set<int>),
    AVal(Stk, int, Set<int>),
    ARef(Stk, int, Set<int>, int),        // after `&` in a value
    Slash(Stk, int),
    Close(Stk, int),
    Ref(Stk, int),                        // after `&` in text
    Bad,
}
// Names are numbers: their characters in base 256.
pub open spec fn N_MSUB() -> int { 1836283234 }
pub open spec fn N_MSUP() -> int { 1836283248 }
pub open spec fn N_MOVER() -> int { 470021465458 }
pub open spec fn N_MUNDER() -> int { 120351130674546 }
pub open spec fn N_MROOT() -> int { 470071340916 }
pub open spec fn N_MFRAC() -> int { 469870207331 }
pub open spec fn N_SEMANTICS() -> int { 2128684173373917979507 }
pub open spec fn N_MSUBSUP() -> int { 30807720461563248 }
pub open spec fn N_MUNDEROVER() -> int { 516904170283799359677810 }
pub open spec fn N_MI() -> int { 28009 }
pub open spec fn N_MN() -> int { 28014 }
pub open spec fn N_MO() -> int { 28015 }
pub open spec fn N_MTEXT() -> int { 470104242292 }
pub open spec fn N_MS() -> int { 28019 }
pub open spec fn N_ANNOTATION() -> int { 460106648393492137078638 }
pub open spec fn N_A() -> int { 97 }
pub open spec fn N_B() -> int { 98 }
pub open spec fn N_I() -> int { 105 }
pub open spec fn N_EM() -> int { 25965 }
pub open spec fn N_CODE() -> int { 1668244581 }
pub open spec fn N_SPAN() -> int { 1936744814 }
pub open spec fn N_S() -> int { 115 }
pub open spec fn N_U() -> int { 117 }
pub open spec fn N_MATH() -> int { 1835103336 }
pub open spec fn N_MROW() -> int { 1836216183 }
pub open spec fn N_MPADDED() -> int { 30804336059901284 }
pub open spec fn N_MPHANTOM() -> int { 7885917715199979373 }
pub open spec fn N_MENCLOSE() -> int { 7882828096081982309 }
pub open spec fn N_MSQRT() -> int { 470088249972 }
pub open spec fn N_MTD() -> int { 7173220 }
pub open spec fn N_MERROR() -> int { 120282479226738 }
pub open spec fn N_MSTYLE() -> int { 120342642781285 }
pub open spec fn N_MSPACE() -> int { 120342574097253 }
pub open spec fn N_MPRESCRIPTS() -> int { 132303929623196346394637427 }
pub open spec fn N_MTABLE() -> int { 120346617474149 }
pub open spec fn N_MTR() -> int { 7173234 }
pub open spec fn N_MMULTISCRIPTS() -> int { 8669745536609235310612073968755 }

pub open spec fn A_STRETCHY() -> int { 8319400191730083961 }
pub open spec fn A_MOVABLELIMITS() -> int { 8670365663276837152475285386355 }
pub open spec fn A_FORM() -> int { 1718579821 }
pub open spec fn A_SYMMETRIC() -> int { 2130125338410161957219 }
pub open spec fn A_LARGEOP() -> int { 30506441473617776 }
pub open spec fn A_MINSIZE() -> int { 30796695565072997 }
pub open spec fn A_MAXSIZE() -> int { 30787942421723749 }
pub open spec fn A_ID() -> int { 26980 }
pub open spec fn A_DISPLAYSTYLE() -> int { 31075983339184565966111075429 }
pub open spec fn A_SCRIPTLEVEL() -> int { 139496094064011433137825132 }
pub open spec fn A_VOFFSET() -> int { 33336532848043380 }

/// how many children these have
pub open spec fn fixed(t: int) -> int { if t == 1836283234 || t == 1836283248 || t == 470021465458 || t == 120351130674546 || t == 470071340916 || t == 469870207331 || t == 2128684173373917979507 { 2 } else if t == 30807720461563248 || t == 516904170283799359677810 { 3 } else { 0 } }
/// elements whose content is text (and inline markup)
pub open spec fn leaf(t: int) -> bool { t == 28009 || t == 28014 || t == 28015 || t == 470104242292 || t == 28019 || t == 460106648393492137078638 }
pub open spec fn html(t: int) -> bool { t == 97 || t == 98 || t == 105 || t == 25965 || t == 1668244581 || t == 1936744814 || t == 115 || t == 117 }
/// elements with any number of children
pub open spec fn container(t: int) -> bool { t == 1835103336 || t == 1836216183 || t == 30804336059901284 || t == 7885917715199979373 || t == 7882828096081982309 || t == 470088249972 || t == 7173220 || t == 120282479226738 || t == 120342642781285 }
pub open spec fn texty_name(t: int) -> bool { leaf(t) || html(t) }
/// elements that can stand for a formula
pub open spec fn formula(t: int) -> bool {
    t == 120342574097253 || t == 120346617474149 || t == 8669745536609235310612073968755 || (fixed(t) > 0 && t != 2128684173373917979507) || fixed(t) == 3 || (container(t) && t != 1835103336 && t != 7173220) || (leaf(t) && t != 460106648393492137078638)
}
pub open spec fn counted(p: int, n: int) -> int {
    if fixed(p) > 0 { n + 1 } else if p == 8669745536609235310612073968755 { if n == 1 { 2 } else { 1 } } else { n }
}
/// one more child
pub open spec fn bump(k: Stk) -> Stk {
    match k { Stk::Nil => Stk::Nil, Stk::Cons { t, n, pre, rest } => Stk::Cons { t, n: counted(t, n), pre, rest } }
}
/// `mprescripts` marks the place and is no child
pub open spec fn mark_pre(k: Stk) -> Stk {
    match k { Stk::Nil => Stk::Nil, Stk::Cons { t, n, pre, rest } => Stk::Cons { t, n, pre: true, rest } }
}
/// the innermost element takes a formula as its next child
pub open spec fn accepts(k: Stk) -> bool {
    match k { Stk::Nil => false, Stk::Cons { t, n, pre, rest } => if fixed(t) > 0 { n < fixed(t) && (t != 2128684173373917979507 || n == 0) } else { t == 8669745536609235310612073968755 || container(t) } }
}
pub open spec fn may_open(k: Stk, c: int) -> bool {
    match k {
        Stk::Nil => c == 1835103336,
        Stk::Cons { t, n, pre, rest } =>
            if t == 120346617474149 { c == 7173234 }
            else if t == 7173234 { c == 7173220 }
            else if t == 2128684173373917979507 && n == 1 { c == 460106648393492137078638 }
            else if texty_name(t) { html(c) }
            else { accepts(k) && (formula(c) || (c == 2128684173373917979507 && t == 1835103336)) },
    }
}
pub open spec fn open(k: Stk, c: int) -> Stk { Stk::Cons { t: c, n: 0, pre: false, rest: Box::new(bump(k)) } }
pub open spec fn may_empty(k: Stk, c: int) -> bool {
    match k {
        Stk::Nil => false,
        Stk::Cons { t, n, pre, rest } => if c == 132303929623196346394637427 { t == 8669745536609235310612073968755 && n == 1 && !pre } else { c == 120342574097253 && may_open(k, c) },
    }
}
pub open spec fn empty(k: Stk, c: int) -> Stk { if c == 132303929623196346394637427 { mark_pre(k) } else { bump(k) } }
pub open spec fn may_close(k: Stk, c: int) -> bool {
    match k { Stk::Nil => false, Stk::Cons { t, n, pre, rest } => t == c && (fixed(t) > 0 ==> n == fixed(t)) && (t == 8669745536609235310612073968755 ==> n == 1) }
}
pub open spec fn pop(k: Stk) -> Stk { match k { Stk::Nil => Stk::Nil, Stk::Cons { t, n, pre, rest } => *rest } }
/// the innermost element is one for text
pub open spec fn texty(k: Stk) -> bool { match k { Stk::Nil => false, Stk::Cons { t, n, pre, rest } => texty_name(t) } }
pub open spec fn top_is(k: Stk, c: int) -> bool { match k { Stk::Nil => false, Stk::Cons { t, n, pre, rest } => t == c } }

pub open spec fn is_ref(n: int) -> bool { n == 27764 || n == 26484 || n == 6385008 || n == 1903521652 || n == 1634758515 || n == 2306873 }
pub open spec fn lowercase(c: char) -> bool { 'a' <= c <= 'z' }
pub open spec fn letter(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || '0' <= c <= '9' }
pub open spec fn num(c: char) -> int { c as u32 as int }
pub open spec fn step(s: St, c: char) -> St {
    match s {
        St::C(k) => if c == '<' { St::Lt(k) } else if c == ' ' || c == '\n' || c == '\t' { s }
            else if !texty(k) || c == '>' { St::Bad } else if c == '&' { St::Ref(k, 0) } else { s },
        St::Lt(k) => if c == '/' { St::Close(k, 0) } else if lowercase(c) { St::Tag(k, num(c), Set::<int>::empty(), 0) } else { St::Bad },
        St::Tag(k, t, a, p) => if c == ' ' { St::Tag(k, t, a, 2) }
            else if c == '>' { if may_open(k, t) { St::C(open(k, t)) } else { St::Bad } }
            else if c == '/' { St::Slash(k, t) }
            else if letter(c) && p == 0 { St::Tag(k, t * 256 + num(c), a, 0) }
            else if letter(c) && p == 2 { St::AName(k, t, a, num(c)) }
            else { St::Bad },
        St::AName(k, t, a, n) => if c == '=' { if a.contains(n) { St::Bad } else { St::AEq(k, t, a.insert(n)) } }
            else if letter(c) || c == '-' { St::AName(k, t, a, n * 256 + num(c)) } else { St::Bad },
        St::AEq(k, t, a) => if c == '"' { St::AVal(k, t, a) } else { St::Bad },
        St::AVal(k, t, a) => if c == '"' { St::Tag(k, t, a, 1) } else if c == '<' { St::Bad } else if c == '&' { St::ARef(k, t, a, 0) } else { s },
        St::ARef(k, t, a, n) => if c == ';' { if is_ref(n) { St::AVal(k, t, a) } else { St::Bad } }
            else if letter(c) || c == '#' { St::ARef(k, t, a, n * 256 + num(c)) } else { St::Bad },
        St::Slash(k, t) => if c == '>' && may_empty(k, t) { St::C(empty(k, t)) } else { St::Bad },
        St::Close(k, n) => if c == '>' { if may_close(k, n) { St::C(pop(k)) } else { St::Bad } }
            else if letter(c) { St::Close(k, n * 256 + num(c)) } else { St::Bad },
        St::Ref(k, n) => if c == ';' { if is_ref(n) { St::C(k) } else { St::Bad } }
            else if letter(c) || c == '#' { St::Ref(k, n * 256 + num(c)) } else { St::Bad },
        St::Bad => St::Bad,
    }
}
/// after the first `i` characters
pub closed spec fn run_to(st: St, s: Seq<char>, i: int) -> St decreases i {
    if i <= 0 { st } else { step(run_to(st, s, i - 1), s[i - 1]) }
}
pub closed spec fn run(st: St, s: Seq<char>) -> St { run_to(st, s, s.len() as int) }
pub proof fn run_0(st: St, s: Seq<char>) ensures run_to(st, s, 0) == st, run(st, s) == run_to(st, s, s.len() as int) { }
pub proof fn run_next(st: St, s: Seq<char>, i: int)
    requires i > 0
    ensures run_to(st, s, i) == step(run_to(st, s, i - 1), s[i - 1])
{ }
proof fn run_prefix(st: St, a: Seq<char>, b: Seq<char>, i: int)
    requires 0 <= i <= a.len()
    ensures run_to(st, a + b, i) == run_to(st, a, i)
    decreases i
{ if i > 0 { run_prefix(st, a, b, i - 1); assert((a + b)[i - 1] == a[i - 1]); } }
proof fn run_suffix(st: St, a: Seq<char>, b: Seq<char>, i: int)
    requires 0 <= i <= b.len()
    ensures run_to(st, a + b, a.len() + i) == run_to(run(st, a), b, i)
    decreases i
{ if i > 0 { run_suffix(st, a, b, i - 1); assert((a + b)[a.len() + i - 1] == b[i - 1]); } else { run_prefix(st, a, b, a.len() as int); } }
pub broadcast proof fn lemma_run_cat(st: St, a: Seq<char>, b: Seq<char>)
    ensures #[trigger] run(st, a + b) == run(run(st, a), b)
{ run_suffix(st, a, b, b.len() as int); assert((a + b).len() == a.len() + b.len()); }
pub broadcast proof fn lemma_run_push(st: St, a: Seq<char>, c: char)
    ensures #[trigger] run(st, a.push(c)) == step(run(st, a), c)
{
    assert(a.push(c) =~= a + seq![c]);
    lemma_run_cat(st, a, seq![c]);
    run_0(run(st, a), seq![c]);
    run_next(run(st, a), seq![c], 1);
}
pub broadcast proof fn lemma_run_nil(st: St, a: Seq<char>)
    requires a.len() == 0
    ensures #[trigger] run(st, a) == st
{ }
/// no character that means something to the reader
pub open spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '<' && s[i] != '>' && s[i] != '&' && s[i] != '"' }
pub broadcast proof fn lemma_plain_text(k: Stk, s: Seq<char>)
    requires plain(s), texty(k)
    ensures #[trigger] run(St::C(k), s) == St::C(k)
    decreases s.len()
{ if s.len() > 0 { assert(s.drop_last().push(s.last()) =~= s); assert(plain(s.drop_last())); lemma_plain_text(k, s.drop_last()); lemma_run_push(St::C(k), s.drop_last(), s.last()); } }
pub broadcast proof fn lemma_plain_value(k: Stk, t: int, a: Set<int>, s: Seq<char>)
    requires plain(s)
    ensures #[trigger] run(St::AVal(k, t, a), s) == St::AVal(k, t, a)
    decreases s.len()
{ if s.len() > 0 { assert(s.drop_last().push(s.last()) =~= s); assert(plain(s.drop_last())); lemma_plain_value(k, t, a, s.drop_last()); lemma_run_push(St::AVal(k, t, a), s.drop_last(), s.last()); } }
pub open spec fn blank(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == ' ' || s[i] == '\n' || s[i] == '\t' }
pub proof fn lemma_blank(k: Stk, s: Seq<char>)
    requires blank(s)
    ensures run(St::C(k), s) == St::C(k)
    decreases s.len()
{ if s.len() > 0 { assert(s.drop_last().push(s.last()) =~= s); assert(blank(s.drop_last())); lemma_blank(k, s.drop_last()); lemma_run_push(St::C(k), s.drop_last(), s.last()); } }
/// the reader's state after a whole text
pub open spec fn at(s: String) -> St { run(St::C(Stk::Nil), s@) }
/// changes nothing inside a value
pub open spec fn quiet(s: Seq<char>) -> bool { forall|k: Stk, t: int, a: Set<int>| #[trigger] run(St::AVal(k, t, a), s) == St::AVal(k, t, a) }
