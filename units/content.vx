/// text escaped for element content
pub open spec fn content1(c: char) -> Seq<char> {
    if c == '&' { "&amp;"@ } else if c == '<' { "&lt;"@ } else if c == '>' { "&gt;"@ } else { seq![c] }
}
pub open spec fn content(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else { content(s.drop_last()) + content1(s.last()) }
}
