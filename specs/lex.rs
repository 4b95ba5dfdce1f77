// ---- text (assumed contracts on str, char and String, listed in the evidence)

/// bytes of a character in UTF-8
pub open spec fn utf8w(c: char) -> int {
    let u = c as int;
    if u < 0x80 { 1 } else if u < 0x800 { 2 } else if u < 0x10000 { 3 } else { 4 }
}
/// byte offset of character k
pub open spec fn off(t: Seq<char>, k: int) -> int
    decreases k,
{ if k <= 0 { 0 } else { off(t, k - 1) + utf8w(t[k - 1]) } }
/// the characters of a text with their byte offsets
spec fn indexed(t: Seq<char>) -> Seq<(usize, char)> { Seq::new(t.len(), |i: int| (off(t, i) as usize, t[i])) }
/// a text fits the address space
pub open spec fn fits(t: Seq<char>) -> bool { off(t, t.len() as int) <= isize::MAX }

trait VStr {
    spec fn text(&self) -> Seq<char>;
    fn v_char_indices(&self) -> (r: VIter<(usize, char)>)
        ensures r@ == indexed(self.text()), fits(self.text());
    fn v_chars(&self) -> (r: VIter<char>)
        ensures r@ == self.text(), fits(self.text());
    fn v_parse_i64(&self) -> (r: Result<i64, VParseErr>)
        ensures
            decimal(self.text()) ==> (r is Ok <==> dec_value(self.text()) <= i64::MAX),
            decimal(self.text()) ==> (r matches Ok(v) ==> v == dec_value(self.text()));
    fn v_parse_f64(&self) -> (r: Result<f64, VParseErr>)
        ensures
            one_dot(self.text()) ==> r == Ok::<f64, VParseErr>(f64_of(self.text())),
            more_dots(self.text()) ==> r is Err;
    fn v_contains(&self, c: char) -> (r: bool)
        ensures r == self.text().contains(c);
    fn v_len(&self) -> (r: usize)
        ensures r == off(self.text(), self.text().len() as int), fits(self.text());
}
impl VStr for str {
    spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_char_indices(&self) -> (r: VIter<(usize, char)>) { unimplemented!() }
    #[verifier::external_body]
    fn v_chars(&self) -> (r: VIter<char>) { unimplemented!() }
    #[verifier::external_body]
    fn v_parse_i64(&self) -> (r: Result<i64, VParseErr>) { unimplemented!() }
    #[verifier::external_body]
    fn v_parse_f64(&self) -> (r: Result<f64, VParseErr>) { unimplemented!() }
    #[verifier::external_body]
    fn v_contains(&self, c: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_len(&self) -> (r: usize) { unimplemented!() }
}
impl VStr for String {
    spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_char_indices(&self) -> (r: VIter<(usize, char)>) { unimplemented!() }
    #[verifier::external_body]
    fn v_chars(&self) -> (r: VIter<char>) { unimplemented!() }
    #[verifier::external_body]
    fn v_parse_i64(&self) -> (r: Result<i64, VParseErr>) { unimplemented!() }
    #[verifier::external_body]
    fn v_parse_f64(&self) -> (r: Result<f64, VParseErr>) { unimplemented!() }
    #[verifier::external_body]
    fn v_contains(&self, c: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_len(&self) -> (r: usize) { unimplemented!() }
}
pub assume_specification [String::len] (s: &String) -> (r: usize)
    ensures r == off(s@, s@.len() as int), fits(s@);
pub assume_specification [String::shrink_to_fit] (s: &mut String)
    ensures final(s)@ == old(s)@;

struct VParseErr;
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn is_letter(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
spec fn is_word(c: char) -> bool { is_letter(c) || is_digit(c) || c == '_' }
/// the characters with the Unicode property White_Space
spec fn is_white(c: char) -> bool {
    let u = c as int;
    (9 <= u <= 13) || u == 0x20 || u == 0x85 || u == 0xa0 || u == 0x1680 || (0x2000 <= u <= 0x200a) || u == 0x2028 || u == 0x2029
        || u == 0x202f || u == 0x205f || u == 0x3000
}
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool)
    ensures r == is_digit(*c);
pub assume_specification [char::is_ascii_alphabetic] (c: &char) -> (r: bool)
    ensures r == is_letter(*c);
pub assume_specification [char::is_ascii_alphanumeric] (c: &char) -> (r: bool)
    ensures r == (is_letter(*c) || is_digit(*c));

spec fn decimal(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
spec fn dec_value(s: Seq<char>) -> int
    decreases s.len(),
{ if s.len() == 0 { 0 } else { dec_value(s.drop_last()) * 10 + (s.last() as int - '0' as int) } }
/// digits, one dot, digits
spec fn one_dot(s: Seq<char>) -> bool {
    exists|k: int| 0 < k < s.len() - 1 && #[trigger] s[k] == '.' && forall|i: int| 0 <= i < s.len() && i != k ==> is_digit(#[trigger] s[i])
}
/// a numeral with two dots or more
spec fn more_dots(s: Seq<char>) -> bool {
    exists|j: int, k: int| 0 <= j < k < s.len() && #[trigger] s[j] == '.' && #[trigger] s[k] == '.'
}
/// the double nearest to a decimal numeral
uninterp spec fn f64_of(s: Seq<char>) -> f64;

impl<X> VIter<X> {
    #[verifier::external_body]
    fn peekable(self) -> (r: VIter<X>)
        ensures r@ == self@,
    { unimplemented!() }
    #[verifier::external_body]
    fn peek<'a>(&'a mut self) -> (r: Option<&'a X>)
        ensures
            final(self)@ == old(self)@,
            r is None <==> old(self)@.len() == 0,
            r matches Some(x) ==> *x == old(self)@[0],
    { unimplemented!() }
}
impl<X: Copy> VIter<X> {
    #[verifier::external_body]
    fn clone(&self) -> (r: VIter<X>)
        ensures r@ == self@,
    { unimplemented!() }
}

// ---- formatted output
/// the decimal numeral of a number
uninterp spec fn numeral(n: int) -> Seq<char>;
trait VShow {
    spec fn shown(&self) -> Seq<char>;
}
impl VShow for usize { spec fn shown(&self) -> Seq<char> { numeral(*self as int) } }
impl VShow for u32 { spec fn shown(&self) -> Seq<char> { numeral(*self as int) } }
impl VShow for String { spec fn shown(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
struct VFmt { s: String }
impl VFmt {
    uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    fn new() -> (r: VFmt)
        ensures r@ == Seq::<char>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    fn v_lit(self, s: &str) -> (r: VFmt)
        ensures r@ == self@ + s@,
    { unimplemented!() }
    #[verifier::external_body]
    fn v_arg<X: VShow>(self, x: &X) -> (r: VFmt)
        ensures r@ == self@ + x.shown(),
    { unimplemented!() }
}
struct VFmtErr;
/// a writer: what it has received so far; only an unsound writer reports errors
#[verifier::external_body]
struct VOut { s: String }
impl VOut {
    uninterp spec fn view(&self) -> Seq<char>;
    uninterp spec fn sound(&self) -> bool;
    #[verifier::external_body]
    fn v_write(&mut self, f: VFmt) -> (r: Result<(), VFmtErr>)
        ensures
            r is Ok ==> final(self)@ == old(self)@ + f@,
            old(self).sound() ==> r is Ok && final(self).sound(),
    { unimplemented!() }
}
#[verifier::external_body]
fn vfmt() -> String { unimplemented!() }
