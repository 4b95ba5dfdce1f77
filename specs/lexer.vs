%%% file dot_parser/src/lexer.rs
%%% item UNICODE_BYTE_MARKER
%%% item Token
%%% item Location
%%% item LexerError
%%% item Lexer | Peekable < CharIndices < 'a > > => VIter<(usize, char)>
%%% text
// ---- the grammar
ghost enum STok { LCurly, RCurly, LSquare, RSquare, Equals, Comma, Arrow, Semicolon, Ident(Seq<char>), Str(Seq<char>), Int(int), Real(f64) }
spec fn same_tok(r: Token, s: STok) -> bool {
    match s {
        STok::LCurly => r is LCurly,
        STok::RCurly => r is RCurly,
        STok::LSquare => r is LSquare,
        STok::RSquare => r is RSquare,
        STok::Equals => r is Equals,
        STok::Comma => r is Comma,
        STok::Arrow => r is Arrow,
        STok::Semicolon => r is Semicolon,
        STok::Ident(n) => (r matches Token::Ident(x) && x@ == n),
        STok::Str(n) => (r matches Token::String(x) && x@ == n),
        STok::Int(n) => (r matches Token::Integer(x) && x == n),
        STok::Real(n) => (r matches Token::Float(x) && x == n),
    }
}
/// end of the longest identifier that continues at i
spec fn word_end(t: Seq<char>, i: int) -> int
    decreases t.len() - i,
{ if 0 <= i < t.len() && is_word(t[i]) { word_end(t, i + 1) } else { i } }
/// end of the longest numeral that continues at i: a dot belongs to it only before a digit
spec fn num_end(t: Seq<char>, i: int) -> int
    decreases t.len() - i,
{
    if 0 <= i < t.len() && is_digit(t[i]) { num_end(t, i + 1) }
    else if 0 <= i && i + 1 < t.len() && t[i] == '.' && is_digit(t[i + 1]) { num_end(t, i + 2) }
    else { i }
}
spec fn num_tok(s: Seq<char>) -> Option<STok> {
    if !s.contains('.') {
        if dec_value(s) <= i64::MAX { Some(STok::Int(dec_value(s))) } else { None }
    } else if one_dot(s) { Some(STok::Real(f64_of(s))) } else { None }
}
spec fn escaped(c: char) -> Seq<char> {
    if c == 'n' { seq!['\n'] } else if c == 't' { seq!['\t'] } else if c == 'r' { seq!['\r'] } else { seq!['\\', c] }
}
/// contents of a quoted string whose text starts at i, the position behind it, and whether it is terminated
spec fn quoted(t: Seq<char>, i: int) -> (Seq<char>, int, bool)
    decreases t.len() - i,
{
    if i < 0 || i >= t.len() { (Seq::empty(), t.len() as int, false) }
    else if t[i] == '"' { (Seq::empty(), i + 1, true) }
    else if t[i] == '\\' {
        if i + 1 >= t.len() { (Seq::empty(), t.len() as int, false) }
        else { let q = quoted(t, i + 2); (escaped(t[i + 1]) + q.0, q.1, q.2) }
    } else { let q = quoted(t, i + 1); (seq![t[i]] + q.0, q.1, q.2) }
}
ghost enum Scan { End, Tok(STok, int), Bad(int, int) }
/// what comes next at position i: a token and the position behind it, a failed token with its first position and
/// the position behind it, or the end of the text
spec fn scan(t: Seq<char>, i: int) -> Scan
    decreases t.len() - i,
{
    if i < 0 || i >= t.len() { Scan::End }
    else {
        let c = t[i];
        if is_white(c) { scan(t, i + 1) }
        else if c == '{' { Scan::Tok(STok::LCurly, i + 1) }
        else if c == '}' { Scan::Tok(STok::RCurly, i + 1) }
        else if c == '[' { Scan::Tok(STok::LSquare, i + 1) }
        else if c == ']' { Scan::Tok(STok::RSquare, i + 1) }
        else if c == '=' { Scan::Tok(STok::Equals, i + 1) }
        else if c == ',' { Scan::Tok(STok::Comma, i + 1) }
        else if c == ';' { Scan::Tok(STok::Semicolon, i + 1) }
        else if c == '-' && i + 1 < t.len() && t[i + 1] == '>' { Scan::Tok(STok::Arrow, i + 2) }
        else if is_letter(c) || c == '_' { Scan::Tok(STok::Ident(t.subrange(i, word_end(t, i + 1))), word_end(t, i + 1)) }
        else if is_digit(c) {
            let e = num_end(t, i + 1);
            match num_tok(t.subrange(i, e)) { Some(n) => Scan::Tok(n, e), None => Scan::Bad(i, e) }
        } else if c == '"' {
            let q = quoted(t, i + 1);
            if q.2 { Scan::Tok(STok::Str(q.0), q.1) } else { Scan::Bad(i, q.1) }
        } else { Scan::Bad(i, i + 1) }
    }
}
/// the tokens up to the first error, and whether there is one
spec fn tokens(t: Seq<char>, i: int) -> Seq<STok>
    decreases t.len() - i,
{
    match scan(t, i) {
        Scan::Tok(k, e) => if i < e <= t.len() { seq![k] + tokens(t, e) } else { Seq::empty() },
        _ => Seq::empty(),
    }
}
spec fn erroneous(t: Seq<char>, i: int) -> bool
    decreases t.len() - i,
{
    match scan(t, i) {
        Scan::Tok(k, e) => i < e <= t.len() && erroneous(t, e),
        Scan::Bad(s, e) => true,
        Scan::End => false,
    }
}
/// the first positions of all the failed tokens, when tokenising is taken up again behind each of them
spec fn failures(t: Seq<char>, i: int) -> Seq<int>
    decreases t.len() - i,
{
    match scan(t, i) {
        Scan::Tok(k, e) => if i < e <= t.len() { failures(t, e) } else { Seq::empty() },
        Scan::Bad(s, e) => if i < e <= t.len() { seq![s] + failures(t, e) } else { Seq::empty() },
        Scan::End => Seq::empty(),
    }
}
/// line and column of character k: both count from one, a line ends at a newline, columns count characters
spec fn line_of(t: Seq<char>, k: int) -> int
    decreases k,
{ if k <= 0 { 1 } else if t[k - 1] == '\n' { line_of(t, k - 1) + 1 } else { line_of(t, k - 1) } }
spec fn col_of(t: Seq<char>, k: int) -> int
    decreases k,
{ if k <= 0 { 1 } else if t[k - 1] == '\n' { 1 } else { col_of(t, k - 1) + 1 } }

// ---- longest match
proof fn lemma_word_end(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures
        i <= word_end(t, i) <= t.len(),
        forall|j: int| i <= j < word_end(t, i) ==> is_word(#[trigger] t[j]),
        word_end(t, i) < t.len() ==> !is_word(t[word_end(t, i)]),
    decreases t.len() - i,
{ if i < t.len() && is_word(t[i]) { lemma_word_end(t, i + 1); } }
proof fn lemma_num_end(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(), i > 0 ==> is_digit(t[i - 1]),
    ensures
        i <= num_end(t, i) <= t.len(),
        i > 0 ==> is_digit(t[num_end(t, i) - 1]),
        forall|j: int| i <= j < num_end(t, i) ==> is_digit(#[trigger] t[j]) || t[j] == '.',
        forall|j: int| i <= j < num_end(t, i) && #[trigger] t[j] == '.' ==> j + 1 < num_end(t, i) && is_digit(t[j + 1]),
        num_end(t, i) < t.len() ==> !is_digit(t[num_end(t, i)]),
        num_end(t, i) + 1 < t.len() ==> !(t[num_end(t, i)] == '.' && is_digit(t[num_end(t, i) + 1])),
    decreases t.len() - i,
{
    if i < t.len() && is_digit(t[i]) { lemma_num_end(t, i + 1); }
    else if i + 1 < t.len() && t[i] == '.' && is_digit(t[i + 1]) { lemma_num_end(t, i + 2); }
}
proof fn lemma_quoted(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures i <= quoted(t, i).1 <= t.len(), quoted(t, i).2 ==> quoted(t, i).1 > i && t[quoted(t, i).1 - 1] == '"',
        !quoted(t, i).2 ==> quoted(t, i).1 == t.len(),
    decreases t.len() - i,
{
    if i < t.len() && t[i] != '"' {
        if t[i] == '\\' { if i + 1 < t.len() { lemma_quoted(t, i + 2); } } else { lemma_quoted(t, i + 1); }
    }
}
proof fn lemma_scan(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures
        scan(t, i) matches Scan::Tok(k, e) ==> i < e <= t.len(),
        scan(t, i) matches Scan::Bad(s, e) ==> i <= s < e <= t.len() && !is_white(t[s]),
        scan(t, i) is End ==> forall|j: int| i <= j < t.len() ==> is_white(#[trigger] t[j]),
    decreases t.len() - i,
{
    if i < t.len() {
        if is_white(t[i]) { lemma_scan(t, i + 1); }
        lemma_word_end(t, i + 1);
        if is_digit(t[i]) { lemma_num_end(t, i + 1); }
        lemma_quoted(t, i + 1);
    }
}
/// what a numeral can look like
proof fn lemma_numeral(t: Seq<char>, i: int)
    requires 0 <= i < t.len(), is_digit(t[i]),
    ensures
        ({ let s = t.subrange(i, num_end(t, i + 1));
           &&& s.len() > 0
           &&& !s.contains('.') ==> decimal(s)
           &&& s.contains('.') ==> one_dot(s) || more_dots(s)
           &&& !(one_dot(s) && more_dots(s)) }),
{
    lemma_num_end(t, i + 1);
    let e = num_end(t, i + 1);
    let s = t.subrange(i, e);
    assert forall|j: int| 0 <= j < s.len() implies is_digit(#[trigger] s[j]) || s[j] == '.' by { assert(s[j] == t[i + j]); }
    if !s.contains('.') {
        assert forall|j: int| 0 <= j < s.len() implies is_digit(#[trigger] s[j]) by { if s[j] == '.' { assert(s.contains(s[j])); } }
    } else {
        let k = choose|k: int| 0 <= k < s.len() && s[k] == '.';
        assert(t[i + k] == '.');
        assert(k > 0);
        assert(k < s.len() - 1);
        if !more_dots(s) {
            assert forall|j: int| 0 <= j < s.len() && j != k implies is_digit(#[trigger] s[j]) by {
                if s[j] == '.' { if j < k { assert(s[j] == '.' && s[k] == '.'); } else { assert(s[k] == '.' && s[j] == '.'); } }
            }
            assert(one_dot(s));
        }
    }
}
proof fn lemma_off(t: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= t.len(),
    ensures 0 <= off(t, i), off(t, i) + (j - i) <= off(t, j),
    decreases j,
{ if i < j { lemma_off(t, i, j - 1); } else if i > 0 { lemma_off(t, i - 1, i - 1); } }
proof fn lemma_line(t: Seq<char>, k: int)
    requires 0 <= k <= t.len(),
    ensures 1 <= line_of(t, k) <= k + 1, 1 <= col_of(t, k) <= k + 1,
    decreases k,
{ if k > 0 { lemma_line(t, k - 1); } }

impl<'a> Lexer<'a> {
    spec fn t(self) -> Seq<char> { self.text@ }
    /// characters consumed so far
    spec fn pos(self) -> int { self.t().len() - self.chars@.len() }
    spec fn wf(self) -> bool {
        &&& fits(self.t())
        &&& self.chars@.len() <= self.t().len()
        &&& self.chars@ == indexed(self.t()).skip(self.pos())
        &&& errors_ok(self.t(), self.errors@)
        &&& self.errors@.len() > 0 ==> self.errors@.last().location.range.start < off(self.t(), self.pos())
    }
    /// the same lexer, standing at position p
    spec fn moved(self, o: Lexer<'a>, p: int) -> bool { self.wf() && self.text == o.text && self.pos() == p }
    spec fn step(self, o: Lexer<'a>, r: Option<Token>) -> bool {
        &&& self.wf() && self.text == o.text
        &&& match scan(o.t(), o.pos()) {
                Scan::End => r is None && self.errors@ == o.errors@ && self.pos() == o.t().len(),
                Scan::Tok(k, e) => self.errors@ == o.errors@ && self.pos() == e && (r matches Some(x) && same_tok(x, k)),
                Scan::Bad(s, e) => r is None && self.pos() == e && reported(o.errors@, self.errors@, off(o.t(), s)),
            }
    }
}
/// one more error, at byte offset p
spec fn reported(a: Seq<LexerError>, b: Seq<LexerError>, p: int) -> bool {
    b.len() == a.len() + 1 && b.drop_last() == a && b.last().location.range.start == p
}
/// every error lies at a character, and they are in text order
spec fn errors_ok(t: Seq<char>, es: Seq<LexerError>) -> bool {
    &&& forall|i: int| 0 <= i < es.len() ==> at_char(t, (#[trigger] es[i]).location.range.start as int)
    &&& forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).location.range.start < (#[trigger] es[j]).location.range.start
}
spec fn at_char(t: Seq<char>, p: int) -> bool { exists|k: int| 0 <= k < t.len() && #[trigger] off(t, k) == p }
proof fn lemma_off_eq(t: Seq<char>, i: int, j: int)
    requires 0 <= i <= t.len(), 0 <= j <= t.len(), off(t, i) == off(t, j),
    ensures i == j,
{ if i < j { lemma_off(t, i, j); } if j < i { lemma_off(t, j, i); } }
/// the character at a byte offset
spec fn char_at(t: Seq<char>, p: int) -> int { choose|k: int| 0 <= k < t.len() && #[trigger] off(t, k) == p }
/// what is written for one error: the line and the column of its first character, and its message
spec fn report_line(t: Seq<char>, e: LexerError) -> Seq<char> {
    let k = char_at(t, e.location.range.start as int);
    "("@ + numeral(line_of(t, k)) + ", "@ + numeral(col_of(t, k)) + "): "@ + e.message@ + "\n"@
}
spec fn report(t: Seq<char>, es: Seq<LexerError>) -> Seq<char>
    decreases es.len(),
{ if es.len() == 0 { Seq::empty() } else { report(t, es.drop_last()) + report_line(t, es.last()) } }
proof fn lemma_peek(l: Lexer)
    requires l.wf(),
    ensures
        l.chars@.len() > 0 ==> l.pos() < l.t().len() && l.chars@[0] == (off(l.t(), l.pos()) as usize, l.t()[l.pos()])
            && 0 <= off(l.t(), l.pos()) <= usize::MAX && l.chars@.drop_first() == indexed(l.t()).skip(l.pos() + 1),
{
    if l.chars@.len() > 0 {
        lemma_off(l.t(), l.pos(), l.t().len() as int);
        assert(l.chars@[0] == indexed(l.t())[l.pos()]);
        assert(l.chars@.drop_first() =~= indexed(l.t()).skip(l.pos() + 1));
    }
}

%%% fn Lexer::new
%% contract
    ensures r.wf(), r.text == text, r.pos() == 0, r.errors@.len() == 0,
%% at body.start
    proof { assert(indexed(text@).skip(0) =~= indexed(text@)); }
%%% fn Lexer::consumec
%% contract
    requires old(self).wf(),
    ensures
        final(self).moved(*old(self), if old(self).pos() < old(self).t().len() { old(self).pos() + 1 } else { old(self).pos() }),
        final(self).errors@ == old(self).errors@,
%% at body.start
    proof { lemma_peek(*self); if self.pos() < self.t().len() { lemma_off(self.t(), self.pos(), self.pos() + 1); } }
%%% fn Lexer::nextc
%% contract
    requires old(self).wf(),
    ensures
        final(self).moved(*old(self), if old(self).pos() < old(self).t().len() { old(self).pos() + 1 } else { old(self).pos() }),
        final(self).errors@ == old(self).errors@,
        r is None <==> old(self).pos() == old(self).t().len(),
        r matches Some(c) ==> c == old(self).t()[old(self).pos()],
%% at body.start
    proof { lemma_peek(*self); if self.pos() < self.t().len() { lemma_off(self.t(), self.pos(), self.pos() + 1); } }
%%% fn Lexer::peekc
%% contract
    requires old(self).wf(),
    ensures
        final(self).moved(*old(self), old(self).pos()),
        final(self).errors@ == old(self).errors@,
        r is None <==> old(self).pos() == old(self).t().len(),
        r matches Some(c) ==> c == old(self).t()[old(self).pos()],
%% at body.start
    proof { lemma_peek(*self); }
%%% fn Lexer::add_error
%% opt subst . text . len ( => . text . v_len (
%% contract
    requires
        old(self).wf(),
        exists|k: int| 0 <= k < old(self).pos() && #[trigger] off(old(self).t(), k) == start,
        old(self).errors@.len() > 0 ==> old(self).errors@.last().location.range.start < start,
    ensures
        final(self).moved(*old(self), old(self).pos()),
        reported(old(self).errors@, final(self).errors@, start as int),
%% at body.start
    let ghost k = choose|k: int| 0 <= k < self.pos() && off(self.t(), k) == start;
    let ghost es = self.errors@;
    proof { lemma_off(self.t(), k, self.pos()); assert(at_char(self.t(), start as int)); }
%% at body.end
    proof {
        assert(self.errors@.drop_last() =~= es);
        assert forall|i: int, j: int| 0 <= i < j < self.errors@.len() implies (#[trigger] self.errors@[i]).location.range.start < (#[trigger] self.errors@[j]).location.range.start by {
            if j == es.len() { assert(es[i].location.range.start <= es.last().location.range.start); }
        }
    }
%%% fn Lexer::has_errors
%% contract
    ensures r == (self.errors@.len() > 0),
%%% fn Lexer::errors
%% contract
    ensures r@ == self.errors@,
%%% fn Lexer::parse_ident
%% contract
    requires old(self).wf(), old(self).pos() > 0, c == old(self).t()[old(self).pos() - 1],
    ensures
        final(self).moved(*old(self), word_end(old(self).t(), old(self).pos())),
        final(self).errors@ == old(self).errors@,
        r matches Some(k) && same_tok(k, STok::Ident(old(self).t().subrange(old(self).pos() - 1, word_end(old(self).t(), old(self).pos())))),
%% at body.start
    let ghost o = *self;
%% at loop0.before
    proof { assert(ident@ =~= o.t().subrange(o.pos() - 1, o.pos())); lemma_word_end(o.t(), o.pos()); }
%% loop 0
    invariant
        self.moved(o, self.pos()), self.errors@ == o.errors@, o.pos() <= self.pos() <= o.t().len(),
        word_end(o.t(), self.pos()) == word_end(o.t(), o.pos()),
        ident@ == o.t().subrange(o.pos() - 1, self.pos()),
    ensures
        self.pos() == word_end(o.t(), o.pos()),
    decreases o.t().len() - self.pos(),
%% at loop0.top
    proof { lemma_peek(*self); }
    let ghost q = self.pos();
%% at loop0.end
    proof { assert(ident@ =~= o.t().subrange(o.pos() - 1, self.pos())); }
%%% fn Lexer::parse_quoted_string
%% contract
    requires
        old(self).wf(), old(self).pos() > 0, start == off(old(self).t(), old(self).pos() - 1),
        old(self).errors@.len() > 0 ==> old(self).errors@.last().location.range.start < start,
    ensures
        ({ let q = quoted(old(self).t(), old(self).pos());
           &&& final(self).moved(*old(self), q.1)
           &&& q.2 ==> final(self).errors@ == old(self).errors@ && (r matches Some(k) && same_tok(k, STok::Str(q.0)))
           &&& !q.2 ==> r is None && reported(old(self).errors@, final(self).errors@, start as int) }),
%% at body.start
    let ghost o = *self;
    let ghost q0 = quoted(o.t(), o.pos());
%% at loop0.before
    proof { assert(s@ + q0.0 =~= q0.0); lemma_quoted(o.t(), o.pos()); }
%% loop 0
    invariant_except_break
        !terminated,
    invariant
        self.moved(o, self.pos()), self.errors@ == o.errors@, o.pos() <= self.pos() <= o.t().len(),
        !terminated ==> s@ + quoted(o.t(), self.pos()).0 == q0.0 && quoted(o.t(), self.pos()).1 == q0.1 && quoted(o.t(), self.pos()).2 == q0.2,
    ensures
        self.pos() == q0.1, terminated == q0.2, terminated ==> s@ == q0.0,
    decreases o.t().len() - self.pos(),
%% at loop0.top
    let ghost s1 = s@;
    let ghost p1 = self.pos();
%% at loop0.start
    proof {
        if c == '\\' && p1 + 1 < o.t().len() { assert(s1 + (escaped(o.t()[p1 + 1]) + quoted(o.t(), p1 + 2).0) =~= (s1 + escaped(o.t()[p1 + 1])) + quoted(o.t(), p1 + 2).0);
            lemma_quoted(o.t(), p1 + 2); }
        if c != '\\' && c != '"' { assert(s1 + (seq![c] + quoted(o.t(), p1 + 1).0) =~= s1.push(c) + quoted(o.t(), p1 + 1).0); }
        if c == '"' { assert(s1 + Seq::<char>::empty() =~= s1); }
    }
%% at loop0.end
    proof {
        if c == '\\' { assert(s@ =~= s1 + escaped(o.t()[p1 + 1])); } else { assert(s@ =~= s1.push(c)); }
    }
%%% fn Lexer::parse_number
%% opt subst . contains ( => . v_contains (
%% contract
    requires
        old(self).wf(), old(self).pos() > 0, start == off(old(self).t(), old(self).pos() - 1),
        c == old(self).t()[old(self).pos() - 1], is_digit(c),
        old(self).errors@.len() > 0 ==> old(self).errors@.last().location.range.start < start,
    ensures
        ({ let e = num_end(old(self).t(), old(self).pos());
           &&& final(self).moved(*old(self), e)
           &&& match num_tok(old(self).t().subrange(old(self).pos() - 1, e)) {
                Some(n) => final(self).errors@ == old(self).errors@ && (r matches Some(k) && same_tok(k, n)),
                None => r is None && reported(old(self).errors@, final(self).errors@, start as int),
           } }),
%% at body.start
    let ghost o = *self;
%% at loop0.before
    proof { assert(buf@ =~= o.t().subrange(o.pos() - 1, o.pos())); lemma_num_end(o.t(), o.pos()); lemma_numeral(o.t(), o.pos() - 1); }
%% loop 0
    invariant
        self.moved(o, self.pos()), self.errors@ == o.errors@, o.pos() <= self.pos() <= o.t().len(),
        num_end(o.t(), self.pos()) == num_end(o.t(), o.pos()),
        buf@ == o.t().subrange(o.pos() - 1, self.pos()),
    ensures
        self.pos() == num_end(o.t(), o.pos()),
    decreases o.t().len() - self.pos(),
%% at loop0.top
    let ghost p1 = self.pos();
%% at loop0.start
    proof {
        lemma_peek(*self);
        assert(o.t().subrange(o.pos() - 1, p1).push(c) =~= o.t().subrange(o.pos() - 1, p1 + 1));
        if p1 + 1 < o.t().len() { assert(self.chars@.drop_first()[0] == indexed(o.t())[p1 + 1]); }
    }
%% loop 1
    invariant
        self.moved(o, self.pos()), self.errors@ == o.errors@, p1 < self.pos() <= o.t().len(),
        self.pos() == p1 + 1 ==> p1 + 1 < o.t().len() && is_digit(o.t()[p1 + 1]) && num_end(o.t(), p1 + 2) == num_end(o.t(), o.pos()),
        self.pos() > p1 + 1 ==> num_end(o.t(), self.pos()) == num_end(o.t(), o.pos()),
        buf@ == o.t().subrange(o.pos() - 1, self.pos()),
    ensures
        self.pos() > p1 + 1,
    decreases o.t().len() - self.pos(),
%% at loop1.start
    proof { assert(o.t().subrange(o.pos() - 1, self.pos()).push(c) =~= o.t().subrange(o.pos() - 1, self.pos() + 1)); }
%%% fn Lexer::next
%% contract
    requires old(self).wf(),
    ensures final(self).step(*old(self), r),
%% at body.start
    let ghost o = *self;
%% loop 0
    invariant
        self.moved(o, self.pos()), self.errors@ == o.errors@, 0 <= o.pos() <= self.pos() <= o.t().len(),
        scan(o.t(), self.pos()) == scan(o.t(), o.pos()),
    decreases o.t().len() - self.pos(),
%% at loop0.start
    let ghost p1 = self.pos();
    proof {
        lemma_peek(*self);
        lemma_off(o.t(), o.pos(), p1);
        if p1 < o.t().len() { lemma_off(o.t(), p1, p1 + 1); }
        lemma_scan(o.t(), p1);
    }
%%% fn Iterator@Lexer::next as next_of_iterator
%% contract
    requires old(self).wf(),
    ensures final(self).step(*old(self), r),
%%% fn Lexer::map_offset_to_line
%% opt subst . text . len ( => . text . v_len (
%% contract
    requires fits(self.t()), exists|k: int| 0 <= k <= self.t().len() && #[trigger] off(self.t(), k) == offset,
    ensures
        r matches Ok(lc) && forall|k: int| 0 <= k <= self.t().len() && #[trigger] off(self.t(), k) == offset ==> lc.0 == line_of(self.t(), k) && lc.1 == col_of(self.t(), k),
%% at body.start
    let ghost t = self.t();
    let ghost n = choose|k: int| 0 <= k <= t.len() && #[trigger] off(t, k) == offset;
    proof {
        lemma_off(t, n, t.len() as int);
        lemma_off(t, 0, t.len() as int);
        assert forall|k: int| 0 <= k <= t.len() && #[trigger] off(t, k) == offset implies k == n by { lemma_off_eq(t, k, n); }
    }
%% loop 0
    invariant
        vs0 == indexed(t), vk0 <= n,
        line == line_of(t, vk0), column == col_of(t, vk0),
    ensures
        line == line_of(t, n), column == col_of(t, n),
%% at loop0.start
    proof {
        lemma_line(t, vk0);
        lemma_off(t, vk0 - 1, t.len() as int);
        if vk0 - 1 < n { lemma_off(t, vk0 - 1, n); } else { lemma_off(t, n, vk0 - 1); }
    }
%% at loop0.after
    proof { lemma_line(t, n); }
%%% fn Lexer::write_errors
%% opt subst & mut dyn core :: fmt :: Write => &mut VOut
%% rettype Result<(), VFmtErr>
%% contract
    requires self.wf(),
    ensures
        r is Ok ==> final(output)@ == old(output)@ + report(self.t(), self.errors@),
        old(output).sound() ==> r is Ok && final(output).sound(),
%% at body.start
    let ghost o0 = *output;
%% loop 0
    invariant
        vs0.len() == self.errors@.len(), forall|i: int| 0 <= i < vs0.len() ==> *vs0[i] == self.errors@[i],
        output@ =~= o0@ + report(self.t(), self.errors@.take(vk0)),
        o0.sound() ==> output.sound(),
%% at loop0.start
    proof {
        assert(*error == self.errors@[vk0 - 1]);
        assert(at_char(self.t(), self.errors@[vk0 - 1].location.range.start as int));
        assert(self.errors@.take(vk0).drop_last() =~= self.errors@.take(vk0 - 1));
    }
%% at loop0.after
    proof { assert(self.errors@.take(vk0) =~= self.errors@); }
