%%% text
// ---- the observable consequence for the caller that takes tokens until there are no more
spec fn same_toks(a: Seq<Token>, b: Seq<STok>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> same_tok(#[trigger] a[i], b[i]) }
fn client_tokens(text: &str) -> (r: (Vec<Token>, bool))
    ensures same_toks(r.0@, tokens(text@, 0)), r.1 == erroneous(text@, 0),
{
    let mut l = Lexer::new(text);
    let mut out: Vec<Token> = Vec::new();
    let ghost t = text@;
    proof { assert(Seq::<STok>::empty() + tokens(t, 0) =~= tokens(t, 0)); }
    let ghost mut done: Seq<STok> = Seq::empty();
    loop
        invariant_except_break
            l.errors@.len() == 0,
            done + tokens(t, l.pos()) == tokens(t, 0), erroneous(t, l.pos()) == erroneous(t, 0),
        invariant
            l.wf(), l.t() == t, same_toks(out@, done),
        ensures
            same_toks(out@, tokens(t, 0)), (l.errors@.len() > 0) == erroneous(t, 0),
        decreases t.len() - l.pos(),
    {
        let ghost p = l.pos();
        proof { lemma_scan(t, p); }
        match l.next() {
            Some(k) => {
                out.push(k);
                proof {
                    let s = scan(t, p)->Tok_0;
                    assert(done + tokens(t, p) =~= done.push(s) + tokens(t, l.pos()));
                    done = done.push(s);
                }
            }
            None => {
                proof { assert(done + Seq::<STok>::empty() =~= done); }
                break;
            }
        }
    }
    let e = l.has_errors();
    (out, e)
}
