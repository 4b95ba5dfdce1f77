%%% text
// ---- the observable consequence for the caller that goes on to the end of the text and prints the reports
fn client_reports(text: &str, out: &mut VOut) -> (es: Vec<LexerError>)
    requires old(out).sound(),
    ensures
        es@.len() == failures(text@, 0).len(),
        forall|i: int| 0 <= i < es@.len() ==> (#[trigger] es@[i]).location.range.start == off(text@, failures(text@, 0)[i]),
        final(out)@ == old(out)@ + report(text@, es@),
{
    let mut l = Lexer::new(text);
    let ghost t = text@;
    let ghost all = failures(t, 0);
    let ghost mut done: Seq<int> = Seq::empty();
    proof { assert(Seq::<int>::empty() + failures(t, 0) =~= all); }
    loop
        invariant
            l.wf(), l.t() == t, all == failures(t, 0), done + failures(t, l.pos()) == all,
            l.errors@.len() == done.len(), forall|i: int| 0 <= i < done.len() ==> (#[trigger] l.errors@[i]).location.range.start == off(t, done[i]),
        ensures done == all,
        decreases t.len() - l.pos(),
    {
        let n = l.errors().len();
        let ghost p = l.pos();
        let ghost es = l.errors@;
        proof { lemma_scan(t, p); }
        let r = l.next();
        proof {
            if scan(t, p) is Bad {
                let s = scan(t, p)->Bad_0;
                assert(done + failures(t, p) =~= done.push(s) + failures(t, l.pos()));
                assert forall|i: int| 0 <= i < done.push(s).len() implies (#[trigger] l.errors@[i]).location.range.start == off(t, done.push(s)[i]) by {
                    if i < done.len() { assert(l.errors@.drop_last()[i] == es[i]); }
                }
                done = done.push(s);
            }
        }
        if r.is_none() && l.errors().len() == n {
            proof { assert(done + Seq::<int>::empty() =~= done); }
            break;
        }
    }
    let _ = l.write_errors(out);
    l.errors
}
