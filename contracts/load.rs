// ---------------------------------------------------------------- loading a syntax
/// a vector of items that take memory is not longer than memory (see DESIGN.md, assumptions)
pub axiom fn ax_vec_fits<T>(v: &Vec<Range<T>>) ensures v@.len() <= isize::MAX;
/// b are the optimized rules of the meta language as assets/self-syntax.txt describes it
pub open spec fn builtin(b: Seq<Rule>) -> bool { wfr(b) && graded(b) && exists|c: Syntax| is_meta(c) && #[trigger] same_meaning(c.rules@, b) }
/// s is the optimized form of the rules that the meta data describes
pub open spec fn described(s: Syntax, d: Seq<MD>) -> bool {
    (s_conv(d, Seq::empty())).ok && exists|c: Syntax| svs(c.names@) == s_conv(d, Seq::empty()).names
        && (exists|p: Seq<Rule>| #[trigger] rvs(p) == s_conv(d, Seq::empty()).rules && upds(c.names@, p, c.rules@))
        && s.names == c.names && s.rules@.len() == c.rules@.len() && #[trigger] same_meaning(c.rules@, s.rules@)
}
/// s is the optimized form of the rules that the text describes in the meta language
pub open spec fn loaded(s: Syntax, text: Seq<char>) -> bool { exists|b: Seq<Rule>, d: Seq<MD>| #[trigger] builtin(b) && #[trigger] accepted(b, text, d) && described(s, d) }
/// the text describes no rules
pub open spec fn refused(text: Seq<char>) -> bool {
    exists|b: Seq<Rule>| #[trigger] builtin(b) && (!is_doc_of(b, text) || exists|d: Seq<MD>| #[trigger] accepted(b, text, d) && !s_conv(d, Seq::empty()).ok)
}
pub broadcast proof fn lem_builtin(c: Syntax, b: Seq<Rule>)
    requires #[trigger] same_meaning(c.rules@, b), is_meta(c), wfr(b), graded(b)
    ensures builtin(b)
{ }
