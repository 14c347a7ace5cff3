// written by tools/mkmeta.py from assets/self-syntax.txt
pub open spec fn ml_len() -> nat { 23 }
pub open spec fn ml_name(i: int) -> Seq<char> {
    if i == 0 { "multi_line_comment"@ } else if i == 1 { "comment"@ } else if i == 2 { "string"@ } else if i == 3 { "node"@ } else if i == 4 { "set"@ } else if i == 5 { "set_opt"@ } else if i == 6 { "opt"@ } else if i == 7 { "number"@ } else if i == 8 { "text"@ } else if i == 9 { "reference"@ } else if i == 10 { "sequence"@ } else if i == 11 { "select"@ } else if i == 12 { "separated_by"@ } else if i == 13 { "tag"@ } else if i == 14 { "optional"@ } else if i == 15 { "not"@ } else if i == 16 { "whitespace"@ } else if i == 17 { "until_any_or_whitespace"@ } else if i == 18 { "until_any"@ } else if i == 19 { "repeat"@ } else if i == 20 { "lines"@ } else if i == 21 { "rule"@ } else { "document"@ }
}
pub open spec fn mlr_multi_line_comment() -> ML { ML::Seq(Seq::<ML>::empty().push(ML::Tag("/*"@, false, false, None)).push(ML::Until("*/"@, true, None)).push(ML::Rep(true, Box::new(ML::Sel(Seq::<ML>::empty().push(ML::Seq(Seq::<ML>::empty().push(ML::Tag("*/"@, true, false, None)).push(ML::Tag("*"@, false, false, None)).push(ML::Until("*/"@, true, None)))).push(ML::Seq(Seq::<ML>::empty().push(ML::Ref("multi_line_comment"@, None)).push(ML::Until("*/"@, true, None)))).push(ML::Seq(Seq::<ML>::empty().push(ML::Tag("/"@, false, false, None)).push(ML::Until("*/"@, true, None)))))))).push(ML::Tag("*/"@, false, false, None))) }
pub open spec fn mlr_comment() -> ML { ML::Sel(Seq::<ML>::empty().push(ML::Ref("multi_line_comment"@, None)).push(ML::Seq(Seq::<ML>::empty().push(ML::Tag("//"@, false, false, None)).push(ML::Until("\n"@, true, None))))) }
pub open spec fn mlr_string() -> ML { ML::Seq(Seq::<ML>::empty().push(ML::Tag("_"@, false, false, None)).push(ML::UntilWs("[]{}():.!?\""@, false, Some("name"@))).push(ML::Tag(":"@, false, false, None)).push(ML::Ws(true)).push(ML::Text(true, Some("text"@)))) }
pub open spec fn mlr_node() -> ML { ML::Seq(Seq::<ML>::empty().push(ML::Num(false, Some("id"@))).push(ML::Ws(false)).push(ML::Tag("_"@, true, false, None)).push(ML::Tag("."@, true, false, None)).push(ML::UntilWs("[]{}():.!?\""@, false, Some("name"@))).push(ML::Ws(true)).push(ML::Tag("="@, false, false, None)).push(ML::Ws(true)).push(ML::Ref("rule"@, Some("rule"@)))) }
pub open spec fn mlr_set() -> ML { ML::Sel(Seq::<ML>::empty().push(ML::Text(false, Some("value"@))).push(ML::Seq(Seq::<ML>::empty().push(ML::Tag("_"@, false, false, None)).push(ML::UntilWs("[]{}():.!?\""@, false, Some("ref"@)))))) }
pub open spec fn mlr_set_opt() -> ML { ML::Sel(Seq::<ML>::empty().push(ML::Text(true, Some("value"@))).push(ML::Seq(Seq::<ML>::empty().push(ML::Tag("_"@, false, false, None)).push(ML::UntilWs("[]{}():.!?\""@, false, Some("ref"@)))))) }
pub open spec fn mlr_opt() -> ML { ML::Sel(Seq::<ML>::empty().push(ML::Tag("?"@, false, false, Some("optional"@))).push(ML::Tag("!"@, false, true, Some("optional"@)))) }
pub open spec fn mlr_number() -> ML { ML::Seq(Seq::<ML>::empty().push(ML::Tag(".$"@, false, false, None)).push(ML::Opt(Box::new(ML::Tag("_"@, false, false, Some("underscore"@))))).push(ML::Opt(Box::new(ML::Seq(Seq::<ML>::empty().push(ML::Tag(":"@, false, false, None)).push(ML::Ref("set"@, Some("property"@)))))))) }
pub open spec fn mlr_text() -> ML { ML::Seq(Seq::<ML>::empty().push(ML::Tag(".t"@, false, false, None)).push(ML::Sel(Seq::<ML>::empty().push(ML::Tag("?"@, false, false, Some("allow_empty"@))).push(ML::Tag("!"@, false, true, Some("allow_empty"@))))).push(ML::Opt(Box::new(ML::Seq(Seq::<ML>::empty().push(ML::Tag(":"@, false, false, None)).push(ML::Ref("set"@, Some("property"@)))))))) }
pub open spec fn mlr_reference() -> ML { ML::Seq(Seq::<ML>::empty().push(ML::Tag("_"@, true, false, None)).push(ML::Tag("."@, true, false, None)).push(ML::UntilWs("[]{}():.!?\""@, false, Some("name"@))).push(ML::Opt(Box::new(ML::Seq(Seq::<ML>::empty().push(ML::Tag(":"@, false, false, None)).push(ML::Ref("set"@, Some("property"@)))))))) }
pub open spec fn mlr_sequence() -> ML { ML::Seq(Seq::<ML>::empty().push(ML::Tag("["@, false, false, None)).push(ML::Ws(true)).push(ML::Sep(false, true, Box::new(ML::Ws(false)), Box::new(ML::Ref("rule"@, Some("rule"@))))).push(ML::Tag("]"@, false, false, None))) }
pub open spec fn mlr_select() -> ML { ML::Seq(Seq::<ML>::empty().push(ML::Tag("{"@, false, false, None)).push(ML::Ws(true)).push(ML::Sep(false, true, Box::new(ML::Ws(false)), Box::new(ML::Ref("rule"@, Some("rule"@))))).push(ML::Tag("}"@, false, false, None))) }
pub open spec fn mlr_separated_by() -> ML { ML::Seq(Seq::<ML>::empty().push(ML::Tag(".s"@, false, false, None)).push(ML::Ref("opt"@, None)).push(ML::Opt(Box::new(ML::Tag("."@, false, false, Some("allow_trail"@))))).push(ML::Tag("("@, false, false, None)).push(ML::Ws(true)).push(ML::Ref("rule"@, Some("by"@))).push(ML::Ws(false)).push(ML::Ref("rule"@, Some("rule"@))).push(ML::Ws(true)).push(ML::Tag(")"@, false, false, None))) }
pub open spec fn mlr_tag() -> ML { ML::Seq(Seq::<ML>::empty().push(ML::Opt(Box::new(ML::Tag("!"@, false, false, Some("not"@))))).push(ML::Ref("set"@, Some("text"@))).push(ML::Opt(Box::new(ML::Seq(Seq::<ML>::empty().push(ML::Tag(":"@, false, false, None)).push(ML::Opt(Box::new(ML::Tag("!"@, false, false, Some("inverted"@))))).push(ML::Ref("set"@, Some("property"@)))))))) }
pub open spec fn mlr_optional() -> ML { ML::Seq(Seq::<ML>::empty().push(ML::Tag("?"@, false, false, None)).push(ML::Ref("rule"@, Some("rule"@)))) }
pub open spec fn mlr_not() -> ML { ML::Seq(Seq::<ML>::empty().push(ML::Tag("!"@, false, false, None)).push(ML::Ref("rule"@, Some("rule"@)))) }
pub open spec fn mlr_whitespace() -> ML { ML::Seq(Seq::<ML>::empty().push(ML::Tag(".w"@, false, false, None)).push(ML::Ref("opt"@, None))) }
pub open spec fn mlr_until_any_or_whitespace() -> ML { ML::Seq(Seq::<ML>::empty().push(ML::Tag(".."@, false, false, None)).push(ML::Ref("set_opt"@, Some("any_characters"@))).push(ML::Ref("opt"@, None)).push(ML::Opt(Box::new(ML::Seq(Seq::<ML>::empty().push(ML::Tag(":"@, false, false, None)).push(ML::Ref("set"@, Some("property"@)))))))) }
pub open spec fn mlr_until_any() -> ML { ML::Seq(Seq::<ML>::empty().push(ML::Tag("..."@, false, false, None)).push(ML::Ref("set_opt"@, Some("any_characters"@))).push(ML::Ref("opt"@, None)).push(ML::Opt(Box::new(ML::Seq(Seq::<ML>::empty().push(ML::Tag(":"@, false, false, None)).push(ML::Ref("set"@, Some("property"@)))))))) }
pub open spec fn mlr_repeat() -> ML { ML::Seq(Seq::<ML>::empty().push(ML::Tag(".r"@, false, false, None)).push(ML::Ref("opt"@, None)).push(ML::Tag("("@, false, false, None)).push(ML::Ref("rule"@, Some("rule"@))).push(ML::Tag(")"@, false, false, None))) }
pub open spec fn mlr_lines() -> ML { ML::Seq(Seq::<ML>::empty().push(ML::Tag(".l"@, false, false, None)).push(ML::Opt(Box::new(ML::Tag("+"@, false, false, Some("indent"@))))).push(ML::Tag("("@, false, false, None)).push(ML::Ws(true)).push(ML::Ref("rule"@, Some("rule"@))).push(ML::Ws(true)).push(ML::Tag(")"@, false, false, None))) }
pub open spec fn mlr_rule() -> ML { ML::Sel(Seq::<ML>::empty().push(ML::Ref("whitespace"@, Some("whitespace"@))).push(ML::Ref("until_any_or_whitespace"@, Some("until_any_or_whitespace"@))).push(ML::Ref("until_any"@, Some("until_any"@))).push(ML::Ref("lines"@, Some("lines"@))).push(ML::Ref("repeat"@, Some("repeat"@))).push(ML::Ref("number"@, Some("number"@))).push(ML::Ref("text"@, Some("text"@))).push(ML::Ref("reference"@, Some("reference"@))).push(ML::Ref("sequence"@, Some("sequence"@))).push(ML::Ref("select"@, Some("select"@))).push(ML::Ref("separated_by"@, Some("separated_by"@))).push(ML::Ref("tag"@, Some("tag"@))).push(ML::Ref("optional"@, Some("optional"@))).push(ML::Ref("not"@, Some("not"@)))) }
pub open spec fn mlr_document() -> ML { ML::Seq(Seq::<ML>::empty().push(ML::Lines(false, Box::new(ML::Seq(Seq::<ML>::empty().push(ML::Ws(true)).push(ML::Sel(Seq::<ML>::empty().push(ML::Ref("string"@, Some("string"@))).push(ML::Ref("comment"@, None)))))))).push(ML::Lines(false, Box::new(ML::Seq(Seq::<ML>::empty().push(ML::Ws(true)).push(ML::Sel(Seq::<ML>::empty().push(ML::Ref("node"@, Some("node"@))).push(ML::Ref("comment"@, None)))))))).push(ML::Ws(true))) }
#[verifier::opaque]
pub open spec fn ml_rule(i: int) -> ML {
    if i == 0 { mlr_multi_line_comment() } else if i == 1 { mlr_comment() } else if i == 2 { mlr_string() } else if i == 3 { mlr_node() } else if i == 4 { mlr_set() } else if i == 5 { mlr_set_opt() } else if i == 6 { mlr_opt() } else if i == 7 { mlr_number() } else if i == 8 { mlr_text() } else if i == 9 { mlr_reference() } else if i == 10 { mlr_sequence() } else if i == 11 { mlr_select() } else if i == 12 { mlr_separated_by() } else if i == 13 { mlr_tag() } else if i == 14 { mlr_optional() } else if i == 15 { mlr_not() } else if i == 16 { mlr_whitespace() } else if i == 17 { mlr_until_any_or_whitespace() } else if i == 18 { mlr_until_any() } else if i == 19 { mlr_repeat() } else if i == 20 { mlr_lines() } else if i == 21 { mlr_rule() } else { mlr_document() }
}
#[verifier::opaque]
pub open spec fn ml_named(s: Seq<char>) -> bool { s == "multi_line_comment"@ || s == "comment"@ || s == "string"@ || s == "node"@ || s == "set"@ || s == "set_opt"@ || s == "opt"@ || s == "number"@ || s == "text"@ || s == "reference"@ || s == "sequence"@ || s == "select"@ || s == "separated_by"@ || s == "tag"@ || s == "optional"@ || s == "not"@ || s == "whitespace"@ || s == "until_any_or_whitespace"@ || s == "until_any"@ || s == "repeat"@ || s == "lines"@ || s == "rule"@ || s == "document"@ }
pub proof fn lem_mnames() ensures ml_named("multi_line_comment"@), ml_named("comment"@), ml_named("string"@), ml_named("node"@), ml_named("set"@), ml_named("set_opt"@), ml_named("opt"@), ml_named("number"@), ml_named("text"@), ml_named("reference"@), ml_named("sequence"@), ml_named("select"@), ml_named("separated_by"@), ml_named("tag"@), ml_named("optional"@), ml_named("not"@), ml_named("whitespace"@), ml_named("until_any_or_whitespace"@), ml_named("until_any"@), ml_named("repeat"@), ml_named("lines"@), ml_named("rule"@), ml_named("document"@) { reveal(ml_named); }
pub proof fn lem_named(names: Seq<Arc<String>>, s: Seq<char>) -> (k: int)
    requires ml_names(names), ml_named(s)
    ensures 0 <= k < names.len(), sv(names[k]) == s, names.len() <= usize::MAX
{
    reveal(ml_names); reveal(ml_named);
    if s == "multi_line_comment"@ { assert(sv(names[0]) == ml_name(0)); 0 } else if s == "comment"@ { assert(sv(names[1]) == ml_name(1)); 1 } else if s == "string"@ { assert(sv(names[2]) == ml_name(2)); 2 } else if s == "node"@ { assert(sv(names[3]) == ml_name(3)); 3 } else if s == "set"@ { assert(sv(names[4]) == ml_name(4)); 4 } else if s == "set_opt"@ { assert(sv(names[5]) == ml_name(5)); 5 } else if s == "opt"@ { assert(sv(names[6]) == ml_name(6)); 6 } else if s == "number"@ { assert(sv(names[7]) == ml_name(7)); 7 } else if s == "text"@ { assert(sv(names[8]) == ml_name(8)); 8 } else if s == "reference"@ { assert(sv(names[9]) == ml_name(9)); 9 } else if s == "sequence"@ { assert(sv(names[10]) == ml_name(10)); 10 } else if s == "select"@ { assert(sv(names[11]) == ml_name(11)); 11 } else if s == "separated_by"@ { assert(sv(names[12]) == ml_name(12)); 12 } else if s == "tag"@ { assert(sv(names[13]) == ml_name(13)); 13 } else if s == "optional"@ { assert(sv(names[14]) == ml_name(14)); 14 } else if s == "not"@ { assert(sv(names[15]) == ml_name(15)); 15 } else if s == "whitespace"@ { assert(sv(names[16]) == ml_name(16)); 16 } else if s == "until_any_or_whitespace"@ { assert(sv(names[17]) == ml_name(17)); 17 } else if s == "until_any"@ { assert(sv(names[18]) == ml_name(18)); 18 } else if s == "repeat"@ { assert(sv(names[19]) == ml_name(19)); 19 } else if s == "lines"@ { assert(sv(names[20]) == ml_name(20)); 20 } else if s == "rule"@ { assert(sv(names[21]) == ml_name(21)); 21 } else if s == "document"@ { assert(sv(names[22]) == ml_name(22)); 22 } else { 0 }
}
