import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
                   observe_at=observe or [], hook_needed=None)))
M='src/meta_rules/'
p('C01','A document is accepted exactly when the last rule reads all of its text',
 'Parsing a text with a syntax succeeds exactly when the last rule of the syntax matches at the start of the text and reads the text to its very end; an accepted document leaves exactly the meta data that match produced, appended after whatever the caller already had. A text with leftover input, a failing last rule, or an empty syntax is always rejected, and the plain, indented and string-error entry points all agree.',
 ['inputs','programs'],'every syntax with resolved references, every text (ASCII or not), every initial token vector, every initial indentation setting on which the parser terminates',
 'The tests parse a few dozen ASCII texts with hand-made rules; the statement is over all syntaxes and texts, including multi-byte text where byte and character counts differ.',
 [M+'mod.rs','src/tokenizer.rs'],[('end-of-text comparison and final truncation','parse_with_indent'),('wrappers','parse, parse_errstr, parse_errstr_with_indent')],
 observe=['return value and token vector of parse / parse_with_indent'])
p('C02','Sequence, choice, option, negation and references have PEG meaning',
 'A sequence succeeds exactly when every part succeeds one after another, each starting where the previous one stopped; a choice behaves as its first alternative that succeeds and fails when none does; an optional rule never fails and reads nothing when its rule fails; a negated rule reads nothing and succeeds exactly when its rule fails; a reference behaves as the rule it refers to, wrapped in a start and end marker of its name when it is named. The bytes read and the meta data emitted are those of the sub rules used, in order.',
 ['inputs','programs'],'every rule tree, every set of references, every text and position on which the parser terminates',
 'Rule trees and texts are unbounded; the tests cover one or two shapes per combinator and no nesting with failures in the middle.',
 [M+'sequence.rs',M+'select.rs',M+'fast_select.rs',M+'optional.rs',M+'not.rs',M+'node.rs',M+'rule.rs'],
 [('combinator loops','Sequence::parse, Select::parse, FastSelect::parse, Optional::parse, Not::parse, Node::parse'),('dispatch','Rule::parse')],
 observe=['range and tokens returned by Rule::parse'])
p('C03','Repetition and separated lists read the longest run and obey their flags',
 'A repeat reads its rule as many times in a row as it succeeds, and fails only when at least one is required and there is none. A separated list reads alternately rule and separator until one of them fails; ending after a rule is always allowed, ending after a separator is allowed exactly when trailing separators are allowed (the separator then stays read), and an empty list is allowed exactly when the list is optional.',
 ['inputs','programs'],'every rule, separator, flag combination, text and position on which the parser terminates; any number of iterations',
 'Tests run a handful of list lengths and flag combinations; the statement is about any number of iterations and any sub rules.',
 [M+'repeat.rs',M+'separate_by.rs'],[('iteration loops','Repeat::parse, SeparateBy::parse')],
 observe=['range, tokens or failure returned'])
p('C04','Terminal rules read exactly the text they describe and report its value',
 'A tag matches exactly when the text starts with it, sets its property to true (false when inverted), and a negated tag does the opposite while reading nothing; white-space, text, number and until rules read exactly the longest prefix of their class, fail exactly when their class is empty where something is required (or the literal is malformed), and emit exactly one property carrying the value read when they are named and nothing otherwise.',
 ['inputs','configurations'],'every text and position, every flag, name and character set of the terminal rules',
 'Each terminal has a few fixed examples; the flag combinations (negated, inverted, required, named) and multi-byte texts are not exhausted.',
 [M+'tag.rs',M+'whitespace.rs',M+'text.rs',M+'number.rs',M+'until_any.rs',M+'until_any_or_whitespace.rs'],
 [('terminal rules','Tag::parse, Whitespace::parse, Text::parse, Number::parse, UntilAny::parse, UntilAnyOrWhitespace::parse'),('token writing','read_data')])
p('C05','Line rules read one match per line and obey indentation',
 'A line rule skips blank lines and reads its rule once per remaining line start, requiring a new line between two matches, and stops at the first line its rule does not match, keeping what it read before. In indented mode a line belongs to the block exactly when it is indented to the current level (a tab counting as the configured number of spaces, the first line fixing the level when alignment is on), deeper rules see a level one higher, and the level is put back after each line whether the line matched or not.',
 ['inputs','programs','configurations'],'every sub rule, text, position and indentation setting on which the parser terminates; white space in one-byte characters',
 'Tests hold a few small indented documents; levels, tabs, nesting and failing lines combine without bound.',
 [M+'lines.rs',M+'indent_settings.rs'],[('per-line closure and indentation bookkeeping','Lines::parse')],
 state=[('indent','current indentation level, shared by nested line rules',M+'indent_settings.rs')])
p('C06','Parsing never disturbs earlier meta data and backtracking leaves no trace',
 'Parsing any rule leaves every token that was there before unchanged, whether it succeeds or fails. When it succeeds, the tokens after them are exactly those of the successful path: nothing written by an alternative, option, negated rule or repetition that failed on the way remains in an accepted document.',
 ['inputs','programs','histories'],'every rule tree, text, start state and vector contents on which the parser terminates, any sequence of failed alternatives',
 'The token vector is shared and truncated lazily; only particular histories of partial failures would expose a stale or lost token.',
 ['src/tokenizer.rs',M+'mod.rs',M+'select.rs',M+'optional.rs',M+'not.rs',M+'repeat.rs',M+'separate_by.rs',M+'sequence.rs',M+'node.rs',M+'lines.rs'],
 [('lazy truncation to the state','read_data'),('state threading','every parse function'),('final truncation','parse_with_indent')],
 state=[('tokens / state','shared vector and number of valid entries','src/tokenizer.rs')])
p('C07','Meta data is always well nested',
 'The meta data of every accepted document is well nested: each node start is closed by an end of the same name, ends never come without a start, and nodes never overlap. The same holds for the part written by every rule that succeeds.',
 ['inputs','programs'],'every rule tree, set of references, text and start state on which the parser terminates',
 'Nesting of start and end markers through backtracking is a property of all rule trees; the tests compare a few token lists.',
 [M+'node.rs','src/tokenizer.rs',M+'mod.rs'],[('start/end markers','Node::parse'),('lazy truncation','read_data')])
p('C08','Reported ranges lie in the text, on character boundaries, inside what was read',
 'When a rule succeeds, the range it reports starts at the current position and covers exactly the characters it read, ending on a character boundary inside the text; every piece of meta data it wrote has a range inside that range, on character boundaries. No position arithmetic can leave the text.',
 ['inputs','programs'],'every rule tree, text (multi-byte included) and position on which the parser terminates; white space in one-byte characters where line rules are used',
 'Tests assert a few ASCII ranges; an off-by-some-bytes range only shows for particular multi-byte texts and nested rules.',
 [M+'mod.rs',M+'node.rs',M+'lines.rs',M+'text.rs',M+'tag.rs',M+'number.rs'],[('range bookkeeping','update, ReadToken::subtract, ReadToken::peek')])
p('C09','A failed parse reports the deepest error it met, inside the text',
 'When parsing fails, the reported error is the deepest failure met on the way (a failure inside a negated rule does not count), the latest alternative winning among equally deep ones inside a choice or repetition and the actual failure winning over an earlier one kept from optional parts. Its range lies inside the text.',
 ['inputs','programs','histories'],'every rule tree, text and position on which the parser fails',
 'Which error survives depends on the history of optional failures; tests check a handful of messages.',
 [M+'mod.rs',M+'select.rs',M+'fast_select.rs',M+'sequence.rs',M+'optional.rs',M+'repeat.rs',M+'separate_by.rs',M+'node.rs',M+'lines.rs'],
 [('deepest-error merge','err_update, ret_err, update')])
p('C10','Optimizing a syntax never changes what it accepts or the data it yields',
 'An optimized syntax accepts exactly the same documents as the original one and produces the same meta data for each; the optimization itself always finishes, for every syntax whose references are resolved.',
 ['programs','inputs'],'every syntax with resolved references (recursive ones included) and every text on which the original parser terminates',
 'Tests build a few tables and run no pair of original and optimized syntaxes; the first-byte analysis must be sound for every rule tree and every next byte, also at the end of the text.',
 ['src/optimize.rs','src/lib.rs',M+'fast_select.rs'],[('first byte analysis','unique_byte'),('table','unique_table_from_select'),('rewriting','optimize_rule, Syntax::optimize')])
p('C11','Converting any meta data to rules terminates with a result, never a panic',
 'Conversion from meta data to rules returns either a syntax or an error for every meta data list whatsoever: truncated, unbalanced, shuffled, with unknown nodes or extreme numbers. Given enough stack for the nesting of the data it never panics, and it never runs forever.',
 ['inputs'],'every slice of meta data, balanced or not',
 'The tests only convert meta data produced by the built-in rules; the reader functions loop until an end marker, so truncated and unbalanced lists matter.',
 ['src/bootstrap/convert.rs'],[('reader loops','convert and its nested read functions'),('skipping','Convert::ignore')])
p('C12','Conversion yields exactly the rules the meta data describes',
 'Each rule description converts to the rule with exactly the described text, flags, names and sub rules in order, absent flags taking their documented defaults, string references replaced by the first string of that name, nodes named and ordered as listed, and debug ids counted from the node number times one thousand. Anything that is not a rule description is rejected or reported as ignored, never silently turned into a different rule.',
 ['inputs','programs'],'every meta data list that describes a syntax, any nesting and order of properties',
 'Tests compare the result for the self syntax only, with debug ids and flags that happen to occur there.',
 ['src/bootstrap/convert.rs'],[('per-rule readers','read_sequence .. read_repeat, read_rule, read_node, read_set, find_string')])
p('C13','References are resolved to the first rule of that name, everywhere in the tree',
 'Updating references points every unresolved reference, at any depth of any rule, to the first rule whose name is equal, leaves references that are already resolved or have no such name as they are, and changes nothing else.',
 ['programs'],'every list of rules and names, with duplicates, unknown names and any nesting',
 'Tests resolve a few single references; depth, duplicates and already resolved references are not covered.',
 [M+'rule.rs',M+'mod.rs'],[('name search','Rule::update_refs'),('all rules','update_refs')])
p('C14','The conversion cursor reads what is there and advances exactly past it',
 'Reading an item of a given kind and name succeeds exactly when the next item is of that kind and name, returning its value and a range of exactly that item; updating with a returned range leaves exactly the rest; skipping covers exactly the next item or the whole node it starts, and nothing at an end marker or at the end of the data; and the source range of a read part of data in text order runs from its first to its last item. No read moves the cursor by itself.',
 ['inputs','histories'],'every slice of meta data, every name and every sequence of reads and updates',
 'The cursor has no tests of its own; it is a public API used by other crates.',
 ['src/bootstrap/convert.rs'],[('cursor','Convert::new, update, start_node, end_node, meta_string, meta_f64, meta_bool, ignore, subtract, source')])
p('C15','JSON output is well formed and strings survive unchanged',
 'Written strings are valid JSON strings which decode to exactly the original characters, whatever they are. Well-nested meta data is written as one property per item, nested objects indented by one space per level, with commas exactly between siblings, and the writer never panics on it and passes on every write error.',
 ['inputs','fault_sequences'],'every string, every well-nested meta data list with finite numbers, every failing writer',
 'Tests write three small lists and three escapes; the remaining control characters and nestings are open.',
 ['src/json.rs'],[('string escaping','write_string'),('comma, newline and indentation logic','write')])
p('C16','Search finds the first match and reads items strictly in order',
 'Searching for an item passes on exactly the data after the first item with the requested kind, name and value, and fails exactly when there is none. Reading the next item succeeds exactly when it has the requested kind and name, returns its value and moves past exactly that item; a failed read moves nothing and reports the item (or the last known range at the end).',
 ['inputs','histories'],'every slice of meta data, every name and value, every sequence of calls',
 'The search crate has no tests at all.',
 ['src/search/src/lib.rs'],[('first match search','for_string, for_f64, for_bool, for_node, for_end_node'),('cursor reads','bool, f64, string, node, end_node')])
p('C17','Error reports never fail and point at the right line and column',
 'Writing an error report for any error range in any text succeeds whenever the writer does, and never panics. It starts with the message, which names the debug id of the rule that failed and what was expected, and shows each line that the range touches under its own line number, the first with a pointer to the column where the range starts; with a text split at new lines, every byte belongs to exactly one line.',
 ['inputs'],'every text, every error and every range inside the text',
 'Tests do not look at reports at all; long lines, empty lines, ranges ending at line ends and multi-byte lines are open.',
 ['src/parse_error_handler.rs','src/parse_error.rs'],[('message','Display for ParseError'),('line table','ParseErrorHandler::new'),('report','write_msg, write')])
p('C18','Parsing a text never panics, whatever the text',
 'With a syntax whose references are resolved, parsing returns a result for every text on which it terminates: no slice outside the text or inside a character, no table index out of range and no counter overflow, no matter how the text is malformed (given enough stack for the depth of recursion the syntax and text ask for).',
 ['inputs','programs'],'every syntax with resolved references and well-formed lookup tables, every text; white space in one-byte characters where line rules are used',
 'Panics hide in particular combinations of rules and malformed or multi-byte text that a finite list of examples does not reach.',
 [M+'mod.rs',M+'lines.rs',M+'fast_select.rs',M+'not.rs',M+'node.rs','src/tokenizer.rs'],[('index and offset arithmetic','all parse functions')])
p('C19','A syntax loaded from text is the one described, and safe to use',
 'Loading a syntax from text returns, for every text, either an error located inside the text or the optimized form of exactly the rules that the text describes in the meta language: one name per rule, every resolved reference and every lookup table entry pointing to an existing rule, so that parsing with it never indexes out of range. It never panics, the variant with formatted errors gives the same syntax or the report of the same error, loading data from a file gives its meta data under the syntax in another file or stops, and the built-in rules are exactly those by which the meta language is documented (assets/self-syntax.txt), with the same guarantees.',
 ['inputs','programs'],'every text with white space in one-byte characters; what a text describes is given by the documented rules of the meta language and the conversion of the meta data they read',
 'Tests load two or three fixed syntaxes; the guarantee joins parser, conversion, reference resolution and optimizer for every text a user may write.',
 ['src/lib.rs','src/bootstrap/rules.rs','src/bootstrap/convert.rs',M+'mod.rs','src/optimize.rs'],[('loading','syntax, syntax_errstr'),('built-in rules','bootstrap::rules'),('documentation of the meta language','assets/self-syntax.txt'),('reference resolution','update_refs')])
p('C20','Parsing finishes when nothing repeats or recurs without reading',
 'For a syntax in which no rule can reach itself and no repeated item or item with separator can succeed without reading any text, parsing finishes for every text, every start position and every indentation setting: no repetition, line loop or reference goes round without progress. A rule reads nothing only where its definition allows it. An optimized syntax keeps this guarantee, and the built-in rules of the meta language have it, so reading a syntax from text finishes too.',
 ['inputs','programs'],'every syntax with such a numbering of its rules (references resolved, white space in one-byte characters where line rules are used), every text',
 'A hang needs the one text on which a loop makes no progress; a test suite that terminates says nothing about the other texts.',
 [M+'mod.rs',M+'separate_by.rs',M+'repeat.rs',M+'lines.rs',M+'sequence.rs',M+'node.rs','src/tokenizer.rs','src/optimize.rs','src/bootstrap/rules.rs','src/lib.rs'],[('loops and recursion','all parse functions'),('numbering kept','Syntax::optimize'),('built-in rules','bootstrap::rules'),('loading','syntax')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P), max(len(x['title']) for x in P))
