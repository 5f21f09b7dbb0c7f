import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,
     'anchors':{'files':files,'state':[{'name':a,'meaning':b,'where':c} for a,b,c in state],
     'mechanism':[{'name':a,'where':b} for a,b in mech],'observe_at':observe,'hook_needed':None}})
T='ParserContext::tokenize: the returned token tree or failure'
R='the range, offset and outcome of every matcher call (a probing matcher wrapped around each node)'
PR='src/matchers/program.rs'
p('C01','A sequence matches its parts in order, contiguously, and all or nothing',
 'A sequence of patterns succeeds exactly when each pattern matches in turn, each starting where the one before it ended, and at least one of them gives a token; the result then covers all of the text they matched. If any part does not match, the whole sequence fails without having consumed anything, and whatever encloses it continues from where the sequence began.',
 ['programs','inputs'],'every tree of patterns that contains a sequence, at every nesting, and every source text and window of it',
 'The tests hold some twenty fixed sequences over fixed texts; the property is about every combination of parts (empty, skipping, failing, nested) and every text.',
 [PR,'src/parser_context.rs'],[('iteration over patterns, handling of each outcome',PR+': ProgramPattern::exec / handle_* functions')],[T,R],
 [('offset','where the next part starts',PR)])
p('C02','A choice takes the first alternative that matches, each tried at the same place',
 'A choice tries its alternatives in their written order, each at the very position where the choice began, and its result is that of the first alternative that matches; later alternatives are not tried. It fails exactly when no alternative matches, and what failed alternatives tried leaves no trace in the tree.',
 ['programs','inputs'],'every choice among any patterns (including ones that skip, match nothing or have errors), every text',
 'Tests have a handful of two and three way choices; which alternative wins depends on the outcomes of all the earlier ones and on where each was started.',
 [PR],[('stop on first match',PR)],[T,R])
p('C03','Repetition matches as often as it can, within its bounds',
 'A repetition takes its patterns again and again, each round beginning where the previous one ended, until one of them does not match or the upper bound of rounds is reached. It succeeds exactly when at least its lower bound of rounds were completed and some token was given, and the result is everything matched up to there.',
 ['programs','inputs'],'every repeated pattern, all bounds (none, exact, lower, upper, both), all texts',
 'Tests check a few bounds on one text each; off-by-one and partial-round behaviour appear only for particular combinations of bounds, bodies and texts.',
 [PR,'src/script/v1/parser.rs'],[('iteration range checks',PR+': iterate / Loop! macro')],[T,R],[('iteration count','rounds completed',PR)])
p('C04','Every repetition ends: a round that consumes nothing ends the loop',
 'Parsing always terminates for grammars without left recursion: beyond its lower bound, a repetition never begins another round after one that consumed nothing. A repeated pattern that can match without consuming text is therefore finite, whatever its bounds.',
 ['programs','inputs'],'every repetition of patterns that can succeed without consuming (optional, lookahead, empty, nested repetitions), every text',
 'Termination is about every input; a test that loops forever would only show the cases someone thought of, and no test repeats an empty match.',
 [PR],[('no progress check',PR)],[T,R],[('offset at the start of a round','progress measure',PR)])
p('C05','Break and continue act on the named enclosing repetition',
 'A break ends, and a continue restarts, exactly the nearest enclosing repetition that has the given name (any nearest one if none is given), and everything between is left. What they carry with them, and what the round had matched before, is kept in the result, and text they carry is consumed.',
 ['programs','inputs'],'every nesting of repetitions with any names, jumps at any depth below sequences, choices and wrappers, every text',
 'Tests break out of two nestings; names, depth, what is carried and what surrounds the jump multiply to many more.',
 [PR,'src/matchers/break.rs'],[('Break/Continue outcomes and name comparison',PR),('Break matcher','src/matchers/break.rs')],[T,R])
p('C06','Text and expression patterns match only at the current place, inside the window',
 'A text pattern matches exactly when the rest of the window begins with that text, and a regular expression exactly when it matches at the very start of the rest of the window; never text further on, before, or beyond the window end. The token they give covers exactly the characters matched.',
 ['inputs','programs'],'every text, every expression of the modelled subset, every source, every window and position',
 'Tests match a few words at the start of a text; anchoring and window limits show only for matches that exist further on or straddle the window end.',
 ['src/parser_context.rs','src/matchers/equals.rs','src/matchers/matches.rs'],[('starts_with and find on the window','src/parser_context.rs: matches_str, matches_regexp'),],[T,R])
p('C07','Delimited sequences end at the first unescaped end mark and are unescaped',
 'A delimited sequence matches from its start mark to the first end mark that is not escaped, within the window, and fails when there is none. Its captured range is what lies between the marks, its matched range includes them, and its value is the captured text with each escape mark removed and the character after it kept.',
 ['inputs','programs'],'every choice of start, end and escape marks (also equal, multi-character, non-ASCII, empty escape), every content',
 'Tests have five strings with one kind of escape; doubled escapes, escapes at the very end, overlapping marks and non-ASCII contents are what breaks.',
 ['src/matchers/sequence.rs'],[('scan for escape and end','src/matchers/sequence.rs: SequencePattern::_exec')],[T,R])
p('C08','Lookahead and optional patterns never consume what they must not',
 'A negative lookahead succeeds exactly when its pattern does not match and never consumes anything; an optional pattern always succeeds, giving what its pattern gives if that matches and nothing otherwise. Fatal errors inside them are still errors.',
 ['programs','inputs'],'every inner pattern and every place where they are nested, every text',
 'Tests use one inner text each; double negation, failing or erroring inner patterns and nesting inside repetition or choice are not reached.',
 ['src/matchers/not.rs','src/matchers/optional.rs','src/matchers/null.rs'],[('translation of outcomes','src/matchers/not.rs, src/matchers/optional.rs, src/matchers/null.rs')],[T,R])
p('C09','Discarded patterns consume their text and leave no tokens, except errors',
 'A discarded pattern matches and consumes exactly what its pattern would, with the same success or failure, but contributes no tokens to the tree, other than one that holds the errors recorded inside of it, of which none is lost.',
 ['programs','inputs'],'every discarded pattern at every place in a tree, every text',
 'Tests discard plain matches only; discarded errors, jumps, nested trees and skips are not tried.',
 ['src/matchers/discard.rs'],[('outcome translation and error collection','src/matchers/discard.rs')],[T,R])
p('C10','Flattening replaces a token by its children; expanding widens what it captures',
 'A flattened pattern matches as its pattern does and puts the children of the resulting token in its place, in order, without losing or repeating any, and without changing how much text is consumed. Expanding a pattern makes the enclosing token capture everything that the pattern matched, and changes nothing else.',
 ['programs','inputs'],'every flattened or expanded pattern, nested in any way, every text',
 'Tests flatten one level of simple tokens; nested flattening, flattening of skips and of trees whose captured and matched ranges differ is not tried.',
 ['src/matchers/proxy_children.rs','src/matchers/expand_range.rs',PR],[('child proxying','src/matchers/proxy_children.rs, '+PR),('range expansion','src/matchers/expand_range.rs')],[T,R])
p('C11','Pinning moves matching to the given place, and only there',
 'A pinned pattern is matched at the position or range that its offset denotes (absolute or relative, with or without end, literal or from a stored value), and a place outside of the source is a failure, never a crash. Without a pattern it only moves the position, and the enclosing pattern continues where the pinned pattern ended.',
 ['programs','inputs'],'every form of offset, every position, window and inner pattern',
 'Tests pin to a few literal places that exist; relative, reversed, out of range and stored offsets at the edges of the text are not reached.',
 ['src/matchers/pin.rs'],[('parsing of offsets and range computation','src/matchers/pin.rs')],[T,R])
p('C12','Stored values are what was matched, and fetching substitutes exactly that',
 'Storing a pattern binds its name to the token (or text) it gave, in the innermost scope, and only when the pattern matched; the match itself is unchanged. Wherever a stored value is used in place of a pattern, the pattern behaves as if the value of the latest visible binding had been written there.',
 ['programs','inputs','histories'],'every order of storing and fetching in a grammar, including stores inside branches that later fail, every text',
 'Tests store and fetch once, in order; stale, overwritten and never executed stores need particular histories.',
 ['src/matchers/store.rs','src/matchers/fetch.rs','src/scope_context.rs'],[('binding','src/matchers/store.rs'),('substitution','src/matchers/fetch.rs and the fetchable arguments of other matchers')],[T,R,'variables visible after the parse'])
p('C13','References mean the named pattern that is visible when they are reached',
 'A reference matches exactly as the pattern that its name denotes at the moment it is reached, including patterns that were registered earlier in the same parse and patterns that refer to themselves. Nested patterns with names of their own are visible to references where documented; a name that denotes no pattern never matches silently.',
 ['programs','inputs','histories'],'every set of named and registered patterns, recursive and redefined, every text',
 'Tests have one recursive grammar and one registration; redefinition, shadowing and mutual recursion depend on the order of execution.',
 ['src/matchers/ref.rs','src/matchers/register.rs','src/parser_context.rs'],[('lookup at match time','src/matchers/ref.rs'),('registration','src/matchers/register.rs, src/parser_context.rs: register_matcher*')],[T,R])
p('C14','A pattern with a scope of its own neither sees nor changes other scopes wrongly',
 'What is bound inside a scoped pattern is gone when it ends, however it ends (match, failure, error, jump), and the scopes outside are exactly as they were, except for scopes it was explicitly given. Lookups see the innermost binding of a name first.',
 ['programs','inputs','histories'],'every nesting of scopes and bindings, every way in which a scoped pattern can end, shared and reused scopes',
 'Tests leave a scope only by success; balance on failure, error and jump and isolation over several parses are not tried.',
 ['src/matchers/set_scope.rs','src/scope_context.rs',PR],[('push and pop of scopes','src/scope_context.rs'),('exec in another scope context','src/matchers/set_scope.rs, '+PR)],[T,'variables visible after the parse'],
 [('scope stack','scopes, innermost last','src/scope_context.rs')])
p('C15','A fatal error ends the whole parse, with its message and location',
 'When a fatal error is raised nothing further is matched, and the parse returns an error whose message is the one raised with the file, line and column of where it was raised. Only a pattern that explicitly handles failures can turn it into something else.',
 ['programs','inputs'],'every place where a fatal error can be raised, under every nesting of patterns, every text and file name',
 'Tests raise errors at the top of small grammars; that no construct on the way swallows or alters the error needs all nestings.',
 [PR,'src/matchers/panic.rs','src/matchers/fatal_if.rs','src/matchers/fatal_if_not.rs','src/parser_context.rs'],[('error propagation','all matchers'),('message','src/matchers/panic.rs, src/parser_context.rs: get_error_as_string')],[T,R])
p('C16','Non-fatal errors are recorded, consume nothing, and end up below the root token',
 'A non-fatal error or a failed assertion adds an error token with its message and does not stop the parse. Every error token that belongs to the result is a direct child of the root token at the end, exactly once, and the rest of the tree is free of them.',
 ['programs','inputs'],'every number and nesting of non-fatal errors and assertions, every text',
 'Tests have single errors at two depths; several errors, errors below discarded or flattened patterns and errors that come first are not tried.',
 ['src/matchers/error.rs','src/matchers/assert_if.rs','src/matchers/assert_if_not.rs','src/parser_context.rs',PR],[('hoisting of error tokens','src/parser_context.rs: collect_errors'),('error tokens','src/matchers/error.rs')],[T])
p('C17','Token trees are well formed: ranges nest, values are the text, parents are right',
 'In every returned tree, each token lies within the range matched by its parent, siblings follow each other without overlap in text order unless patterns moved the position or reused a stored token explicitly, and the text of a token is exactly the part of the source in its range. Each token other than the root is reported by its parent as a child once, and reports that token as its parent.',
 ['programs','inputs'],'every grammar and every text',
 'Tests assert ranges of particular trees, and parents hardly at all; well-formedness is an invariant of all trees.',
 [PR,'src/token.rs','adextopa_macros/src/lib.rs','src/source_range.rs'],[('range and child bookkeeping',PR),('token values','adextopa_macros/src/lib.rs, src/source_range.rs')],[T])
p('C18','User functions are called once per outcome, and their answer is what counts',
 'A mapping function is called exactly once for each match of its pattern, a failure function exactly once for each failure, with that token or failure and never for patterns that were not tried; a catching function only for failures. What the function returns takes the place of the outcome, whatever that is.',
 ['programs','inputs','histories'],'every pattern around and below a mapped one, every kind of answer, every text',
 'Tests map one success to a renamed token; how often and in which order functions run over whole parses, and answers that are failures, errors, skips or jumps are not tried.',
 ['src/matchers/map.rs','src/matchers/catch.rs'],[('calls of the functions','src/matchers/map.rs, src/matchers/catch.rs')],[T,'a log of function calls'])
p('C19','Debugging a pattern does not change what it does',
 'A grammar with debugging wrapped around any of its patterns gives the same result as the same grammar without, for every mode of debugging and every text. (A pattern that is registered stays known by its own name only if it is registered without debugging.)',
 ['programs','inputs','configurations'],'every pattern that can be debugged, every nesting and every debug mode, every text (also with non-ASCII text near the printed excerpt)',
 'Tests never run the debugging pattern over failing, erroring or non-ASCII matches, and cannot compare for every grammar.',
 ['src/matchers/debug.rs','src/parser_context.rs'],[('pass-through','src/matchers/debug.rs'),('excerpt','src/parser_context.rs: debug_range')],[T,R])
p('C20','Lines and columns are counted from the line breaks before a position',
 'The line of a position is one more than the number of line breaks (LF, CR or CR LF, the last counting once) before it, and its column is one more than the number of bytes since the last of them; the last column of a range is never reported smaller than the first. Error messages show file, line and column of the range, as a span only where first and last differ. The text of a range is that of the source between its ends, also for a source read from a file.',
 ['inputs'],'every text over line breaks and other characters, every range that does not split a line break or a character',
 'The tests look at four positions of one text; adjacent, mixed and trailing line breaks and ranges over several lines are the difficult cases.',
 ['src/parser_context.rs'],[('counting','src/parser_context.rs: get_lines, get_columns, get_error_as_string')],['ParserContext::get_lines, get_columns, get_lines_and_columns, get_error_as_string'])
p('C21','Visiting a tree calls the right function once per token, parents first, in order',
 'A visit calls, for each token of the tree in depth-first order with parents before children, the first function registered for its name, or else the one registered for every name, exactly once. The first error that a function returns ends the visit at once and is what the visit returns.',
 ['inputs','histories'],'every tree, every set of registered names including repeated and missing ones, an error at every call',
 'One test visits one tree without any error.',
 ['src/token_visitor.rs'],[('traversal and hook choice','src/token_visitor.rs')],['order of calls, and result of the visit'])
p('C22','Scope stacks behave as a stack of maps, shared where scopes are shared',
 'Setting a variable changes only the innermost scope (one is made if there is none) and gives back the value it replaced, looking one up finds the innermost binding, and pushing and popping scopes reveals and hides bindings without altering them. Patterns registered on a parse are found under the name they are registered with, and nothing but a pattern is.',
 ['histories'],'every sequence of pushes, pops, sets, lookups, registrations and copies on any number of scopes and stacks',
 'One test pushes two scopes and pops one; sharing, empty stacks and replacement need longer histories.',
 ['src/scope_context.rs','src/scope.rs','src/parser_context.rs'],[('lookup from the innermost','src/scope_context.rs: get'),('binding','src/scope_context.rs: set, src/scope.rs')],['ScopeContext, Scope and the variable and matcher functions of ParserContext'],[('stack','scopes, innermost last','src/scope_context.rs')])
p('C23','Tokens answer consistently after any sequence of changes',
 'After any sequence of changes a token reports what was last set: its value is the overriding attribute if present, else the (non-empty) value set, else its captured text, and setting a range of a token also sets the corresponding text to that of the source (a pin keeps its texts until they are set, and attributes override them). Flags, attributes, children, lookups among children and equality follow the same rule and never affect other parts of the token.',
 ['histories'],'every sequence of setters on tokens, observed through every getter after each step',
 'Tests read tokens that a parse has made, and hardly ever change one.',
 ['src/token.rs','adextopa_macros/src/lib.rs'],[('derived accessors','adextopa_macros/src/lib.rs'),('provided functions','src/token.rs')],['Token accessors'])
S='src/script/v1/parser.rs'
p('C24','A script means the grammar that it writes down',
 'A grammar compiled from a script accepts exactly the texts, and gives exactly the trees, that the written patterns denote: texts, expressions, delimited sequences, choices, sequences, references and negation, capturing in parentheses and discarding outside of them.',
 ['programs','inputs'],'every script of the language, every text given to the compiled grammar',
 'Tests compile some forty fixed scripts and mostly look at the shape of the syntax tree, not at what the grammar accepts.',
 [S,'src/script/v1/matchers'],[('construction of matchers from the syntax tree',S)],['compile a script, then parse texts with the result'])
p('C25','Modifiers and repeats in scripts apply where they are written, in order',
 'Optional and negation marks and repeat specifications in a script have the documented bounds and nesting: marks inside the pattern apply to each round, marks outside to the repetition as a whole.',
 ['programs','inputs'],'every combination of marks, repeat specifications and patterns, every text',
 'Tests show that modifiers are parsed, hardly what they do, and never in combination.',
 [S,'src/script/v1/matchers/repeat_specifier.rs'],[('wrapping of matchers',S)],['compile a script, then parse texts with the result'])
p('C26','Names, attributes, assignments and header of a script reach the tokens',
 'A named pattern in a script gives tokens of that name, attributes written at a pattern are found on its tokens unless set already, and the name in the header names the root. An assigned name denotes its pattern (or the same pattern as another name) wherever it is referred to, before or after.',
 ['programs','inputs'],'every placement of names, attributes and assignments, every order of definition, every text',
 'Tests check the syntax tree of such scripts, and the effect for few of them.',
 [S],[('names, attributes, assignments',S)],['compile a script, then parse texts with the result'])
p('C27','Imports make the chosen names of another script available, and nothing else',
 'An imported name behaves as it does in the script that defines it, with the definitions of that script, under the name given to it here, and does not disturb definitions of the importing script. Missing files, missing names, and circular imports are errors, not crashes or endless work.',
 ['programs','configurations','inputs'],'every graph of scripts that import from each other, with renames and name clashes, every text',
 'One test imports one file; clashes, chains, cycles and missing parts are not tried.',
 [S],[('import handling',S)],['compile a script file, then parse texts with the result'])
p('C28','Malformed scripts are rejected with a located error, never a crash',
 'Compiling any text gives either a grammar or an error; it never panics or runs forever. A text that is not a script of the language is never compiled as if part of it had not been written, and the error for an invalid pattern, assignment or import, and for text that does not belong to any pattern, says where it is; every location given lies within the script.',
 ['inputs'],'every text, in particular every damaged script',
 'Tests have a few malformed scripts.',
 [S,'src/script/v1/matchers'],[('error recovery and error collection',S+', src/script/v1/matchers')],['result of compiling'])
p('C29','Parsing is repeatable: the same grammar and text give the same result every time',
 'A compiled grammar can be used for any number of parses, of the same or other texts, with fresh or reused contexts, and each result depends only on the grammar, the text, the window and the variables at the start. Earlier parses, whether they succeeded, failed or raised errors, leave nothing behind in the grammar.',
 ['histories','programs','inputs'],'every sequence of parses with one grammar',
 'Tests build a new grammar for each parse.',
 ['src/matchers','src/parser_context.rs'],[('matchers keep no state; state lives in context and scope','src/matcher.rs, src/parser_context.rs')],[T,'several parses with one grammar'])
p('C30','Any Unicode text can be parsed: character boundaries are kept, nothing crashes',
 'For every text, every reported range begins and ends on character boundaries and its text is that part of the source, and no grammar makes the parser crash because of where multi-byte characters lie.',
 ['inputs','programs'],'every text with multi-byte characters anywhere, every pattern, window, mark and error message',
 'All tests use ASCII texts.',
 ['src/source_range.rs','src/parser_context.rs','src/matchers/sequence.rs',PR],[('byte offsets, character boundaries','src/source_range.rs, src/matchers/sequence.rs')],[T,R])
p('C31','Editing a grammar takes effect from the next parse on, and only where edited',
 'Renaming a pattern, replacing one of its children or adding a pattern to it makes later parses behave as if the grammar had been built that way from the start, including after parses were made with the old form.',
 ['histories','programs','inputs'],'every sequence of edits and parses on every kind of pattern that can be edited',
 'No test edits a grammar after it is built.',
 ['src/matcher.rs','src/matchers'],[('set_name, set_child, add_pattern','src/matchers')],[T])
p('C32','Parse contexts look at their own window of the source; copies are independent',
 'Looking for a text or a regular expression in a parse context finds it exactly if it begins at the start of the window (or at the offset given) and ends within the window, and reports the place in offsets of the whole source; the window is exactly what was last set. A copy of a context has a window, name, stack of tokens and debug level of its own from then on, while variables stay shared.',
 ['histories','inputs'],'every sequence of window changes, copies, token pushes and variable changes, with every text looked for at every offset',
 'No test sets a window other than the whole source and looks for a text in it, or uses a copy and its original side by side.',
 ['src/parser_context.rs','src/source_range.rs','src/parser.rs'],[('windows','src/parser_context.rs: set_start, set_end, set_offset, matches_str, matches_str_at_offset, matches_regexp'),('copies','src/parser_context.rs: clone_with_name')],['ParserContext'])
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    assert x['statement'].count('. ')<3
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
