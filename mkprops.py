#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long texts stay readable)."""
import json
T='packages/teleparse/src/'
M='packages/macros/src/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        observe_at=list(observe),hook_needed=None)))

prop('S01','First use of a grammar from many threads is safe and computed once',
 'When any number of threads make first use of a root syntax type at the same time, every one of them gets the same grammar verdict, the same tables and the same parse results as a thread that used it alone, and the tables are built at most once to completion. If the computation is interrupted by a panic in one thread, the other threads and later callers still get the correct verdict, and nobody is left waiting forever.',
 ['schedules','programs','crash_points'],'every interleaving of first uses, every number of threads, every grammar, every point at which the initialising thread may be interrupted',
 'each test initialises each root from one thread (or from whatever threads the test harness happens to use), never with a controlled interleaving and never with an interrupted initialisation',
 [M+'root.rs',T+'syntax/metadata.rs',T+'parser/tree.rs',T+'parser/parser_impl.rs'],
 [('OnceLock per root type in the derived Root::metadata',M+'root.rs expand'),('MetadataBuilder collects productions, then builds FIRST/FOLLOW/jump',T+'syntax/metadata.rs MetadataBuilder::build'),('Parser::parse clones the stored error instead of recomputing',T+'parser/parser_impl.rs Parser::parse')],
 [('METADATA','the tables or the grammar error, written once',M+'root.rs')],['Root::metadata()','Root::assert_ll1()','Parser::parse() result in every thread'])

prop('S02','Parse sessions do not influence each other',
 'A parse session gives the same trees, token log, extracted tokens, invalid spans and errors whatever other sessions exist in the process, however their operations interleave with it, on however many threads, and whether or not other sessions are abandoned or torn down by a panic part-way.',
 ['schedules','histories','crash_points'],'every interleaving of the operations of any set of sessions over any grammars and sources, with sessions dying at any point',
 'tests run one session at a time and never compare a session that ran amid others with the same session run alone',
 [T+'parser/parser_impl.rs',T+'parser/info.rs',T+'syntax/metadata.rs',T+'tp_impl/*.rs',M+'root.rs',M+'syntax.rs'],
 [('all session state lives in Parser/Info; shared tables are immutable after they are built',T+'parser/parser_impl.rs Parser'),('immutable FIRST/FOLLOW/jump tables behind a shared reference',T+'syntax/first/mod.rs, follow/mod.rs, jump.rs')],
 [('Info','everything a session reports',T+'parser/info.rs')],['Parser::info()','results of Parser::parse()'])

prop('S03','A session delivers every token exactly once, in source order',
 'Looking ahead never consumes or loses a token, and consuming or parsing takes the lookahead token next: over any history of session operations (including parses that fail, recover or are interrupted), consumed tokens, the lookahead token and the unread rest together are exactly the tokens the lexer yields, each once and in order, with tokens set aside for extraction kept apart in the same order. A session can always be continued after any outcome, and asking for more at the end of the input keeps answering that it has ended.',
 ['histories','inputs','fault_sequences','crash_points'],'every sequence of session operations over every source and every lexer behaviour (stalls that yield only invalid text, extraction runs, premature end, a panic inside the lexer), interrupted at any point',
 'tests exercise one parse per session and the lexer on hand-picked strings; no test mixes lookahead, consumption, several parses and interruptions in one history',
 [T+'parser/parser_impl.rs',T+'parser/info.rs',T+'lex/lexer.rs',M+'lexicon.rs'],
 [('single-slot lookahead filled lazily',T+'parser/parser_impl.rs peek_token/try_read_next_token'),('consumption moves the lookahead to the token log',T+'parser/parser_impl.rs consume_token'),('extraction of tokens no terminal uses',T+'parser/parser_impl.rs try_read_next_token, '+M+'lexicon.rs should_extract')],
 [('peeked','the lookahead token',T+'parser/parser_impl.rs'),('tokens / extracted_tokens','the logs',T+'parser/info.rs')],
 ['peek_token','consume_token','parse_token','current_span','remaining','info().tokens','info().extracted_tokens'])

prop('S04','Lexing accounts for every byte and resynchronises after garbage',
 'However the source text is damaged, every byte of it ends up in exactly one of: a token, ignored text, or a reported invalid span; tokens are the longest matches of the lexicon\'s rules with the right type, in order and without overlap. Each run of unmatchable text is reported once, covers only text from its first to its last unmatchable character, and the tokens after it are recognised as if the garbage had not been there.',
 ['inputs','fault_sequences'],'every source text and every damage to it (flipped, lost, duplicated, reordered, zeroed or inserted text, multi-byte characters included)',
 'the lexer tests use a dozen fixed strings; none checks that the pieces tile the source or that damage stays local',
 [T+'lex/lexer.rs',T+'lex/token.rs',T+'lex/span.rs',T+'parser/parser_impl.rs',M+'lexicon.rs'],
 [('error-skipping loop merging invalid text into one span',T+'lex/lexer.rs LogosLexerWrapper::next'),('invalid spans recorded with an error each',T+'parser/parser_impl.rs try_read_next_token'),('lexer rules generated from the lexicon',M+'lexicon.rs expand')],
 [('invalid_source','reported invalid spans',T+'parser/info.rs')],['Lexer::next()','info().tokens / extracted_tokens / invalid_source / errors'])

prop('S05','A parse is clean exactly when the consumed text is a sentence',
 'For every grammar that is accepted, a parse finishes without any error if and only if what it consumed is a sentence of the grammar (a prefix of the input that the lookahead rule selects), and then the tree it returns is that sentence\'s unique derivation, with every token in its place, every optional part present exactly when it was written and every choice resolved to the alternative that was written. Undoing damage to a source restores exactly the clean result.',
 ['programs','inputs','fault_sequences'],'every accepted grammar over all production forms, every sentence of it and every damaged variant of a sentence',
 'tests cover a few dozen grammars with one or two inputs each; acceptance must hold for all grammars and all inputs, including nullable alternatives, mutual recursion and lists in unusual contexts',
 [T+'syntax/jump.rs',T+'syntax/first/*.rs',T+'syntax/follow/*.rs',T+'tp_impl/*.rs',T+'parser/parser_impl.rs',M+'syntax.rs'],
 [('predictive table selects the alternative',T+'syntax/jump.rs JumpTable::look_up'),('FIRST decides optional parts and repetition',T+'tp_impl/option.rs, iter.rs, split.rs, punct.rs'),('derived sequence and choice parsing',M+'syntax.rs')],
 [],['Parser::parse() result','info().errors','the returned tree'])

prop('S06','Parsing always makes progress and ends',
 'For every accepted grammar and every input, however damaged, every parse operation returns after work bounded by the size of the input, without crashing, panicking or blocking; repeated parsing of one source eventually reaches its end or stops consuming, and a failed parse never moves backwards in the input.',
 ['programs','inputs','fault_sequences','histories'],'every accepted grammar, every input and damage to it, every sequence of parse operations in a session',
 'a hang or a panic on a rare combination of nullable item, delimiter and following token is not found by sampling a few inputs per construct',
 [T+'tp_impl/iter.rs',T+'tp_impl/split.rs',T+'tp_impl/punct.rs',T+'tp_impl/recover.rs',T+'syntax/metadata.rs',T+'syntax/first/builder.rs',T+'syntax/follow/builder.rs'],
 [('skip-until loops consume a token per round',T+'tp_impl/split.rs, punct.rs, recover.rs, iter.rs'),('no-advance guard of the loop construct',T+'tp_impl/iter.rs Loop'),('fix-point table construction',T+'syntax/first/builder.rs build, follow/builder.rs build'),('left recursion is rejected',T+'syntax/metadata.rs check_left_recursive')],
 [],['Parser::parse() returns','info().tokens'])

prop('S07','Faults are contained where lists, options and recovery points promise',
 'When part of the input is damaged, options, repetitions, delimited lists, whole-input loops and recovery points behave as documented: a failing optional part is dropped and parsing continues, a repetition keeps the items already read, a delimited list drops the damaged item and resumes at the next delimiter, item or follower, a recovery point skips to the first place its tail parses, and a loop skips to the next item until the input ends. Undamaged neighbours keep exactly the subtrees they have in the undamaged source.',
 ['programs','inputs','fault_sequences'],'every accepted grammar containing these constructs in any nesting, every sentence and every placement and kind of damage',
 'recovery is tested with a handful of inputs per construct over terminals; what to skip depends on FIRST and FOLLOW of the surroundings, which tests do not vary',
 [T+'tp_impl/option.rs',T+'tp_impl/iter.rs',T+'tp_impl/split.rs',T+'tp_impl/punct.rs',T+'tp_impl/recover.rs',T+'syntax/follow/builder.rs'],
 [('panic-mode recovery using FIRST/FOLLOW',T+'tp_impl/split.rs, punct.rs, recover.rs, iter.rs'),('panic converted to an absent value',T+'tp_impl/option.rs produce_option')],
 [],['the returned tree','info().errors','info().tokens'])

prop('S08','A missing fixed token is repaired exactly when what follows can follow it',
 'When a token with fixed text is missing, the parser supplies an empty one and goes on if and only if the next token (or the end of input) can follow it in the grammar; the supplied token is empty, sits right after the last consumed token, consumes nothing and is reported once. In every other case the parser gives up at that token without consuming anything.',
 ['programs','inputs','fault_sequences'],'every accepted grammar, every fixed-text token in it, every following token and every loss of a token from a sentence',
 'the condition ranges over the FOLLOW set of every terminal of every grammar; tests check two or three positions',
 [T+'parser/parser_impl.rs',T+'syntax/follow/builder.rs',T+'syntax/follow/set.rs',T+'syntax/term_set.rs',T+'syntax/lit_set.rs',M+'lexicon.rs'],
 [('literal repair',T+'parser/parser_impl.rs parse_token_lit'),('FOLLOW of terminals',T+'syntax/follow/builder.rs'),('insertion position',T+'parser/parser_impl.rs empty_span')],
 [],['the returned tree','info().errors','parse_token_lit result'])

prop('S09','Every repair, skip and failure is reported, at the right place',
 'Nothing is dropped or invented silently: every supplied token, skipped stretch, dropped item and failure has an error whose span covers where it happened and which names exactly the tokens that were acceptable there, and a parse that changed or lost nothing reports nothing. Errors are kept across the parses of a session in the session that caused them, and each renders a message naming the expected tokens or quoting the offending text.',
 ['programs','inputs','fault_sequences','histories'],'every accepted grammar, every damage, every history of parses in one session',
 'tests compare error lists for a few inputs; whether some construct swallows an error depends on the combination of constructs around it',
 [T+'syntax/error.rs',T+'tp_impl/*.rs',T+'parser/parser_impl.rs',T+'syntax/term_set.rs',M+'syntax.rs'],
 [('errors collected through every production',T+'syntax/error.rs handle_result'),('dropped items merged into one error with a growing span',T+'tp_impl/split.rs, punct.rs, recover.rs'),('messages',T+'syntax/error.rs Error::message')],
 [('errors','all errors of the session',T+'parser/info.rs')],['info().errors','Error::message()'])

prop('S10','Spans, quoted text and parsed values tell the truth',
 'Every node\'s span starts at its first part and ends at its last, lies inside the source on character boundaries, contains its parts in order, and an absent or supplied part has an empty span where it would have been; captured text is exactly the source under the captured node\'s span and captured values are what that text parses to, also for damaged and repaired input.',
 ['programs','inputs','fault_sequences'],'every accepted grammar over all node forms, every input, damaged or not, multi-byte text included',
 'spans of nested, absent and repaired nodes are asserted for a few literals in the tests; the relation must hold for every nesting',
 [T+'lex/span.rs',T+'tp_impl/node.rs',T+'tp_impl/string.rs',T+'tp_impl/option.rs',T+'tp_impl/iter.rs',T+'tp_impl/punct.rs',T+'tp_impl/split.rs',T+'tp_impl/recover.rs',M+'syntax.rs',M+'to_span.rs'],
 [('span composition of derived nodes and tuples',M+'syntax.rs, '+M+'to_span.rs, '+T+'lex/span.rs'),('text capture',T+'tp_impl/string.rs')],
 [],['ToSpan of every node','Quote and Parse values'])

prop('S11','Semantic marks reach exactly the tokens of the marked part',
 'When a marked part of a syntax node is parsed, every consumed token inside the source range of that part carries the mark and no other token does; marks from several parts accumulate, survive later parsing and errors elsewhere, and are visible wherever the token is looked up.',
 ['programs','inputs','fault_sequences','histories'],'every grammar with marks at any depth, every input including skipped and repaired text, every history of parses in one session',
 'one test file with two inputs; which tokens are inside a node depends on repairs, empty parts and skipped stretches around it',
 [T+'lex/vec.rs',T+'lex/set.rs',T+'parser/parser_impl.rs',M+'syntax.rs'],
 [('apply_semantic over the node span',T+'parser/parser_impl.rs apply_semantic'),('span to token range by binary search',T+'lex/vec.rs inside_bounds'),('attribute expansion',M+'syntax.rs expand_struct_named/expand_struct_unnamed/expand_enum')],
 [('semantic','marks per token',T+'lex/vec.rs Cell')],['info().tokens cells'])

prop('S12','Token-log queries agree with the log they are asked about',
 'At any moment of a session, looking up tokens by index, by a range that covers exactly one of them, inside or overlapping a range, or as the longest run of matching tokens ending or beginning at a position returns exactly the tokens of the log that satisfy the description (and nothing when none does), never fails, and changing marks through a lookup changes exactly those tokens.',
 ['histories','inputs'],'every token log a session can build up, every range and position (empty, reversed, beyond the end, inside garbage), any interleaving of logging, marking and looking up',
 'the tests use fixed logs and a few ranges; the searches are by position over two different keys and go wrong only for particular alignments',
 [T+'lex/vec.rs',T+'lex/set.rs',T+'lex/token.rs'],
 [('binary search by start and by end',T+'lex/vec.rs search_lo/search_hi'),('range queries',T+'lex/vec.rs inside_bounds/overlap_bounds/ends_at_matches_bounds/begins_at_matches_bounds')],
 [],['TokenVec / TokenSlice methods'])

prop('S13','Grammar verdicts and tables depend only on the grammar and are exactly LL(1)',
 'A grammar is accepted if and only if it is LL(1) and not left-recursive; a rejection names a conflict or recursion that really exists with the tokens really involved, and for an accepted grammar the starting, following and choice tables are exactly the ones the grammar defines. None of this depends on the order in which productions are registered, on how types happen to be numbered in this build, or on who asks first.',
 ['programs','schedules','configurations'],'every grammar (any mix of sequences, choices, options, lists, recursion and empty productions), every registration order, every numbering of types',
 'tests check the tables of a few grammars under the one numbering their build happens to get; order-dependent fix-point or conflict bugs need a particular order',
 [T+'syntax/metadata.rs',T+'syntax/first/*.rs',T+'syntax/follow/*.rs',T+'syntax/jump.rs',T+'syntax/term_set.rs',T+'syntax/lit_set.rs',T+'tp_impl/*.rs'],
 [('FIRST and FOLLOW fix points over ordered maps keyed by type id',T+'syntax/first/builder.rs, follow/builder.rs'),('conflict and recursion checks',T+'syntax/metadata.rs check_conflicts/check_left_recursive'),('choice table',T+'syntax/metadata.rs build_jump')],
 [],['Root::metadata()','MetadataBuilder::build()','GrammarError'])

prop('N01','Malformed lexicon and syntax definitions are rejected at compile time',
 'A lexicon or syntax definition that can never work (a literal its own pattern does not match, duplicate literals, patterns matching nothing or the empty string, unsupported shapes) is rejected when it is compiled, with a message at the offending place, and every well-formed definition compiles.',
 ['programs'],'every lexicon and syntax definition','the compile-fail tests sample one definition per message',
 [M+'lexicon.rs',M+'syntax.rs',M+'prelude.rs'],[('checks during expansion',M+'lexicon.rs expand')])

prop('N02','Serialised errors and sets keep their content',
 'With serialisation enabled, an error, a token set or a table written out and (where supported) read back denotes the same value.',
 ['inputs'],'every error, set and span','no test serialises them',
 [T+'lex/set.rs',T+'lex/map.rs',T+'lex/span.rs',T+'syntax/error.rs'],[('derived serialisation',T+'lex/set.rs')])
with open('properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(P))
