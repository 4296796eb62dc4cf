import os
import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None,hook=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
      state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=obs or [],hook_needed=hook))
    P.append(d)
BYT="The byacc tests compare generated text for about sixty fixed grammars with stored references; they never compile or run a generated parser."
LEMT="Lemon has no tests at all in this repository."
p("P01","byacc parsers run exactly the actions the grammar prescribes",
 "For every grammar byacc accepts, under every choice of precedence and associativity declarations and output options, the generated parser, whatever token stream its source delivers, requests tokens one at a time and in order, executes the same semantic actions in the same order with the same right-hand-side values as the LALR(1) automaton of that grammar under yacc's disambiguating rules, and returns success exactly when that automaton accepts. The token codes published in the generated header are the codes the parser understands. A %expect or %expect-rr declaration is met exactly when its number is that automaton's number of unresolved conflicts of the kind. The parser never touches memory outside what it allocated and terminates whenever that automaton does.",
 ["programs","inputs","configurations","fault_sequences"],
 "Every accepted grammar, every combination of byacc build (with and without backtracking support compiled in) and output options (-d -H -i -r -l -t -p -b -P -u -z), every token stream delivered by a token source that may truncate, corrupt, drop, duplicate or reorder tokens.",
 BYT,
 ["byacc/reader.c","byacc/lr0.c","byacc/lalr.c","byacc/closure.c","byacc/warshall.c","byacc/mkpar.c","byacc/output.c","byacc/btyaccpar.c","byacc/yaccpar.c"],
 [("grammar reader: rules, precedence, mid-rule actions, $-references","byacc/reader.c:read_grammar, copy_action, insert_empty_rule, pack_grammar"),("LALR(1) lookahead computation","byacc/lalr.c:lalr, includes/lookback digraph"),("conflict resolution and default reductions","byacc/mkpar.c:make_parser, remove_conflicts, defreds"),("table packing","byacc/output.c:output_actions, pack_table"),("parser skeleton","byacc/btyaccpar.c, byacc/yaccpar.c")],
 [("parser stack","states and values of the symbols recognised so far","yystack in the skeleton"),("lookahead","yychar/yylval, the one unread token","skeleton")],
 ["calls of yylex, semantic actions, yyerror; return value of yyparse"])
p("P02","byacc error recovery obeys yacc's rules on every damaged token stream",
 "On every token stream, however damaged, and for every point at which a semantic action asks for an error, an abort, an accept, the end of recovery or the lookahead to be dropped, a generated parser reports a syntax error once and stays silent until three tokens have been shifted, unwinds only to the nearest state that can shift the error symbol, discards only tokens that cannot continue, gives up at end of input, and its error count and result agree with yacc's published recovery procedure. A parser that has failed or been aborted can be run again and then behaves like a new one.",
 ["inputs","histories","fault_sequences"],
 "Every grammar with or without error productions, every damaged token stream, every placement of the action-level error controls, every sequence of consecutive runs of one parser.",
 BYT,
 ["byacc/btyaccpar.c","byacc/yaccpar.c","byacc/mkpar.c","byacc/output.c"],
 [("recovery loop","byacc/btyaccpar.c and yaccpar.c: yyerrlab, yyinrecovery"),("default reductions and the error symbol's column","byacc/mkpar.c:sole_reduction, byacc/output.c"),("YYERROR, YYABORT, YYACCEPT, yyerrok, yyclearin","skeleton macros, byacc/output.c")],
 [("recovery countdown","yyerrflag","skeleton")],
 ["yyerror calls, yynerrs, actions, return values"])
p("P03","byacc parser stack growth is invisible and exhaustion is clean",
 "A generated parser's behaviour does not depend on how deep the input nests or where its stacks are moved when they grow, up to the configured maximum depth. When the depth limit is reached or memory for the stack cannot be obtained, the parser reports it once and returns its documented failure code, without touching memory outside its stacks and without leaking them where it owns them. It can then be run again with the result a new parser would give.",
 ["inputs","fault_sequences","histories"],
 "Every nesting depth around each growth step and the maximum, every allocation at which the heap may fail, every sequence of later runs of the same parser.",
 BYT+" No test reaches a second stack allocation or a failing one.",
 ["byacc/btyaccpar.c","byacc/yaccpar.c"],
 [("stack growth","byacc/btyaccpar.c, yaccpar.c: yygrowstack and its call sites"),("release","yyfreestack, yyreturn")],
 [("stack bounds","s_base, s_mark, s_last, l_base, l_mark, stacksize","YYSTACKDATA in the skeleton")],
 ["heap requests, return value, actions"])
p("P04","byacc destructors run exactly once for every abandoned value",
 "In a grammar whose symbols declare destructors, every semantic value produced by the token source or an action is, by the time the parser returns, either handed to an action as part of a reduced rule or destroyed exactly once by the destructor declared for its own symbol (or the applicable default), and never both. This holds whether the parser accepts, fails, is aborted or recovers, and on every path through error recovery.",
 ["inputs","fault_sequences","histories"],
 "Every grammar with per-symbol, per-type and default destructors, every damaged token stream and every early exit.",
 BYT+" The destroy tests only compare text.",
 ["byacc/btyaccpar.c","byacc/reader.c","byacc/output.c"],
 [("destructor assignment","byacc/reader.c:copy_destructor, finalize_destructors"),("destructor dispatch","byacc/output.c:output_yydestruct; yystos table"),("destruction points","byacc/btyaccpar.c: error recovery and yyreturn")],
 [("value ownership","which stack slot or lookahead holds each value","yystack.l_mark, yylval")],
 ["destructor calls with their symbol and value"])
p("P05","backtracking parsers commit exactly the first path that works",
 "A backtracking parser, at every unresolved conflict, tries the alternatives in the documented order (shift first, then reductions in rule order), runs no committed-only action while trying, and finally executes exactly the committed actions of the first alternative that leads to a successful or explicitly validated parse. Each token is fetched from the source exactly once however often it is re-read, and if every alternative fails, recovery starts from the point the trials got furthest.",
 ["programs","inputs","fault_sequences"],
 "Every ambiguous or non-LALR(1) grammar, every token stream including damaged ones, every validation point.",
 BYT,
 ["byacc/btyaccpar.c","byacc/mkpar.c","byacc/output.c","byacc/reader.c"],
 [("conflict table","byacc/output.c:output_yyctable/ conflict actions; byacc/mkpar.c:remove_conflicts"),("trial parse, saved states, lexeme queue","byacc/btyaccpar.c: yypath, yyps->save, yyerrhandler, yyvalid")],
 [("saved parser states","stack copy, lexeme index, next alternative","YYParseState")],
 ["yylex calls, trial and committed actions, return value"])
p("P06","interleaved reentrant byacc parsers do not influence each other",
 "Any number of pure (reentrant) parsers of the same grammar, or of different grammars with different prefixes, advanced in any interleaving at the granularity of token fetches, semantic actions and heap requests, each behave exactly as when run alone.",
 ["schedules","programs","fault_sequences"],
 "Every interleaving of several pure parsers over every token stream and allocation-failure pattern.",
 BYT,
 ["byacc/btyaccpar.c","byacc/yaccpar.c","byacc/output.c"],
 [("per-call parser state","byacc/output.c:output_pure_parser / ygv_body_vars placement"),("parameter passing","byacc/output.c:output_parse_decl, output_lex_decl, output_error_decl")],
 [("per-instance state","locals of yyparse","generated yyparse")],
 ["event history of each instance"])
p("P07","source locations seen by byacc actions span exactly what they cover",
 "In a parser with locations enabled, on every token stream, every semantic action sees for each right-hand-side symbol the location of the input it was derived from and for the result the span from the first to the last of them (or the empty span just after the preceding symbol for an empty rule), and an error symbol covers the discarded input from the first popped symbol to the lookahead.",
 ["inputs","fault_sequences"],
 "Every grammar, every stream of tokens with arbitrary locations, including recoveries.",
 BYT,
 ["byacc/btyaccpar.c","byacc/reader.c","byacc/output.c"],
 [("location reduction","byacc/btyaccpar.c: YYLLOC_DEFAULT, yyerror_loc_range"),("@-references","byacc/reader.c:copy_action")],
 [("location stack","p_base/p_mark","YYSTACKDATA")],
 ["locations passed to actions, destructors and yyerror"])
p("P08","backtracking inherited attributes and mid-rule values reach the right symbol",
 "In a grammar that uses inherited attributes, mid-rule actions or references below the rule's own symbols, each such reference denotes the value of exactly the symbol occurrence the grammar text names, at every nesting depth and on every token stream.",
 ["programs","inputs","fault_sequences"],
 "Every arrangement of mid-rule actions, typed references and inherited attributes in a grammar, every token stream.",
 BYT,
 ["byacc/reader.c","byacc/btyaccpar.c"],
 [("mid-rule rules and offsets","byacc/reader.c:insert_empty_rule, copy_action, copy_args, mark_symbol, add_symbol")],
 [("attribute offsets","$-index to stack-slot arithmetic","byacc/reader.c")],
 ["values passed to actions"])
p("P09","byacc's run-time trace reports exactly the moves the parser makes",
 "In a parser generated with -t (or compiled with YYDEBUG set), tracing that is switched on by yydebug or by the YYDEBUG environment variable prints, in order and exactly once, every move of the parser: each token read (number and declared name, or illegal-symbol), shift, reduction (the rule as the grammar states it), goto, recovery step, discarded token or state, stack growth and, with backtracking, each conflict, trial and return from one. Within one parser the same number always denotes the same state, rule or value. Apart from these lines the parser reads, acts, reports and returns exactly as without tracing; while tracing is off (including YYDEBUG=0) or not generated, nothing is printed.",
 ["programs","inputs","configurations","fault_sequences"],
 "Every accepted grammar and option set, every way of switching tracing on or off, every token stream, control action and allocation failure.",
 BYT,
 ["byacc/output.c","byacc/btyaccpar.c","byacc/yaccpar.c"],
 [("names of tokens and rules","byacc/output.c:output_debug (yyname, yyrule, YYTRANSLATE), output_yydebug"),("trace statements","byacc/btyaccpar.c, byacc/yaccpar.c: #if YYDEBUG")],
 [("trace switch","yydebug, YYDEBUG environment variable","generated yyparse")],
 ["trace lines on stdout/stderr together with reads, actions and return values"])
p("L01","lemon parsers run exactly the actions the grammar prescribes",
 "For every grammar lemon accepts, with any precedence, fallback, wildcard, token-class and start-symbol declarations and any generation options, a parser fed any sequence of tokens executes the same reductions in the same order with the same values as the LALR(1) automaton of that grammar under lemon's documented conflict resolution, with fallback and wildcard tokens applied only where the token itself has no action, and reports acceptance exactly when that automaton accepts. The token codes in the generated header are the codes the parser understands. lemon exits with status 0 exactly when the number of unresolved conflicts is the one %expect declares.",
 ["programs","inputs","configurations","fault_sequences"],
 "Every accepted grammar, every option (-c -p -r -s -l), every token stream, undamaged or damaged.",
 LEMT,
 ["lemon/lemon.c","lemon/lempar.c"],
 [("grammar reader","lemon/lemon.c:Parse, parseonetoken"),("automaton","lemon/lemon.c:FindStates, FindLinks, FindFollowSets, FindActions"),("conflict resolution, default actions, shift-reduce","lemon/lemon.c:resolve_conflict, CompressTables"),("table packing","lemon/lemon.c:acttab_insert, ReportTable"),("parse loop","lemon/lempar.c:Parse, yy_find_shift_action, yy_find_reduce_action, yy_reduce")],
 [("parser stack","stateno/major/minor of recognised symbols","yyParser")],
 ["actions, %parse_accept, %syntax_error"])
p("L02","lemon error handling follows its documentation on every damaged stream",
 "When a token has no action the parser calls the syntax-error hook once, and stays silent until three tokens have been shifted; with an error symbol it unwinds to the nearest state on its stack that can take it, or discards the token if it is already recovering; without one it discards the offending token; end of input is never discarded; it calls the parse-failure hook exactly when recovery is impossible or input ends in error; and after a failure it is ready to parse a new input.",
 ["inputs","histories","fault_sequences"],
 "Every grammar with and without the error symbol, every damaged token stream, with further input after failures and accepts.",
 LEMT,
 ["lemon/lempar.c","lemon/lemon.c"],
 [("error branches","lemon/lempar.c:Parse (YYERRORSYMBOL, YYNOERRORRECOVERY, default)"),("hooks","yy_syntax_error, yy_parse_failed, yy_accept")],
 [("recovery countdown","yyerrcnt","yyParser")],
 ["hook calls, actions"])
p("L03","lemon parser stack growth is invisible and overflow is reported once",
 "A lemon parser's behaviour does not depend on how deep its stack gets, whether the stack is fixed or grows, or where it is moved when it grows. When the configured depth is exceeded or memory cannot be obtained, the overflow hook runs once, every held value is disposed of, nothing outside the stack is touched, and the parser can parse a new input. The reported peak depth is the greatest depth reached.",
 ["inputs","fault_sequences","histories"],
 "Every nesting depth around each growth step and the limit, every failing allocation, later inputs to the same parser.",
 LEMT,
 ["lemon/lempar.c"],
 [("growth and overflow","lemon/lempar.c:yyGrowStack, yyStackOverflow, yy_shift, reduce of empty rules"),("initialisation and finalisation","ParseInit, ParseFinalize, ParseAlloc, ParseFree")],
 [("stack bounds","yystk, yytos, yystackEnd","yyParser")],
 ["heap requests, hook calls, actions"])
p("L04","lemon destroys every value exactly once, whenever the parser is discarded",
 "Every terminal value given to a lemon parser and every value its actions produce is either handed to the action of the rule that consumes it or passed exactly once to the destructor declared for its symbol, and never both, whether the parse accepts, fails, recovers, overflows, or the parser is discarded or finalised at an arbitrary moment (the start symbol's value at acceptance belongs to the accept hook).",
 ["inputs","histories","fault_sequences","crash_points"],
 "Every grammar with symbol, token and default destructors, every damaged stream, every instant at which the parser may be discarded.",
 LEMT,
 ["lemon/lempar.c","lemon/lemon.c"],
 [("destructor code","lemon/lemon.c:ReportTable destructor section, translate_code"),("pop and discard","lemon/lempar.c:yy_pop_parser_stack, yy_destructor, ParseFinalize")],
 [("value ownership","which stack slot holds each value","yystk")],
 ["destructor calls with symbol and value"])
p("L05","interleaved lemon parsers do not influence each other",
 "Any number of instances of a lemon parser, created, fed, finalised and discarded in any interleaving, each behave exactly as when run alone, and a parser object re-initialised after finalising behaves like a new one.",
 ["schedules","histories","fault_sequences"],
 "Every interleaving of creating, feeding, re-initialising and discarding several instances.",
 LEMT,
 ["lemon/lempar.c","lemon/lemon.c"],
 [("per-instance state","lemon/lempar.c:yyParser, extra argument/context fetch and store")],
 [("instance","yyParser","lemon/lempar.c")],
 ["event history of each instance"])
p("L06","lemon's run-time trace reports exactly the moves the parser makes",
 "In a lemon parser compiled without NDEBUG, tracing that is switched on with ParseTrace prints, in order, every move of the parser with the names the grammar uses: each token given to it, each shift, each reduction (the rule as the grammar states it, except for rules of one symbol without action, which may be optimised away) and the symbol it puts on the stack, growth and overflow of the stack, syntax errors, discarded tokens and popped entries, acceptance and failure, and after each token the true contents of the stack; a reported fallback or wildcard is one the grammar declares. Apart from these lines the parser behaves exactly as without tracing, and while tracing is off or compiled out nothing is printed.",
 ["programs","inputs","configurations","fault_sequences"],
 "Every accepted grammar and option set, every token stream, failing allocation and moment at which the parser is discarded.",
 LEMT,
 ["lemon/lempar.c","lemon/lemon.c"],
 [("names of symbols and rules","lemon/lemon.c:ReportTable (yyTokenName, yyRuleName), writeRuleText"),("trace statements","lemon/lempar.c: yyTraceFILE")],
 [("trace switch","yyTraceFILE, yyTracePrompt","lemon/lempar.c:ParseTrace")],
 ["trace lines together with actions, hooks and destructor calls"])
p("T01","byacc never reports success with an incomplete or wrong output file",
 "Whenever byacc exits successfully, every output file requested by its options exists and is byte for byte what it would be had no input/output operation failed, been cut short or been retried.",
 ["fault_sequences","configurations","programs"],
 "Every operation at which a read, write, seek, open or close may fail or fall short, for every set of outputs.",
 "The tests run on a healthy file system; no operation ever fails in them.",
 ["byacc/main.c","byacc/output.c","byacc/verbose.c","byacc/graph.c","byacc/reader.c","byacc/error.c"],
 [("output files","byacc/main.c:open_files, done; byacc/defs.h DO_CLOSE"),("temporary copies of actions","byacc/main.c:open_tmpfile; byacc/output.c:output_semantic_actions, output_stored_text")],
 [("open streams","code_file, output_file, defines_file, externs_file, verbose_file, graph_file, action_file, text_file, union_file","byacc_t")],
 ["exit status, output files"])
p("T02","byacc fails cleanly on every resource failure",
 "Whatever allocation, open, read, write or temporary-file operation fails, at whatever moment, byacc ends within a bounded number of further operations, either with exactly the right outputs or with a non-zero exit status and a message on its error stream, never crashing, hanging or touching memory it does not own.",
 ["fault_sequences","programs"],
 "Every single failure and short sequences of failures, at every operation of a run.",
 "The tests run on a healthy system; no operation ever fails in them.",
 ["byacc/main.c","byacc/error.c","byacc/mstring.c","byacc/reader.c","byacc/symtab.c","byacc/lr0.c","byacc/lalr.c","byacc/output.c","byacc/mkpar.c","byacc/closure.c","byacc/verbose.c"],
 [("allocation wrapper","byacc/main.c:allocate; NEW/TMALLOC/NO_SPACE checks"),("growable strings","byacc/mstring.c"),("fatal errors","byacc/error.c:no_space, open_error, tempfile_error; byacc/main.c:done")],
 None,["exit status, error stream, heap"])
p("T03","byacc leaves no temporary files and touches only what it was asked to write",
 "However a byacc run ends (success, grammar error, resource failure, or an interrupt, hangup or termination signal at any instant), no temporary file remains, the grammar file is unchanged, no file other than the requested outputs is created or modified, and a run ended by a signal reports failure.",
 ["crash_points","fault_sequences","configurations"],
 "Every instant at which a handled signal may arrive and every point of failure.",
 "The tests never interrupt byacc and never look for left-over files.",
 ["byacc/main.c"],
 [("temporary-file registry","byacc/main.c:open_tmpfile, my_tmpfiles, done"),("signal handler","byacc/main.c:onintr, set_signals")],
 [("registered temporary files","my_tmpfiles list","byacc/main.c")],
 ["directory contents after the run, exit status"])
p("T04","byacc's output depends on nothing but the grammar and the options",
 "Two runs of byacc with the same grammar text and options produce identical outputs whatever the heap contents and addresses, the sizes in which the input is delivered, earlier contents of the output files, the temporary directory, the clock, or other runs going on at the same time in the same directory with other output names.",
 ["schedules","configurations","programs"],
 "Every environment in which the same run may take place and every interleaving of concurrent runs.",
 "Each test runs once, alone, in one environment.",
 ["byacc/main.c","byacc/reader.c","byacc/output.c","byacc/lalr.c","byacc/mkpar.c","byacc/symtab.c"],
 [("input buffering","byacc/reader.c:get_line, save_line"),("initialised allocations","byacc/main.c:allocate; NEW2/TMALLOC users"),("unique temporary files","byacc/main.c:my_mkstemp")],
 None,["output files, exit status"])
p("T05","lemon never reports success with an incomplete or wrong output file",
 "Whenever lemon exits successfully, every output file requested by its options, and what it prints on its standard output, is complete and byte for byte what it would be had no input/output operation failed, been cut short or been retried.",
 ["fault_sequences","configurations","programs"],
 "Every operation at which a read, write, seek, open or close may fail or fall short, for every set of outputs.",
 LEMT,
 ["lemon/lemon.c"],
 [("outputs","lemon/lemon.c:file_open, ReportTable, ReportHeader, ReportOutput, ReportSQL"),("template","lemon/lemon.c:tplt_open, tplt_xfer, tplt_print")],
 None,["exit status, output files"])
p("T06","lemon fails cleanly on every resource failure",
 "Whatever allocation, open, read or write fails, at whatever moment, lemon ends within a bounded number of further operations, either with exactly the right outputs or with a non-zero exit status and a message, never crashing, hanging or touching memory it does not own, and without altering the grammar or the template.",
 ["fault_sequences","programs"],
 "Every single failure and short sequences of failures, at every operation of a run.",
 LEMT,
 ["lemon/lemon.c"],
 [("allocation wrappers","lemon/lemon.c: memory_error, lemon_malloc family"),("file errors","lemon/lemon.c:file_open, Parse")],
 None,["exit status, error stream, heap"])
p("T07","lemon's output depends on nothing but grammar, template and options",
 "Two runs of lemon with the same grammar, template and options produce identical outputs and the same exit status whatever the heap contents and addresses, the sizes in which input is delivered, the clock, earlier contents of output files, or other runs in the same directory on other grammars, and a header whose contents would not change is left untouched.",
 ["schedules","configurations","programs"],
 "Every environment in which the same run may take place, every earlier state of the output directory, every interleaving of concurrent runs.",
 LEMT,
 ["lemon/lemon.c"],
 [("header comparison","lemon/lemon.c:ReportHeader"),("sorting and hashing","lemon/lemon.c:msort, Symbolcmpp, hash tables")],
 None,["output files, exit status"])
p("T08","rerunning a generator after a crash repairs its outputs",
 "If a byacc or lemon run is killed at any instant, leaving its outputs missing, truncated or stale, running it again with the same grammar and options gives exactly the outputs of an undisturbed run, and at no time is the grammar or template itself damaged.",
 ["crash_points","histories"],
 "Every instant at which the process may be killed, every durable state that may leave, every earlier content of the outputs.",
 "No test interrupts a run or starts from left-over outputs.",
 ["byacc/main.c","lemon/lemon.c"],
 [("outputs opened for truncation","byacc/main.c:open_files; lemon/lemon.c:file_open"),("header reuse","lemon/lemon.c:ReportHeader")],
 None,["output files after the second run"])
p("T09","a damaged grammar is rejected or accepted, never mishandled",
 "A grammar file that was truncated or corrupted anywhere (a torn write, lost or flipped bytes, an input stream that ends early) makes byacc or lemon either produce all requested outputs and succeed, or stop with a message and a non-zero status; it never crashes, loops, or touches memory it does not own.",
 ["inputs","fault_sequences"],
 "Every truncation point and every small corruption of every valid grammar.",
 "The error tests cover about thirty hand-written malformed grammars, for byacc only.",
 ["byacc/reader.c","byacc/error.c","lemon/lemon.c"],
 [("reader error paths","byacc/reader.c; byacc/error.c"),("lemon reader error paths","lemon/lemon.c:Parse, parseonetoken, preprocess_input, ErrorMsg")],
 None,["exit status, error stream, heap"])
p("N01","reported conflicts, expectations and state descriptions match the automaton",
 "The conflict counts in byacc's and lemon's messages, and the automaton described in the verbose, graph and SQL reports are exactly those of the grammar's LALR(1) automaton.",
 ["programs"],"Every grammar.","The tests compare reports for about sixty grammars (byacc only).",
 ["byacc/mkpar.c","byacc/verbose.c","byacc/graph.c","lemon/lemon.c"],
 [("conflict counting","byacc/mkpar.c:count_conflicts, total_conflicts; lemon/lemon.c:FindActions"),("reports","byacc/verbose.c, byacc/graph.c, lemon/lemon.c:ReportOutput, ReportSQL")],None,["y.output, y.dot, .out, .sql, messages"])
p("N02","grammar conversions preserve the grammar",
 "The naked, EBNF, SQL, Unicc, Carburetta, Lemon, Yacc and other textual conversions byacc and lemon can print describe the same symbols, precedences and rules, in the same order, as the grammar read.",
 ["programs","configurations"],"Every grammar and conversion option.","The tests do not exercise the conversions.",
 ["byacc/reader.c","lemon/lemon.c"],
 [("converters","byacc/reader.c:print_grammar variants; lemon/lemon.c:Reprint and the grammar printers")],None,["converted files"])
p("N03","line directives and copied user code map back to the grammar",
 "User code appears unchanged, apart from $ and @ substitutions, exactly once and in order in the generated parser, and every line directive gives the true line of what follows it.",
 ["programs","configurations"],"Every grammar and option.","The tests compare text for fixed grammars.",
 ["byacc/output.c","byacc/reader.c","lemon/lemon.c"],
 [("line accounting","byacc/output.c:outline; lemon/lemon.c:tplt_linedir")],None,["generated text"])
with open(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+"\n")
