AI = 'abstract interpretation of MIR (custom rustc_private driver), path rules over the token-level graphs'
TRUST = ('Decided on every path of every parsing function in every reachable calling context of the current MIR; '
         'trusts the driver, the models of std functions and the per-rule correspondence between the paths and the '
         'observable behaviour described in DESIGN.md.')

prop('C01', 'Parsing modes follow the nesting of the source',
     "Whether 'do' after an expression is the expression's block or the body of the enclosing loop or lambda, and whether "
     "a comma after an expression continues a multiple assignment or separates list elements, is decided by the innermost "
     "enclosing construct only. A loop header never takes the loop's 'do', an element of a list never takes the comma after it, "
     "and inside brackets or nested statements neither restriction of the outer construct applies. "
     "After the construct is complete the restrictions in force before it are in force again.",
     ['inputs', 'programs'],
     'all source texts, hence all nestings of loops, lambdas, brackets, argument lists, assignments and statement lists',
     'Nesting is unbounded and the modes are restored on many paths; the tests parse a few fixed programs, most with one level of nesting.',
     ['src/parser.rs', 'src/parser/expression.rs', 'src/parser/flow_control.rs', 'src/parser/define.rs', 'src/parser/literals.rs'],
     [('suppress_do_block / suppress_mul_assign / suppress_acc_assign of the parser', 'src/parser.rs'),
      ('saving and restoring the modes around sub-parsers', 'src/parser/flow_control.rs, src/parser/expression.rs')],
     AI, TRUST)

SYN = ('abstract interpretation of MIR (custom rustc_private driver); product construction of the token-level automaton of every '
       'parsing function with a reference grammar, and matching of the tree nodes built with templates')
SYNNOTE = ('Decided on every path of every parsing function in every reachable calling context of the current MIR; the reference '
           'grammar and the templates (spec/syntax.py, spec/trees.py) were written from the language rules and confirmed on the code. '
           'Trusts the driver, the models of std functions, and the tokenizer (a separate property); which of several same-typed '
           'token texts enters a name field is not tracked, the operator and the operand roles are.')

prop('C03', 'Control-flow statements have the specified syntax and tree',
     "For every source text, statements and control-flow expressions (statement lists, modifiers, if/unless/elsif/else, while/until, for, case/when, "
     "begin/rescue/else/ensure, break/next/return) are accepted with exactly the clauses, order, separators and terminators the language "
     "subset defines, and each opened construct is closed by its own keyword. The tree built for each of them holds the condition, bodies and "
     "clauses in their own places: a then-branch is never the else-branch, an inverted test is inverted, an absent clause is an absent or empty child.",
     ['inputs', 'programs'],
     'all source texts and all nestings of control-flow constructs',
     'The clauses combine freely and nest without bound; the tests parse a handful of fixed programs.',
     ['src/parser.rs', 'src/parser/flow_control.rs', 'src/node.rs'],
     [('parse_comp_stmt, parse_stmt and the statement parsers', 'src/parser.rs, src/parser/flow_control.rs')],
     SYN, SYNNOTE)
prop('C04', 'Definitions, parameters and blocks have the specified syntax and tree',
     "For every source text, method, class, module and singleton-class definitions, alias, lambda literals and blocks are accepted with exactly the "
     "clauses the language subset defines, and formal parameters only in the order required, optional, rest, post, keyword, keyword rest, block, "
     "with the closing delimiter that matches the opening one. The tree records the name, receiver, superclass, each parameter with its own kind "
     "and default value, and the body.",
     ['inputs', 'programs'],
     'all source texts, all parameter lists and all nestings of definitions',
     'Parameter lists are unbounded sequences over eight parameter kinds; the tests use a few fixed ones.',
     ['src/parser/define.rs', 'src/parser.rs', 'src/parser/literals.rs', 'src/node.rs'],
     [('definition parsers and parse_formal_params', 'src/parser/define.rs')],
     SYN, SYNNOTE)
prop('C05', 'Operators have the specified precedence, associativity and tree',
     "For every expression, the grouping of the operators follows the precedence table of the language subset, from and/or and not, through assignment, the "
     "conditional operator, ranges, logical, comparison, bitwise, shift, additive, multiplicative and unary operators, to exponentiation; each level is left-associative, "
     "right-associative or non-associative as specified. The node built for an operator holds exactly its left and right operands, in this order, under the operation "
     "the token stands for, and negated or compound operators are expanded into the specified nodes.",
     ['inputs'],
     'all expressions, of any length and nesting',
     'Precedence is a relation between every pair of operators at every depth; the tests evaluate a few expressions.',
     ['src/parser/expression.rs', 'src/node.rs'],
     [('the ladder parse_expr … parse_unary', 'src/parser/expression.rs')],
     SYN, SYNNOTE)
prop('C06', 'Calls, arguments and multiple assignments have the specified syntax and tree',
     "For every source text, method calls (with and without parentheses, with receivers, safe navigation, scopes, indexes, blocks, yield and super), argument "
     "lists and multiple assignments are accepted exactly in the specified form, and whether an argument list without parentheses begins is decided only "
     "by the adjacent white space and the next token. The tree holds the receiver, method, every argument in its class (positional, splat, keyword, "
     "hash, block) and order, the block, and for assignments every target and value.",
     ['inputs', 'programs'],
     'all source texts, all argument lists and all chains of calls',
     'Argument kinds and call suffixes combine without bound; the tests use a few fixed calls.',
     ['src/parser/expression.rs', 'src/parser.rs', 'src/node.rs'],
     [('parse_primary_method, parse_method_call, parse_arglist, parse_mul_assign', 'src/parser/expression.rs, src/parser.rs')],
     SYN, SYNNOTE)
prop('C07', 'Primary expressions and literals have the specified syntax and tree',
     "For every source text, every token that can begin a primary expression leads to the specified construct and every other token is rejected; array, hash, symbol, "
     "string, regexp, percent and here-document literals have the specified elements and delimiters, and adjacent or interpolated string parts are all consumed. "
     "The tree of a literal holds all its elements, in the specified kind of node.",
     ['inputs'],
     'all source texts, all literals and all nestings of interpolations',
     'Literals nest in interpolations without bound; the tests use a few fixed literals.',
     ['src/parser/expression.rs', 'src/parser/literals.rs', 'src/node.rs'],
     [('parse_primary and the literal parsers', 'src/parser/expression.rs, src/parser/literals.rs')],
     SYN, SYNNOTE)
prop('C02', 'Local variables follow the nesting of scopes',
     "Method, class, module and singleton-class bodies, blocks and lambdas each have a table of variables of their own: a name bound by a parameter, an assignment, a for loop or a rescue "
     "clause is in the table of its scope from that point on, and from then on the name is a variable, not a method call. Variables of enclosing blocks and of the surrounding "
     "program are visible in a block or lambda, those outside of a method, class or module body are not visible in it, and a variable is recorded with the number of blocks between its use and its "
     "scope, loops not counted. A parameter name occurs at most once in a parameter list, keyword-rest, block and forwarded parameters are marked in the table, and only "
     "variables, constants, indexes and attributes can be assigned.",
     ['inputs', 'programs'],
     'all source texts and all nestings of methods, classes, blocks, lambdas and loops',
     'Scopes nest without bound and every name is resolved through all of them; the tests use few programs with one or two levels.',
     ['src/parser.rs', 'src/parser/define.rs', 'src/parser/flow_control.rs', 'src/parser/literals.rs', 'src/parser/expression.rs', 'src/lvar_collector.rs'],
     [('the stack of scopes and the search for a name', 'src/parser.rs'), ('LvarCollector', 'src/lvar_collector.rs')],
     'abstract interpretation of MIR (custom rustc_private driver): typestate of the scope stack, path automata over the events of name resolution and parameter binding',
     TRUST)
prop('C08', 'Look-ahead and going back change nothing; no error is lost',
     "A look-ahead leaves the position where it was, whether or not it finds what it looks for; after going back the same text is read again, and a token looked at earlier "
     "is used only while the position is still the one it was read at. An error in any part of the text makes the whole parse fail: no rejected construct and no malformed token is passed over. "
     "A parse succeeds only when the whole text has been read.",
     ['inputs', 'programs'],
     'all source texts, with errors at any place, and all combinations of look-aheads',
     'Look-aheads occur between any two tokens and errors at any place; the tests parse correct programs.',
     ['src/parser.rs', 'src/parser/lexer.rs', 'src/parser/expression.rs', 'src/parser/literals.rs'],
     [('the two look-ahead buffers of the tokenizer and save_state / restore_state', 'src/parser/lexer.rs, src/parser.rs')],
     'abstract interpretation of MIR (custom rustc_private driver): typestate of the position and the look-ahead buffers; reachability of success after a failure',
     TRUST)

LEX = ('abstract interpretation of MIR at the level of characters (custom rustc_private driver); product construction of the graph of every '
       'entry point of the tokenizer with a reference automaton')
LEXNOTE = ('Decided on every path of every entry point of the tokenizer over symbolic next characters in the current MIR, against the reference automaton '
           'spec/lex.py, which was written from the language rules. Trusts the driver, the models of std functions and the automaton; the '
           'numeric value computed from the digits is trusted to the parsing functions of std and num, given the exact digits and radix.')
prop('C10', 'The text is divided into the specified tokens',
     "For every source text, white space, comments and continued lines are skipped and a newline ends a line; operators are recognised by the longest match, and names, variables, reserved words and "
     "numbers extend as far as their characters go and become tokens of the specified kind and value. A newline outside a here document is followed by skipping the bodies of the here documents that "
     "begin after it. Malformed numbers and names of variables are rejected, and an integer is a machine integer exactly if it fits into 64 bits.",
     ['inputs'],
     'all source texts, any sequence of characters, and all lengths of tokens',
     'The next token depends on an unbounded number of characters; the tests tokenize a few fixed programs.',
     ['src/parser/lexer.rs', 'src/token.rs'],
     [('Lexer::read_token and the readers of numbers, names and variables', 'src/parser/lexer.rs')],
     LEX, LEXNOTE)
prop('C11', 'Literals have the specified extent and content',
     "For every source text, a string, symbol, regexp, percent or command literal extends to its closing delimiter, with nested brackets counted and escaped delimiters skipped, or up to an "
     "interpolation, after which it goes on with the same delimiters and at the same nesting level; a literal without its end is the unexpected-end error. Its content is exactly the characters between the delimiters with the "
     "escape sequences replaced by the characters they stand for (in regexps, by the equivalent regexp syntax and option letters). Malformed escape sequences are rejected.",
     ['inputs'],
     'all source texts, all lengths of literals and all nestings of delimiters and interpolations',
     'A literal is any sequence of characters, escapes and nested delimiters; the tests read a few fixed literals.',
     ['src/parser/lexer.rs', 'src/parser/literals.rs'],
     [('readers of strings, escape sequences, regexps, percent and here-document literals', 'src/parser/lexer.rs'),
      ('parse_interporated_string_literal', 'src/parser/literals.rs')],
     LEX + '; dataflow of the delimiters in the token-level graphs', LEXNOTE)
prop('C09', 'Parsing of every text ends',
     "For every source text, parsing ends: every repetition and every recursion of the parser reads at least one more character or token of the text before it comes around again, "
     "or works through a finite list or a smaller part of a tree. No nested construct is read, given up and read again, so nesting does not multiply the work.",
     ['inputs'],
     'all source texts, including malformed and truncated ones',
     'An endless loop may need one particular character in one particular place; the tests parse a few correct programs.',
     ['src/parser.rs', 'src/parser/lexer.rs', 'src/parser/expression.rs', 'src/parser/literals.rs', 'src/parser/define.rs', 'src/parser/flow_control.rs'],
     [('loops and recursion of the parsing functions', 'src/parser/*.rs'), ('loops of the tokenizer', 'src/parser/lexer.rs')],
     'abstract interpretation of MIR (custom rustc_private driver): cycles without progress in the token-level and character-level graphs and in the call graph before the first token',
     'Decided on every path of every parsing function and of every entry point of the tokenizer in the current MIR. Progress of an iterator of std and of a loop that counts is '
     'assumed to be finite. Exhaustion of the stack by deep nesting is not covered.')
prop('C12', 'Tokens record their extent and what is next to them',
     "For every source text, the location recorded in a token begins with the first character of the token, after the white space and comments skipped before it, and ends with its last "
     "character. Whether white space or an opening parenthesis directly follows a token, which decides between a command call, an operator and a call with arguments in parentheses, "
     "is answered from exactly the character after the token, whatever has been looked at in the meantime.",
     ['inputs'],
     'all source texts and all tokens',
     'Every kind of token ends in several ways, and the adjacent character may be any character; the tests compare the locations of a few tokens.',
     ['src/parser/lexer.rs', 'src/token.rs'],
     [('Lexer::cur_loc and the locations of tokens', 'src/parser/lexer.rs'), ('trailing_space, trailing_lparen, has_trailing_space', 'src/parser/lexer.rs')],
     'abstract interpretation of MIR at the level of characters (custom rustc_private driver): symbolic positions of the location in every token returned; '
     'set of characters on which each test of the adjacent character says yes',
     'Decided on every path of every entry point of the tokenizer in the current MIR. A position that the interpreter cannot relate to the token is counted as not followed. '
     'The locations of nodes, which are joined from those of tokens, and of errors are not covered.')
prop('C13', 'Parsing is determined by its arguments',
     "The result of a parse — the tree, the tables of variables or the error — is a function of the text, the path and the outer variables it is given. It does not depend on "
     "parses done before or at the same time in the same process, on files, the environment, the time or addresses, nor on the random order of a hash table, and a parse "
     "writes nothing to files or to the output.",
     ['inputs', 'histories', 'schedules'],
     'all source texts, all sequences of parses in a process and all schedules of parses in several threads',
     'An influence from outside appears only for particular histories or surroundings; the tests run each program once in one surrounding.',
     ['src/parser.rs', 'src/parser/lexer.rs', 'src/lvar_collector.rs', 'src/node.rs'],
     [('entry points parse_program, parse_program_eval, parse_program_binding and everything they reach', 'src/parser.rs')],
     'effect analysis over the MIR call graph (custom rustc_private driver): deny-list of effects of functions outside the crate, types of all places of reachable functions',
     'Decided on every function reachable from the entry points in the current MIR, calls through generics resolved. Trusts that std functions outside the denied families are functions '
     'of their arguments, and the implementation of the outer variables given by the user.')
prop('C14', 'The parser never panics',
     "Whatever text it is given, the parser returns a tree or an error and does not abort: its own consistency checks cannot fail, it unwraps no missing value (for instance at the end of the "
     "text), and the numbers it builds from digits do not overflow. Exhaustion of memory or of the stack by deep nesting, and the printing of errors, are outside this property.",
     ['inputs'], 'all source texts: every way through every function of the parser and of the tokenizer',
     'A panic needs one particular text among all; the tests run programs for which the parser returns.',
     ['src/parser.rs', 'src/parser/lexer.rs', 'src/parser/literals.rs', 'src/parser/expression.rs', 'src/parser/define.rs'],
     [('unwrap, expect, unreachable! and arithmetic in everything the entry points reach', 'src/parser')],
     'abstract interpretation of MIR (custom rustc_private driver): reachability of the failing side of every unwrap, expect, unreachable! and digit accumulation, '
     'on token-level graphs of the parser and character-level graphs of the tokenizer',
     'Decided for failing sides that are reached by tests of tokens, characters, scopes and numbers read from the text. Failing sides behind values of unknown origin are counted as undecided '
     'and listed in the evidence; string slices at computed positions are covered only where the position is followed.')
prop('C15', 'Unfinished programs are reported as unfinished',
     "When a program is rejected because the text ends too early, the error is the one for an unexpected end, and when it is rejected because of a token or character that is there, the error "
     "is a syntax error. An interactive user of the parser relies on this to know whether to ask for more lines.",
     ['inputs'], 'all source texts that are rejected, all places where an error is made',
     'The kind of the error depends on what the text ends with at each of hundreds of places; the tests check hardly any rejected program.',
     ['src/parser.rs', 'src/parser/lexer.rs', 'src/parser/expression.rs', 'src/parser/literals.rs', 'src/error.rs'],
     [('error_unexpected, error_eof, error_next, get, expect_punct, expect_reserved', 'src/parser.rs'), ('error_unexpected, error_eof, error_parse', 'src/parser/lexer.rs')],
     'abstract interpretation of MIR (custom rustc_private driver): kind of every error made against the set of tokens it can be made for, in every calling context; '
     'product of the character-level graphs with a reference automaton for the ends of texts inside tokens',
     'Decided on every path of every parsing function and of the tokenizer in the current MIR. Errors that are not decided by the offending token (duplicate names, order of parameters) are exempt.')
prop('C16', 'Nodes and errors carry the right locations',
     "The location of every node of the tree covers exactly the text it was made from, and the location of every error is that of the offending text.",
     ['inputs'], 'all source texts, every node of the tree and every error',
     'Locations are joined through trees of unbounded depth; the tests compare hardly any.',
     ['src/parser.rs', 'src/node.rs', 'src/token.rs'], [('Loc::merge and the locations of nodes', 'src/token.rs')],
     na='Locations of nodes are minima and maxima of run-time positions joined through trees of any shape; no finite abstraction in reach relates them to the text of '
        'the node. The extent of single tokens, which they are made of, is decided by C12.')
prop('C17', 'Diagnostics show the offending lines',
     "The message for an error shows the lines of the source that contain the location, with a mark under the offending part, for every text, every location and every width of the terminal.",
     ['inputs', 'configurations'], 'all source texts and locations, all widths of the terminal',
     'Depends on lengths of lines, widths of characters and of the terminal.',
     ['src/source_info.rs', 'src/error.rs'], [('SourceInfo::show_loc, get_location', 'src/source_info.rs')],
     na='The output is arithmetic on run-time lengths, byte positions and display widths of text that a sound static argument in reach cannot bound.')
prop('C18', 'Deeply nested programs do not exhaust the stack',
     "A program nested to any depth that fits into memory is parsed or rejected without exhausting the stack.",
     ['inputs'], 'programs of any nesting depth', 'The tests nest a few levels.',
     ['src/parser/expression.rs'], [('recursion of the parsing functions', 'src/parser/expression.rs')],
     na='The parser is recursive by design without a limit of depth; the stack used per level and the size of the stack of the calling thread are run-time quantities.')
prop('C19', 'Parsing takes time linear in the length of the text',
     "The time for parsing a program is proportional to its length, apart from the construction of the result.",
     ['inputs'], 'all source texts', 'Costs appear only for particular long texts.',
     ['src/parser.rs', 'src/parser/lexer.rs'], [('peeked tokens, save_state, restore_state', 'src/parser/lexer.rs')],
     na='A bound on time needs amounts (lengths of lines counted for __LINE__, copies of contents); the decidable part, no endless loop and no repeated parsing of a sub-program after going back, '
        'is in C08 and C09.')
prop('C20', 'Trees agree with the reference implementation of Ruby',
     "For every program of the supported language the tree has the meaning that the reference implementation of Ruby gives the program.",
     ['programs'], 'all programs of the supported language', 'The tests compare a few trees.',
     ['src/parser.rs', 'src/node.rs'], [('the whole parser', 'src/parser.rs')],
     na='There is no reference implementation here, and equality of two whole parsers is not decidable from the source; the part that is decidable function by function is in C03 to C07, C10 and C11.')
