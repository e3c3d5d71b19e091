#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements live here so that they can be reviewed as text)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=hook)))

prop('C01', 'Source text is split into the right tokens, losing nothing',
     'Every Verilog source text is split left to right into tokens, each the longest lexeme the language allows at that position (whitespace, comments and compiler directives separate tokens, reserved words are never identifiers), and each token carries exactly the characters of its lexeme. '
     'Each token is labelled with the number of the source line it starts on, also after multi-line comments, blank lines and directives. '
     'Characters that start no token are skipped one at a time with an error report and do not disturb the tokens after them; compiler directives are recorded with their text and line.',
     ['inputs'], 'all source texts (decided symbolically for all buffers over printable ASCII, tab and newline up to a stated length, alone and after/before fixed contexts)',
     'Token rules interact through ordering and longest match; the example files contain a handful of fixed spellings, never adversarial neighbours such as "<<<", "4\'shx", or an escaped name next to a comment.',
     ['pyverilog/vparser/lexer.py'],
     [('token rules and their priority', 'pyverilog/vparser/lexer.py:VerilogLexer'), ('line counting', 'pyverilog/vparser/lexer.py:t_NEWLINE,t_COMMENTOUT')],
     ['token stream of the lexer: kind, text, line'])

prop('C02', 'Integer literals have the value and bit width Verilog gives them',
     'For every integer literal (unsized or sized, signed or unsigned marker, any base letter in either case, underscores anywhere after the first digit) the evaluated value is the number the digits denote in that base, and the reported width is the stated size, or 32 bits when no size is given. '
     'A literal containing an x, z or ? digit is treated as undefined of that width and never as a number.',
     ['inputs'], 'all literal spellings up to a stated number of digits, every digit, underscore and letter case symbolic',
     'Tests use about ten fixed spellings; a wrong branch for one base/sign/underscore combination goes unnoticed.',
     ['pyverilog/dataflow/dataflow.py', 'pyverilog/dataflow/optimizer.py'],
     [('literal value', 'pyverilog/dataflow/dataflow.py:DFIntConst.eval'), ('literal width', 'pyverilog/dataflow/dataflow.py:DFIntConst.width'), ('unknown digits', 'pyverilog/dataflow/optimizer.py:VerilogOptimizer.optimizeConstant')],
     ['value and width of the constant after constant evaluation'])

prop('C03', 'Expressions parse with Verilog precedence and associativity',
     'For every expression built from unary, binary and conditional operators, parentheses, concatenations, replications, bit and part selects and calls, the parsed tree groups operands exactly as the Verilog precedence table and associativity rules prescribe, so it denotes the same function of its operands (a unary plus may be omitted from the tree). '
     'Redundant parentheses never change the tree, operands keep their left-to-right order, legal expressions are accepted and illegal ones rejected.',
     ['programs', 'inputs'], 'all operator sequences up to a stated length, with and without parentheses, for all operand values',
     'There are hundreds of operator pairs and tens of thousands of triples; tests parse a few expressions and compare printed trees.',
     ['pyverilog/vparser/parser.py'],
     [('precedence table and expression productions', 'pyverilog/vparser/parser.py:VerilogParser')],
     ['AST of the right-hand side of an assignment'])

prop('C04', 'Generated Verilog parses back to the same syntax tree',
     'For every program the grammar of the parser allows (apart from embedded code), parsing gives a tree or a ParseError and no other error, the code generator emits Verilog text for the tree, the text parses again, and the re-parsed tree equals the original (same node kinds, names, literals, operators and nesting; source lines do not count, nor does it whether declarations share one keyword, and several declarations under a generate condition may get a begin-end block). '
     'In particular no operator grouping, width, sign, dimension, delay, sensitivity, port, parameter, initial value or statement is lost, added or reordered, whatever characters the names, literals and strings consist of.',
     ['programs', 'inputs'], 'all syntax trees from the listed constructs up to a stated nesting depth, with arbitrary names and literals',
     'The round trip is only tested on a few whole files whose expressions never exercise most parenthesisation decisions.',
     ['pyverilog/ast_code_generator/codegen.py', 'pyverilog/ast_code_generator/template', 'pyverilog/vparser/parser.py', 'pyverilog/utils/op2mark.py'],
     [('parenthesis decisions', 'pyverilog/ast_code_generator/codegen.py:visit_Operator'), ('templates', 'pyverilog/ast_code_generator/template'), ('operator marks', 'pyverilog/utils/op2mark.py')],
     ['text returned by the code generator', 'AST of the re-parsed text'])

prop('C05', 'Tree equality and hashing agree with tree structure',
     'Two syntax-tree or dataflow-tree values compare equal exactly when they have the same kind, the same attributes and pairwise equal children (present or absent in the same places; source lines and the default net type do not count), and != is always the negation of ==. '
     'Equality is reflexive, symmetric and transitive, equal values have equal hashes, and comparison never fails with an error.',
     ['inputs'], 'all pairs and triples of trees up to a stated size with arbitrary attribute values',
     'Equality decides merging, duplicate elimination and dictionary lookup everywhere, but is never tested directly.',
     ['pyverilog/vparser/ast.py', 'pyverilog/dataflow/dataflow.py', 'pyverilog/utils/scope.py'],
     [('Node.__eq__/__hash__', 'pyverilog/vparser/ast.py'), ('DF node equality', 'pyverilog/dataflow/dataflow.py')],
     ['results of ==, != and hash()'])

prop('C06', 'The dataflow of an expression denotes the value of that expression',
     'For a continuous assignment or declaration assignment with unsigned operands, the dataflow tree recorded for the target, evaluated over the source signals, gives the value Verilog gives the right-hand side for every value of the signals, including conditionals nested anywhere, concatenations, replications, selects and constants. '
     'Every signal the expression reads appears in the tree and nothing else does.',
     ['programs', 'inputs'], 'all expressions from a stated grammar and depth, all literal values, all signal values',
     'Tests compare printed trees of a few designs; they never evaluate a tree.',
     ['pyverilog/dataflow/bindvisitor.py', 'pyverilog/dataflow/reorder.py', 'pyverilog/dataflow/dataflow.py'],
     [('expression to dataflow', 'pyverilog/dataflow/bindvisitor.py:makeDFTree'), ('reordering of conditionals', 'pyverilog/dataflow/reorder.py')],
     ['bind dictionary of the dataflow analyzer'])

prop('C07', 'The dataflow of an always block denotes its procedural meaning',
     'For an always block, clocked or combinational, the dataflow recorded for each assigned signal, evaluated over the values before the block runs, equals the value that executing the block in order would leave in (or schedule for) the signal (digits x, z and ? of a case label match anything, as in casex), where "no branch assigns" means the old value is kept. '
     'This covers nested if/else, case and casex with defaults and several labels per item, blocking assignments read later in the block, nonblocking assignments, later assignments overriding earlier ones, and named blocks.',
     ['programs', 'inputs'], 'all statement trees from a stated grammar and depth, all constants, all signal values',
     'Tests compare printed trees of a few designs; ordering and overriding errors need particular statement combinations.',
     ['pyverilog/dataflow/bindvisitor.py', 'pyverilog/dataflow/visit.py'],
     [('statement traversal and branch construction', 'pyverilog/dataflow/bindvisitor.py'), ('blocking/nonblocking stores', 'pyverilog/dataflow/visit.py:Frame')],
     ['bind dictionary of the dataflow analyzer'])

prop('C08', 'Partial assignments reach exactly the bits they name',
     'When a part select, a bit select or a concatenation is the target of an assignment, the recorded dataflow drives exactly the named bits with exactly the bits Verilog assigns to them, in order, for ascending part positions, any widths and any constant bounds. '
     'Merging all partial drivers of a signal yields one tree in which every bit has the value of its own driver, and a bit without a driver stands for that bit of the signal itself.',
     ['programs', 'inputs'], 'all combinations of target widths, bounds and concatenation layouts within stated sizes, all signal values',
     'Tests contain two fixed layouts; index arithmetic errors show only for particular offsets and widths.',
     ['pyverilog/dataflow/bindvisitor.py', 'pyverilog/dataflow/merge.py', 'pyverilog/dataflow/optimizer.py'],
     [('target decomposition', 'pyverilog/dataflow/bindvisitor.py:addBind'), ('merging', 'pyverilog/dataflow/merge.py')],
     ['bind dictionary', 'merged tree of a signal'])

prop('C09', 'Parameters, widths and constants resolve to their elaborated values',
     'For every module hierarchy, each parameter and local parameter resolves to the value Verilog elaboration gives it: the override of the instantiation (positional or named) if there is one, otherwise its default, evaluated in the right scope and with all dependencies resolved. '
     'Signal ranges that mention parameters resolve to the resulting bounds, separately for every instance.',
     ['programs', 'configurations', 'inputs'], 'all hierarchies from stated templates, all override patterns, all parameter values',
     'Tests use single fixed values; mix-ups between positions, scopes or instances need particular override patterns.',
     ['pyverilog/dataflow/signalvisitor.py', 'pyverilog/dataflow/bindvisitor.py', 'pyverilog/dataflow/optimizer.py', 'pyverilog/dataflow/modulevisitor.py'],
     [('parameter overrides', 'pyverilog/dataflow/signalvisitor.py:_visit_Instance_body'), ('constant resolution', 'pyverilog/dataflow/optimizer.py:resolveConstant')],
     ['constant list and resolved terms'])

prop('C10', 'Instances, generate blocks and loops elaborate completely and correctly',
     'Every module instance, instance-array element, generate-for iteration and taken generate-if branch yields its own scope and bindings, with ports connected to the expressions named positionally or by name, and nothing else is elaborated. '
     'The value of each output and internal signal seen through the connections equals that of the elaborated design for all input values.',
     ['programs', 'configurations', 'inputs'], 'all designs from stated templates, loop bounds, connection orders and constants; all signal values',
     'Tests have one or two fixed instances and loops; off-by-one and order errors need particular bounds or connection orders.',
     ['pyverilog/dataflow/bindvisitor.py', 'pyverilog/dataflow/signalvisitor.py', 'pyverilog/dataflow/visit.py'],
     [('port binding', 'pyverilog/dataflow/bindvisitor.py:addInstancePortBind'), ('loops', 'pyverilog/dataflow/bindvisitor.py:visit_ForStatement')],
     ['bind dictionary, instances, terms'])

prop('C11', 'Function calls are inlined with the meaning of the function',
     'For every call of a user-defined function, the dataflow of the calling expression, with the temporaries the analysis introduces substituted, equals the value the function returns for the actual arguments, for all argument values, with arguments bound in declaration order and every call independent of the others.',
     ['programs', 'inputs'], 'all function bodies and call expressions from stated templates, all argument values',
     'Tests contain two fixed functions called once or twice.',
     ['pyverilog/dataflow/bindvisitor.py'],
     [('function call expansion', 'pyverilog/dataflow/bindvisitor.py:makeDFTree (FunctionCall)')],
     ['bind dictionary'])

prop('C12', 'Clock and reset of every sequential block are identified correctly',
     'In an always, always_ff or always_latch block sensitive to edges of a signal whose name contains clk or clock (in any letter case), that signal is the recorded clock, with the edge and the constant bit written; an edge-sensitive signal whose name otherwise contains rst or reset is the recorded reset with its edge and bit; blocks without edges are combinational whatever the names of the signals they list. '
     'A list that mixes a clock with another edge signal is rejected instead of misread; every driver of a signal the block assigns carries the same information, and every instance and generate iteration refers to its own signals. The code emitted for a driver is sensitive to exactly the same edges and bits.',
     ['programs', 'configurations'], 'all signal names up to a stated length, all sensitivity lists with up to two edges, all constant clock bits, stated block bodies and hierarchies',
     'Tests cover a few fixed names and one bit-selected clock.',
     ['pyverilog/dataflow/bindvisitor.py', 'pyverilog/dataflow/dataflow.py', 'pyverilog/utils/signaltype.py'],
     [('sensitivity analysis', 'pyverilog/dataflow/bindvisitor.py:_createAlwaysinfo')],
     ['clock/reset accessors of a bind'])

prop('C13', 'Optimizing a dataflow tree never changes its value',
     'For every dataflow tree, the optimized tree has the same value as the original for every value of its signals and constants for which no intermediate result overflows its width; constant expressions become the exact integer Verilog computes. '
     'Optimization terminates without error on every supported tree, and a width the optimizer reports is the Verilog width of the tree.',
     ['inputs', 'programs'], 'all trees up to a stated depth over all operators, selects, concatenations and conditionals; all constants, bounds and widths in stated ranges; all signal values',
     'About 45 rewrite rules interact; each is exercised by few or no tests and none is checked for all values.',
     ['pyverilog/dataflow/optimizer.py'],
     [('constant folding', 'pyverilog/dataflow/optimizer.py:optimizeConstant'), ('structural rewriting', 'pyverilog/dataflow/optimizer.py:optimizeHierarchy')],
     ['result of optimizing a tree'])

prop('C14', 'Reordering conditionals preserves the value of a dataflow tree',
     'Pulling conditionals to the top of a dataflow tree (through unary and binary operators, selects, concatenations, indices and other conditionals) (of trees without system functions whose conditionals have arms of equal width) yields a tree with the same value for every value of its signals, in which no conditional remains below an operator. ',
     ['inputs', 'programs'], 'all trees up to a stated depth, all signal values',
     'The distribution of several conditionals over several operands has many cases; tests sample a few.',
     ['pyverilog/dataflow/reorder.py'],
     [('insertion functions', 'pyverilog/dataflow/reorder.py')],
     ['result of reordering a tree'])

prop('C15', 'Resolving a signal backwards yields its value in terms of its sources',
     'Walking the drivers of a signal back through intermediate signals (nets, combinational always blocks, parameters, instances, functions, arrays, partial drivers, any declared ranges) gives a tree whose leaves are only inputs of the top module, clocked registers (with zero steps), bits without a driver, signals on feedback paths and the parts that a latch holds, and whose value equals that of the composed design for all values of those, wherever no intermediate signal is declared narrower or wider than the value it is driven with. '
     'Walking terminates on designs with feedback and for every number of steps. Replacing holes by the held value gives each signal its own old value, and the listed sources of a tree are exactly its leaf signals.',
     ['programs', 'inputs'], 'all designs from stated templates (chains, diamonds, partial drivers, feedback), all signal values',
     'Tests never evaluate walked trees.',
     ['pyverilog/dataflow/walker.py', 'pyverilog/dataflow/merge.py', 'pyverilog/dataflow/replace.py'],
     [('backward walk', 'pyverilog/dataflow/walker.py:walkTree'), ('merging of drivers', 'pyverilog/dataflow/merge.py'), ('undefined replacement', 'pyverilog/dataflow/replace.py')],
     ['walked tree'])

prop('C16', 'Verilog text emitted for dataflow denotes the same dataflow',
     'The Verilog text emitted for terms, bindings and trees (assignments, clocked and combinational always blocks, parameters, declarations) re-parses, and its dataflow has, for all signal values, the value, clock, reset and widths of the bindings it was made from; strings and real constants stay what they are. '
     'The module generated for a whole design contains all of it; the module generated for target signals contains exactly the targets and everything they depend on, including clocks and resets.',
     ['programs', 'inputs'], 'all trees/bindings/designs from stated templates up to a stated depth, all constants and signal values',
     'The emitted text is printed in examples only; tests do not re-analyse it.',
     ['pyverilog/dataflow/dataflow.py', 'pyverilog/dataflow/dataflow_codegen.py', 'pyverilog/dataflow/subset.py', 'pyverilog/utils/op2mark.py', 'pyverilog/utils/util.py'],
     [('whole designs and subsets', 'pyverilog/dataflow/dataflow_codegen.py'), ('tocode of nodes, binds and terms', 'pyverilog/dataflow/dataflow.py')],
     ['emitted text'])

prop('C17', 'Splitting a tree by conditions partitions its behaviour',
     'Splitting a dataflow tree into (conditions, value) cases yields cases such that for all signal values at most one case applies, one applies exactly where the tree selects a value, and its value is the one the tree selects; filtering cases keeps exactly those whose value is a constant in the asked relation, the signal itself, or not the signal itself. '
     'The cases computed for a register cover every situation exactly once and give its next value; after removing the tests of a reset that the block tests first with a single reset value (recognized by a name containing rst or reset), the remaining cases do the same for every situation in which the reset is inactive.',
     ['inputs', 'programs'], 'all condition trees up to a stated depth, all signal values',
     'Tests do not cover it; partition errors need particular nesting.',
     ['pyverilog/controlflow/splitter.py', 'pyverilog/controlflow/transition.py'],
     [('splitting', 'pyverilog/controlflow/splitter.py:split')],
     ['list of cases'])

prop('C18', 'State machine extraction reports exactly the transitions of the code',
     'For a state register and an inactive reset, the extracted machine has a transition that applies in the current state under the current inputs exactly when the code assigns the register a constant there, and every applying transition leads to that constant as the register stores it; registers whose names do not suggest a state machine get none. '
     'The reported loops are exactly the simple cycles (of at most 50 states) of the transitions that start in single states, each listed once.',
     ['programs', 'inputs', 'histories'], 'all state machines from stated templates (case, if/else, ranges, negated tests), all state codes and input values',
     'Tests have one fixed machine.',
     ['pyverilog/controlflow/controlflow_analyzer.py', 'pyverilog/controlflow/transition.py', 'pyverilog/utils/inference.py'],
     [('transition extraction', 'pyverilog/controlflow/controlflow_analyzer.py'), ('state algebra', 'pyverilog/controlflow/transition.py')],
     ['finite state machine object, loops'])

prop('C19', 'A comparison against a constant is inferred as exactly its value set',
     'For every comparison (<, <=, >, >=, ==, !=, ===, !==) between an unsigned signal and a constant, with the constant on either side, the set of values inferred for the signal is exactly the set of values of its width that satisfy the comparison, also after negating it any number of times. '
     'Constants the signal cannot have give the empty or the full set.',
     ['inputs'], 'all comparison operators, both operand orders, all constants, all signal values',
     'No test touches it.',
     ['pyverilog/utils/inference.py'],
     [('interval inference', 'pyverilog/utils/inference.py:infer')],
     ['inferred name, interval and inversion'])

prop('C20', 'State conditions are computed, combined and negated exactly',
     'For every list of branch conditions over a state signal and other signals, the computed pairs of state ranges and remaining conditions describe together exactly the values of all signals for which every listed condition holds; and, or and not of such pairs are exact and do not change their operands. '
     'A condition the active-condition analysis lists for a signal in a state (signal assigned a positive constant, modified, or unmodified) implies that the code does that in that state, while the reset is inactive.',
     ['inputs', 'programs'], 'all conditions over up to four signals up to a stated depth, all constants, all signal values',
     'No test touches it.',
     ['pyverilog/controlflow/transition.py', 'pyverilog/controlflow/active_analyzer.py', 'pyverilog/controlflow/splitter.py'],
     [('state algebra', 'pyverilog/controlflow/transition.py'), ('active conditions', 'pyverilog/controlflow/active_analyzer.py')],
     ['state nodes', 'listed active conditions'])

prop('C21', 'Syntax-tree nodes carry the source line of their construct',
     'Every node of a parsed tree carries a line number that lies within the source lines of the construct it represents (an omitted sensitivity list within those of its always block; an omitted parameter list has no line, 0), and a node with an end line carries the line of the last token of its construct. So children never fall outside their module, and statements on different lines get different numbers in the same order, for every layout of line breaks between tokens.',
     ['inputs', 'programs'], 'all placements of line breaks between the tokens of stated programs',
     'Tests compare one layout per file, and tree equality ignores lines.',
     ['pyverilog/vparser/parser.py', 'pyverilog/vparser/lexer.py'],
     [('line assignment in productions', 'pyverilog/vparser/parser.py')],
     ['lineno attributes'])

prop('C22', 'Hierarchical names identify signals uniquely and flatten consistently',
     'Hierarchical names are sequences of parts (name, kind, loop index): names are equal exactly when they have equally many parts and all parts agree (a part of kind "any" agrees with every kind), != is the negation, equal names hash equally, and adding, appending, indexing, slicing and iterating act on the parts as on a list. '
     'No operation changes its operands or shares state with its result; wrong kinds and operands are reported as definition errors. Dotted text converts to and from names without losing a character, equal names flatten to the same text, and names that differ only in loop indices to different texts.',
     ['inputs'], 'all names up to a stated length with arbitrary part names, kinds and loop indices',
     'Name equality underlies every table; no test touches it directly.',
     ['pyverilog/utils/scope.py', 'pyverilog/utils/util.py'],
     [('scope chains', 'pyverilog/utils/scope.py')],
     ['results of name operations'])

prop('C23', 'Listing and renaming identifiers is complete and exact',
     'Listing the identifiers of a syntax tree returns exactly the identifiers occurring in it; renaming with a map changes exactly the mapped identifiers, simultaneously, and changes nothing else in the tree.',
     ['programs', 'inputs'], 'all trees from a stated grammar, all rename maps',
     'No test touches it.',
     ['pyverilog/utils/identifiervisitor.py', 'pyverilog/utils/identifierreplace.py'],
     [('visitor and replacer', 'pyverilog/utils')],
     ['identifier list, replaced tree'])

prop('C24', 'The preprocessor is driven with the requested files, paths and macros',
     'For every list of source files or strings, include paths and macro definitions, the external preprocessor is invoked once with every source in the given order, each include path and each definition exactly once and unaltered, and its output is what gets parsed. Temporary files do not survive a run, also when the preprocessor cannot be run, and source files are left alone.',
     ['inputs', 'configurations'], 'all numbers and values of files, paths and macros within stated bounds',
     'Tests use one file and no options.',
     ['pyverilog/vparser/preprocessor.py', 'pyverilog/vparser/parser.py'],
     [('command construction', 'pyverilog/vparser/preprocessor.py')],
     ['recorded command line'])

prop('C25', 'Dataflow graphs show exactly the nodes and relations of the tree',
     'The graph drawn for a signal starts with a node for the signal, which leads to the dataflow tree: every node of the tree is one graph node labelled with what it is (operator, kind, constant value and width, flattened signal name), and every parent-child relation is one edge, labelled with its role (COND, TRUE, FALSE, VAR, MSB, LSB, PTR) where the node has roles. '
     'Nothing else is in the graph. With identical leaves every occurrence of a signal is a node of its own; without, all occurrences of a signal, and of no other signal, share one node, and no edge is lost.',
     ['programs', 'inputs'], 'all trees with two (thorough: three) levels of node kinds, symbolic signal names and constants; stated designs with all walk options',
     'No test builds a graph: pygraphviz is not installed.',
     ['pyverilog/dataflow/graphgen.py', 'pyverilog/dataflow/replace.py'],
     [('graph construction', 'pyverilog/dataflow/graphgen.py'), ('undefined replacement', 'pyverilog/dataflow/replace.py')],
     ['graph object'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
