# NOTE[id]: level_note of each claimed check.  NA[id]: why a property is not claimed.
NOTE['C02'] = 'Bounded: every literal spelling within the stated lengths, all characters symbolic. Trusts the symbolic string/regex/int models of sx/symstr.py and z3.'
NOTE['C13'] = 'Bounded: every pair (and stated triples) of operators/selects/concatenations over the stated operands with symbolic constants, bounds, widths and signal values. Values under the no-overflow side conditions named in the statement.'
NOTE['C06'] = 'Bounded: generated expression shapes of the stated depth with symbolic operand values, constants, widths and select bounds; oracle is an independent bit-vector semantics of Verilog expressions (sx/vlog.py).'
NOTE['C07'] = 'Bounded: all statement trees with up to 3 (nonblocking 3-4) assignments in the stated forms, plus case/casex/elsif/override/loop templates; constants, conditions and old values symbolic. Oracle: independent procedural interpreter over bit-vectors (sx/vlog.py Exec).'
NOTE['C14'] = 'Bounded: trees with conditionals in every operand position of every operator, select, concatenation and conditional, up to the stated depth; signal values, constants and bounds symbolic. Unequal arm widths in self-determined positions are a known finding.'
NOTE['C08'] = 'Bounded: every pair of part bounds of a 6-bit (thorough: 8-bit) target in the stated assignment templates; all signal values symbolic. Oracle: independent interpreter over bit-vectors. Computed part positions (+:, variable index) are outside.'
NOTE['C09'] = 'Bounded: generated hierarchies (override patterns, dependency chains, generate scopes, declared ranges) with symbolic literal values. Values are exact where no intermediate result overflows; values that do not fit a declared parameter range are a known finding.'
NOTE['C10'] = 'Bounded: generated hierarchies with the stated connection forms, instance arrays, generate constructs and gates; all signal values, constants and select bounds symbolic. Oracle: independent elaboration written in checks/c10.py over bit-vectors.'
NOTE['C11'] = 'Bounded: generated function bodies (all trees up to 3 assignments in the stated forms), call sites, argument/result widths, nesting and scopes; all literals and signal values symbolic. Oracle: independent interpreter of function bodies over bit-vectors (sx/vlog.py Exec).'
NOTE['C12'] = 'Bounded: signal names fully symbolic up to the stated lengths, bits symbolic, all edge/order/separator combinations, stated bodies and hierarchies. Detection is by name, as documented; lists with two clocks or without a clock are outside.'
NOTE['C19'] = 'Bounded: all eight comparisons, constants up to twice the range of signals of stated widths (symbolic), all signal values; negation and source text included. Unsigned signals.'
NOTE['C20'] = 'Bounded: lists of up to four conditions from the stated forms over signals of 1 and 3 bits, up to three symbolic ranges per node, stated design templates; all constants and signal values symbolic.'
NOTE['C17'] = 'Bounded: all condition trees with up to 5 conditionals (holes, repeated conditions) and the stated designs; constants and signal values symbolic. Oracle: tree semantics and independent procedural interpreter over bit-vectors.'
NOTE['C18'] = 'Bounded: 16 machine styles with 2- and 3-bit states and machines in instances; all state codes, inputs and current states symbolic; loops on all graphs of 3 and 4 states (flags symbolic, the search itself runs on concrete graphs per path). Constant successors only, by design of the tool.'
NOTE['C22'] = 'Bounded: chains of up to 4 labels with symbolic names, kinds and loop indices, all slices with small bounds; dotted text up to 5 (thorough 9) symbolic characters.'
NOTE['C23'] = 'Bounded: a node of every syntax-tree class with identifiers wherever nodes may stand, and programs with every construct; identifier names and map entries symbolic strings.'
NOTE['C05'] = 'Bounded: pairs of nodes of every syntax-tree and dataflow class, Term and Bind, with independent symbolic contents, one (thorough: two) levels deep; all pairs of about 130 parsed statements and items.'
NOTE['C24'] = 'Bounded: up to 3 sources, 3 include paths and macros with symbolic names and texts; file system, temporary files and external program are recording stand-ins. A stale output file being parsed when the program fails is a known finding.'
NOTE['C03'] = 'Bounded: token kinds are symbolic and drive the real LALR tables; all strings up to 3 (thorough 5) tokens and the stated longer forms with every operator choice, in ten places. Oracle: independent recursive-descent recogniser. Token spelling is C01.'
NOTE['C01'] = 'Bounded: texts with the stated numbers of symbolic characters through the real rules and PLY token loop (master regular expression interpreted symbolically by sx/symstr.py). Oracle: independent longest-match tokenizer. White space inside numbers and undefined escapes are not judged.'
NOTE['C21'] = 'Bounded: token strings built from every production of the grammar in every place, with one symbolic line number per token (any layout), and stated texts with symbolic separators through the real lexer. Oracle: the span of the production that made the node, watched in the PLY tables.'
NOTE['C25'] = 'Bounded: every node kind below every place of every node kind (thorough: three levels), symbolic terminal names and constants, stated designs with all walk options. pygraphviz is a recording stand-in (strict-graph merging modelled). Oracle: independent tree matching decided by the solver.'
NOTE['C15'] = 'Bounded: chains of two and three intermediate signals in every driver and use form, declared ranges up and down, partial drivers, diamonds, instances, functions, generate loops, arrays, feedback; constants, bounds and all source values symbolic. Oracle: bit-vector semantics of the design read directly. Widths of intermediate signals match their drivers.'
NOTE['C04'] = 'Bounded: token strings built from the productions the real parser has (every production in every place, small third productions, thorough: all), operator forms with symbolic token kinds, names, digits and strings with symbolic characters that stay symbolic through tree, generator, jinja2 templates, lexer and second parse. Oracle: structural identity of the two trees (checks/c04.py same).'
NOTE['C16'] = 'Bounded: every operator, select and conditional in every operand position of every other, all clocked block forms, statement trees, 23 designs and 12 subsets, as recorded, as resolved and through the code generator; constants, bounds and signal values symbolic. Oracle: the dataflow of the emitted text, evaluated by independent bit-vector semantics. Two recorded findings (flat names that collide, function locals).'
