"""Writes /verif/properties.jsonl."""
import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        **({"state":[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
        observe_at=obs or [],hook_needed=None)))
p("C01","Printing a circuit and parsing it back yields the same circuit",
 "For every circuit whose parts can be written in FIRRTL text, printing it and parsing the printed text succeeds and yields an equal circuit: same modules, ports, directions, types, widths, literals, operations and their operand order, statements in the same order and nesting, memories, parameters, names and info attributes on everything that carries one. The only differences allowed are representational: an empty `when` body reads back as one `skip`, neighbouring or empty text pieces of a printf message merge, and external-module parameters are unordered. Printing the re-parsed circuit again and parsing that changes nothing further.",
 ["programs"],"every circuit AST expressible in FIRRTL (all statement, entity, expression, type and parameter kinds, any nesting, any info text)",
 "The quickcheck round trips sample each element kind alone, compare without infos on most of them, exclude doubles, resets, bit selections with given order and parameter escapes, and never combine when/else nesting, infos and shadowing in one circuit.",
 ["src/circuit.rs","src/module.rs","src/stmt.rs","src/stmt/display.rs","src/expr.rs","src/expr/primitive.rs","src/types/display.rs","src/types/type.rs","src/memory/display.rs","src/memory/simple.rs","src/memory/register.rs","src/info.rs"],
 [("Display impls","src/**/*.rs fmt"),("parsers","src/**/parsers.rs")],obs=["Circuit::to_string","circuit::parse"])
p("C02","A well-formed text is accepted and denotes exactly the circuit that is written",
 "Every text of the documented grammar is accepted. When parsing succeeds, the resulting circuit contains exactly what the text says: every module, port, statement, entity, memory entry, operand, subscript, width, direction and flag with the kind, value, order and nesting written there, and nothing that is not written. Optional parts that are absent read as their documented defaults (unknown width or point, no info, latency zero, undefined read-under-write), and high/low operands of `bits` are taken in the order high, low.",
 ["inputs","programs"],"every text of the accepted FIRRTL grammar, in any combination of constructs",
 "Existing tests only parse what this library's own printer emits, so a printer and parser that agree on the wrong meaning (swapped operands, swapped keywords, wrong default) pass.",
 ["src/module/parsers.rs","src/stmt/parsers.rs","src/expr/parsers.rs","src/types/parsers.rs","src/memory/parsers.rs","src/circuit/parsers.rs"],
 [("PEG alternatives of every construct","src/**/parsers.rs")],obs=["circuit::parse","circuit::consumer"])
p("C03","Malformed or unresolved input is reported, never silently dropped",
 "A text that is not a well-formed circuit - a line that is no statement of its block, a bad token, trailing garbage on a line, a missing part, wrong indentation, an unresolved name, too few or too many printf arguments, a number out of range, broken text after the top module - makes parsing return an error. Parsing never succeeds with a line, an operand or a module of the input left out.",
 ["inputs"],"every text, in particular every single-line and single-token corruption of a well-formed circuit at every position",
 "No existing test parses a malformed text at all; the space of corruptions and positions is unbounded.",
 ["src/module/parsers.rs","src/circuit.rs","src/stmt/parsers.rs","src/memory/parsers.rs","src/parsers.rs"],
 [("body remainder check","src/module/parsers.rs module"),("draining of remaining modules","src/circuit.rs into_circuit")],obs=["circuit::parse","Circuit::from_read","Modules::next"])
p("C04","Layout does not change what a text means",
 "Changing only layout - the number of spaces or tabs between tokens, trailing blanks, blank and comment-only lines, trailing comments, the indentation width of each block (as long as nesting is kept), LF versus CRLF, a missing final newline - never changes whether a text is accepted nor the circuit it denotes. Indentation alone decides nesting: lines of one block share one depth, deeper than the block's header.",
 ["inputs","programs"],"every well-formed text and every combination of layout changes at every token gap and line",
 "Tests parse printer output only, which has exactly one layout.",
 ["src/parsers.rs","src/indentation.rs","src/stmt/parsers.rs","src/module/parsers.rs","src/memory/parsers.rs","src/info.rs"],
 [("spaced/le combinators","src/parsers.rs"),("Indentation","src/indentation.rs")],
 [("Indentation","lower bound until the first line of a block, exact afterwards","src/indentation.rs")],obs=["circuit::parse"])
p("C05","Names resolve to the latest preceding declaration in scope",
 "A name used in an expression, memory port or instance denotes the latest declaration of that name that textually precedes the use in the same module (ports first), including declarations made in earlier or enclosing `when`/`else` branches; a name with no preceding declaration is an error, names never leak between modules, and entities, simple memories and modules are separate name spaces. The context objects behave the same way when driven directly: a sub-context sees its parent, its own additions win, stay invisible to siblings' lookups until it is dropped, and are then handed to the parent.",
 ["programs","histories"],"every sequence of declarations, nested scopes, shadowing and uses; every history of context operations",
 "Tests use each declared name once with unique names and never nest, drop or shadow contexts.",
 ["src/stmt/context.rs","src/stmt/parsers.rs","src/module/parsers.rs","src/expr/parsers.rs"],
 [("Context trait, TopContext, SubContext::drop","src/stmt/context.rs"),("stmts loop adding declarations","src/stmt/parsers.rs stmts")],
 [("entities, memories","name to latest declaration","src/stmt/context.rs")],obs=["Expression::references","TopContext","SubContext"])
p("C06","Modules are yielded in order, known afterwards, and errors are final",
 "Iterating a text yields its modules one at a time in textual order; after each yield exactly the modules yielded or added so far can be looked up and instantiated (the latest of equal names wins), so instantiating itself or a later module is an error. The first malformed module yields exactly one error and the iteration ends there for good; an exhausted iteration stays exhausted.",
 ["histories","inputs"],"every sequence of next / lookup / add-module calls on every module text",
 "Tests drive the iterator once over generated well-formed text and never interleave lookups, additions, errors or calls after the end.",
 ["src/module/parsers.rs","src/circuit.rs"],
 [("Modules iterator","src/module/parsers.rs"),("ModuleConsumer::next","src/circuit.rs")],
 [("modules","name to latest known module","src/module/parsers.rs"),("current","unparsed rest","src/module/parsers.rs")],obs=["Modules::next","Modules::module","Modules::add_module","ModuleConsumer::next"])
p("C07","All ways of reading a circuit agree and pick the named top module",
 "Parsing a buffer, reading from a stream (however it is chunked) and consuming the module iterator yield the same circuit or all fail; its top is the first module carrying the circuit's name, its info the header's. The consumer offers a circuit exactly from the moment that module was yielded, passes every module through unchanged, and a circuit whose top never appears, a failing read, or text that is not UTF-8 is an error.",
 ["inputs","histories","fault_sequences"],"every circuit text, chunking and read failure, every prefix of a consumption history",
 "Tests parse one-module buffers; from_read, partial consumption, missing or duplicate tops and I/O faults are untested.",
 ["src/circuit.rs","src/circuit/parsers.rs","src/error.rs"],
 [("ModuleConsumer","src/circuit.rs"),("Circuit::from_read","src/circuit.rs")],
 [("TopState","top wanted by name or found","src/circuit.rs")],obs=["circuit::parse","Circuit::from_read","ModuleConsumer::circuit","ModuleConsumer::into_circuit"])
p("C08","A printed circuit holds each needed module once, dependencies first",
 "The text printed for a circuit contains the top module and every module it instantiates, directly, through other modules or inside nested conditionals, each exactly once and no other module. A module always precedes every module instantiating it, the top comes last, and the header names the top.",
 ["programs"],"every acyclic instantiation graph (chains, diamonds, shared leaves, instances in nested branches, external modules)",
 "Tests only print what shrinks of random modules produce: no diamonds or nested-branch instances are reached systematically.",
 ["src/circuit.rs","src/module.rs","src/stmt.rs"],
 [("fmt_module recursion","src/circuit.rs fmt"),("referenced_modules / instantiations","src/module.rs, src/stmt.rs")],
 [("done","names already printed","src/circuit.rs fmt")],obs=["Circuit::to_string"])
p("C09","Type equivalence, passivity and orientation obey FIRRTL's definitions",
 "Type equivalence is an equivalence relation that ignores widths and points only: it distinguishes ground kinds (including reset kinds), vector lengths, and field count, order, name and orientation at every depth. Weak equivalence is equivalence of the leaf-oriented types, where the orientation of a leaf combines every flip on its path; a type is passive exactly if no field at any depth is flipped, flipping twice is the identity, and equivalent types are weakly equivalent.",
 ["inputs"],"every pair and triple of types of any depth",
 "Tests sample a handful of random types against themselves; laws over pairs and triples differing in one deep detail are not reached.",
 ["src/types/type.rs","src/types/ground.rs","src/types/oriented.rs","src/types/orientation.rs"],
 [("TypeExt::eq","src/types/*.rs"),("with_orientation/flipped","src/types/type.rs, oriented.rs")],obs=["TypeExt::eq","Type::weak_eq","TypeExt::is_passive","OrientedType"])
p("C10","Merging two types takes the widest shape or fails, structurally",
 "Combining two types succeeds exactly if they agree in ground kind, vector length and field names, order and orientation at every depth, and otherwise reports failure; the result keeps that structure, takes the larger width at each leaf, and is unknown where either width is unknown. Fixed-point leaves keep the most integer bits and the most fraction bits, with no wrap-around: what does not fit is unknown. On types with all widths and points known, combining is idempotent, commutative, and associative as long as nothing overflows.",
 ["inputs"],"every pair of types, every pair of widths and points including the extremes",
 "Tests combine no bundles with differing widths and never approach the numeric extremes.",
 ["src/types/combinator.rs","src/types/ground.rs","src/types/type.rs"],
 [("MaxWidth, FnWidth, combine_fixed_max","src/types/ground.rs, combinator.rs"),("Combinator<Type>","src/types/type.rs")],obs=["Combinator::combine","combine_fixed_max"])
p("C11","Primitive operations are typed as FIRRTL's width rules demand",
 "For operands of legal types, each primitive operation has the kind, width and point FIRRTL prescribes (add/sub max+1, mul and cat sum, div w(+1 signed), rem min, comparisons and reductions 1, pad max, shl w+n, shr max(w-n,1), dshl w+2^m-1, cvt, neg, bitwise max, bits hi-lo+1, head n, tail w-n, incp/decp/setp, casts keep the width), wide enough for every possible result. A result is unknown exactly if a width it depends on is unknown or the result does not fit the width range, and typing never panics, wraps or overflows.",
 ["inputs"],"every operation, every combination of operand kinds, widths 0..65535, points -32768..32767 and static arguments, known or unknown",
 "The existing typing test checks the kind only, ignoring every width and point.",
 ["src/expr/primitive.rs","src/types/ground.rs"],
 [("Operation::type","src/expr/primitive.rs")],obs=["Operation::r#type","Expression::r#type"])
p("C12","Expressions are typed structurally and errors name a faulty part",
 "References have the declared type of their entity, literals their width, sub-field, sub-index and sub-access the field's or element's type, mux the merged type of its branches and validif its value's type, at any nesting. An expression selecting a missing field, subscripting a non-vector, merging incompatible branches or adding, subtracting or multiplying operands of different kinds has no type, and the error returned is a sub-expression that itself has no type; typing one expression never depends on another.",
 ["inputs","programs"],"every expression over every set of declared entities",
 "Tests only type generated well-typed expressions; ill-typed ones and the blamed expression are never observed.",
 ["src/expr.rs","src/expr/primitive.rs","src/stmt/entity.rs"],
 [("Typed for Expression","src/expr.rs"),("Typed for Arc<Entity>","src/stmt/entity.rs")],obs=["Expression::r#type"])
p("C13","The data flow of an expression follows its root and its flips",
 "Input ports, nodes, memories, instances, read ports, literals and operator results are sources, output ports and write ports sinks, wires, registers and read-write ports both; each flipped field on an access path exchanges source and sink and leaves duplex alone, while vector subscripts change nothing. An access path naming a missing field, or starting at a memory port of undetermined direction, has no flow and is reported; is_source and is_sink agree with this.",
 ["inputs","programs"],"every access path over every entity kind and type",
 "Tests use flow only to steer generators and never compare it.",
 ["src/expr.rs","src/stmt/entity.rs","src/module.rs","src/memory/simple.rs","src/memory/mem.rs"],
 [("Expression::flow, Flow + Orientation","src/expr.rs"),("Reference::flow impls","src/stmt/entity.rs")],obs=["Expression::flow","Flow::is_source","Flow::is_sink"])
p("C14","Memories, memory ports and instances expose the interface FIRRTL defines",
 "A memory's type is a bundle with one flipped field per port in declaration order, whose fields (data/mask/addr/en/clk or wmode/rdata/wdata/wmask/addr/en/clk), orientations and types are FIRRTL's; the mask mirrors the data type with single-bit leaves, and the address width is the smallest addressing every element. An instance exposes one field per module port in order, flipped exactly for inputs, and a simple memory's port has the memory's element type.",
 ["inputs","programs"],"every data type, depth up to 2^64-1, port list and module interface",
 "Tests only check that the same code yields the same type twice or print memories; no expected interface is written down.",
 ["src/memory/mem.rs","src/memory/simple.rs","src/module.rs","src/types.rs"],
 [("Typed for mem::Memory","src/memory/mem.rs"),("required_address_width","src/types.rs"),("Typed for Instance","src/module.rs")],obs=["Memory::r#type","Instance::r#type","simple::Port::r#type","required_address_width"])
p("C15","Any text survives infos, string parameters and printf messages",
 "Every string - with quotes, brackets, backslashes, percent signs, newlines, tabs or non-ASCII characters at any place - written as an info, a string parameter or a printf message text survives printing and parsing unchanged. When parsing, \\n and \\t denote newline and tab, a backslash makes any other character literal, %% a percent sign, and an unescaped delimiter, newline or tab ends or invalidates the text.",
 ["inputs"],"every string over the full character set, in each of the three contexts and both quote styles",
 "Tests sample short random ASCII strings; sequences of special characters (e.g. backslash before delimiter, % before letter) are rare and meanings of escapes are not fixed.",
 ["src/parsers.rs","src/info.rs","src/module.rs","src/stmt/parsers.rs","src/stmt/display.rs"],
 [("unquoted_string","src/parsers.rs"),("fmt_string_part","src/stmt/parsers.rs"),("escaping in Display","src/info.rs, src/module.rs, src/stmt/display.rs")],obs=["WithInfo::info","ParamValue","PrintElement"])
p("C16","Numbers keep their value in every notation and never wrap",
 "Integer literals denote exactly the written value in decimal, binary, octal and hexadecimal notation with sign and of any size, with the written width or, if omitted, the smallest width holding the value (two's complement for SInt). Widths, vector sizes, subscripts, shift amounts, latencies, depths, exit codes and parameters keep their written value over their full range; a number outside the range, a digit outside the radix or a negative unsigned value is an error, and nothing is truncated or wrapped.",
 ["inputs"],"every numeral in every position and notation, at and beyond the range limits",
 "Tests only re-parse printer output, i.e. decimal numbers with explicit widths within u128.",
 ["src/expr/parsers.rs","src/parsers.rs","src/module/parsers.rs","src/types/parsers.rs","src/memory/parsers.rs"],
 [("num_lit, decimal, float","src/expr/parsers.rs, src/parsers.rs")],obs=["UIntLiteral","SIntLiteral","ParamValue","circuit::parse"])
p("C17","Parsing is total and deterministic: a result or an error for any input",
 "For every input text, byte stream and module-table state, parsing terminates and returns either a value or an error; it never panics, overflows or loops, and iterating modules ends after finitely many steps. The same input always yields the same outcome.",
 ["inputs"],"every string (arbitrary characters, truncations, token soups, huge numbers)",
 "Tests feed well-formed text only.",
 ["src/expr/parsers.rs","src/parsers.rs","src/stmt/parsers.rs","src/module/parsers.rs","src/memory/parsers.rs","src/circuit/parsers.rs","src/error.rs"],
 [("nom combinators, map_res/map_opt","src/**/parsers.rs")],obs=["circuit::parse","Modules::next"])
p("C18","Traversals visit every declaration, instance, sub-expression and reference",
 "The declarations of a statement are exactly the entities it declares itself or in any nested branch, its instantiations exactly the instances among them, and a module's referenced modules one entry per instance in its body. The references of an expression are exactly its reference leaves, each as often as it occurs, and an operation's sub-expressions are exactly its operands in order.",
 ["programs"],"every nesting of conditionals and every expression tree",
 "Tests use the traversals as helpers inside generators, never as the subject.",
 ["src/stmt.rs","src/expr.rs","src/expr/primitive.rs","src/module.rs"],
 [("AutoTransIter impls","src/stmt.rs, src/expr.rs"),("sub_exprs","src/expr/primitive.rs"),("referenced_modules","src/module.rs")],obs=["Statement::declarations","Statement::instantiations","Module::referenced_modules","Expression::references","Operation::sub_exprs"])
p("C19","Builders and setters change exactly the part they name",
 "Starting from any value, each constructor, with-method, setter and adder of memories, registers, ports, modules, bundle fields, infos and circuits sets exactly the part it names to the given value, leaves every other observable part as it was, and accessors return what was last set. New values start with the documented defaults, and added ports keep their order.",
 ["histories"],"every sequence of builder calls on every kind of value",
 "Tests call builders in one fixed order and never read back the untouched parts.",
 ["src/memory/mem.rs","src/memory/register.rs","src/memory/simple.rs","src/module.rs","src/info.rs","src/types/type.rs","src/circuit.rs"],
 [("with_* builders","src/memory/*.rs, src/types/type.rs"),("WithInfo","src/info.rs")],obs=["accessors of Memory, Register, Port, Module, BundleField, Circuit"])
p("C20","Error positions refer to the original text",
 "The line numbers in a parse error count from the start of the text the caller named as origin: putting k extra blank or comment lines before the circuit moves every reported line by exactly k and changes nothing else (unless the text is empty and has no line at all). For a body line that is no statement, the innermost reported line is that line (or one its quoted text or info goes on in) or the block it makes invalid, never a line after it.",
 ["inputs"],"every malformed text, every offset of the parsed part within its origin",
 "No test looks at an error.",
 ["src/error.rs","src/circuit/parsers.rs","src/module/parsers.rs"],
 [("convert_error with origin","src/error.rs, src/module/parsers.rs")],obs=["ParseError Display"])
p("C21","Every part prints on its own as FIRRTL text denoting exactly that part",
 "Not only whole circuits print: the text of any type, ground type, bundle field, expression, operation, port, register, instance, memory, memory port, parameter value, direction or read-under-write behaviour, taken alone, is FIRRTL for exactly that part - with every width, point, flip, operand, static argument, reset, direction and info at its place - and nothing else, whatever its nesting; keyword accessors yield the keyword printed. Different parts of a kind thus print differently.",
 ["inputs","programs"],"every value of every printable type",
 "Tests print parts only after parsing random ones with the same code, never judge the text itself, and do not touch keywords, operations, directions or memory ports alone.",
 ["src/types/type.rs","src/types/ground.rs","src/types/display.rs","src/expr.rs","src/expr/primitive.rs","src/module.rs","src/memory/simple.rs","src/memory/register.rs","src/memory/mem.rs","src/memory/common.rs"],
 [("Display impls, keyword()","src/**/*.rs")],obs=["Display of Type, Expression, Operation, Port, Register, Instance, Memory, ParamValue, Direction"])
p("C22","Values are equal exactly if they describe the same hardware part",
 "Two types, fields, expressions, declarations, statements, parameters, modules or circuits, built independently, compare equal exactly if they agree in every part: names, types, widths, directions, operands, infos, nested statements and the referenced declarations and instantiated modules, compared by what they are and not by identity. Equality is symmetric, copies equal their originals, and != is its opposite; a type equals a ground type exactly if it is that ground type.",
 ["inputs","programs"],"every pair of values of every comparable type",
 "Tests use equality to compare printed and re-parsed values, so that they cannot notice an equality that is too coarse, and never compare values meant to differ.",
 ["src/types/type.rs","src/types/oriented.rs","src/types/ground.rs","src/expr.rs","src/expr/primitive.rs","src/stmt.rs","src/stmt/entity.rs","src/module.rs","src/circuit.rs","src/memory/mem.rs","src/memory/simple.rs","src/memory/register.rs"],
 [("PartialEq impls, PartialEq<GroundType> for Type","src/**/*.rs")],obs=["== and != of the AST's types"])
p("C23","Printing stops at the first refusal of its target and reports it",
 "Printing a circuit, any of its parts or an error into a target which refuses a write at any point fails exactly if a write was refused; until then the target received a prefix of the text printed otherwise, and nothing is written behind the refusal, even if the target would take more. A failed print leaves no trace: printing the value again yields the full text.",
 ["inputs","fault_sequences"],"every printable value and every point at which its target refuses, once or for good",
 "Tests print into strings only, which never refuse.",
 ["src/circuit.rs","src/module.rs","src/stmt/display.rs","src/stmt.rs","src/expr.rs","src/expr/primitive.rs","src/types/display.rs","src/types/type.rs","src/info.rs","src/indentation.rs","src/memory/mem.rs","src/memory/register.rs","src/memory/simple.rs"],
 [("Display impls handing on fmt::Error","src/**/*.rs")],obs=["Display of Circuit, Type, Expression, Port, Register, Instance, ParamValue, ParseError"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
