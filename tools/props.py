"""Texts of the properties: one source for properties.jsonl and MANIFEST.json.
Run tools/genmeta.py after a change."""
S = "simulator/"
P = {}


def p(pid, title, statement, over, text, why, files, mech, level, note, technique="abstract interpretation of LLVM IR: value-flow summaries compared with a reference table", observe=None):
    P[pid] = dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level=level, note=note, technique=technique, observe=observe)


T = ("Summaries computed on unoptimised-then-normalised LLVM IR of the current tree; real arithmetic is kept as "
     "uninterpreted IEEE operations in source order, so rounding inside libm is trusted. ")

p("R01", "Arithmetic gives one defined result whatever the operand form",
  "For every pair of operands the operators +, -, *, /, integer division, power and unary minus yield the ALGOL result: "
  "integer when both operands are integers (division always real, integer division rejects real operands, power per the "
  "ALGOL 60 definition), real otherwise. The result and its type do not depend on whether the second operand is taken "
  "from the stack, a static cell, a block-local cell, or whether an operand is a value or a variable's address. Exactly the "
  "operands are consumed, one result is left and nothing else changes.",
  ["inputs", "programs"], "every operand value, type combination and operand location",
  "The tests evaluate a few dozen fixed expressions; each operator exists in up to five copies for the operand forms, times the type pairs.",
  [S + "opcodes.cpp", S + "processor.cpp", S + "x1_arch.cpp"],
  [("arithmetic on stack tops", S + "processor.cpp"), ("operand-form copies", S + "opcodes.cpp")], "other",
  T + "Every arithmetic operation, every type pair; the final numeric value of libm power is trusted.")

p("R02", "Integer results beyond the machine range are reported, never wrapped",
  "Whenever the result of an integer operation, of a conversion from real to integer, of entier or of an integer power lies outside the range of the X1 integer (26 bits and a sign), execution stops with an error; "
  "it never continues with a wrapped, truncated or saturated number. Results inside the range, up to both ends, are exact and are not rejected.",
  ["inputs", "programs"], "every integer operation and every pair of operands, including those at the ends of the range",
  "Wrapping needs operands near the end of the range in one of many copies of an operation; tests use small numbers.",
  [S + "processor.cpp", S + "opcodes.cpp", S + "x1_arch.cpp"],
  [("integer arithmetic with range check", S + "processor.cpp"), ("number conversions", S + "x1_arch.cpp")], "other",
  T + "The exact range guard of every integer result is compared, not sampled.")

p("R03", "Real results are machine numbers or an error, never infinity or garbage",
  "Every real number an operation or function leaves on the stack or in memory is the X1 representation (40-bit fraction, 11-bit exponent) of the computed value, and converting it back yields the value it represents; "
  "results too large for the format, infinities and not-a-number are reported as errors and are never stored. Results too small for the format become zero.",
  ["inputs", "programs"], "every real result, including those at the ends of the exponent range",
  "The ends of the exponent range are not reached by ordinary programs.",
  [S + "x1_arch.cpp", S + "processor.cpp", S + "opcodes.cpp"],
  [("conversion between host and X1 reals", S + "x1_arch.cpp")], "other",
  T + "Bit layout compared symbolically and at the boundary points of exponent and fraction.")

p("R04", "Mathematically undefined operations stop the program with an error",
  "Division by zero, integer division of reals or by zero, a zero or negative base with an exponent for which the power is undefined, the square root of a negative number, the logarithm of a number that is not positive and overflowing exponentials "
  "are reported as errors for every way of writing the operation. No such case yields a value, and no defined case, however close to the boundary, is rejected.",
  ["inputs", "programs"], "every operand of every operator and function",
  "The error cases of each operand form are separate code; tests contain few of them.",
  [S + "processor.cpp", S + "opcodes.cpp"], [("operators and standard functions", S + "opcodes.cpp")], "other",
  T + "The exact condition of every error is compared with the reference table.")

p("R05", "Relations and Boolean operations follow ALGOL truth tables",
  "For all operands the six relations compare the mathematical values of two numbers of any type mix and the operations "
  "not, and, or, implies, equivalent follow their truth tables on both truth values; equality also serves Boolean operands. "
  "Each leaves exactly one truth value and consumes exactly its operands; the conditional test sets the condition from the truth value.",
  ["inputs", "programs"], "every pair of operand values and types",
  "Tests use a handful of comparisons, most with equal types and small values.",
  [S + "opcodes.cpp", S + "processor.cpp"], [("relation operations", S + "opcodes.cpp"), ("comparison of stack tops", S + "processor.cpp")], "other",
  T + "All relation and boolean operations, all type pairs.")

p("R06", "Values and addresses are fetched and assigned with correct conversion",
  "Fetching a variable yields the value last stored in it with its declared type; taking its address yields that variable. "
  "Assigning to an integer variable rounds a real value to the nearest integer with range check, assigning to a real variable "
  "converts an integer exactly, and multiple assignment stores the same value to every variable on the left. "
  "Nothing but the destination changes and the operands are consumed.",
  ["inputs", "programs"], "every value, destination kind and type combination",
  "Tests assign small values to few destination kinds.",
  [S + "opcodes.cpp", S + "processor.cpp", S + "x1_arch.cpp"], [("assignment operations", S + "opcodes.cpp"), ("store with conversion", S + "processor.cpp")], "other",
  T + "All fetch and store operations, every type pair and location kind.")

p("R07", "Standard functions return the documented value, type and domain errors",
  "abs, sign, sqrt, sin, cos, arctan, ln, exp and entier accept integer and real arguments, return the mathematical function of the argument "
  "with the documented result type (sign and entier integer, entier the largest integer not above the argument), and report an error for "
  "arguments outside the domain or results out of range. Exactly one operand is replaced by one result.",
  ["inputs", "programs"], "every integer or real argument",
  "Tests call each function at one or two points.",
  [S + "opcodes.cpp", S + "x1_arch.cpp"], [("standard function operations", S + "opcodes.cpp")], "other",
  T + "libm routines are trusted to compute the function they are named after.")

p("R08", "Procedure calls save and restore the whole execution context",
  "Entering a procedure records return address, caller's frame and block level, reserves the result cell for function procedures, and links the parameters "
  "supplied; leaving it restores the caller's frame, display, level and return address exactly and leaves the function result, if any, "
  "on the stack of the caller with everything else of the callee removed. Implicit calls for parameter evaluation are suspended and resumed without disturbing their caller.",
  ["programs", "histories"], "every call nesting, parameter count, and call context",
  "Tests reach a small set of nestings and parameter counts.",
  [S + "opcodes.cpp", S + "processor.cpp"], [("call and return operations", S + "opcodes.cpp"), ("frame creation and release", S + "processor.cpp")], "other",
  T + "All call, entry and return operations over symbolic frames; display re-establishment is checked up to the modelled number of levels.")

p("R09", "Formal parameters are evaluated in their actual's context every time",
  "A formal parameter used as value, address, string or in an operator yields the value or address of the actual parameter evaluated in the environment of the call, "
  "each time it is used; constants and variables, subscripted variables, expressions and formal parameters passed on behave alike. Assigning through a parameter "
  "that is not a variable is an error.",
  ["programs", "histories"], "every kind of actual parameter and every use in the procedure body",
  "The number of actual kinds times uses times nestings exceeds the examples.",
  [S + "opcodes.cpp", S + "processor.cpp"], [("formal parameter operations", S + "opcodes.cpp"), ("parameter resolution", S + "processor.cpp")], "other",
  T + "Descriptor decoding and each hand-over are summarised per descriptor kind.")

p("R10", "Blocks and non-local jumps leave exactly the destination's context",
  "Entering a block records the dynamic context and sets its level; leaving it by its end or by a jump to a label, however many blocks and calls are abandoned, makes the "
  "destination's block the current one with its display and stack level and continues at the label. A jump to a block that is no longer active is an error.",
  ["programs", "histories"], "every nesting of blocks, procedures and jumps",
  "Tests contain few jumps out of procedures and of nested blocks.",
  [S + "opcodes.cpp", S + "processor.cpp"], [("block entry, goto and roll-back", S + "processor.cpp")], "other",
  T + "Transfer functions of block entry, jump and roll-back; the unbounded roll-back walk is checked per step.")

p("R11", "For statements visit the defined sequence of values",
  "For elements of the value, while and step-until kinds assign the controlled variable and test for exhaustion in the ALGOL 60 order: step-until compares (value - limit) * sign(step) > 0 "
  "with step and limit re-evaluated each time, for positive, negative and zero, integer and real steps. When the list is exhausted, control continues after the loop body with the stack as before the statement.",
  ["inputs", "programs"], "every for list, step and limit value and type",
  "Tests use few ascending loops with integer steps.",
  [S + "opcodes.cpp", S + "processor.cpp"], [("for-statement operations", S + "opcodes.cpp")], "other",
  T + "Every for operation for every type combination of controlled variable, step and limit.")

p("R12", "Array elements map to distinct cells and subscripts are bounds-checked",
  "For every declared array, every subscript list within the bounds addresses its own cell or cell pair inside the array's storage, and a subscript outside the bounds is an error, never an access elsewhere. "
  "Array declaration, own arrays and arrays passed by value build storage and description for exactly the declared bounds; a by-value array is a converted copy.",
  ["inputs", "programs"], "every number of dimensions, bounds, subscripts and element type",
  "Tests index small arrays inside the bounds.",
  [S + "opcodes.cpp", S + "processor.cpp"], [("array storage functions and indexing", S + "opcodes.cpp")], "other",
  T + "Loops over dimensions and elements are summarised; storage-function invariants are stated in the reference table.")

p("R13", "The evaluation stack stays balanced and inside its limits",
  "Every operation consumes exactly the cells it takes as operands and leaves exactly its results, in every combination of operand types and contexts. "
  "An operation that would take a cell from an empty stack, or push beyond the stack's size limit, stops the program with an error and never reads or writes another object.",
  ["programs", "histories"], "every operation in every stack state",
  "Imbalance of one path of one operation shows only later and only in programs that take this path.",
  [S + "virtual_stack.h", S + "virtual_stack.cpp", S + "opcodes.cpp", S + "processor.cpp"],
  [("stack access", S + "virtual_stack.h"), ("operations", S + "opcodes.cpp")], "other",
  T + "All operations and all stack primitives; the depth of the stack is symbolic.")

p("R14", "Memory and stack words keep what was stored in them",
  "A memory word read back yields the last value stored at that address, truncated to the 27 bits of a machine word, and storing changes no other word; fetching an instruction and loading data see the same word. "
  "The evaluation stack delivers cells in last-in first-out order with value and kind intact. Access outside the machine's 32768 words, or to a stack cell that does not exist, never reaches other storage.",
  ["programs", "histories"], "every address, value and order of accesses",
  "Unit tests touch few addresses and small values.",
  [S + "machine.cpp", S + "virtual_stack.cpp"],
  [("memory access", S + "machine.cpp"), ("stack cells", S + "virtual_stack.h")], "other",
  T + "Each accessor is compared with the word-addressed reference store for symbolic address and value.")

p("R15", "Every instruction word is executed as its machine instruction or rejected",
  "For each of the 4096 function and modifier codes the interpreter performs the register, memory, sign and address effects that the X1 instruction set defines for it, then continues with the next instruction or the jump target; "
  "address modification and the condition follow the definition. A word whose instruction is not supported stops the program with an error that names it; no word is silently ignored. Execution continues until the program stops.",
  ["programs", "histories"], "every instruction word and register state",
  "Programs in the test suite contain a few dozen distinct instructions.",
  [S + "processor.cpp", S + "machine.cpp"], [("instruction interpreter", S + "processor.cpp"), ("run loop", S + "machine.cpp")], "other",
  T + "All 4096 code combinations are enumerated and each is compared with a reference machine for a symbolic address and register state.")

p("R16", "Characters, random numbers and the clock pass exactly through their cells",
  "Storing to the output cell prints that character exactly once, reading the input cell takes exactly one character of the input, the seed cells restart the random sequence as a function of the two words stored alone, "
  "and the random and time cells deliver the two halves of one real number: one fresh draw between 0 and 1, or the seconds since midnight. Ordinary cells have no side effect.",
  ["programs", "histories"], "every order of accesses to the peripheral cells",
  "The results depend on the clock, on the generator and on accesses in between; tests look at single values.",
  [S + "machine.cpp", S + "input.cpp", S + "encoding.cpp"], [("peripheral cells", S + "machine.cpp")], "other",
  T + "Pairs of accesses are composed symbolically; the generator and the clock of the C++ library are opaque.")

p("R17", "Print routines show the number given in the requested layout",
  "print writes integers in plain decimal and reals to 13 significant digits; the fixed and floating layouts print the value rounded to the requested number of digits with sign, point and exponent as specified, leading zeros as spaces, and "
  "fall back to the floating layout of 13 digits when the number does not fit or the layout is out of limits. Symbols print as their code defines; spaces, tabs and new lines as many as requested; all operands are consumed.",
  ["inputs", "programs"], "every value, layout parameter and operand type",
  "Tests print few numbers in few layouts.",
  [S + "opcodes.cpp", S + "machine.cpp", S + "x1_arch.cpp", S + "encoding.cpp"],
  [("print operations", S + "opcodes.cpp"), ("number layouts", S + "machine.cpp"), ("symbol codes", S + "encoding.cpp")], "other",
  T + "Every pair of digit counts within and around the limits is enumerated with a symbolic number; decimal formatting by snprintf and libm are trusted.")

p("R18", "Input routines deliver the next item of the input and report bad input",
  "read delivers the next number of the input, with the exponent mark in either spelling, taking the symbol that ends it; reading past the end or a malformed number is an error, never a value. "
  "Symbol input delivers the symbols in order by their code, without loss or repetition, rejects unknown ones, and reports the end of input by a code of its own. "
  "The console switches are read once as a binary number, selected by the mask, and read again after a stop.",
  ["inputs", "histories"], "every input text and every sequence of input calls",
  "Tests read few short inputs.",
  [S + "opcodes.cpp", S + "input.cpp"], [("number, symbol and switch input", S + "input.cpp"), ("read and console operations", S + "opcodes.cpp")], "other",
  T + "The byte decoder is summarised and checked over all byte sequences; number scanning by the C++ library is trusted.")

LINT = "whole-program call and data-flow rules over LLVM IR, with value-flow summaries compared with a reference table"

p("R19", "Tracing never changes what the simulated program does",
  "Switching the trace on changes nothing but the trace text: the results, the printed output, the input consumed, the memory, the stack and the exit status are the same with and without it, whether the trace goes to the terminal or to a file. "
  "What a trace routine remembers between calls is used by tracing only, and tracing never ends a program.",
  ["programs", "histories"], "every program, every operation, both settings of the trace options",
  "Tests would have to run every program twice and compare every cell.",
  [S + "trace.cpp", S + "machine.cpp", S + "processor.cpp", S + "machine.h"],
  [("trace routines", S + "trace.cpp"), ("trace flag", S + "machine.h")], "other",
  T + "Every branch on the trace flag and every routine it guards is analysed; writing to the trace stream itself is the allowed effect.", LINT)

p("R20", "Every failure ends with a message on the error channel and a failure status",
  "A wrong command line, a missing or unreadable file, a failed compilation and every run-time error of the simulated program print one message on the error channel and end the simulator with a failure status; a program that runs to its end gives success. "
  "No error is swallowed on the way and no error ends the simulator abnormally.",
  ["inputs", "programs"], "every command line, every outcome of the files and processes involved, every run-time error",
  "Each error is raised at its own place; tests cover few of the places.",
  [S + "main.cpp", S + "machine.cpp", S + "trace.cpp", S + "input.cpp"],
  [("command line and outermost handler", S + "main.cpp"), ("compiling and running", S + "machine.cpp")], "other",
  T + "Command lines are enumerated with symbolic names and every outcome of the system calls.", LINT)

p("R21", "Compile-and-run executes exactly what the compiler produced",
  "Given source files the simulator runs the compiler on exactly the program and library the user named, and loads and runs the object program only when the compiler ended normally with success; a compiler that cannot be started, fails or is killed ends the run with a failure. "
  "Object programs named directly are loaded without compiling.",
  ["inputs", "fault_sequences"], "every list of files and every outcome of starting, running and ending the compiler",
  "Failures of fork, exec and signals are not produced by tests.",
  [S + "machine.cpp"], [("compile and run", S + "machine.cpp")], "other",
  T + "fork, exec, wait and file calls are modelled with every outcome.")

p("R22", "The object loader stores exactly what the file says and rejects bad files",
  "Every word of an object program is stored at the address and with the value the file gives, entry points and symbols are recorded as written, and the run starts at the entry point. "
  "A file that cannot be opened, a malformed line, or a file without an entry point is an error and nothing is run.",
  ["inputs"], "every object file",
  "Tests load only files the compiler wrote.",
  [S + "machine.cpp"], [("object loader", S + "machine.cpp")], "other",
  T + "Files of up to two lines are analysed with symbolic text; longer files repeat the same loop body.")

p("R23", "Runs are reproducible: same program and input give the same output",
  "Apart from the clock, which only the time cell reads for the program, nothing the program can see depends on the host, the time, addresses or uninitialised data: a new machine has one fixed initial state, and the random sequence starts from a fixed seed and follows the seeds the program sets.",
  ["programs", "histories"], "every program, every run",
  "Tests run once in one environment.",
  [S + "machine.cpp", S + "machine.h", S + "processor.h", S + "processor.cpp"],
  [("initial state", S + "machine.h"), ("random and time cells", S + "machine.cpp")], "other",
  T + "Every call of the simulator is classified; the initial value of every field is computed.", LINT)

p("R24", "The command line does what the usage text says and touches no other files",
  "Each option has its documented effect whatever the order and combination; the library is the one named, else the documented default locations in their order; the simulator writes only the trace file asked for and the object program of the compiler, "
  "and starts no program but the compiler. Help and version are printed without running anything.",
  ["inputs", "configurations"], "every combination of options and files",
  "Combinations of options and missing files are not tested.",
  [S + "main.cpp", S + "machine.cpp", S + "trace.cpp"], [("option handling", S + "main.cpp"), ("library search and compiler call", S + "machine.cpp")], "other",
  T + "Command lines are enumerated with symbolic names; every call with an outside effect is classified.", LINT)

p("R25", "Running a program never triggers undefined behaviour in the simulator",
  "Whatever program and input the simulator runs, no operation overflows a host integer, divides by zero, shifts by an invalid amount, indexes outside a table or converts a non-finite or out-of-range real; "
  "such a case is a reported error of the Algol program instead.",
  ["inputs", "programs", "histories"], "every reachable operation with every operand",
  "Sanitizers and tests see only the operands they run.",
  [S + "opcodes.cpp", S + "processor.cpp", S + "x1_arch.cpp", S + "virtual_stack.cpp"],
  [("range checks before arithmetic and indexing", S + "processor.cpp")], "other",
  T + "Every arithmetic, shift, division and index site reached in the analysed operations carries a proof obligation; listed sites rely on stated storage invariants.")

C = "compiler/x1algc.c"
CT = ("Summaries of the compiler's functions on the LLVM IR of the current tree, loops unrolled to the stated bound, evaluated against a reference description for every enumerated situation; "
      "longer inputs repeat the same loop bodies. ")

p("C01", "The compiler reports success exactly for a complete translation",
  "The compiler ends with success only when the whole program was translated without an error and the complete object program was written out. "
  "Every error of the program, missing or unreadable source or library and failed write, ends it with a failure status and a message, wherever it is detected, and its options do what the documentation says.",
  ["inputs", "programs", "fault_sequences"], "every place where the compiler ends, every failing call of the operating system, every command line",
  "There are dozens of error exits and every write can fail; tests take a few of them.",
  [C], [("main program and its ends", C), ("error stop", C)], "other", CT + "All calls with an outside effect are modelled with every outcome.")

p("C02", "A program too large for the compiler is rejected, never mistranslated",
  "The lists the compiler keeps (names, pending translation, future references, constants, generated code, stored text, loaded library lists) never run into one another: an entry made is found unchanged until it is removed, whatever is entered after it. "
  "A program for which a list, or the range of variable addresses, does not suffice is rejected with an error, and not while ample space remains.",
  ["inputs", "programs", "histories"], "every list at every filling and every distance to its neighbours",
  "Overlap needs programs that fill a list to its last place; tests are small.",
  [C], [("lists in the compiler's store", C), ("allocation of variables", C)], "other",
  CT + "Every list operation is followed from stores with every filling near a limit; all entries of all lists are compared afterwards.")

p("C03", "Every construct is translated correctly in whatever context it stands",
  "Expressions, statements, declarations, switches, subscripts, strings and actual parameters are translated to the code prescribed for them whatever surrounds them: operators by priority, conditionals and loops with their jumps, parameters by their own kind only, procedures with their value and name parameters, arrays with the bounds given. "
  "Each symbol leaves the translator in the state the enclosing construct requires; what a construct opens is closed in order, and block numbers, addresses and names are those of the enclosing block.",
  ["inputs", "programs", "histories"], "every delimiter in every state of translation, short sequences of them for declarations",
  "The translation of a delimiter depends on a dozen flags and on what is still open; tests contain the common nestings only.",
  [C], [("main scan", C), ("production of object code", C), ("allocation of arrays and parameters", C)], "other",
  CT + "Each delimiter is followed from its recognition to the next and compared with a table of the translation in generated states; sequences for declarations are those listed.")

p("C04", "The compiler sees exactly the characters of the source text",
  "Every character of the source, one or more bytes long, in any line and column, is delivered to the translator once, in order, as the symbol the character table gives: letters, digits, signs, the mathematical signs written as Unicode characters, and underlining or barring by a combining mark or prefix. "
  "Every line end is delivered as one newline whatever its position, and the end of the text, also within a construct, is reported as an error of the program and not read over.",
  ["inputs", "programs"], "every character at every place of a line, every way a line or the file can end",
  "Tests contain the common characters at common places only.",
  [C], [("reading of characters and lines", C)], "other", CT + "All characters of the table, all one-byte codes, lines up to the unrolling bound.")

p("C05", "Basic symbols are recognised exactly as the ALGOL 60 representation says",
  "Single symbols, compound symbols (assignment, not-equal, at-most, at-least, implication, string quotes) and underlined words are recognised for every following symbol: an underlined symbol that begins no basic symbol, a word broken off before it is determined and a bar before a wrong symbol are errors. "
  "Comments are skipped up to their closing semicolon; spaces and newlines are skipped outside strings and kept within them; no symbol read ahead is lost or delivered twice.",
  ["inputs", "programs"], "every basic symbol followed by every other symbol, inside and outside strings",
  "The recogniser reads ahead and keeps symbols in stock; the combinations are thousands, tests have dozens.",
  [C], [("recognition of basic symbols", C)], "other", CT + "Every symbol pair and every word with every following symbol.")

p("C06", "Identifiers denote what was declared: full significance, latest declaration",
  "Two identifiers are the same exactly when their significant letters and digits are the same, whatever spaces they are written with; every predefined identifier denotes its documented procedure. "
  "An identifier denotes the latest declaration still in force of exactly that name, and using an undeclared identifier is an error, never the silent use of another name.",
  ["inputs", "programs"], "every identifier, every contents of the list of names",
  "Confusion of two identifiers depends on their particular letters, positions and lengths.",
  [C], [("packing of identifiers", C), ("search of the list of names", C)], "other", CT + "All symbols at all positions of identifiers within the bound; lists of names built from all relevant shapes.")

p("C07", "The object code that is loaded is the code that was generated",
  "The prefix code used for the generated program and the library is decoded to exactly the instructions and addresses it was made from, wherever word boundaries fall, and every instruction is relocated as its class prescribes. "
  "Codes with no meaning and wrong parity on the library tape are reported as errors and never loaded.",
  ["inputs", "programs"], "every operation, instruction class and address, every alignment of the bit stream",
  "An encoding mistake shows only for particular addresses at particular bit positions.",
  [C], [("generation of the bit stream", C), ("loader of the bit stream", C)], "other",
  CT + "All operations, all instruction classes, all 32768 addresses decoded, all 28 alignments.")

p("C08", "The standard procedures delivered are the ones in the library sources",
  "The procedures kept in the compiler and those on the delivered library tape contain, instruction by instruction, what the library source files specify, and the list telling which procedure needs which others, and how long each is, agrees with them.",
  ["programs", "configurations"], "every library procedure, every word of it",
  "Tests call few of the procedures and few of their paths; a wrong word in a table shows only on that path.",
  [C, "library/x1algol.lib"], [("tables of the stored procedures", C), ("library tape", "library/x1algol.lib")], "other",
  CT + "Tables are decoded by a decoder written from the format description and compared with the assembled sources.")

p("C09", "A program is loaded with every library procedure it needs, each once",
  "Every library procedure that the program calls, or that another needed library procedure calls, is loaded exactly once, at the address its calls use, and no other; the parts of the loaded program lie next to one another without overlap, and its constants and forward references get their final addresses. "
  "A needed procedure found neither in the compiler nor on a given library tape, a damaged tape, or a store too small ends the compiler with an error.",
  ["inputs", "programs", "configurations"], "every set of used procedures, every distribution of the library over store and tapes",
  "Tests use few library procedures; needs of needs, skipped procedures and split libraries occur in particular combinations only.",
  [C], [("program loader", C), ("reading of library tapes", C)], "other",
  CT + "The loader is followed for every combination of needs, stored procedures, tapes and sizes listed, reading of bit strings replaced by its rule (C07).")

p("C10", "Constants in the source have their ALGOL value",
  "Every unsigned integer constant within the machine range is translated to that integer; a constant with a decimal point, an exponent or beyond the integer range is translated to the machine real nearest within the compiler's working precision; too large constants are errors and too small ones zero. "
  "Logical values are translated to their codes, a missing operand is an error, and equal constants share a place without ever changing another constant.",
  ["inputs", "programs"], "every form of constant: digits, fraction, exponent, its sign and their lengths",
  "Rounding, carry and range faults appear only for particular digit sequences.",
  [C], [("conversion of constants", C), ("list of constants", C)], "other",
  CT + "The arithmetic is evaluated exactly for families of constants at all scales and at the ends of the ranges.")

NA = [
    ("N01", "The translation of a whole program preserves its meaning",
     "For every valid ALGOL 60 program the compiled code computes what the language definition prescribes.",
     ["programs"], "Full semantic correctness of the compiler relates the runs of two programs over unbounded inputs; no sound static argument over the compiler's hand-translated, table-driven source reaches it. Clauses visible in the code are claimed separately."),
    ("N02", "Numeric results are accurate to the last digit of the machine format",
     "Standard functions and decimal conversion deliver the value nearest to the mathematical result.",
     ["inputs"], "Accuracy quantifies over values computed inside libm and the decimal conversion of the C library, which are not in the source."),
    ("N03", "Every accepted program terminates the way the machine would have",
     "A program that terminates on the X1 terminates in the simulator with the same output.",
     ["programs"], "Termination of arbitrary Algol programs and equivalence with hardware that is not in the repository cannot be decided from this source."),
]
