"""Properties and the rules deciding them."""
from rules_ops import ops_rule, safety_rule
from rules_prim import prim_rule
import rules_print, rules_chars, rules_host
import rules_lint as lint
from rules_comp import comp_rule
import rules_code, rules_lib, rules_names, rules_list, rules_ends, rules_load, rules_scan

PROPS, LEVEL, ASSUME = {}, {}, {}


def prop(pid, *rules, level=None, assume=()):
    PROPS[pid] = list(rules)
    if level:
        LEVEL[pid] = level
    ASSUME[pid] = list(assume)


CONV = prim_rule("number conversions equal the reference", "intconv", "r2x", "x2r", "f2i")
POWER = prim_rule("powers equal the reference", "power")
WORDS = prim_rule("memory and stack words equal the reference", "memory", "words", "stack")
FRAMES = prim_rule("display and frames equal the reference", "display", "stack")
STEP = prim_rule("machine instructions equal the reference table", "step", "run")
CELLS = prim_rule("peripheral cells behave as the reference", "cells", "memory")
ARGS = prim_rule("parameter access equals the reference", "args", "apply", "takeformal")
BACK = prim_rule("removal of frames equals the reference", "rollback")
CHARS = prim_rule("symbols are printed and read by the code table", "chars")
NUMBERS = prim_rule("number and switch input equals the reference", "numbers")
LOADER = prim_rule("loading an object program equals the reference", "loader")
TRACEFILE = prim_rule("the trace file is opened or its failure reported", "tracefile")
COMPILE = prim_rule("compiling and running equals the reference", "compile")
MAIN = prim_rule("the command line equals the reference", "main")
LIBRARY = prim_rule("the library is searched as documented", "library")
ASSIGN = ops_rule("assignments equal the reference table", "assign")

prop("R01", ops_rule("arithmetic operations equal the reference table", "arith", "power"), CONV, POWER, WORDS)
prop("R02", ops_rule("integer results of arithmetic equal the reference or overflow with an error", "arith", "for", "power", "abs", "entier", "sign"),
     ops_rule("conversion on assignment is range-checked", "assign"), CONV, POWER)
prop("R03", ops_rule("real results of arithmetic are machine reals or errors", "arith", "function", "for"),
     ops_rule("conversion on assignment", "assign"), CONV, POWER, WORDS, NUMBERS)
prop("R04", ops_rule("undefined cases of operators and functions are errors", "arith", "function", "relation", "IND", "SCC"),
     CONV, POWER)
prop("R05", ops_rule("relations and boolean operations equal the reference table", "relation"), CONV, WORDS)
prop("R06", ops_rule("loads and assignments equal the reference table", "load", "assign"), CONV, WORDS, FRAMES)
prop("R07", ops_rule("standard functions equal the reference table", "function"), CONV, WORDS)
prop("R08", ops_rule("calls and returns equal the reference table", "call"), FRAMES, ARGS, BACK)
prop("R09", ops_rule("formal parameter operations equal the reference table", "formal", "EIS", "RET"), ARGS, FRAMES, STEP, WORDS)
prop("R10", ops_rule("block entry and jumps equal the reference table", "block", "goto"), FRAMES, BACK, ARGS, WORDS)
prop("R11", ops_rule("for operations equal the reference table", "for"), CONV, ASSIGN, WORDS, FRAMES)
prop("R12", ops_rule("array operations equal the reference table", "array", "arraydecl", "arrayvalue"), WORDS, CONV, FRAMES)
prop("R13", ops_rule("every operation finds its operands or reports an error"), WORDS, FRAMES, ARGS, BACK)
prop("R14", WORDS, CELLS, STEP, LOADER)
prop("R15", STEP, WORDS)
prop("R16", CELLS, CHARS, STEP, CONV)
prop("R17", ops_rule("print operations equal the reference table", "output", "format"),
     prim_rule("printed layouts equal the reference", "printnum", "show"), CHARS, STEP, CELLS, CONV)
prop("R18", ops_rule("input operations equal the reference table", "input"), CHARS, NUMBERS, CELLS, STEP, CONV)
prop("R19", lint.trace_regions, lint.trace_state, TRACEFILE)
prop("R20", MAIN, COMPILE, TRACEFILE, LOADER, LIBRARY, STEP, lint.thrown_types, lint.handlers)
prop("R21", COMPILE, LIBRARY, MAIN)
prop("R22", LOADER, COMPILE, WORDS, STEP)
prop("R23", lint.nondeterminism, lint.initial_machine, CELLS, NUMBERS)
prop("R24", MAIN, COMPILE, TRACEFILE, LIBRARY, lint.outside_effects)
prop("R25", safety_rule)

ENDS = comp_rule("the ways the compiler ends equal the reference", "ends")
LISTS = comp_rule("lists of the compiler equal the reference", "lists")
CONSTANTS = comp_rule("constants equal their exact value", "constants")
ENCODE = comp_rule("generated bit streams equal the reference code", "encode")
DECODE = comp_rule("loaded bit streams equal the reference code", "decode")
NAMES = comp_rule("identifiers equal the reference", "names")
SCAN = comp_rule("translated constructs equal the reference", "scan")
PARTS = comp_rule("routines of the scan equal the reference", "scanparts")
CHARACTERS = comp_rule("source characters equal the reference table", "characters")
SYMBOLS = comp_rule("basic symbols equal the reference table", "delimiters")
IMAGES = comp_rule("library procedures equal their sources", "images")
LOADPROG = comp_rule("loading with the library equals the reference", "loadprog")

prop("C01", ENDS, CHARACTERS, SYMBOLS, CONSTANTS, LISTS, DECODE, LOADPROG)
prop("C02", LISTS, CONSTANTS, ENCODE, PARTS, LOADPROG)
prop("C03", SCAN, PARTS, NAMES, ENCODE, LISTS)
prop("C04", CHARACTERS, SYMBOLS)
prop("C05", SYMBOLS, CHARACTERS)
prop("C06", NAMES, PARTS)
prop("C07", ENCODE, DECODE, LOADPROG)
prop("C08", IMAGES, DECODE)
prop("C09", LOADPROG, IMAGES, LISTS, DECODE)
prop("C10", CONSTANTS, SYMBOLS)
