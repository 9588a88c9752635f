#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': hook}
    if observe: a['observe_at'] = observe
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})

RUN = 'the test programs run with a handful of fixed operands; the claim is over every operand value'
p('C01', 'Integer operators compute the result C defines',
  'For every integer type and every operand value for which C defines the result, code compiled for +, -, *, /, %, &, |, ^, ~, !, <<, >>, the comparisons, ++/-- and the compound assignments yields the value C prescribes, with the operands promoted and converted as C prescribes and compound results narrowed to the left operand. This is so whether an operand is a variable, in memory or a constant, and whether the result is used as a value or as a branch condition. The compiler accepts every such expression.',
  ['inputs', 'programs'], 'all 8x8 pairs of integer types, every operator, every defined operand value; compile-time constants at boundaries', RUN,
  ['src/cc1/ops/expr_op.c', 'src/cc1/ops/expr_assign_compound.c', 'src/cc1/out/op.c', 'src/cc1/out/x86_64.c', 'src/cc1/btype.c'],
  [('usual arithmetic conversions', 'op_required_promotion, type_intrank'), ('instruction selection', 'impl_op, x86_idiv, x86_shift'), ('operation simplification', 'out_op')],
  ['machine code of the compiled function: return value, memory, external calls'])
p('C02', 'Conversions between scalar types preserve the C value',
  'An explicit or implicit conversion (cast, assignment, initialisation, argument, return) between any two integer types, _Bool, enumerations and pointers yields exactly the value C prescribes: truncation modulo 2^N, sign- or zero-extension by the source type, and 0/1 for _Bool. No bits beyond the source object\'s value influence the result.',
  ['inputs', 'programs'], 'all pairs of scalar types and chains of conversions, every source value including garbage in the unused part of registers', RUN,
  ['src/cc1/ops/expr_cast.c', 'src/cc1/out/x86_64.c', 'src/cc1/out/out.c', 'src/cc1/out/val.c'],
  [('cast folding and generation', 'fold_expr_cast, gen_expr_cast'), ('extension/truncation', 'out_cast, impl_cast_load')])
p('C03', 'Constant folding equals evaluation at run time',
  'An expression of integer constants evaluates at compile time to the value C defines for its type, whatever the operands: in initialisers, array bounds, case labels, enumerators, _Static_assert and in folded code alike. Operations without a defined value (division by zero, and the like) never yield a made-up constant silently where a constant is required.',
  ['inputs', 'programs'], 'operators and types as in C01; literal operands symbolic (every 32/64-bit value expressible in the literal)', 'tests fold a few dozen literal expressions; wrap-around, sign and width errors need specific operand values',
  ['src/cc1/const.c', 'src/cc1/num.c', 'src/cc1/ops/expr_op.c', 'src/cc1/ops/expr_cast.c', 'src/cc1/ops/expr_if.c'],
  [('integer folding', 'const_op_exec'), ('folding of casts', 'const_expr_cast, convert_integral_to_integral_warn'), ('operator dispatch', 'const_op_num')],
  ['assembly data directives and immediates', 'diagnostics'])
p('C04', 'Conditional inclusion selects the branch C selects',
  'For every #if/#elif controlling expression the preprocessor evaluates the expression with C\'s operators, precedence, associativity, short-circuit rules and intmax_t/uintmax_t arithmetic, and keeps exactly the group C keeps. Skipped groups contribute nothing, nested conditionals included.',
  ['inputs', 'programs'], 'expressions over every binary/unary/ternary operator, up to 3 operators with arbitrary literal values, and every pattern of nested conditional groups up to a bounded depth', 'tests exercise some fixed expressions; precedence and short-circuit interactions are combinatorial',
  ['src/cpp2/expr.c', 'src/cpp2/expr_tok.c', 'src/cpp2/directive.c', 'src/cpp2/preproc.c'],
  [('precedence parser', 'parse_rhs'), ('evaluation', 'expr_eval'), ('group skipping', 'handle_if, handle_else, handle_endif')], ['preprocessed output'])
p('C05', 'Literals have the value and type C gives them',
  'Every integer constant (decimal, octal, hexadecimal, binary, any suffix) has the value its digits spell and the first type of C\'s list that holds it; every character and string literal denotes exactly the characters and escapes written, including embedded NULs and adjacent-literal concatenation. Strings reach the object file unchanged.',
  ['inputs'], 'every digit string up to 64 bits of value with every suffix; every escape sequence and byte in character and string literals of bounded length', 'tests use a few literals; each wrong byte or boundary value needs its own test',
  ['src/cc1/tokenise.c', 'src/util/escape.c', 'src/cc1/ops/expr_val.c', 'src/cc1/str.c', 'src/cc1/gen_asm.c', 'src/cc1/ops/expr_string.c'],
  [('digit parsing', 'char_seq_to_ullong'), ('escapes', 'escape_char, escape_string'), ('type selection', 'fold_expr_val'), ('string emission', 'asm_declare_init / static init')])
p('C06', 'Object layout follows the platform ABI',
  'sizeof, _Alignof and member offsets of every struct, union, enum, array and bitfield, with packed/aligned attributes and anonymous members, equal those of the System V x86-64 ABI, and every access goes to the corresponding bytes.',
  ['programs', 'inputs'], 'member type sequences of bounded length, every bitfield width, attributes; all member values for the accesses', 'layout interactions (bitfield after char, zero-width, packed) are combinatorial; the tests check a few tens of layouts',
  ['src/cc1/fold_sue.c', 'src/cc1/sue.c', 'src/cc1/type.c', 'src/cc1/btype.c', 'src/cc1/ops/expr_struct.c', 'src/cc1/ops/expr_sizeof.c'],
  [('layout', 'fold_sue'), ('bitfield packing', 'struct_pack, bitfield_size_align')])
p('C07', 'Bitfield accesses read and write exactly their bits',
  'Storing any value to a bitfield changes exactly that field\'s bits, a later read returns the stored value reduced to the field\'s width and sign, and neighbouring members and bytes outside the field keep their values. This holds for plain, compound and increment assignments, and the value of the assignment expression is the value stored.',
  ['inputs', 'programs'], 'every width and offset of char/short/int/long/_Bool fields, signed and unsigned, every prior content and stored value', 'wrong masks only show for particular values in neighbouring fields',
  ['src/cc1/out/bitfield.c', 'src/cc1/ops/expr_assign.c', 'src/cc1/decl_init.c', 'src/cc1/out/out.c'],
  [('read', 'bitfield_to_scalar'), ('write', 'bitfield_scalar_merge')])
p('C08', 'Calls and returns follow the platform calling convention',
  'Every function passes and returns integer, pointer, floating and struct/union values where the System V ABI puts them, keeps callee-saved registers, the stack pointer and 16-byte call alignment, and never reads stack or argument bytes it was not given. So code from this compiler and from another ABI-conforming compiler call each other with all values intact.',
  ['inputs', 'programs'], 'signatures mixing the argument classes (up to 10 parameters, structs up to 40 bytes), caller and callee on either side; every argument value', 'tests call mostly their own code, where both sides share a mistake, with fixed values',
  ['src/cc1/out/x86_64.c', 'src/cc1/out/func.c', 'src/cc1/ops/expr_funcall.c', 'src/cc1/ops/stmt_return.c', 'src/cc1/funcargs.c'],
  [('argument classification', 'impl_func_call_regs, impl_func_prologue_save_call_regs'), ('struct return', 'stret handling'), ('stack alignment', 'impl_func_alloc_stack / v_stack_align')])
p('C09', 'Control flow runs the statements C selects, in order',
  'if/else, loops, switch (case ranges, fall-through, default anywhere, any integer type), goto and computed goto, break/continue, ?: and return execute exactly the statements C selects for every input, in C\'s order.',
  ['inputs', 'programs'], 'a corpus of nested control structures (bounded iteration counts), every condition/selector value', 'tests take a few paths; a wrong comparison width or sign in a case label shows for a few selectors only',
  ['src/cc1/ops/stmt_switch.c', 'src/cc1/ops/stmt_for.c', 'src/cc1/ops/stmt_if.c', 'src/cc1/ops/stmt_goto.c', 'src/cc1/out/ctrl.c', 'src/cc1/out/blk.c'],
  [('switch dispatch', 'gen_stmt_switch'), ('branching', 'out_ctrl_branch, phi merge')])
p('C10', 'Static initialisers produce the bytes C prescribes',
  'An object with static storage duration starts with exactly the value C prescribes for its initialiser: positional and designated (nested, ranges, overriding), brace-elided, strings, addresses with offsets, bitfields, unions, padding and omitted members zero. The value of each constant is preserved exactly.',
  ['inputs', 'programs'], 'initialiser shapes over arrays/structs/unions/bitfields; constants symbolic', 'wrong bytes depend on designator order and on constant values at type limits',
  ['src/cc1/decl_init.c', 'src/cc1/gen_asm.c', 'src/cc1/parse_init.c'],
  [('normalisation', 'decl_init_brace_up'), ('emission', 'asm_declare_init, bitfields_out')])
p('C11', 'Automatic initialisers and compound literals initialise everything',
  'A local object or compound literal with an initialiser has, for every value of the run-time expressions in it, exactly the member values C prescribes, members not mentioned are zero, each initialiser expression is evaluated, and no other object changes.',
  ['inputs', 'programs'], 'initialiser shapes over locals and compound literals; every run-time value, arbitrary prior stack contents', 'uninitialised remains depend on prior stack contents which tests do not control',
  ['src/cc1/decl_init.c', 'src/cc1/ops/expr_compound_lit.c', 'src/cc1/ops/expr_assign.c'],
  [('assignment tree', 'decl_init_create_assignments_base'), ('zero-fill', 'decl_init memset')])
p('C12', 'Side effects happen once, in the order C requires',
  'Every sub-expression C evaluates is evaluated exactly once and every one C skips is not evaluated; &&, ||, ?:, the comma operator, full expressions and calls sequence their effects; volatile accesses are performed as written.',
  ['inputs', 'programs'], 'expressions mixing calls, increments, compound assignments, short-circuits, conditionals (with omitted middle), statement expressions; every value of operands and of call results', 'an effect duplicated or lost on one branch shows only for the inputs taking it',
  ['src/cc1/ops/expr_op.c', 'src/cc1/ops/expr_if.c', 'src/cc1/ops/expr_comma.c', 'src/cc1/ops/expr_stmt.c', 'src/cc1/ops/expr_assign_compound.c', 'src/cc1/out/ctrl.c'],
  [('short-circuit', 'op_shortcircuit'), ('conditional', 'gen_expr_if'), ('post-inc/dec', 'gen_expr_assign_compound')])
p('C13', 'Pointer arithmetic and array access reach the right bytes',
  'Pointer addition, subtraction, difference and comparison, subscripting of arrays of any rank, member access through pointers, and variable-length arrays compute the addresses C defines, for every index and bound, and accesses read or write exactly the designated object.',
  ['inputs', 'programs'], 'element sizes 1..24, every index type and value within the object, VLA bounds within limits', 'index scaling or sign errors need negative or large indices of particular types',
  ['src/cc1/out/op.c', 'src/cc1/vla.c', 'src/cc1/ops/expr_deref.c', 'src/cc1/ops/expr_addr.c', 'src/cc1/ops/expr_struct.c', 'src/cc1/out/x86_64.c'],
  [('pointer scaling', 'out_op pointer paths'), ('VLA sizes', 'vla_decl_init, vla_typedef_init')])
p('C14', 'Floating-point code computes IEEE results and conversions',
  'float and double operators, comparisons (unordered included), negation, truth tests, conversions among float, double and every integer type, and floating constants give the IEEE-754 result C prescribes, for every operand including NaN, infinities, signed zeros and values around integer limits where the conversion is defined.',
  ['inputs', 'programs'], 'every operand bit pattern (conversions: every in-range value)', 'NaN/-0/limit cases need exact operands',
  ['src/cc1/out/x86_64.c', 'src/cc1/out/op.c', 'src/cc1/const.c', 'src/cc1/ops/expr_cast.c'],
  [('float compare flags', 'x86 ucomis handling'), ('conversions', 'x86_i2f, x86_f2i, x86_xchg_fi')])
p('C15', 'Overflow traps and UB sanitizers fire exactly on the bad inputs',
  'With -ftrapv or -fsanitize=... the compiled code traps (or calls the handler) for exactly the operand values whose operation is an error of the selected kind, and otherwise behaves as without the option; __builtin_{add,sub,mul}_overflow return the overflow flag and the wrapped result exactly.',
  ['inputs', 'configurations'], 'each check kind and integer type, every operand value', 'tests try one overflowing and one harmless value per check',
  ['src/cc1/sanitize.c', 'src/cc1/ops/expr_op.c', 'src/cc1/ops/__builtin.c', 'src/cc1/out/out.c'],
  [('trapv', 'gen_op_trapv'), ('sanitizer checks', 'sanitize_*'), ('overflow builtins', 'bgen_overflow')])
p('C16', 'Expressions have the type C gives them',
  'The type of every expression - as seen by sizeof, _Alignof, typeof, _Generic, __builtin_types_compatible_p and the signedness of further operations - is the one C prescribes from the operand types: promotions, usual arithmetic conversions, conditional operator, pointer decay, bitfields and enumerations.',
  ['programs'], 'all pairs of arithmetic types for every operator; pointer/array/qualifier forms', 'type errors hide where sizes agree',
  ['src/cc1/ops/expr_op.c', 'src/cc1/ops/expr__Generic.c', 'src/cc1/ops/expr_if.c', 'src/cc1/type.c', 'src/cc1/ops/expr_sizeof.c'],
  [('promotions', 'op_promote_types'), ('_Generic selection', 'fold_expr__Generic')])
p('C17', 'Macro expansion follows the C rules',
  'Replacing object-like, function-like and variadic macros yields exactly C\'s token sequence: arguments split at top-level commas and fully expanded unless # or ## applies, stringising and pasting exact, no re-expansion of a macro within itself, a function-like name without parentheses left alone.',
  ['inputs', 'programs'], 'macro bodies and argument lists of bounded length over an alphabet of tokens', 'interaction of #, ##, recursion and commas is combinatorial',
  ['src/cpp2/eval.c', 'src/cpp2/macro.c', 'src/cpp2/tokenise.c', 'src/cpp2/snapshot.c', 'src/cpp2/str.c'],
  [('expansion', 'eval_expand_macros'), ('argument collection', 'eval_func_macro'), ('recursion guard', 'snapshot')], ['preprocessed output'])
p('C18', 'Lexical preprocessing neither loses nor invents program text',
  'Comments become one space, backslash-newline joins lines, trigraphs are replaced only when enabled, and all other text - string and character literals in particular - reaches the compiler unchanged, and __LINE__ and line markers keep naming the original line.',
  ['inputs'], 'every text of bounded length over an alphabet of all lexically significant bytes', 'the interleavings of quotes, comments, escapes and newlines are exponential; tests have a few',
  ['src/cpp2/preproc.c', 'src/cpp2/tokenise.c', 'src/cpp2/str.c', 'src/cpp2/directive.c'],
  [('comment stripping', 'strip_comment'), ('splicing', 'splice_lines'), ('trigraphs', 'expand_trigraphs')], ['preprocessed output'])
p('C19', 'Code-generation options never change what a program computes',
  'Turning on or off inlining, constant folding, jump threading, PIC/PIE, frame-pointer, stack-protector, -fcommon, debug info and similar output options leaves the results, external calls and memory effects of a valid program unchanged for every input.',
  ['inputs', 'programs', 'configurations'], 'a corpus of functions under each option and some pairs, every input', 'tests run each option on few programs with fixed inputs',
  ['src/cc1/inline.c', 'src/cc1/out/out.c', 'src/cc1/out/blk.c', 'src/cc1/out/ctrl.c', 'src/cc1/out/x86_64.c', 'src/cc1/fopts.h'],
  [('inlining', 'inline_func_try_gen'), ('jump threading', 'blk flush/merge'), ('PIC addressing', 'out_new_sym / GOT')])
p('C20', 'The preprocessor survives every input',
  'Whatever bytes it is given, the preprocessor terminates with output or a diagnostic and a non-zero status; it never reads or writes outside its buffers, never crashes and never hangs.',
  ['inputs'], 'every input of a bounded number of arbitrary bytes, alone and embedded in templates of directives and macros', 'malformed input space is unbounded, tests are well-formed',
  ['src/cpp2/preproc.c', 'src/cpp2/directive.c', 'src/cpp2/expr.c', 'src/cpp2/eval.c', 'src/cpp2/macro.c', 'src/cpp2/str.c', 'src/util/escape.c'],
  [('line reading', 'fline'), ('tokenising', 'tokenise'), ('argument collection', 'eval_func_macro')])
p('C21', 'The compiler proper survives every input',
  'Whatever preprocessed text it is given, the compiler terminates with assembly and status zero, or with a diagnostic and a non-zero status; it never crashes, aborts, hangs, or touches memory it does not own.',
  ['inputs'], 'every text of a bounded number of arbitrary bytes/tokens, alone and spliced into program templates', 'malformed input space is unbounded; tests cover listed errors',
  ['src/cc1/tokenise.c', 'src/cc1/parse_expr.c', 'src/cc1/parse_type.c', 'src/cc1/fold.c', 'src/cc1/tokconv.c'],
  [('tokeniser', 'nexttoken'), ('parser error recovery', 'EAT, parse_had_error'), ('fold errors', 'fold_had_error')])
p('C22', 'The driver reports failure of any stage and cleans up',
  'If any stage - preprocessor, compiler, assembler or linker - cannot be started, exits non-zero or is killed by a signal, the driver exits non-zero, later stages of that input do not run, and temporary files are removed; if all succeed it exits zero.',
  ['fault_sequences', 'configurations'], 'every wait status of every stage and every failure of fork/exec/mkstemp at each point', 'failures of fork, exec or a signalled child are not produced by tests',
  ['src/ucc/ucc.c', 'src/ucc/ucc_ext.c'],
  [('status decoding', 'runner'), ('stage sequencing', 'process_files'), ('clean-up', 'unlink_files')], ['exit status', 'files removed', 'commands executed'])
p('C23', 'A failed write of output is never reported as success',
  'If any write, flush or close of the output of the preprocessor or compiler fails (full disk, I/O error), the program exits non-zero with a diagnostic; input that cannot be opened or read gives a non-zero status as well.',
  ['fault_sequences'], 'every output operation failing, at each point', 'tests never see an I/O error',
  ['src/cc1/cc1.c', 'src/cpp2/main.c', 'src/util/io.c', 'src/cc1/gen_asm.c'],
  [('output closing', 'cc1 io_fin / section dumping'), ('preprocessor output', 'preproc flush')], ['exit status'])
p('C24', 'Debug information encodes exactly the values it describes',
  'Every LEB128 number written to debug information decodes to the number encoded, with no excess or missing bytes, and offsets and sizes computed from encoded lengths match the bytes emitted.',
  ['inputs'], 'every 64-bit signed and unsigned value', 'boundary values at 7-bit groups are not sampled by tests',
  ['src/cc1/out/leb.c', 'src/cc1/out/dbg.c'], [('encoding', 'leb128_out, leb128_length')])
p('C25', 'Symbols get the linkage, binding and placement C and attributes ask for',
  'Functions and objects are global, static, weak, hidden/protected, aliased, common, in the named section or thread-visible exactly as their declarations (and command-line visibility) say; tentative and extern/inline definitions are emitted or omitted as C prescribes.',
  ['programs', 'configurations'], 'every combination of a bounded sequence of redeclarations, storage classes and attributes', 'redeclaration orders are combinatorial',
  ['src/cc1/gen_asm.c', 'src/cc1/decl.c', 'src/cc1/fold_sym.c', 'src/cc1/fold.c', 'src/cc1/sym.c'], [('linkage', 'decl_linkage'), ('definition choice', 'symtab_fold_decls')], ['object symbol table'])
p('C26', 'Variadic functions receive their arguments unchanged',
  'va_arg retrieves each argument passed, with default promotions, in order, for integer, pointer and floating types, past the register save area onto the stack, from callers compiled by this or another compiler; va_copy gives an independent cursor.',
  ['inputs', 'programs'], 'argument lists up to 12 arguments over the classes; every value', 'the register/stack cross-over depends on counts and classes',
  ['src/cc1/ops/__builtin_va.c', 'src/cc1/out/x86_64.c'], [('va_arg', 'gen_va_arg_type, builtin_gen_va_arg'), ('register save area', 'impl_func_prologue_save_variadic')])
p('C27', 'Inline assembly gets its operands and gives back its results',
  'For extended asm the template\'s operands are bound as their constraints demand: inputs hold the given values, outputs end up in the named lvalues, read-write and matching operands share a location, clobbered registers lose no live value.',
  ['inputs', 'programs'], 'constraint kinds and operand counts in a corpus; every operand value', 'register conflicts show with particular combinations only',
  ['src/cc1/out/asm.c', 'src/cc1/ops/stmt_asm.c'], [('constraint allocation', 'out_inline_asm_extended')])
p('C28', 'Constraint violations are rejected exactly when present',
  'A _Static_assert fails compilation exactly if its expression is zero; duplicate or overlapping case labels, bitfield widths beyond the type, negative array sizes, non-constant or out-of-range enumerators and similar constraint violations on constant values are rejected for exactly the violating values.',
  ['inputs'], 'every value of the constants involved', 'tests check one violating and one valid value',
  ['src/cc1/fold.c', 'src/cc1/ops/stmt_switch.c', 'src/cc1/fold_sue.c', 'src/cc1/parse_type.c', 'src/cc1/parse_stmt.c'], [('static assert', 'static_assert handling'), ('case overlap', 'fold_switch_dups'), ('bitfield width', 'fold_decl bitfield checks')], ['exit status of the compiler', 'diagnostics'])
p('C29', 'Stack protection detects every overwrite of the guard',
  'With the stack protector a protected function that returns has an unchanged guard, for every guard value and every overwrite of it a call to the failure handler happens instead of the return; an intact guard never fails.',
  ['inputs'], 'every guard value and every overwriting value', 'tests overwrite with one value',
  ['src/cc1/out/stack_protector.c', 'src/cc1/out/func.c'], [('guard store', 'out_init_stack_canary'), ('guard check', 'out_check_stack_canary')])
p('C30', 'Copies of aggregates move exactly the object',
  'Assigning, passing, returning or initialising from a struct, union or array object copies every byte of its members and nothing else, whatever the size or alignment, including overlapping self-assignment and copies through pointers.',
  ['inputs', 'programs'], 'sizes 0..72, alignments 1..16; every content', 'a dropped tail byte shows only if the value there differs',
  ['src/cc1/out/out.c', 'src/cc1/out/mem.c', 'src/cc1/ops/expr_assign.c', 'src/cc1/ops/__builtin.c'], [('struct copy', 'out_memcpy, builtin_gen_memcpy')])
p('C31', 'Line numbers in output name the source line',
  '__LINE__, __FILE__, #line, line markers and the line named by a diagnostic correspond to the physical source line, through splices, comments, skipped groups, includes and multi-line macro calls.',
  ['inputs', 'programs'], 'every arrangement of a bounded number of newlines/splices/comments/directives before the use', 'tests check a few arrangements',
  ['src/cpp2/preproc.c', 'src/cpp2/directive.c', 'src/cpp2/main.c', 'src/cc1/tokenise.c'], [('line counting', 'preproc_push/ loc_tok'), ('line markers', 'parse # line in tokeniser')])
p('C32', 'Command-line options select what they say',
  'The driver passes every option to the stages it belongs to, -D/-U/-I act as documented, the last of contradictory options wins, -c/-S/-E/-o choose stages and output name, and an unknown option or missing argument is an error.',
  ['configurations', 'inputs'], 'option sequences of bounded length', 'option orders are combinatorial',
  ['src/ucc/ucc.c', 'src/cpp2/main.c', 'src/cc1/cc1.c', 'src/cc1/fopt.c', 'src/cc1/warn.c'], [('option parsing', 'parse_argv'), ('stage arguments', 'state->args')], ['executed commands, exit status'])

if __name__ == '__main__':
    d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(d, 'properties.jsonl'), 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(x) + '\n')
