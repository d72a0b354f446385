"""The properties, in one place: mkmeta.py writes properties.jsonl, MANIFEST.json
and the per-property part of DESIGN.md from this table."""

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, design):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, design=design))


FE = ['src/cc/frontend/fe_misc.c', 'src/cc/frontend/parser_expr.c']
BE = ['src/cc/backend/codegen_expr.c', 'src/cc/backend/regalloc.c', 'src/cc/arch/x64/ir_x64.c', 'src/cc/arch/x64/emit_x64.c']

prop('C01', 'Integer expressions compute the values C prescribes',
     'For every program without undefined behaviour, each expression over the integer types (including bit-fields, side '
     'effects, conversions, short-circuit and conditional operators, in run-time and in constant contexts) compiled by '
     'xcc for x86-64 yields the value and the type that C11 prescribes, on the LP64 model with two\'s complement and '
     'arithmetic right shift.',
     ['programs', 'inputs'], 'all integer expressions and all operand values, in every context an expression may appear in',
     'The tests evaluate a fixed list of expressions, nearly all on small positive ints; the combinations of operator, '
     'operand types, constness, storage kind and boundary values are unbounded.',
     FE + BE, [('constant folding and conversions', 'src/cc/frontend/fe_misc.c: new_expr_num_bop, new_expr_addsub, make_cast, new_expr_cmp'),
               ('code selection', 'src/cc/backend/codegen_expr.c, src/cc/arch/x64/ir_x64.c'),
               ('peephole and IR folding', 'src/cc/backend/optimize.c, src/cc/backend/ir.c')],
     'generated programs against an evaluator of C11 semantics',
     'Random search; every program carries its complete expected output, computed independently of any compiler.',
     'lib/cexpr.py builds expressions bottom-up over fresh storage of known value and evaluates every operator in Python '
     'exactly as C11 prescribes, replacing an operation that would be undefined for those values. Leaves: literals of '
     'every base and suffix, locals, globals, parameters, array elements, members, bit-fields, dereferences, volatile. '
     'Contexts: printed value, if/while/for/do/switch, array sizes, enum values, case labels, static initializers, '
     '_Generic on the type. 15 profiles shift the weights. Cost: about 10 000 programs (230 000 values) in 18 s on 8 cores.')

prop('C02', 'Control flow executes as C prescribes',
     'For every program without undefined behaviour, compiled by xcc for x86-64, statements (if, loops, switch with any case '
     'values and fall-through, goto in and out of blocks and loops, break/continue, early return, nested blocks, recursion '
     'and calls) are executed in the order and number C prescribes, whatever the number of live values and the nesting.',
     ['programs', 'inputs'], 'all statement nestings, jump structures, switch value sets and register pressures',
     'Tests have a dozen small flow examples; a miscompiled edge needs a particular flow graph together with register pressure.',
     ['src/cc/frontend/parser.c', 'src/cc/backend/codegen.c', 'src/cc/backend/regalloc.c', 'src/cc/backend/ir.c'],
     [('statement lowering', 'src/cc/backend/codegen.c: gen_switch, gen_while, gen_for, gen_goto'),
      ('basic blocks and liveness', 'src/cc/backend/ir.c, src/cc/backend/regalloc.c'),
      ('block-level optimisation', 'src/cc/backend/optimize.c')],
     'generated programs, differential against gcc with sanitizer-confirmed reference',
     'Random search; trusts gcc -O0, confirmed by gcc with ASan+UBSan and by clang -O2 before any alarm.',
     'lib/cgen.py generates terminating, UB-free programs by interval analysis and prints checksums of all state; seven profiles '
     'stress goto, switch, loops, logic, calls and register pressure. Output compared with gcc -O0; a mismatch counts only if '
     'gcc -O1 -fsanitize=address,undefined is silent and agrees and clang -O2 agrees. Seven in ten programs come from lib/flowgen.py '
     'instead: 15-60 functions of arbitrary jump structure whose visit trace and result the generator computes itself, so they need no '
     'reference compiler. 6400 programs in about 50 s.')

prop('C03', 'Aggregates, pointers and arrays behave as C prescribes',
     'For every program without undefined behaviour, compiled by xcc for x86-64, reads, writes, copies, initialisation and '
     'address arithmetic on structs, unions, anonymous members, bit-fields, arrays of any rank and pointers affect exactly '
     'the object C says, and nothing else.',
     ['programs', 'inputs'], 'all type shapes, access paths and aliasing patterns',
     'Tests cover a few fixed struct shapes; wrong offsets, widths or neighbours need particular combinations of members and accesses.',
     ['src/cc/frontend/type.c', 'src/cc/frontend/initializer.c', 'src/cc/frontend/fe_misc.c', 'src/cc/backend/codegen_expr.c'],
     [('layout', 'src/cc/frontend/type.c: calc_struct_size, calc_bitfield_size'),
      ('bit-field access', 'src/cc/frontend/fe_misc.c: assign_to_bitfield, extract_bitfield_value'),
      ('memory copies', 'src/cc/backend/codegen_expr.c: gen_memcpy, gen_clear')],
     'generated programs, differential against gcc with sanitizer-confirmed reference',
     'Random search; trusts gcc -O0, confirmed by gcc with ASan+UBSan and by clang -O2 before any alarm.',
     'As C02 with seven profiles stressing aggregates, bit-fields, unions, pointers to pointers, 2-D arrays, compound literals, '
     'pointer differences; all globals and locals are dumped leaf by leaf.')

prop('C04', 'Floating-point expressions are exact IEEE operations',
     'For every program, each expression mixing float, double and integer operands compiled by xcc for x86-64, folded at compile '
     'time or evaluated at run time, yields the correctly rounded IEEE-754 result in the type C11 prescribes, including '
     'conversions in both directions, signed zeros, infinities, NaN comparisons and subnormals, and every floating literal '
     'denotes the nearest value of its type.',
     ['programs', 'inputs'], 'all expressions with floating operands, all operand values for which C defines the result',
     'Tests use a handful of short decimal values; rounding, NaN and unsigned 64-bit conversions only differ on particular bit patterns.',
     FE + BE + ['src/cc/frontend/lexer.c'],
     [('floating constants', 'src/cc/frontend/ast.c: new_expr_flolit; src/cc/frontend/fe_misc.c: make_cast'),
      ('conversions', 'src/cc/arch/x64/ir_x64.c: ei_cast'), ('comparisons', 'src/cc/backend/codegen_expr.c: gen_compare_expr')],
     'generated programs against an evaluator of IEEE/C11 semantics',
     'Random search; expected bits come from Python doubles (IEEE binary64) and exact binary32 rounding.',
     'The generator of C01 with 15 floating profiles; results are compared bit for bit.')

prop('C05', 'Calls transfer arguments and results faithfully',
     'Every call between functions compiled by xcc for x86-64 delivers each argument, converted to its parameter\'s type, and the '
     'returned value unchanged, for any number and mix of scalar, pointer and struct parameters, variadic tails (va_start, '
     'va_arg, va_copy, passed va_list), recursion and calls through pointers, and leaves the caller\'s live values intact. '
     'Functions with scalar and pointer parameters, variadic ones included, can call and be called by objects that follow the '
     'System V psABI (gcc).',
     ['programs', 'inputs'], 'all signatures, call sites, live-value sets across calls, and both directions of mixing with gcc objects',
     'Tests call functions with few parameters; register/stack assignment, alignment and preservation depend on the whole signature.',
     ['src/cc/backend/codegen_expr.c', 'src/cc/backend/codegen.c', 'src/cc/builtin.c', 'include/stdarg.h', 'src/cc/arch/x64/ir_x64.c'],
     [('argument assignment', 'src/cc/backend/codegen_expr.c: gen_funcall'), ('prologue and saved registers', 'src/cc/arch/x64/emit_x64.c'),
      ('variadics', 'src/cc/builtin.c: gen_builtin_va_start; include/stdarg.h: __builtin_va_arg')],
     'generated call programs against a model of their output; differential interop with gcc objects',
     'Random search; the expected output is computed by closures mirroring each generated function.',
     'lib/callgen.py generates functions with up to 30 parameters and bodies of observable actions, each paired with a Python '
     'closure; call-site arguments are C01/C04 expressions. Twelve profiles over one unit, two units, and xcc/gcc mixtures in '
     'both directions (gcc -O2, which also checks stack alignment and callee-saved registers). Part of the programs come from '
     'lib/pressgen.py: functions with up to 40 integer and floating locals all alive across calls, with their exact output.')

prop('C06', 'Initializers and constant expressions give the values C prescribes',
     'For every object of any type and every initializer (nested or brace-elided lists, designators in any order, repeated, into '
     'sub-aggregates and anonymous members, unions, bit-fields, strings, addresses of objects with offsets, compound literals, arrays sized by their '
     'initializer), each scalar of the object starts with the value C prescribes, the parts not mentioned with zero, whether the '
     'object is global, static, automatic or a compound literal, on x86-64 and wasm32; integer constant expressions have their C '
     'value in array sizes, enumerators, case labels and bit-field widths.',
     ['programs'], 'all types, initializer shapes and constant expressions',
     'Tests initialise a few shapes; the position an element lands on depends on the whole type and the whole list before it.',
     ['src/cc/frontend/initializer.c', 'src/cc/frontend/cc_misc.c', 'src/cc/backend/emit_code.c', 'src/cc/frontend/parser_expr.c', 'src/wcc/emit_wasm.c'],
     [('list flattening', 'src/cc/frontend/initializer.c: flatten_initializer_multi, find_next_indices, find_desig_indices'),
      ('automatic objects', 'src/cc/frontend/initializer.c: assign_initial_value'),
      ('static data', 'src/cc/frontend/cc_misc.c: construct_initial_value'),
      ('constant folding', 'src/cc/frontend/fe_misc.c: new_expr_bop and friends')],
     'generated initialised objects, differential against gcc and clang wasm32',
     'Random search; alarms on x86-64 need gcc with sanitizers and clang -O2 to agree with the reference.',
     'lib/initgen.py generates types (lib/declgen.py), an initializer for each object with a model of which subobjects were touched '
     '(so that no part is overridden), and constant expressions with known values. The stack is filled with garbage before each '
     'automatic object. 3600 programs in about 45 s.')

prop('C07', 'Type layout is consistent and follows the platform ABI',
     'For every declaration of structs, unions, anonymous members, enums, arrays, flexible arrays and typedefs, sizeof, _Alignof and '
     'offsetof under xcc (x86-64) and wcc (wasm32) are those of the platform ABI, and for types with bit-fields every bit-field '
     'has exactly its width, is packed next to its neighbour, keeps its signedness and shares no storage with another member.',
     ['programs'], 'all nestings and member sequences of up to 24 members',
     'Tests check a handful of sizes; layout errors need particular member orders, counts or nestings.',
     ['src/cc/frontend/type.c', 'src/cc/frontend/parser_type.c'],
     [('struct layout', 'src/cc/frontend/type.c: calc_struct_size, type_size, align_size'), ('member tables', 'src/cc/frontend/type.c: find_struct_member'),
      ('declarations', 'src/cc/frontend/parser_type.c')],
     'generated declarations, differential against gcc and clang wasm32, plus storage-image invariants for bit-fields',
     'Random search; types with bit-fields are judged by invariants because C leaves their layout to the implementation.',
     'lib/declgen.py generates declarations; programs print every size, alignment and offset; bit-field programs print the storage image of '
     'each member set to ones, judged in props/p_c07.py. wcc output runs in Node, the wasm reference is clang --target=wasm32 '
     'linked by wasm-ld. 3600 programs in about 40 s.')

prop('C08', 'The --apply-ssa optimiser preserves meaning',
     'For every program without undefined behaviour, compiling with --apply-ssa gives a program with the same observable '
     'behaviour as C prescribes and as the default mode gives, and compilation terminates.',
     ['programs', 'inputs'], 'all programs; all flow graphs reachable from C source',
     'The SSA mode is run on the fixed test programs only; wrong phi placement, copy order or propagation needs particular loops and register pressure.',
     ['src/cc/backend/ssa.c', 'src/cc/backend/optimize.c', 'src/cc/backend/regalloc.c'],
     [('SSA construction and phi resolution', 'src/cc/backend/ssa.c'), ('propagation and dead-code removal', 'src/cc/backend/optimize.c')],
     'generated programs: known expected output and metamorphic comparison with the default mode',
     'Random search; alarms on flow programs are confirmed free of undefined behaviour by sanitizers.',
     'Half of the cases are flow programs of C02/C03 compiled twice, half are expression and call programs with known output.')

prop('C09', 'The self-hosted tools do exactly what the host-compiled tools do',
     'For every input - valid or erroneous programs, preprocessor input, assembly, sets of modules to link, the tree\'s own sources - cpp, cc1, as and ld compiled '
     'by xcc itself (and linked with xcc\'s own libc) give the same output bytes, the same messages and the same exit status as the same tools compiled by '
     'the host compiler. (Which neighbour of a floating literal that is no double is chosen is left out.)',
     ['programs', 'inputs'], 'all inputs of the four tools',
     'The existing self-hosting tests only rerun the fixed test programs with the second generation; a miscompiled rare path of the compiler, or a libc '
     'function that deviates on an unusual input, is seen only when the two generations are compared on unusual inputs.',
     ['src/cpp', 'src/cc', 'src/as', 'src/ld', 'src/util', 'libsrc'],
     [('the tools as programs', 'src/cpp/main.c, src/cc/main.c, src/as/main.c, src/ld/main.c'), ('the C library under them', 'libsrc/'), ('code generation', 'src/cc/backend, src/cc/arch/x64')],
     'generated and mutated inputs, differential between the two generations of the tools',
     'Random search; an alarm needs two runs on the same input that differ in output, message or exit status. Crashes of both or of the host-compiled tool alone are not judged here.',
     'props/p_c09.py draws inputs from the generators of C01-C07, C13-C15, C17 and C23, mutates the bytes of some, or takes a source file of the tree under random '
     'cc1 options, and puts them through cpp, cc1, as and ld of both generations, step by step. 2 000 inputs in about 25 s.')

prop('C10', 'Programs compiled to WebAssembly mean what C says',
     'A program compiled and linked by wcc, with its own wasm libc, is a valid WebAssembly module and gives, when run, the results C (ILP32) prescribes for '
     'integer and floating expressions, conversions, control flow, aggregates, pointers, bit-fields, and calls of any signature (structs by '
     'value, function pointers, variadic functions) within and across units.',
     ['programs', 'inputs'], 'all defined programs of the generated subset (no goto, which wcc does not take)',
     'The wasm tests run fixed programs; a module that fails validation, an operand of the wrong width or a clobbered argument area needs '
     'particular combinations of types, operands and nesting.',
     ['src/wcc'], [('code generation', 'src/wcc/gen_wasm.c'), ('transformation of expressions', 'src/wcc/traverse.c'),
                   ('module emission', 'src/wcc/emit_wasm.c'), ('linking', 'src/wcc/wasm_linker.c')],
     'generated programs with a reference value (model, or gcc for aggregates), validated and executed by Node',
     'Random search; Node\'s engine validates and runs the module.',
     'props/p_c10.py: the generators of C01-C05 with 32-bit long and pointers, compiled in one or two units by wcc, run by a persistent Node. '
     'Aggregates are compared with gcc (long defined as int), and only where sanitizers and clang confirm the program. 8 000 programs in about 35 s.')

def _cross(pid, arch, name, extra_files, mech):
    prop(pid, 'Programs mean the same on %s as C says' % name,
         'A program compiled, assembled and linked for %s by xcc (built for that target), with its own libc, gives the results C prescribes '
         'for integer and floating expressions, conversions, control flow, aggregates, bit-fields, calls of any signature (structs by value '
         'and variadic tails included) across units, with and without --apply-ssa, and keeps the stack pointer aligned.' % name,
         ['programs', 'inputs'], 'all defined programs of the generated subset, run on an emulator with arbitrary initial registers',
         'No test of the repository runs code for this target here; instruction selection, immediate ranges, register extension and frames '
         'depend on operand widths, values and sizes that tests do not enumerate.',
         extra_files + ['src/cc/backend/codegen_expr.c', 'src/cc/backend/codegen.c', 'src/cc/builtin.c', 'src/ld/ld.c'], mech,
         'generated programs with a reference value (model or gcc), executed by a strict emulator',
         'Random search; the emulator models the user-mode instructions xcc emits and refuses everything else.',
         'lib/cexpr.py, callgen.py, flowgen.py, pressgen.py and cgen.py generate the programs of C01-C05; the %s build of xcc (cross driver, as, ld, libc) '
         'produces a static executable which emu/emu.c interprets: it stops on unknown encodings, misaligned SP, writes to text, and accesses outside '
         'the mapped areas; upper register halves start as garbage. 12 000 programs in about 40 s.' % name)


_cross('C11', 'riscv64', 'RISC-V (RV64)', ['src/cc/arch/riscv64/ir_riscv64.c', 'src/cc/arch/riscv64/emit_riscv64.c', 'src/as/arch/riscv64/asm_code.c'],
       [('instruction selection', 'src/cc/arch/riscv64/ir_riscv64.c'), ('prologue, frames', 'src/cc/arch/riscv64/emit_riscv64.c'),
        ('encoding', 'src/as/arch/riscv64')])
_cross('C12', 'aarch64', 'AArch64', ['src/cc/arch/aarch64/ir_aarch64.c', 'src/cc/arch/aarch64/emit_aarch64.c', 'src/as/arch/aarch64/asm_code.c'],
       [('instruction selection', 'src/cc/arch/aarch64/ir_aarch64.c'), ('prologue, frames', 'src/cc/arch/aarch64/emit_aarch64.c'),
        ('encoding', 'src/as/arch/aarch64')])

prop('C13', 'Macro expansion follows the C rules',
     'For every set of object-like, function-like and variadic macros and every text that uses them, the preprocessor (xcc -E, and the '
     'integrated preprocessing of .c files) replaces exactly what C11 6.10.3 prescribes: rescanning, arguments expanded by themselves, '
     '# and ## operands, no re-expansion of a name inside its own expansion, invocation across lines, spacing that stringification shows.',
     ['programs', 'inputs'], 'all macro definitions (recursive, nested, pasted, stringified, redefined) and all uses of them',
     'Tests expand about eighty fixed texts; the interaction of nesting, pasting, self reference and arguments that are themselves '
     'partial invocations is unbounded.',
     ['src/cpp/preprocessor.c', 'src/cpp/macro.c', 'src/cpp/pp_parser.c'],
     [('expansion and hide sets', 'src/cpp/macro.c: macro_expand_tokens, subst, glue'), ('arguments', 'src/cpp/pp_parser.c'), ('output', 'src/cpp/preprocessor.c')],
     'generated macro texts against a reference model and gcc',
     'Random search; the model is Prosser\'s algorithm (lib/ppmodel.py), the same as gcc on the generator; texts on which gcc and clang '
     'disagree are skipped.',
     'lib/ppgen.py generates definitions and invocations over a small name pool so that self reference, pasting into macro names and '
     'partial invocations are frequent. Outputs are compared as pp-token sequences. 18 000 texts in about 30 s.')

prop('C14', 'Directives select, include and number exactly the prescribed lines',
     'For every tree of source and header files, the preprocessor keeps exactly the lines that #if/#ifdef/#elif/#else select, evaluates '
     '#if expressions as C prescribes, finds headers by the documented search order (quotes, -I, -isystem, -idirafter, include_next, '
     '#pragma once), removes comments and splices lines, and attributes every line to its file and number (__LINE__, __FILE__, #line, markers).',
     ['programs', 'inputs'], 'all conditional nestings, #if expressions, header trees, search paths, comment and splice positions',
     'Tests use one or two directives at a time on fixed text; deep nesting, garbage in skipped groups and search order interplay are not sampled.',
     ['src/cpp/preprocessor.c', 'src/cpp/pp_parser.c'],
     [('conditionals and includes', 'src/cpp/preprocessor.c: process_directive, handle_include, search_sysinc'), ('#if expressions', 'src/cpp/pp_parser.c: pp_expr')],
     'generated file trees, differential against gcc -E and clang -E',
     'Random search; alarms only when clang agrees with gcc. Known finding: unsigned arithmetic in #if.',
     'Each case writes a tree of up to 7 files in 4 directories and compares the token sequence and the file/line every marker is '
     'attributed to. 18 000 trees in about 35 s.')

prop('C15', 'The x86-64 assembler encodes what is written',
     'For every assembly file the assembler accepts (every instruction form with any registers, immediates, displacements, '
     'index/scale, labels before or behind, near or far, in any section), the object file it writes stands for the same machine '
     'instructions, data, symbol attributes, section properties and, once linked, the same addresses as GNU as gives; a line that is '
     'no instruction, or that it cannot encode, is rejected with its line number, never dropped, encoded wrongly or crashed on.',
     ['inputs'], 'all instruction forms, operand values, label layouts and relaxation orders up to 90 instructions',
     'Tests assemble what the compiler happens to emit; high registers, byte registers, extreme displacements and jump relaxation at '
     'the 127/128 byte edges are rarely reached.',
     ['src/as', 'src/as/arch/x64'],
     [('instruction encodings', 'src/as/arch/x64/asm_code.c'), ('operand parsing', 'src/as/arch/x64/parse_x64.c'),
      ('jump relaxation and relocations', 'src/as/arch/x64/ir_asm_x64.c'), ('object file', 'src/as/emit_elf.c'), ('directives', 'src/as/parse_asm.c')],
     'generated assembly files, differential against GNU as (objects linked by GNU ld and disassembled)',
     'Random search; equality is judged on disassembly after linking at fixed addresses, so another encoding of the same instruction is accepted.',
     'props/p_c15.py with lib/asmx64.py (instruction generator) and lib/elf.py. Both objects are linked by GNU ld at fixed section '
     'addresses; instructions are aligned by the source, addresses compared as (label, offset), data bytes compared literally. '
     '13 000 files in about 35 s.')

prop('C16', 'The RISC-V and AArch64 assemblers encode what is written',
     'For every assembly file for RISC-V or AArch64 that the assembler accepts, each instruction in any of its forms (registers, immediates, '
     'offsets, shifts, conditions, load-immediate sequences, compressed or not) stands in the object file as the machine instructions that '
     'have the written meaning; an operand value the instruction cannot hold is rejected, never silently truncated; and once '
     'linked, every jump, branch, call, address and data reference reaches its label, forward or back, at any distance the program '
     'places it, with compressed and relaxed jumps.',
     ['inputs'], 'all instruction forms of both targets with operand values in and out of range, and label layouts with distances up to 1.2 MB',
     'The repository\'s tests run neither target; only the immediates a compiler happens to emit are ever assembled.',
     ['src/as/arch/riscv64', 'src/as/arch/aarch64', 'src/ld'],
     [('riscv64 encodings', 'src/as/arch/riscv64/asm_code.c'), ('aarch64 encodings', 'src/as/arch/aarch64/asm_code.c'),
      ('riscv64 relaxation', 'src/as/arch/riscv64/ir_asm_riscv64.c'), ('relocations', 'src/ld/ld.c')],
     'generated instructions, differential against LLVM\'s assembler and disassembler; generated jump mazes run in an emulator',
     'Random search; instructions are compared after disassembly with compressed ones expanded, and integer sequences that differ in form are '
     'compared by evaluating them, so another right encoding is accepted.',
     'props/p_c16.py with lib/asmrisc.py (instruction generators) and lib/mazegen.py (programs of labels with distances up to 1.2 MB, run by emu/emu.c: each block '
     'visited must print its number in the order the model computes) 3 200 files in about 35 s.')

prop('C17', 'The linker joins modules into the program they describe',
     'For every set of object files and archives, in every command-line order, ld produces an executable in which each reference means '
     'the definition the rules select (strong over weak over common, static names private to their module, archive members loaded when '
     'and only when they define something still undefined, the first member that does), every initialised and zero object holds its value '
     'with relocations and addends applied, objects are disjoint and aligned as asked, constructors and destructors all run, the entry '
     'symbol is used, the map file tells the true addresses; undefined and duplicate names are reported and produce no executable.',
     ['programs', 'inputs', 'histories'], 'all module contents, symbol bindings, section layouts, archive structures and link orders',
     'Tests link single programs against libc; interplay of weak, common, archive order, alignment and multi-module sections is not sampled.',
     ['src/ld', 'src/util/archive.c', 'src/util/elfutil.c'],
     [('symbol resolution and layout', 'src/ld/ld.c'), ('object files', 'src/ld/elfobj.c'), ('archives', 'src/util/archive.c')],
     'generated multi-module programs against a reference model of linking, confirmed with GNU ld',
     'Random search. An alarm is raised only where gcc+GNU ld behave as the model says; programs whose meaning depends on the unspecified '
     'order of loading within an archive are discarded (about 0.5%).',
     'lib/linkgen.py generates 1-14 modules (C and assembly), a link order, archives, an entry point and sometimes a fault (undefined or '
     'duplicate name), and models what is loaded, which definition each name means and what the program prints; props/p_c17.py builds it '
     'with xcc/as/ld, runs it in a freestanding start-up, and also checks disjointness and alignment of the printed addresses and the -Map '
     'file. 4 500 programs in about 40 s.')

prop('C18', 'The WebAssembly linker joins modules into the program they describe',
     'For every set of wasm object files and archives, in every command-line order, wcc produces a valid wasm module in which each reference means the definition the '
     'rules select (strong over weak over common, static names private to their module, archive members loaded when and only when they define something still '
     'undefined), every initialised and zero object holds its value with relocations and addends applied, function addresses are distinct and callable, objects are '
     'disjoint and aligned, constructors and destructors all run, exactly the asked names are exported; undefined and duplicate names are reported and produce no module.',
     ['programs', 'inputs', 'histories'], 'all module contents, symbol bindings, archive structures, export lists and link orders',
     'The tests link a handful of single programs against libc; weak, common, static and archive rules, addends and table indices across modules are not sampled.',
     ['src/wcc/wasm_linker.c', 'src/wcc/wasm_obj.c', 'src/wcc/main.c', 'src/wcc/emit_wasm.c', 'src/util/archive.c'],
     [('symbol resolution, renumbering and layout', 'src/wcc/wasm_linker.c'), ('object files', 'src/wcc/emit_wasm.c, src/wcc/wasm_linker.c: read_wasm_obj'), ('command line', 'src/wcc/main.c')],
     'generated multi-module programs against a reference model of linking, executed by Node',
     'Random search; Node validates and executes every module; unspecified loading order within one archive is avoided.',
     'lib/linkgen.py (as for C17, C modules only, with export lists) models what is loaded, which definition each name means and what the program prints; '
     'props/p_c18.py builds it with wcc, runs it, calls exported functions afterwards and looks at the export section. 3 200 programs in about 26 s.')

prop('C19', 'Formatted output follows the format exactly',
     'For every conversion specification the C library supports (flags, width, precision, length modifier, integer, character, '
     'string, pointer and floating conversions, *, %n, unknown text around them) and every argument, printf, fprintf, snprintf, '
     'sprintf and the v-variants of xcc\'s libc, native and wasm, write exactly the bytes C prescribes and return their count; '
     'snprintf never writes beyond its size.',
     ['inputs', 'histories'], 'all formats, argument values and buffer sizes',
     'Tests check a few dozen fixed formats; combinations of flags, precision and extreme values interact.',
     ['libsrc/stdio', 'include/stdio.h'],
     [('formatting', 'libsrc/stdio/vfprintf.c'), ('bounded output', 'libsrc/stdio/vsnprintf.c: vsnprintf, _memwrite'),
      ('memory streams', 'libsrc/stdio/open_memstream.c, libsrc/stdio/fmemopen.c')],
     'generated formats and arguments against an independent model of printf',
     'Random search; the model is exact rational arithmetic, and libc is executed natively and on wasm (Node).',
     'harness/libc_printf.c is compiled by the tree\'s xcc and wcc with the tree\'s libc; requests carry format, arguments and '
     'sink. props/p_c19.py formats the same in Python with exact fractions. 30 000 batches of up to 40 calls in about 30 s.')

prop('C20', 'String and character functions match their specification',
     'Every function of string.h, strings.h, ctype.h and libgen.h in xcc\'s libc, native and wasm, returns the specified value and '
     'changes exactly the bytes it is specified to change, for all strings, lengths, offsets and byte values, in any sequence of calls.',
     ['inputs', 'histories'], 'all byte contents, positions, lengths and call sequences inside an arena',
     'Tests call each function once or twice on ASCII words; boundary lengths, bytes above 127, empty strings and stateful '
     'tokenizing are not reachable from them.',
     ['libsrc/string', 'libsrc/misc', 'include/string.h', 'include/ctype.h'],
     [('string functions', 'libsrc/string/*.c'), ('ctype', 'libsrc/misc/ctype.c, include/ctype.h'), ('wasm memory functions', 'libsrc/string, src/wcc/gen_wasm.c')],
     'model-based testing: generated operation histories on a byte arena',
     'Random search over histories; the model is a Python bytearray; the whole arena is compared after each call.',
     'harness/libc_string.c executes a history of operations (chosen by bytes of the request) on an 80-byte arena and prints result '
     'and arena; props/p_c20.py predicts both. Overlaps C leaves undefined are skipped. 100 000 histories in about 30 s.')

prop('C21', 'Number conversion, sorting and allocation in stdlib are correct',
     'strtol/strtoul/strtoll/strtoull/atoi-family give the value, saturation and end position C prescribes in every base; strtod and '
     'atof convert accurately and stop where C says; qsort sorts and bsearch finds for every array; the allocator never overlaps, '
     'loses or corrupts live blocks over any history; rand48 follows its recurrence; natively and on wasm.',
     ['inputs', 'histories'], 'all texts, bases, arrays, element sizes and malloc/calloc/realloc/free histories',
     'Tests convert a few short numbers, sort one small array and never interleave allocation and release.',
     ['libsrc/stdlib', 'include/stdlib.h'],
     [('integer conversion', 'libsrc/stdlib/_strtoull_sub.c, strtol.c'), ('floating conversion', 'libsrc/stdlib/strtod.c'),
      ('allocator', 'libsrc/stdlib/malloc.c, realloc.c, calloc.c'), ('sorting', 'libsrc/stdlib/qsort.c, bsearch.c')],
     'model-based testing: generated inputs and allocation histories',
     'Random search; conversions are judged by exact integers/fractions (strtod within 8 ulps unless exactly representable paths).',
     'harness/libc_num.c runs requests from props/p_c21.py, natively and on wasm. Allocation histories use 64 slots, fill every '
     'block with a pattern and verify all of them. One known finding (strtoul of -ULONG_MAX). 60 000 batches in about 30 s.')

prop('C22', 'Streams behave as C and POSIX say over any history of operations',
     'Over any history of operations on streams of xcc\'s libc (fopen in every mode, fdopen, tmpfile, fmemopen, open_memstream, stdin; '
     'fread, fgetc, fgets, getline, ungetc, fwrite, fputc, fputs, fprintf, fseek, ftell, feof, fflush, fclose, remove, atexit, exit), each result, '
     'the bytes read, the positions reported, and the contents of every file during and after the program are those C and POSIX '
     'prescribe; data still buffered reaches its file when the program ends.',
     ['inputs', 'histories'], 'all histories within what C/POSIX define, block sizes around the buffer sizes included',
     'Tests do single operations on small files; errors need a position inside the buffers, switches of direction, or many streams.',
     ['libsrc/stdio/_file.c', 'libsrc/stdio/fdopen.c', 'libsrc/stdio/fmemopen.c', 'libsrc/stdio/open_memstream.c', 'libsrc/stdio/_fileman.c',
      'libsrc/stdlib/exit.c', 'libsrc/stdlib/atexit.c'],
     [('buffered reads and writes', 'libsrc/stdio/_file.c: _fread, _fwrite, _fflush, _fseek'), ('memory streams', 'libsrc/stdio/fmemopen.c; libsrc/stdio/open_memstream.c'),
      ('flush at exit', 'libsrc/stdio/_fileman.c; libsrc/stdlib/exit.c')],
     'stateful generation of operation histories, differential against glibc',
     'Random search; the generator tracks each stream\'s state and stays within defined behaviour.',
     'props/p_c22.py generates histories of up to 80 operations; harness/libc_stdio.c executes them, once built by xcc and once by '
     'gcc with glibc, in scratch directories of their own; answers, exit codes and all files are compared. 40000 histories in about 30 s.')

prop('C23', 'Constraint violations are reported at their line, valid programs are not',
     'For every translation unit, cc1 rejects it with a non-zero exit status, an error message naming the file and line of each constraint or syntax '
     'violation (through #include and #line as well) when it contains one, never by a crash or an abort, however many violations there are; and it accepts, without '
     'errors, a translation unit that contains none.',
     ['programs', 'inputs'], 'all placements, nestings and combinations of violations and of their valid look-alikes',
     'The tests have about a hundred single erroneous lines, mostly without looking at the message; recovery after an error, positions, and look-alikes that are valid are not sampled.',
     ['src/cc/frontend/parser.c', 'src/cc/frontend/parser_expr.c', 'src/cc/frontend/fe_misc.c', 'src/cc/frontend/initializer.c', 'src/cc/frontend/lexer.c', 'src/cc/frontend/type.c'],
     [('checks', 'src/cc/frontend/fe_misc.c, parser_expr.c, parser.c'), ('messages and recovery', 'src/cc/frontend/lexer.c: parse_error, show_error_line')],
     'generated units with planted violations and valid look-alikes against their known lines',
     'Random search; every fragment was classified with gcc -pedantic-errors; violations xcc has no diagnostic for by design (extensions) are not in the list.',
     'props/p_c23.py holds about 200 violating and 110 valid fragments with their lines; a unit places 0-4 violations among valid code inside blocks, '
     'loops, functions, headers and after #line. 24 000 units in about 25 s.')

prop('C24', 'The driver gives the same program by every route, and no output on failure',
     'Whichever way a project is put through xcc (several sources in one command, -c, -S, -E, with or without -o, standard input, the single tools by hand, objects, '
     'archives by name or -l/-L, -I/-isystem/-idirafter/-D/-U in any order), the resulting program is the same one, search orders are those documented, output files are '
     'where they should be and no others remain; when a step fails xcc says so with a non-zero exit status and no output file of that step remains.',
     ['programs', 'inputs', 'histories'], 'all routes, option orders, file names, directory structures and single faults',
     'The tests use two or three fixed command lines.',
     ['src/xcc/main.c', 'src/util/util.c', 'src/cpp/main.c', 'src/as/main.c', 'src/ld/main.c'],
     [('options and pipeline', 'src/xcc/main.c'), ('search order', 'src/cpp/preprocessor.c, src/xcc/main.c'), ('names of outputs', 'src/util/util.c: change_ext')],
     'generated projects and routes against a model of what they mean',
     'Random search; the program\'s output tells which headers and definitions were taken.',
     'props/p_c24.py generates headers of the same name in several directories, 1-5 sources, a route for each, an option order and sometimes a fault, and compares the '
     'printed values, the list of files and the exit status. 2 000 projects in about 18 s.')

prop('C25', 'No input text makes a tool access foreign memory, abort or hang',
     'Whatever bytes a source, header or assembly text consists of, cpp, cc1, as and wcc end with exit status 0 or an error exit within seconds: they read and write '
     'only inside their own live objects, dereference no null pointer, load no invalid values, fail none of their internal checks and do not run forever.',
     ['inputs'], 'all texts, in particular almost valid ones',
     'The tests feed valid programs and about a hundred short erroneous lines to an uninstrumented build.',
     ['src/cpp/preprocessor.c', 'src/cpp/pp_parser.c', 'src/cc/frontend/lexer.c', 'src/cc/frontend/parser.c', 'src/cc/frontend/parser_expr.c', 'src/cc/frontend/fe_misc.c',
      'src/cc/frontend/initializer.c', 'src/as/parse_asm.c', 'src/wcc/traverse.c'],
     [('recovery after errors', 'src/cc/frontend/parser.c, parser_expr.c'), ('end of input', 'src/cc/frontend/lexer.c, src/cpp/preprocessor.c, src/as/parse_asm.c')],
     'mutation fuzzing of structured texts against sanitizer builds with assertions',
     'Random search; AddressSanitizer and UBSan (null, bool, bounds) of gcc are the oracle, leaks, signed overflow and resource exhaustion by huge inputs are not judged.',
     'props/p_c25.py takes texts of the other generators, mutates up to 12 tokens, bytes, ranges or lines, and runs them through instrumented cpp, cc1 and as, or wcc; '
     '5 500 texts in about 30 s.')

prop('C28', 'Math functions are exact where exactness is defined, else accurate',
     'In xcc\'s libc, native and wasm, floor, ceil, round, fabs, copysign, modf, frexp, ldexp, sqrt and the classification functions '
     'return exactly the IEEE result for every bit pattern; fmod, exponential, logarithmic, power, trigonometric and hyperbolic '
     'functions are within 1e-8 of the true value on moderate arguments.',
     ['inputs'], 'all bit patterns for exact functions, dense samples of a moderate domain for the others',
     'Tests use a few round values with loose tolerance.',
     ['libsrc/math', 'include/math.h'],
     [('exact functions', 'libsrc/math/floor.c, ceil.c, round.c, modf.c, frexp.c, ldexp.c'), ('series', 'libsrc/math/exp.c, log.c, sin.c, pow.c')],
     'generated bit patterns against Python math / exact definitions',
     'Random search with structured bit patterns (subnormals, halves, powers of two, infinities, NaNs).',
     'harness/libc_math.c evaluates batches of 40 calls natively and on wasm; results compared bit for bit or within tolerance.')
