#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long text stays editable)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Integer and pointer expressions compute the value C requires",
  "For every well-defined expression over integer, enumeration and pointer operands, the compiled program computes exactly the value that the C standard and the x86-64 psABI require: arithmetic, shifts, comparisons, logical and conditional operators, casts, compound assignment, increment/decrement, pointer arithmetic, at every width and signedness and in every operand position (constant, variable, memory, call result). It performs each side effect exactly once, and values kept in temporaries survive the evaluation of the rest of the expression however deep it is.",
  ["programs", "inputs"], "all type-correct, UB-free integer/pointer expressions, all operand values",
  "tests check some hundreds of fixed expressions; instruction selection branches on operand widths, immediates and memory operands in combination",
  ["codegen.c", "parse.c", "type.c"],
  [("instruction selection and immediate folding", "codegen.c:gen_expr2,gen_gp_opt,imm_arith,divmod_opt,gen_cmp_opt_gp"), ("temporary register/stack allocation", "codegen.c:push_tmpstack,pop_gp"), ("usual arithmetic conversions", "type.c:add_type")],
  ["stdout of the compiled program"])
p("C02", "Constant evaluation agrees with run-time evaluation",
  "An expression that the compiler evaluates itself, as a static initialiser, array bound, enumerator, case label, bit-field width, _Static_assert operand, constexpr initialiser, folded operand of ordinary code or #if operand, has exactly the value (and, outside #if, the type) that the same expression has when it is computed at run time from variables holding the same values. Every constant context gives the same answer, for integer, floating and address constants alike.",
  ["programs", "inputs"], "all UB-free constant expressions over integer, floating and address constants, in every constant context",
  "tests fold a handful of constants per operator; the folder is a second implementation of C arithmetic with its own width and sign rules",
  ["parse.c", "preprocess.c", "type.c"],
  [("constant folder", "parse.c:eval2,eval_double,eval_sign_extend,eval_constexpr_data"), ("static data writer", "parse.c:write_gvar_data"), ("#if evaluator", "preprocess.c:eval_const_expr")],
  ["stdout of the compiled program", "accept/reject status of _Static_assert"])
p("C03", "Floating-point arithmetic and conversions are exact to the bit",
  "For float, double and long double, compiled arithmetic, comparison (including NaN, infinities, signed zero and subnormals), negation, compound assignment, and every conversion between integer and floating types in range produce bit-for-bit the IEEE/x87 result that the reference compilers produce for x86-64. Floating literals in every notation denote the nearest representable value of their type.",
  ["programs", "inputs"], "all operand values (special values included), all pairs of arithmetic types, all expression shapes",
  "tests use a few ordinary values; conversions of unsigned 64-bit, NaN comparisons in jump position and x87 stack handling depend on value and context",
  ["codegen.c", "parse.c", "tokenize.c"],
  [("cast table", "codegen.c:getTypeId,gen_cast"), ("fp load/compare/arith", "codegen.c:load_fval,gen_cmp_zero,gen_cond,gen_expr2"), ("x87 stack temporaries", "codegen.c:push_x87,pop_x87"), ("literals", "tokenize.c:convert_pp_number")],
  ["stdout of the compiled program"])
p("C04", "Control flow executes statements in the order C prescribes",
  "For every program built from if/else, loops, switch (case ranges, fall-through, nested and duff-style labels), goto and computed goto, break/continue (including labelled ones), return, short-circuit conditions and statement expressions, the compiled program executes exactly the statements the language prescribes, in that order, with the right variable values, and ends with the right result.",
  ["programs", "inputs"], "all terminating, well-defined control-flow graphs expressible with these statements",
  "tests hold a few fixed shapes of each statement; jumps, case selection and label resolution interact with nesting and value width",
  ["parse.c", "codegen.c"],
  [("statement parsing, labels, switch contexts", "parse.c:stmt,label_stmt,resolve_labeled_jump,resolve_goto_labels,loop_body"), ("branch generation", "codegen.c:gen_stmt,gen_cond,gen_logical")],
  ["trace printed by the compiled program"])
p("C05", "Scope exits run cleanups, defers and VLA release exactly once in order",
  "On every way out of a scope (fall-through, break, continue, goto, return, end of a statement expression, switch dispatch) exactly the cleanup handlers and deferred statements that are active run, once each, in reverse order of activation, and after the returned value has been computed. Variable-length arrays have the size evaluated at their declaration, are disjoint and suitably aligned, and their stack storage is released when their scope is left, so that loops do not grow the stack (unless stack reuse is switched off, or the function uses alloca or label addresses, where they live on to the function's end); memory from alloca stays intact for the rest of the function.",
  ["programs", "inputs"], "all nestings of scopes with cleanup attributes, defer statements and VLAs, all exit paths",
  "tests cover single examples of each exit; the list of things to unwind is computed per jump from nested contexts",
  ["parse.c", "codegen.c"],
  [("defer list and jump unwinding", "parse.c:new_defr,leave_block_scope,resolve_goto_labels,defr_cleanup"), ("defer emission, VLA dealloc", "codegen.c:gen_defr,has_defr"), ("VLA sizes", "parse.c:compute_vla_size,new_vla")],
  ["trace printed by the compiled program"])
p("C06", "Type layout (size, alignment, offsets) follows the platform ABI",
  "For every declarable object type (scalars, enums with or without fixed underlying type, arrays, nested and anonymous structs and unions, bit-fields incl. zero-width and unnamed, flexible arrays, packed and aligned attributes, _Alignas), sizeof, _Alignof, offsetof, member access and array strides agree with the ABI that the system compilers implement, so that separately compiled objects can share data.",
  ["programs"], "all combinations of member types, bit-field widths, packing and alignment specifiers, nestings",
  "tests check some dozens of fixed structs; layout depends on member order, bit-field widths and attribute placement",
  ["parse.c", "type.c"],
  [("struct/union layout", "parse.c:struct_decl,union_decl,struct_members,attr_aligned"), ("types", "type.c:array_of,new_type"), ("offsetof", "parse.c:primary (__builtin_offsetof)")],
  ["stdout of the compiled program", "bytes of shared objects"])
p("C07", "Bit-field accesses read and write exactly their own bits",
  "Reading a bit-field yields the last value stored to it, reduced to its width and signedness; writing one (by assignment, compound assignment, increment, initialisation or from a larger expression) changes exactly its bits and leaves every other bit of the object unchanged, and the assignment expression has the value of the stored field. This holds for every width, offset, storage type, packing and access path.",
  ["programs", "histories"], "all bit-field layouts and all sequences of reads and writes on them",
  "tests write a few fields of a few fixed layouts; straddling, full-width and packed fields take distinct code paths",
  ["codegen.c", "parse.c", "type.c"],
  [("bit-field load/store", "codegen.c:gen_bitfield_load,gen_bitfield_store"), ("promotion", "type.c:int_promotion,is_bitfield2"), ("static init", "parse.c:write_gvar_data")],
  ["byte image of the object printed by the program"])
p("C08", "Initialisers set every element to the value C prescribes",
  "For every initialiser (nested or elided braces, designators incl. ranges and overriding, strings of every width, compound literals, flexible arrays, unions, bit-fields, struct-valued elements, addresses with offsets, empty braces), the initialised object holds the prescribed value in every member and zero elsewhere. The same initialiser gives the same object with static, automatic and compound-literal storage, and infers the same array length.",
  ["programs"], "all aggregate types and all well-formed initialisers for them, in each storage class",
  "tests fix a list of initialisers; brace elision, designator continuation and overriding interact recursively",
  ["parse.c", "codegen.c"],
  [("initialiser parser", "parse.c:initializer2,braced_initializer,list_initializer,designation,string_initializer"), ("local code", "parse.c:create_lvar_init,lvar_initializer"), ("static data", "parse.c:write_gvar_data; codegen.c:emit_data")],
  ["member values and byte image printed by the program"])
p("C09", "Calls follow the System V x86-64 ABI in both directions",
  "A function compiled by slimcc and one compiled by the system compiler can call each other with any parameter and return types (integers of every width, floats, long double, pointers, _Bool, structs and unions of any size and composition, more arguments than registers, function pointers, old-style definitions): every argument and return value arrives unchanged, callee-saved registers are preserved, the stack is aligned at the call, and struct arguments are copies.",
  ["programs", "inputs"], "all function signatures, argument values, call depths and both directions of call",
  "tests call a fixed set of signatures; classification of eightbytes and register exhaustion depends on the whole parameter list",
  ["codegen.c", "parse.c"],
  [("argument classification", "codegen.c:calling_convention,has_flonum,gen_funcall_args,place_reg_arg"), ("struct return", "codegen.c:copy_ret_buffer,copy_struct_reg,copy_struct_mem"), ("prologue", "codegen.c:emit_text")],
  ["values printed on both sides of a mixed-compiler link"])
p("C10", "Variadic functions see their arguments intact and in order",
  "A variadic function, whether called from slimcc or system-compiled code, retrieves with va_arg every argument of any type (promoted integers, doubles, long doubles, pointers, structs of any class, over-aligned ones included) in order and unchanged; va_copy duplicates the position, va_list can be passed to other functions including the C library's, and named parameters do not disturb it.",
  ["programs", "inputs"], "all argument lists, named-parameter prefixes, and interleavings of va_arg/va_copy/va_list passing",
  "tests have a few printf-like calls; register save area exhaustion and struct fetching depend on the whole sequence",
  ["codegen.c", "parse.c", "include/stdarg.h"],
  [("va_start/va_arg", "codegen.c:gen_vaarg_reg_copy,ND_VA_START,ND_VA_ARG,va_arg_need_copy"), ("save area", "codegen.c:emit_text")],
  ["values printed by mixed-compiler programs"])
p("C11", "Memory, aggregates and lvalues behave as C prescribes in whole programs",
  "For every well-defined single-threaded program mixing scalars, arrays, structs, unions, pointers, function pointers, static/global/local/volatile objects, struct assignment, struct-valued calls and conditionals, string operations and recursion, the observable output equals that of the reference compilers. No store touches an object other than its target and locals keep their values for their whole lifetime, also when stack slots are reused.",
  ["programs", "inputs"], "all well-defined sequential C programs of this kind",
  "tests are small fixed programs; wrong stack-slot sharing, copy sizes or address folding show only in particular combinations",
  ["codegen.c", "parse.c", "type.c"],
  [("stack slots and reuse", "codegen.c:assign_lvar_offsets"), ("address folding", "codegen.c:gen_addr,eval_memop,gen_deref_opt,gen_member_opt; parse.c:eval_var_opt"), ("aggregate copy/zero", "codegen.c:gen_mem_copy2,gen_mem_zero,store3")],
  ["checksums printed by the compiled program"])
p("C12", "Every expression and declaration has the type C assigns to it",
  "For every expression, the type seen by sizeof, _Alignof, _Generic, typeof, typeof_unqual, auto/__auto_type and __builtin_types_compatible_p is the type the standard assigns (promotions, usual arithmetic conversions, pointer composites, qualifiers, literal types, bit-field promotion, array/function decay, enum types). Every declarator, however nested, declares the type that C reads it as.",
  ["programs"], "all expressions and all declarators over the supported types",
  "tests check a table of cases; the type of an expression depends recursively on its operands",
  ["type.c", "parse.c", "tokenize.c"],
  [("typing", "type.c:add_type,get_common_type,int_promotion,is_compatible"), ("declarators", "parse.c:declspec,declarator,type_suffix,typeof_specifier,generic_selection")],
  ["selected _Generic branch printed by the program"])
p("C13", "Tokens and literals mean what C says for every spelling",
  "Every integer, character, and string literal (all bases, suffixes, digit separators, escapes, prefixes L u U u8, UTF-8 and universal characters, adjacent literal concatenation) has the value, type, element width and length that the standard gives it. Maximal munch, comments, line splices, CR/LF conventions and Unicode identifiers are handled so that the token sequence is the prescribed one.",
  ["inputs"], "all spellings of literals, and all placements of comments, splices and newline conventions between or inside tokens",
  "tests list particular literals; conversions depend on value ranges, suffixes, encodings and adjacent tokens",
  ["tokenize.c", "unicode.c", "preprocess.c"],
  [("literals", "tokenize.c:convert_pp_int,read_escaped_char,read_char_literal,read_utf16_string_literal"), ("phases 1-3", "tokenize.c:canonicalize_newline,remove_backslash_newline,convert_universal_chars,read_punct"), ("concatenation", "preprocess.c:join_adjacent_string_literals"), ("UTF-8", "unicode.c:encode_utf8,decode_utf8,is_ident1")],
  ["values printed by the compiled program", "-E token stream"])
p("C14", "Macro expansion yields the token sequence the standard prescribes",
  "For every set of object-like and function-like macro definitions and every invocation (nested, recursive, spanning lines, with empty or missing arguments, # and ##, variadic, __VA_OPT__, GNU comma deletion, redefinition and #undef between uses, macros whose expansion ends in another macro's name), preprocessing produces the same token sequence as the reference preprocessors, stringized spacing included.",
  ["inputs", "histories"], "all sequences of definitions and uses whose result the standard specifies",
  "tests contain the classic examples; rescanning, painting and argument pre-expansion interact recursively",
  ["preprocess.c"],
  [("expansion", "preprocess.c:expand_macro,subst,insert_objlike,insert_funclike,prepare_funclike_args,expand_arg"), ("no-reexpansion locks", "preprocess.c:push_macro_lock,pop_macro_lock"), ("# and ##", "preprocess.c:stringize,paste,join_tokens")],
  ["-E output, tokenised"])
p("C15", "Conditionals, includes and directives select exactly the right text",
  "Preprocessing keeps exactly the source lines that the standard selects, for any nesting of #if/#ifdef/#elif/#elifdef/#else/#endif with any controlling expression (defined, __has_include, macros, 64-bit arithmetic), any include graph (quote and angle search order, -I/-isystem/-idirafter/-include, #include_next, computed includes, include guards, #pragma once), and #define/#undef history. A file is skipped on re-inclusion only if reading it again would contribute nothing, and __LINE__, __FILE__ and __COUNTER__ have the prescribed values.",
  ["inputs", "histories", "configurations"], "all directive nestings, include graphs and search-path configurations",
  "tests include a few headers once; guard detection, search order and skipping depend on the graph and on history",
  ["preprocess.c", "tokenize.c", "main.c"],
  [("directives", "preprocess.c:directives,skip_cond_incl,eval_const_expr"), ("include search and guards", "preprocess.c:search_include_paths2,include_file,search_include_next"), ("path list", "main.c:parse_args,add_include_path")],
  ["-E output, tokenised"])
p("C16", "Source rewrites that C defines as neutral do not change the program",
  "Compiling a file gives the same code as compiling its own -E output (as a separate step, or with -include and -D replaced by their textual equivalents). Replacing white space, comments, line splices, newline style, digraph-free token spacing or redundant parentheses, or wrapping tokens in macros that expand to them, gives the same code as well.",
  ["programs", "inputs"], "all accepted programs and all such rewrites",
  "no test compares two compilations of one program; token flags, locations and macro bookkeeping could leak into code",
  ["preprocess.c", "tokenize.c", "main.c"],
  [("-E printer", "main.c:print_tokens"), ("line markers", "preprocess.c:read_line_marker"), ("tokenizer flags", "tokenize.c:tokenize")],
  ["-S output, or behaviour of the compiled program"])
p("C17", "Code-generation options never change what a program does",
  "The observable behaviour of a well-defined program is the same with -O0, -O1 and above, -fstack-reuse=all/none, -g, -fPIC/-fpic, -fPIE/-fpie, -fno-pic, -static, -static-pie, -shared linking, -ffunction-sections/-fdata-sections, -fcommon/-fno-common, every -std level that accepts it, and their combinations.",
  ["programs", "configurations"], "all well-defined programs, all combinations of these options",
  "the suite runs with one option set only; addressing modes, TLS access, stack layout and peepholes are selected by options",
  ["codegen.c", "main.c", "parse.c"],
  [("option-dependent code", "codegen.c:use_rip,gen_addr,gen_expr_opt,assign_lvar_offsets,emit_data"), ("option parsing", "main.c:parse_args"), ("link modes", "main.c:run_linker_gnustyle")],
  ["stdout and exit status of the built program per option set"])
p("C18", "Compilation is deterministic and self-hosting reproduces it",
  "For every input the generated assembly is a function of the input and the options alone: repeated runs, different memory layout, environment or directory, one file compiled alone or along with others in one invocation, and the memory-reclaiming mode that large inputs trigger, all give byte-identical output. The compiler built by itself (and its sanitizer build) accepts the same inputs and produces byte-identical output.",
  ["inputs", "configurations"], "all inputs, all build stages and run environments",
  "tests check programs' results only, never that two compilations agree; use-after-free and uninitialised reads show as nondeterminism only on some inputs",
  ["alloc.c", "preprocess.c", "parse.c", "codegen.c", "main.c"],
  [("arena reuse and token freeing", "alloc.c; parse.c:free_parsed_tok; preprocess.c"), ("self-hosting", "Makefile stage2")],
  ["bytes of -S output"])
p("C19", "Any input is compiled or rejected cleanly, never crashing the compiler",
  "For every finite source text (valid, invalid, truncated, mutated, with any bytes) of moderate size and nesting, the compiler terminates and either exits 0 having written complete output that the assembler accepts, or exits 1 having printed a diagnostic on stderr. It never dies from a signal, hits an internal error, accesses memory out of bounds or after free, or hangs.",
  ["inputs"], "all byte strings as source files, biased to near-valid C",
  "tests only feed valid programs; error paths and malformed constructs are never executed",
  ["tokenize.c", "preprocess.c", "parse.c", "type.c", "codegen.c", "unicode.c"],
  [("diagnostics", "tokenize.c:error_tok,verror_at_tok"), ("parser checks", "parse.c"), ("lexer bounds", "tokenize.c:tokenize,string_literal_end")],
  ["exit status, stderr, sanitizer reports"])
p("C20", "Ill-formed programs are rejected with a diagnostic at the right place",
  "A program that breaks a rule the compiler claims to enforce (undeclared names, false _Static_assert, #error, incompatible or missing members, duplicate labels/cases, non-constant where a constant is required, assignment to const or to a non-lvalue, invalid operands or casts, wrong argument counts, unterminated constructs, bad directives, and the like) makes the compiler exit non-zero with a diagnostic naming the offending file and line, wherever in an otherwise valid program the error stands. The same program without the error is accepted.",
  ["programs"], "all placements of each kind of error in valid programs, incl. inside macros, includes and after #line",
  "tests never compile an invalid program; missing checks and wrong positions go unseen",
  ["parse.c", "preprocess.c", "tokenize.c"],
  [("constraint checks", "parse.c: error_tok call sites; type.c"), ("positions", "tokenize.c:verror_at_tok,add_line_numbers; preprocess.c:directives (#line)")],
  ["exit status and first diagnostic line"])
p("C21", "The driver honours its options, and success means complete output",
  "For every command line of supported options and input kinds, the driver runs exactly the requested stages, passes options through in order, writes each output under the documented name, and emits dependency lists naming exactly the files read. If any stage fails (unreadable input, missing tool, failing assembler or linker, unwritable or full output device) the exit status is non-zero; no temporary file remains, and exit status 0 means that every requested output is complete.",
  ["configurations", "fault_sequences"], "all combinations of mode options, inputs, outputs and stage failures",
  "tests check one option at a time and no failing stage",
  ["main.c", "platform/linux-glibc-generic.c"],
  [("driver", "main.c:main,parse_args,run_subprocess,run_cc1,create_tmpfile,cleanup"), ("dependencies", "main.c:print_dependencies,quote_makefile"), ("output", "main.c:open_file; codegen.c:codegen")],
  ["files written, exit status, arguments received by stub tools"])
p("C22", "Symbols have the linkage, binding and placement their declarations give",
  "For every set of declarations and definitions of file- and block-scope names (extern, static, inline variants, tentative definitions, thread-local, weak, alias, visibility, section, constructors/destructors with priorities, asm names), the object file defines, imports or omits exactly the symbols the language and the GNU attributes require, with the right binding, size, section and initial contents. Linked with objects of the system compiler, every reference reaches its definition, and constructors and destructors run in priority order.",
  ["programs", "configurations"], "all sequences of compatible declarations per name, across translation units and linking modes",
  "tests hold single examples; linkage is the result of merging a history of declarations",
  ["parse.c", "codegen.c"],
  [("declaration merging", "parse.c:global_declaration,func_prototype,find_func,symbol_attr,func_attr,mark_fn_live"), ("emission", "codegen.c:emit_symbol,emit_data,emit_text,emit_cdtor")],
  ["nm/readelf symbol table", "behaviour of the linked program"])
p("C23", "Atomic operations are indivisible and compute the right values",
  "Every operation on _Atomic objects (load, store, compound assignment, ++/--, exchange, compare-exchange, fetch-and-op, flag operations, on all integer widths, pointers, floating types, bool and members of structs) returns and stores the value the standard defines. When several threads apply such operations to one object, no update is lost and the result equals that of some sequential order.",
  ["programs", "schedules"], "all operations, types and operand values; thread interleavings as the hardware and scheduler produce them",
  "tests run two fixed counters; a non-atomic or wrong-width sequence is right when single-threaded",
  ["parse.c", "codegen.c", "include/stdatomic.h"],
  [("read-modify-write loop", "parse.c:atomic_op,to_assign"), ("cas/xchg", "codegen.c:ND_CAS,ND_EXCH"), ("header", "include/stdatomic.h")],
  ["values printed by single- and multi-threaded programs"])
p("C24", "Inline assembly gets its operands and clobbers nothing it did not declare",
  "For every asm statement with supported constraints (registers of each class, specific registers, memory, immediates, matching, read-write, early-clobber and flag outputs, named operands, modifiers, clobber lists, asm goto), the template sees each input's value in the promised place, each output receives the value left in its place, distinct operands do not share a place unless allowed, and all other live values of the program are preserved.",
  ["programs", "inputs"], "all operand lists that fit the machine's registers, operand types and values",
  "tests cover single constraint combinations; register assignment is a constraint search over the whole operand list",
  ["codegen.c", "parse.c"],
  [("operand assignment", "codegen.c:prepare_inline_asm,asm_constraint,asm_assign_oprands"), ("moves in/out", "codegen.c:asm_reg_input,asm_reg_output,asm_body,gen_asm")],
  ["stdout of the compiled program"])
p("C25", "Names resolve to the innermost visible declaration at any scale",
  "Each use of an identifier refers to the declaration that C's scope, name-space and linkage rules designate (blocks, for-init and condition declarations, prototypes, struct tags, members, labels, enum constants, typedef names shadowing and being shadowed), for any number and spelling of names. The symbol table behind it behaves as a map: after any history of insertions, replacements and deletions each key maps to its last value and nothing else is found.",
  ["programs", "histories"], "all scope structures and all operation histories on the table, incl. colliding and deleted keys",
  "tests use a few names per scope and one fixed sequence on the table",
  ["hashmap.c", "parse.c"],
  [("hash table", "hashmap.c:hashmap_get2,hashmap_put2,hashmap_delete2"), ("scopes", "parse.c:find_var,find_tag,push_scope,enter_scope,leave_scope")],
  ["values printed by the compiled program", "results of the table API"])
p("C26", "Reported source positions are the true ones",
  "__LINE__, __FILE__, diagnostics (errors and warnings), -E line markers and the -g line table attribute each token, message and instruction to the file and line it came from, after any combination of includes, line splices, multi-line macro calls, comments and #line directives.",
  ["inputs"], "all placements of position-revealing constructs in all such source layouts",
  "tests check __LINE__ once or twice; line accounting is incremental over the whole file",
  ["tokenize.c", "preprocess.c", "codegen.c", "main.c"],
  [("line accounting", "tokenize.c:add_line_numbers,remove_backslash_newline"), ("#line", "preprocess.c:read_line_marker,line_macro"), ("debug lines", "codegen.c:print_loc")],
  ["-E output, stderr, decoded DWARF line table"])
p("C27", "#embed yields exactly the bytes of the file",
  "For every file content and every combination of limit, prefix, suffix and if_empty parameters (macro-expanded where allowed), #embed expands to the comma-separated byte values of the (limited) file with the prefix, suffix or replacement in place, wherever a list of constants may stand, and __has_embed reports found, empty or not found accordingly. The search rules are those of #include.",
  ["inputs"], "all file contents and sizes, parameter combinations and contexts",
  "tests embed two small files",
  ["preprocess.c"],
  [("embed", "preprocess.c:embed_file,has_embed_macro,split_paren")],
  ["array contents printed by the compiled program", "-E output"])
with open("/verif/properties.jsonl", "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
print(len(P))
for r in P:
    assert len(r["title"]) <= 80, r["title"]
