#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator only so that the text is easy to edit)."""
import json,os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

prop("C01","Garbage collection is invisible to programs",
"Whatever a program can still reach - through variables, closures, pending calls and their arguments, exception handlers, methods, module and class tables, or data already computed but not yet used - keeps its identity and its contents across every garbage collection. A program therefore gives the same results and the same output no matter at which points, and how often, collections happen.",
["schedules","programs","histories"],"every heap graph, and every placement of collections among the safepoints of a program",
"The tests run far too little allocation for a collection to happen at more than a few accidental points; each shape of reference would have to be live exactly when one happens.",
["lib/garbage-collection.c","lib/allocator.c","lib/vm.c","lib/symbol.c"],
[("mark phase over roots, sweep, free lists","lib/garbage-collection.c: lGarbageCollect and the l*GCMark functions"),("safepoints","lib/vm.c: lGarbageCollectIfNecessary at jumps, calls, eval, handler entry")],
[("mark maps","which cells are live, marked or free","lib/garbage-collection.c, lib/allocator.c"),("thread","value stack, closure stack and running text: the roots","lib/vm.c")],
["result and output of a program under a forced collection schedule","dump of the heap graph before and after a collection"],
"collect at every n-th safepoint and scribble over freed cells (NUJEL_VERIF)")

prop("C02","Garbage is reclaimed, and no cell is handed out twice",
"A program whose reachable data stays bounded can allocate for as long as it likes, of every kind of object (pairs, closures, trees, arrays, buffers, views, symbols, code), without ever running out of memory cells. Every cell that is unreachable is available again after a collection, and a cell is never given to two owners at the same time.",
["histories","programs"],"all allocation histories with bounded live data, for each kind of heap object",
"A leaked root or an unswept kind only shows after hundreds of thousands of allocations of one kind, and a cell handed out twice only when two particular objects are alive together; tests are short.",
["lib/allocator.c","lib/garbage-collection.c","lib/symbol.c","lib/buffer.c","lib/array.c"],
[("free lists and bump pointers","lib/allocator.c"),("sweep of every kind, freeing of malloc'ed payloads","lib/garbage-collection.c")],
[("free list","cells that may be handed out","lib/allocator.c")],
["exit status of long allocation histories","number of live and free cells per kind after a collection"])

prop("C03","Two symbols are the same exactly when their names are the same",
"Two symbols (or two keywords), however obtained - read from text, converted from a string, generated, loaded from an image, or kept across garbage collections and any amount of symbol churn - are identical if and only if their names are equal byte for byte. Names of up to 93 bytes are kept in full, and a live symbol's name never changes.",
["histories","inputs"],"all histories of creating, dropping and re-creating symbols, over all names",
"Deletion from the name index only goes wrong for particular collision chains after particular collections; tests never delete a symbol and look up another one in the same chain.",
["lib/symbol.c","lib/garbage-collection.c","lib/reader.c"],
[("name index with deletion markers","lib/symbol.c: lSymbolIndexSlot, lSymbolFree")],
[("symbol index","hash table from name to symbol","lib/symbol.c")],
["= on symbols", "identity of interned symbols in the C interface"])

prop("C04","Trees are maps, with one current value per key",
"After any sequence of insertions and updates, looking up a key in a tree gives the value most recently stored under it, or nil if there was none; membership, length, and the lists of keys and of values (which correspond to each other position by position) describe exactly the keys stored. A clone is independent of its original, immutable tree literals reject every modification and keep their contents, two trees are equal exactly when their entries are, and the depth of a tree of n keys stays below 1.45 * log2(n + 2), in whatever order they were inserted.",
["histories","inputs"],"all sequences of tree operations over all key sets, in every insertion order",
"The rotations taken depend on the relative order of keys (which is the order of symbol creation); tests use a handful of keys in a few orders.",
["lib/tree.c","lib/generic.c","stdlib/collections/tree.nuj","lib/reader.c"],
[("balanced insertion","lib/tree.c: lTreeInsert, rotations, balance"),("immutability flag","lib/generic.c, lib/tree.c")],
[("tree nodes","key, value, children, height","lib/tree.c")],
["ref, set!, has?, length, keys, values, clone, key*/left*/right* of a tree"])

prop("C05","Programs mean what the lexically scoped evaluation rules say",
"Evaluating any program built from literals, variables, definitions, assignment, let, conditionals, and/or, loops, case/cond/when, early return, functions and calls gives the value and the side effects, each exactly once and in left-to-right order, that the language's evaluation rules prescribe. Functions see the variables of the place where they were defined - each activation has its own - and share updates with every other function that captured them; only nil and false count as false; assigning or reading an unbound variable is an error.",
["programs"],"every program of the core language, in every nesting of its forms",
"The compiler, assembler and virtual machine are exercised by a few hundred fixed programs; interactions between forms (a return inside a loop inside a let inside a try, a closure captured per iteration, a scope restored after an early exit) are combinatorial.",
["lib/vm.c","lib/closure.c","stdlib/compiler/backend_bytecode/compiler.nuj","stdlib/compiler/backend_bytecode/assembler.nuj","stdlib/core/flow.nuj","stdlib/core/core.nuj"],
[("code generation per form","stdlib/compiler/backend_bytecode/compiler.nuj"),("virtual machine","lib/vm.c: lVMRun"),("closures","lib/closure.c")],
[("value stack, closure stack","operands and scopes of the running code","lib/vm.c")],
["value, output trace and error of a program"])

prop("C06","An exception reaches the innermost handler, once, with state restored",
"A thrown value - by the program, by a built-in operation or by a missing variable or method - is passed to the innermost handler that encloses the point of the throw in the current chain of calls, which runs exactly once, in the context of its try form, and its result becomes the value of that form. After that, variables, pending computations of the surrounding code and enclosing handlers are as if the abandoned part had simply ended there: updates made before the throw stay, nothing after it happens, and an exception thrown by a handler goes to the next enclosing one.",
["programs","fault_sequences"],"every program with throws placed at any point, at any depth of calls, loops, scopes and handlers",
"Each test throws from one shallow place; wrong unwinding only shows with pending operands on the stack, nested scopes, or handlers that throw or return themselves.",
["lib/vm.c","stdlib/compiler/backend_bytecode/compiler.nuj","lib/core-operators.c"],
[("handler scopes and unwinding","lib/vm.c: lopTry, throwException, lopReturn")],
[("closure stack","active calls, scopes and handlers","lib/vm.c")],
["value, output trace and error of a program"])

prop("C07","Calls bind arguments by position, however the call is made",
"A call evaluates its operator and arguments left to right exactly once and binds them by position: parameters without an argument are nil, surplus arguments are ignored, and a rest parameter receives a list of exactly the remaining arguments in order (nil if none). This holds for functions, closures, built-ins and methods alike, and apply with a list of arguments behaves as the direct call with those arguments does; calling something that is not a function is an error.",
["programs","inputs"],"every parameter list shape against every number of arguments, called directly, through variables, through apply, and as methods",
"Tests call functions with the arity they were written for; mismatches of count and shape on each call path (direct, optimised, applied, method, native) are hardly sampled.",
["lib/vm.c","lib/closure.c","lib/core-operators.c","stdlib/compiler/backend_bytecode/compiler.nuj"],
[("argument binding","lib/vm.c: lambda call and apply, native call padding")],(),["value and output trace of a call"])

prop("C08","Arithmetic and comparison obey one rule table, folded or not",
"Every arithmetic, comparison, bitwise and numeric conversion operation gives the result fixed by one table over the types and values of its operands: 64-bit two's complement integers, conversion to the nearest float when mixed, and a catchable error (never a crash, never an infinite or not-a-number value) where the operation is undefined for the operands. The result or error is the same whether the operation is computed at compile time from constants, executed in compiled code on variables, called through a function value, or applied.",
["inputs","programs"],"all operand types and values, boundary integers included, for every numeric operation on every evaluation path",
"The same operation is implemented up to three times (native function, virtual machine instruction, constant folding); tests mostly use literal operands, which the folder computes, so that the instruction for variables is hardly tested.",
["lib/arithmetic.c","lib/vm.c","lib/generic.c","stdlib/compiler/frontend/constant_folding.nuj","stdlib/core/predicates.nuj","stdlib/math/math.nuj"],
[("native operators","lib/arithmetic.c"),("instructions","lib/vm.c"),("folding","stdlib/compiler/frontend/constant_folding.nuj")],(),["value or error of each operation"])

prop("C09","The meaning of code does not depend on its size or depth",
"Code keeps its meaning however large it grows: any number of distinct constants and variables in one function, branches and loops over bodies of any length up to the documented limits, any number of call arguments, and nesting or recursion thousands of calls deep, inside scopes and handlers, give the same results as the same construct in a small program. Where a size limit of the machine is exceeded the program is rejected or ends with an error; it never gives a wrong result.",
["programs","configurations"],"the evaluation rules at every program size, in particular across each encoding and capacity boundary",
"All test programs are small: the wide instruction encodings (more than 256 constants), long branches and the growth of the machine's stacks are exercised by almost none of them.",
["stdlib/compiler/backend_bytecode/assembler.nuj","stdlib/compiler/backend_bytecode/compiler.nuj","lib/vm.c"],
[("wide instructions","lib/vm.c: *Ext opcodes"),("stack growth","lib/vm.c"),("branch offsets","stdlib/compiler/backend_bytecode/assembler.nuj")],(),["value of a program padded to a size"])

prop("C10","Saving a value to an image and loading it gives an equal value",
"Serialising any value made of nil, booleans, numbers, symbols, keywords, strings, buffers, views, lists, arrays, trees, functions, macros and environments and deserialising the result gives a value with the same types, contents, mutability, and sharing (objects that were one object are one object, cycles included), whose functions behave identically. It works for every content: all integer widths and signs, all bytes, empty and nested containers, in any number of saves and loads one after the other.",
["inputs","histories"],"all object graphs over the serialisable types",
"The tests load the two system images and a few values; identity of shared parts, cycles and the width boundaries of the encodings are not compared.",
["lib/imageWriter.c","lib/imageReader.c"],
[("writer maps for sharing","lib/imageWriter.c"),("reader maps","lib/imageReader.c")],(),["graph reachable from a value before and after"])

prop("C11","The reader turns text into data by one grammar, and rejects the rest",
"Reading any text yields exactly the sequence of values that the grammar assigns to it - integers in every base (decimal ones of up to 18 digits), floats, strings with escapes, symbols, keywords, lists and dotted pairs, arrays, trees, quoting shorthands, comments and whitespace in any combination - and a catchable error if it is not in the grammar. It never crashes, never reads past the end of the text, and never drops, duplicates or merges adjacent elements.",
["inputs"],"all texts",
"Tests parse a fixed list of snippets; the reader's behaviour on the other byte sequences (nesting, adjacency of delimiters, unterminated forms, long tokens crossing its buffer sizes) is unbounded.",
["lib/reader.c","lib/special.c"],
[("recursive descent reader","lib/reader.c")],(),["value or error of read"])

prop("C12","Printed data reads back as the same data",
"Writing any value made of nil, booleans, integers of up to 18 digits, decimal fractions within the printing precision, symbols, keywords, strings with any characters, lists (proper, dotted and nested), arrays, trees and quoted forms, and reading the resulting text gives a value equal to the original in structure, types and contents. Displaying shows strings without quoting, nil as nothing and buffers in short, and otherwise agrees with writing.",
["inputs"],"all printable values",
"Round trips are tested on a few values; escaping, negative and extreme numbers, empty and singleton containers and quoting shorthands in every nesting are not.",
["stdlib/string/printer.nuj","lib/reader.c","lib/string.c"],
[("writer","stdlib/string/printer.nuj"),("reader","lib/reader.c")],(),["string/write, string/display and read"])

prop("C13","Buffers and views access exactly their bytes, and immutables never change",
"Reading or writing an element of a buffer, string or typed view touches exactly the bytes that belong to that element - little-endian, with the width, sign and overlap with other views of the same buffer the type says - and any index, offset or length outside the current bounds, however large or negative, is a catchable error that changes nothing. Copying, cutting, cloning and resizing preserve precisely the bytes concerned, and no operation ever changes the content of a string or of an immutable buffer or view.",
["histories","inputs"],"all sequences of operations on buffers and their views, with all indices, sizes and element values",
"Out-of-bounds accesses and aliasing of views of different widths over a buffer that is then resized are not in the tests, and a one-byte overrun is silent.",
["lib/buffer.c","lib/generic.c","lib/string.c"],
[("bounds and mutability checks","lib/buffer.c, lib/generic.c"),("element access per view type","lib/generic.c, lib/buffer.c")],(),["ref, set!, length, length!, cut, clone, copy, views of a buffer"])

prop("C14","Arrays hold exactly their elements, within bounds",
"An array keeps, at each index from 0 to its length minus one, exactly the value last stored there, whatever the values are (nil included); a literal or constructor yields exactly the given elements in order. Any other index is a catchable error that changes nothing, changing the length keeps the common prefix and fills new places with nil, and whole-array operations (append, push, cut, fill, copy, swap, map, filter, reduce, counting, sorting, comparison) give the results of their mathematical definitions.",
["histories","inputs"],"all sequences of array operations with all indices, lengths and element values",
"Tests use small arrays of integers with valid indices; nil elements, zero lengths, huge indices and shrink-then-grow histories are not sampled.",
["lib/array.c","lib/generic.c","stdlib/collections/array.nuj","lib/reader.c"],
[("bounds checks","lib/generic.c"),("resizing","lib/array.c: lnmArrayLengthSet")],(),["array operations"])

prop("C15","List and collection functions compute their mathematical definitions",
"Each list and collection function - map, filter, remove, delete, reduce, for-each, every?, count, sum, append, reverse, taking and dropping, sublists within the bounds, ref, last and all but last, range, minimum and maximum, replacing, flattening, sorting, structural equality, and zipping and merging trees - gives the result of its definition for all inputs, the empty collection and single elements included, applies the given function exactly once per element in order where it is defined element-wise, and does not modify the lists and trees it is given unless its name says so (map and sort of an array work on the array itself). Sorting yields an ordered permutation of its input.",
["inputs"],"all lists and collections, with all function arguments",
"Each function has a couple of example calls in the tests; mostly lengths 3 to 10 and no duplicates, nil elements or boundary counts.",
["stdlib/collections/lists.nuj","stdlib/collections/collection.nuj","stdlib/collections/collection_primitives.nuj","stdlib/collections/tree.nuj"],
[("recursive definitions","stdlib/collections/lists.nuj")],(),["result of each function"])

prop("C16","Quasiquotation and macros build exactly the described code",
"A quasiquoted template evaluates to the template with each unquoted expression replaced by its value and each spliced expression replaced by the elements of its list value, at every position and depth, everything else being left as data; a template inside a template raises the level, and what its unquotes lower to level zero is evaluated. A call of a macro that is defined in the root environment when the form is compiled means what its expansion means: arguments are passed unevaluated, expansion is repeated until no macro is left and never happens inside quoted data, and the threading and looping macros expand to code that evaluates each given form the prescribed number of times.",
["programs","inputs"],"all templates and all macro uses",
"Templates in the tests and in the library have few shapes; unquote in tail, nested, empty-splice and literal-container positions are combinatorial.",
["stdlib/core/quasiquote.nuj","stdlib/compiler/frontend/macroexpander.nuj","stdlib/core/flow.nuj","stdlib/core/core.nuj"],
[("quasiquote expansion","stdlib/core/quasiquote.nuj"),("macro expander","stdlib/compiler/frontend/macroexpander.nuj")],(),["value of a template, result of macroexpand, value of a program"])

prop("C17","Method and property lookup follows one resolution order",
"Calling a method on a value finds the definition by one order - for trees their own entries first and then those of their prototypes, then the methods of the value's class and of its ancestors from the most specific - and runs it with the receiver as first argument and the remaining arguments after it. Adding or redefining a method takes effect for all values of that class and its descendants that do not override it, and for no others; an unknown method is a catchable error.",
["programs","histories"],"all class/prototype chains and all histories of definitions and calls",
"Tests call existing methods on existing types; shadowing at each level, definition after use, and chains of prototypes are not enumerated.",
["lib/type-system.c","lib/vm.c","lib/generic.c","stdlib/core/classes.nuj"],
[("method lookup","lib/type-system.c: lMethodLookup"),("method call instruction","lib/vm.c")],(),["value of a method call"])

prop("C18","A module is loaded once and shows exactly its exports",
"Importing or requiring a module evaluates its file exactly once per program run, no matter how often, from where and under which relative path it is requested, and makes available, in the importing module only, exactly the exported names, under the chosen name or prefix, with the exported values. Names not exported stay private, different modules never interfere through equal private names, and importing a missing, broken or still loading module or a name that is not exported is an error, also when asked again.",
["histories","configurations"],"all import graphs and all orders and forms of imports",
"Tests import a few library modules once; repeated, nested, renamed and failing imports in different orders are not sampled.",
["stdlib/core/module.nuj","stdlib/string/path.nuj","binlib/init.nuj","binlib/io.nuj"],
[("module cache and loaders","stdlib/core/module.nuj"),("path normalisation","stdlib/string/path.nuj")],(),["values and side effects of imports"])

prop("C19","Files and ports deliver exactly the bytes written, in order",
"What is written to a file or to a string port - in any number of pieces of any size, with seeking and appending - is exactly the sequence of bytes that reading it back, in any pieces, yields, up to and including the end; positions and lengths reported agree with it. Writing a whole file and reading it back gives the same content for every content, replacing, appending to and refusing existing files happens as requested, opening or copying a missing file fails without any effect, and every operation on a closed file is an error.",
["histories","inputs"],"all sequences of port and file operations with all contents and sizes",
"Tests write one short text; contents crossing the internal buffer sizes, binary content, and interleavings of seek, append and read are not sampled.",
["bin/port.c","bin/io.c","stdlib/string/portng.nuj","binlib/io.nuj"],
[("file handles","bin/port.c"),("ports","stdlib/string/portng.nuj")],(),["file contents, results of port operations"])

prop("C20","String functions compute their definitions on every string",
"Each string function - cut, index-of and last-index-of, concatenation, split, join, trim, case conversion, padding, truncation to a number of digits, conversion of numbers to text in every base, path functions and formatted output (fmt) - gives the result of its definition for all strings, the empty string, overlapping and absent occurrences, out-of-range and negative positions and arbitrary bytes included. It never reads outside the string and never changes its arguments.",
["inputs"],"all strings and positions, and all format strings with all arguments",
"Each function has a few example calls; boundary positions, empty arguments, separators at the ends and repeated separators are not sampled.",
["lib/string.c","stdlib/string/string.nuj","stdlib/string/fmt.nuj","stdlib/string/path.nuj","stdlib/string/char.nuj"],
[("native primitives","lib/string.c"),("string library","stdlib/string/string.nuj, fmt.nuj")],(),["result of each function"])

prop("C21","A program sees exactly the world it is given, and the world exactly what it does",
"A run of the interpreter passes on everything at its boundary unchanged: the program sees the arguments after its script in order, the options and expressions before it take effect from left to right, every NAME=VALUE entry of the environment is in System/Environment with exactly its value, and standard input arrives byte for byte, whichever way and in whatever pieces it is read. Every byte written to standard output or standard error leaves the process on that stream, in the order of the writes across both, and before anything the program does afterwards; a child process gets the same environment and directory, and its output and exit code come back; a connection to a server carries exactly the bytes written, both ways; the current directory and what is said about files are the system's. The run ends with the code passed to exit (modulo 256), with 0 at the end of the program, and with 1 after an uncaught exception of the script or when the script cannot be loaded (a failing expression given with -x is reported and the next one evaluated).",
["histories","configurations","inputs"],"all command lines, environments, inputs and sequences of interactions with the system (names of environment entries of up to 93 bytes, directories of up to 511 bytes)",
"The tests run inside one process with one command line and environment; empty values, entries without a value, options after expressions, binary input, mixed streams, exit codes of children and early exits are not sampled.",
["bin/main.c","bin/environment.c","bin/io.c","bin/port.c","bin/net.c","bin/misc.c","binlib/init.nuj","binlib/io.nuj","stdlib/string/portng.nuj"],
[("command line","bin/main.c, binlib/init.nuj"),("environment","bin/environment.c"),("children, directories, exit","bin/io.c"),("standard streams","bin/port.c")],(),["arguments, options, environment and input seen by the program","bytes on both output streams","exit code"])

open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w").write("".join(json.dumps(p,ensure_ascii=False)+"\n" for p in P))
