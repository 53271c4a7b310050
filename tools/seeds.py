#!/usr/bin/env python3
"""The planted bugs: python3 tools/seeds.py [NAME...] writes seeded/NAME (all when no name is given)."""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
S = {}


def seed(name, property, needs, breaks, edits, demo, expected, **kw):
    S[name] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, expected=expected, **kw)


seed("c04-zigzag", "C04", "many insertions that zig-zag (each new key lies between a node and its heavier child), so that skipped inner rotations accumulate",
     "the tree degenerates: its depth is no longer logarithmic in the number of keys",
     [["lib/tree.c", "		if(s > t->left->key){\n", "		if(s > t->left->key && lTreeGetBalance(t->left) >= 0){\n"]],
     '''(def keys (list :zigzag-a :zigzag-b :zigzag-c :zigzag-d :zigzag-e :zigzag-f))
(def deepest 0)
(defn depth (t) (if t (let ((l (depth (:left* t))) (r (depth (:right* t)))) (+ 1 (if (> l r) l r))) 0))
(defn build (order)
  (def t (tree/new))
  (doseq (k order) (set! t k 1))
  (def d (depth t))
  (when (> d deepest) (set! deepest d)))
(defn permute (rest order)
  (if (nil? rest)
      (build order)
      (doseq (k rest) (permute (filter rest (fn (x) (not= x k))) (cons k order)))))
(permute keys #nil)
(println (string/write deepest)) ; a balanced tree of six keys has three levels
''', "3")
seed("c06-rest-handler", "C06", "an exception handled by a built-in function that takes any number of arguments",
     "the handler receives the elements of the exception instead of the exception",
     [["lib/vm.c", "			case 16: nv = fun.vNFunc->fpR(cargs); break;", "			case 16: nv = fun.vNFunc->fpR(lCar(cargs)); break;"]],
     '(println (:length (try array/new (throw (list :a 1 2)))))\n', "1")
seed("c05-empty-let", "C05", "a let without bindings whose body defines a variable that exists outside", "the definition leaks out of the let and overwrites the outer variable",
     [["stdlib/core/core.nuj", "                        `(let* (do ~@(let/args bindings) ~@body)))))", "                        (if (car bindings)\n                            `(let* (do ~@(let/args bindings) ~@body))\n                            `(do ~@body)))))"]],
     '(def x 1)\n(defn f () (let () (def x 2) (+ x 1)))\n(println (string/write (list (let () (def x 5) (* 2 x)) x (f) x)))\n', "(10 1 3 1)")
seed("c09-defext", "C09", "a function with more than 384 distinct literals that defines variables late", "def binds another name when its literal's index has the low byte's top bit set",
     [["lib/vm.c", "		const uint v = (ip[0] << 8) | (ip[1]);\n		ip += 2;\n		lDefineClosureSym", "		const uint v = ((ip[0] << 8) + (i8)ip[1]) & 0xFFFF;\n		ip += 2;\n		lDefineClosureSym"]],
     '(def forms #nil)\n(dotimes (i 600) (set! forms (cons (list (quote def) (:symbol (cat "vv" (:string i))) (+ 1000 i)) forms)))\n(println (string/write (try (fn (e) (car e)) (eval (cons (quote do) (append (reverse forms) (list (quote (list vv3 vv130 vv199 vv250 vv401 vv599)))))))))\n', "(1003 1130 1199 1250 1401 1599)")
seed("c07-apply-missing", "C07", "apply of a function to fewer arguments than it has parameters, while a variable of the missing parameter's name is visible where the function was defined",
     "the parameter is not nil but shows the outer variable",
     [["lib/closure.c", "				tmpc->data = lTreeInsert(tmpc->data, n.vList->car.vSymbol, NIL);", "				if (lGetClosureSym(tmpc->parent, n.vList->car.vSymbol).type == ltException) {\n					tmpc->data = lTreeInsert(tmpc->data, n.vList->car.vSymbol, NIL);\n				}"]],
     '(def limit 10)\n(defn f (a limit) (list a limit))\n(println (string/write (list (apply f (list 1 2)) (apply f (list 1)) (f 1))))\n', "((1 2) (1 #nil) (1 #nil))")
seed('c02-tryleak', 'C02', 'more than a hundred thousand try forms entered over the life of a program',
     'the scopes of try forms are never given back, so a program with little live data runs out of closures',
     [['lib/garbage-collection.c', '\tclo->nextFree = lClosureFFree;\n\tlClosureFFree = clo;',
       '\tif(clo->type != closureTry){clo->nextFree = lClosureFFree;\n\tlClosureFFree = clo;}']],
     '(def i 0)\n(def n 0)\n(while (< i 400000)\n  (set! n (+ n (try (fn (e) 2) 1)))\n  (set! i (+ i 1)))\n(println (string/write n))\n', '400000')
seed('c06-return', 'C06', 'a return out of a try block',
     'the function goes on after the try block as if there had been no return',
     [['lib/vm.c', 'while(ctx.closureStack[ctx.csp]->type != closureCall){',
       'while(ctx.closureStack[ctx.csp]->type == closureLet){']],
     '(defn f (x)\n  (try (fn (e) :handled)\n    (when x (return :returned))\n    :body)\n  :after)\n(println (string/write (list (f #t) (f #f))))\n', '(:returned :after)')
seed('c07-missing', 'C07', 'a call of a built-in function with at least three missing arguments',
     'the third missing parameter shows what an earlier computation left behind',
     [['lib/vm.c', 'for(int i=0;i<m;i++){\n\t\t\t\t\t\tvs[-i]=NIL;',
       'for(int i=0;i<m && i<2;i++){\n\t\t\t\t\t\tvs[-i]=NIL;']],
     '(def b (buffer/allocate 3))\n(defn g () (list 1 b 1 b 1 b) (buffer->string))\n(defn h () (list 1 b b b b b) (buffer->string))\n(println (string/write (list (try (fn (e) (car e)) (g)) (try (fn (e) (car e)) (h)))))\n', '(:type-error :type-error)')
seed('c08-round', 'C08', 'rounding of a negative number half way between two integers, or of the greatest float below a half',
     'the result is rounded towards positive infinity',
     [['lib/arithmetic.c', 'return lValFloat(round(t.vFloat));',
       'return lValFloat(floor(t.vFloat + 0.5));']],
     '(println (string/write (list (round -2.5) (round 2.5) (round -0.75) (round 0.49999999999999994))))\n', '(-3.0 3.0 -1.0 0.0)')
seed('c09-pushext', 'C09', 'a function with more than 384 distinct literals',
     'a constant is replaced by another one where the low byte of its index has the top bit set',
     [['lib/vm.c', 'const uint v = (ip[0] << 8) | (ip[1]);\n\t\tip += 2;\n\t\tctx.valueStack[++ctx.sp] = lits[v];',
       'const uint v = (ip[0] << 8) + (i8)(ip[1]);\n\t\tip += 2;\n\t\tctx.valueStack[++ctx.sp] = lits[v];']],
     '(def forms #nil)\n(dotimes (i 600) (set! forms (cons (list (quote tick) (cat "lit" (:string i))) forms)))\n(def n 0)\n(def bad 0)\n(defn tick (s) (when (not (= s (cat "lit" (:string n)))) (set! bad (+ bad 1))) (set! n (+ n 1)))\n(eval (cons (quote do) (nreverse forms)))\n(println (string/write (list n bad)))\n', '(600 0)')
seed('c09-list8', 'C09', 'a list form with more than 127 operands',
     "the list isn't built from its operands",
     [['lib/vm.c', 'int len = *ip++;\n\t\tlVal cargs = lStackBuildList',
       'int len = (i8)*ip++;\n\t\tlVal cargs = lStackBuildList']],
     '(def ops #nil)\n(dotimes (i 200) (set! ops (cons (list (quote +) i (quote one)) ops)))\n(def one 1)\n(println (string/write (try (fn (e) (car e)) (sum (eval (cons (quote list) ops))))))\n', '20100')
seed('c13-grow', 'C13', 'a buffer that grows by a number of bytes that is no multiple of eight, into memory used before',
     "some of the new bytes aren't zero",
     [['lib/buffer.c', 'memset(&((u8 *)nBuf)[buf->length], 0, length - buf->length);',
       'memset(&((u8 *)nBuf)[buf->length], 0, (length - buf->length) & ~7);']],
     '(def bad 0)\n(dotimes (i 400)\n  (def junk (buffer/allocate (+ 40 i)))\n  (dotimes (k (+ 40 i)) (set! junk k 255))\n  (def b (buffer/allocate 8))\n  (:length! b (+ 49 i))\n  (dotimes (k (- (:length b) 8)) (when (not= 0 (ref b (+ 8 k))) (set! bad (+ bad 1)))))\n(println (string/write bad))\n', '0')
seed('c14-index', 'C14', 'asking an array about an index that needs more than 32 bits',
     'an index far out of bounds is said to be there',
     [['lib/array.c', '\tconst i64 i = index.vInt;\n\treturn lValBool((i >= 0)',
       '\tconst int i = index.vInt;\n\treturn lValBool((i >= 0)']],
     '(def a (array/new 1 2 3))\n(println (string/write (list (:has? a 2) (:has? a 3) (:has? a 4294967296) (:has? a -4294967295))))\n', '(#t #f #f #f)')
seed('c15-nreverse', 'C15', 'nreverse of a list whose last two elements are nil',
     'an element is lost',
     [['lib/core-operators.c', '\t\tlVal next = l.vList->cdr;\n\t\tl.vList->cdr = t;\n\t\tt = l;\n\t\tl = next;',
       '\t\tlVal next = l.vList->cdr;\n\t\tif(l.vList->car.type == ltNil && next.type == ltNil){ break; }\n\t\tl.vList->cdr = t;\n\t\tt = l;\n\t\tl = next;']],
     '(println (string/write (list (nreverse (list 1 2 3)) (nreverse (list 1 #nil 2)) (nreverse (list 1 2 #nil)) (nreverse (list #nil #nil)))))\n', '((3 2 1) (2 #nil 1) (#nil 2 1) (#nil #nil))')
seed('c19-viewbytes', 'C19', 'writing a whole view with elements wider than a byte to a file',
     'only the first part of its bytes is written',
     [['lib/buffer.c', 'return v->length * lBufferViewTypeSize(v->type);',
       'return v->length;']],
     '(def b (buffer/allocate 16))\n(dotimes (i 16) (set! b i (+ 65 i)))\n(def h (file/open-output* "out.bin" :replace))\n(file/write* h (:u32 b))\n(file/close* h)\n(println (string/write (slurp "out.bin")))\n', '"ABCDEFGHIJKLMNOP"')
seed('c19-popen', 'C19', 'output of another program that is longer than 4096 bytes',
     'its length is that of the last part that was read',
     [['bin/io.c', '\t\t\t\tlen += ret;\n\t\t\t\tbreak;',
       '\t\t\t\tlen = ret;\n\t\t\t\tbreak;']],
     '(def r (popen "head -c 9000 /dev/zero"))\n(println (string/write (list (car r) (:length (cdr r)))))\n', '(0 9000)')
seed("c03-length", "C03", "two symbols that hash to the same slot or to neighbouring ones and agree in their first 32 characters", "the second one is taken for the first",
     [["lib/symbol.c", "if (0 == strncmp(str,lSymbolList[idx].c,sizeof(lSymbolList[idx].c)-1)", "if (0 == strncmp(str,lSymbolList[idx].c,32)"]],
     """(def prefix "a-name-that-many-symbols-have-in-common/")
(def names (:alloc Array 6000))
(def bad 0)
(dotimes (i 6000) (set! names i (:symbol (cat prefix (:string i)))))
(dotimes (i 6000) (when (not (= (:string (ref names i)) (cat prefix (:string i)))) (set! bad (+ bad 1))))
(println (string/write bad))
""", "0")
seed("c05-define", "C05", "a let inside a let in the same function, both of which define the same variable, with the outer one's variable the first of its scope",
     "the inner definition overwrites the outer variable", [["lib/closure.c", "	c->data = lTreeInsert(c->data, s, v);", "	for (lClosure *cc = c; cc; cc = cc->parent) {\n		if(cc->type == closureCall){ break; }\n		if(cc->data && cc->data->key == s){ cc->data->value = v; return; }\n	}\n	c->data = lTreeInsert(c->data, s, v);"]],
     """(defn f (n) (let ((x n)) (let ((x (+ x 1))) (tick x)) x))
(def seen 0)
(defn tick (v) (set! seen v))
(println (string/write (list (f 3) seen)))
""", "(3 4)")
seed("c12-digits", "C12", "printing a float with six decimals", "the last decimal is lost, so that what is read back differs",
     [["lib/core-operators.c", 'snprintf(buf,sizeof(buf),"%f", a.vFloat);', 'snprintf(buf,sizeof(buf),"%.5f", a.vFloat);']],
     "(println (string/write (list 0.5 1.015625 -3.140625)))\n", "(0.5 1.015625 -3.140625)")
seed('c01-array', 'C01', 'an array of more than 65535 elements, the last of which are reachable through it only, and a collection', 'the objects in its last elements are collected and their cells are used again',
     [['lib/garbage-collection.c', 'for(int i=0;i<v->length;i++){\n\t\tlValGCMark', 'for(int i=0;i<MIN(v->length, 0xFFFF);i++){\n\t\tlValGCMark']],
     '(def a (:alloc Array 70000))\n(dotimes (i 70000) (set! a i (list i)))\n(dotimes (k 40) (def junk #nil) (dotimes (i 10000) (set! junk (cons i junk))))\n(def bad 0)\n(dotimes (i 70000) (when (not (= i (car (ref a i)))) (set! bad (+ bad 1))))\n(println (string/write bad))\n', '0')
seed('c02-views', 'C02', 'more views than there are cells for views over the life of a program', 'collected views are not used again, so that a program with bounded data runs out of views',
     [['lib/garbage-collection.c', '\tbuf->nextFree = lBufferViewFFree;\n\tlBufferViewActive--;\n\tlBufferViewFFree = buf;', '\tlBufferViewActive--;']],
     '(def b (buffer/allocate 8))\n(def v #nil)\n(dotimes (i 2000000) (set! v (:u16 b)))\n(println (string/write (:length v)))\n', '4')
seed('c03-tomb', 'C03', 'a symbol whose slot comes after a slot freed by a collection in its probe sequence', 'looking its name up again makes a second, different symbol with the same name',
     [['lib/symbol.c', '\t\tif(SYMBOL_SLOT_IS_TOMB(idx) && firstTomb == 0xffffffff){\n\t\t\tfirstTomb = h;', '\t\tif(SYMBOL_SLOT_IS_TOMB(idx)){\n\t\t\treturn h;']],
     '(def keep (:alloc Array 4000))\n(defn fill (from n) (def l #nil) (dotimes (i n) (set! l (cons (:symbol (cat "sym-" (:string (+ from i)))) l))) l)\n(dotimes (r 60)\n  (def a (fill (* r 5000) 5000))\n  (when (= r 0) (def i 0) (doseq (s a) (when (< i 4000) (set! keep i s)) (set! i (+ i 1)))))\n(def bad 0)\n(dotimes (i 4000) (when (not (= (ref keep i) (:symbol (:string (ref keep i))))) (set! bad (+ bad 1))))\n(println (string/write bad))\n', '0')
seed('c04-dup', 'C04', 'a tree literal or tree/new with the same key twice', 'the first value is kept instead of the last one',
     [['lib/tree.c', '\t\tt->root = lTreeInsert(t->root, car.vSymbol, lCadr(n));', '\t\tif(lTreeRef(t->root, car.vSymbol).type != ltException){ continue; }\n\t\tt->root = lTreeInsert(t->root, car.vSymbol, lCadr(n));']],
     '(println (string/write (list (ref (tree/new :a 1 :b 2 :a 3) :a) (ref {:x 1 :y 2 :x 3} :x))))\n', '(3 3)')
seed('c05-has', 'C05', 'asking an environment whether a name of an enclosing scope is bound', 'only the names of the innermost scope are found',
     [['lib/type-system.c', '\tlVal v = lGetClosureSym(self.vClosure, key.vSymbol);\n\treturn lValBool(v.type != ltException);', '\tlVal v = lTreeRef(self.vClosure->data, key.vSymbol);\n\treturn lValBool(v.type != ltException);']],
     "(def outer 1)\n(defn f (a) (let ((b 2)) (list (:has? (current-closure) 'b) (:has? (current-closure) 'a) (:has? (current-closure) 'outer) (:has? (current-closure) 'nowhere))))\n(println (string/write (map (f 1) (fn (x) (if x 1 0)))))\n", '(1 1 1 0)')
seed('c06-handler', 'C06', 'a built-in function as the handler of an exception thrown with operands pending, in a try that is itself an operand', 'the result of the handler is put above the stale operands, so that later operations use those',
     [['lib/vm.c', 'lRestoreFromClosure();\n\t\t\tctx.sp = c->sp;\n\t\t\tctx.valueStack[++ctx.sp] = nv;', 'lRestoreFromClosure();\n\t\t\tctx.valueStack[++ctx.sp] = nv;']],
     '(defn f (n) (list n (car (car (try list (list n 7 n (throw (list n :x))))))))\n(println (string/write (list (f 1) (list 5 (f 2) (list 6 (f 3))))))\n', '((1 1) (5 (2 2) (6 (3 3))))')
seed('c09-apply', 'C09', 'a call with 128 to 255 arguments', 'the arguments are taken from the wrong place in the stack',
     [['lib/vm.c', 'const int len = *ip++;\n\t\tconst int argsSp', 'const int len = (i8)*ip++;\n\t\tconst int argsSp']],
     '(defn count-args l (def n 0) (doseq (x l) (set! n (+ n x))) n)\n(println (string/write (list (count-args 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1) (count-args 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1))))\n', '(127 200)')
seed('c10-i32', 'C10', 'an integer from 2^31 to 2^32-1, or a negative 32 bit one, in an image', 'it comes back as a different (negative) number',
     [['lib/imageWriter.c', '} else if(v.vInt == ((i32)v.vInt)){', '} else if(v.vInt == ((u32)v.vInt)){']],
     '(defn again (x) (image/deserialize (image/serialize x)))\n(println (string/write (again (list 2147483647 2147483648 3000000000 4294967295 4294967296 -2147483648))))\n', '(2147483647 2147483648 3000000000 4294967295 4294967296 -2147483648)')
seed('c10-view', 'C10', 'an immutable view in an image', 'the loaded view is mutable',
     [['lib/imageWriter.c', '\tout->flags = v->flags;\n\tout->type = v->type;', '\tout->flags = 0;\n\tout->type = v->type;']],
     '(defn again (x) (image/deserialize (image/serialize x)))\n(def b (buffer/allocate 4))\n(def v (again (:u8 b #t)))\n(println (string/write (list (:immutable? (:u8 b #t)) (:immutable? v) (try (fn (e) :refused) (set! v 0 65) :changed))))\n', '(#t #t :refused)')
seed('c11-binary', 'C11', 'a binary number of 65 digits', 'it is read as a number that has lost its first digit instead of being rejected',
     [['lib/reader.c', "case 'b': return lParseNumber(s,  2, 64);", "case 'b': return lParseNumber(s,  2, 65);"]],
     '(println (string/write (list (read "#b1111") (try (fn (e) :refused) (read (cat "#b1" (cat "0000000000000000000000000000000000000000000000000000000000000000" "")))))))\n', '((15) :refused)')
seed('c11-char', 'C11', 'the character literal of the letter c, directly before a closing parenthesis', 'the parenthesis is swallowed',
     [['lib/reader.c', "\telse if((s->data[0] == 'c') && (s->data[1] == 'r')){ret = '\\r';}", "\telse if((s->data[0] == 'c')){ret = (s->data[1] == 'r') ? '\\r' : 'c'; s->data++;}"]],
     '(println (string/write (list (read "#\\\\c") (read "(#\\\\c #\\\\d)") (read "(#\\\\c)") (read "#\\\\cr"))))\n', '((99) ((99 100)) ((99)) (13))')
seed('c13-text', 'C13', 'turning a buffer that contains a zero byte into a string', 'the string ends before that byte',
     [['lib/core-operators.c', 'return lValStringLen(a.vBuffer->data, a.vBuffer->length);', 'return lValStringLen(a.vBuffer->data, strnlen(a.vBuffer->data, a.vBuffer->length));']],
     '(def b (buffer/allocate 5))\n(set! b 0 65) (set! b 3 66)\n(println (string/write (list (:length (:string b)) (ref (:string b) 3))))\n', '(5 66)')
seed('c19-fixed', 'C19', 'reading a file into an immutable buffer', 'the bytes of the immutable buffer change',
     [['bin/port.c', '\t\tbuf = lBufferDataMutable(contentV.vBuffer);\n\t\tbufSize', '\t\tbuf = (void *)lBufferData(contentV.vBuffer);\n\t\tbufSize']],
     '(spit "in.txt" "abcdef")\n(def fixed (:clone (buffer/allocate 4) #t))\n(def h (file/open-input* "in.txt"))\n(def r (try (fn (e) :refused) (file/read* h fixed 4) :changed))\n(println (string/write (list r (ref fixed 0))))\n', '(:refused 0)')

HEAD_SH = """#!/bin/sh
# Runs the interpreter in a scratch directory and compares what it shows
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
bin=$(pwd)/future-nujel
cp "$d"/prog.nuj "$t"/
cd "$t" || exit 2
"""
seed("c21-empty", "C21", "an environment entry with an empty value", "the program does not see it",
     [["bin/environment.c", "	return lTreeInsert(t, sym, v);", "	return e[endOfKey + 1] ? lTreeInsert(t, sym, v) : t;"]], None, None,
     files={"prog.nuj": "(println (string/write (list (:has? System/Environment 'VP_EMPTY) (ref System/Environment 'VP_EMPTY) (ref System/Environment 'VP_FULL))))\n"},
     demo_sh=HEAD_SH + """out=$(VP_EMPTY= VP_FULL=a=b timeout 60 "$bin" prog.nuj 2>&1 | tr -d "\\015")
[ "$out" = '(#t "" "a=b")' ] || { echo "$out"; exit 1; }
""")
seed("c21-popen", "C21", "a child process that exits with a code of 128 or more", "the program sees a negative code",
     [["bin/io.c", "const int exitCode = WEXITSTATUS(exitStatus);", "const int exitCode = (i8)WEXITSTATUS(exitStatus);"]],
     '(println (string/write (list (popen "exit 127") (popen "printf x; exit 200"))))\n', '((127 . "") (200 . "x"))')
seed("c21-image", "C21", "--base-image with further arguments after it", "an argument of the program that precedes it disappears as well, or the image stays in the arguments",
     [["bin/main.c", "			ret = lCdr(ret);\n", "			if(i == argc - 2){ ret = lCdr(ret); }\n"]], None, None,
     files={"prog.nuj": "(defn main (args) :export (println (string/write args)))\n"},
     demo_sh=HEAD_SH + """timeout 60 "$bin" -x '(spit "e.img" "")' || exit 2
img=$(dirname "$bin")/tmp/init.nuji
[ -f "$img" ] || exit 2
out=$(timeout 60 "$bin" prog.nuj one --base-image "$img" two 2>&1 | tr -d "\\015")
[ "$out" = '("one" "two")' ] || { echo "$out"; exit 1; }
""")
seed("c21-cwd", "C21", "a current directory whose path is longer than 255 bytes", "the program does not learn it",
     [["bin/io.c", "	char path[512];", "	char path[256];"]], None, None,
     files={"prog.nuj": "(println (if (cwd) (:length (cwd)) :unknown))\n"},
     demo_sh=HEAD_SH + """long=$(printf 'd%.0s' $(seq 1 200))
mkdir -p "$long/$long" && cp prog.nuj "$long/$long" && cd "$long/$long" || exit 2
out=$(timeout 60 "$bin" -x "$(cat prog.nuj)" 2>&1 | tr -d "\\015")
[ "$out" = "$(pwd -P | tr -d "\\012" | wc -c)" ] || { echo "$out"; exit 1; }
""")
seed("c21-order", "C21", "text without a newline on standard error followed by text on standard output (or a child process), both going to one place", "they arrive in the wrong order",
     [["bin/main.c", "	setvbuf(stderr, NULL, _IONBF, 0);", "	setvbuf(stderr, NULL, _IOLBF, 4096);"]], None, None,
     files={"prog.nuj": '(error "one ")\n(print "two ")\n(error "three ")\n(popen "printf \'four \' >&2")\n(print "five")\n'},
     demo_sh=HEAD_SH + """out=$(timeout 60 "$bin" prog.nuj 2>&1 | tr -d "\\015")
[ "$out" = 'one two three four five' ] || { echo "$out"; exit 1; }
""")

if __name__ == "__main__":
    D = os.path.dirname(os.path.abspath(__file__))

    def go(n):
        r = subprocess.run(["python3", D + "/seed.py", n], input=json.dumps(S[n]), text=True, capture_output=True)
        return "== %s\n%s%s" % (n, r.stdout, r.stderr)
    with ThreadPoolExecutor(1) as ex:
        for t in ex.map(go, sys.argv[1:] or list(S)):
            print(t)
