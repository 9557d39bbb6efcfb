"""Arbitrary calls (P25): every function, method and form with arguments of every kind and number, under AddressSanitizer."""
import re

from vp.core import Prop, health
from vp.values import Arr, Kw, Pair, Sym, same

# Keeps what a call returned for later ones, unless it is too big or part of the interpreter itself.
SETUP = r"""
(def vp/vals (:alloc Array 16))
(def vp/trace #nil)
(defn vp/type (v) (:type-name v))
(defn vp/small? (v)
      (def t (vp/type v))
      (cond ((= t :pair) (def n 0) (while (and (= (vp/type v) :pair) (< n 120)) (set! n (inc/int n)) (set! v (cdr v))) (< n 120))
            ((or (= t :string) (= t :buffer)) (< (:length v) 600))
            ((= t :array) (< (:length v) 200))
            (#t (or (= t :nil) (= t :bool) (= t :int) (= t :float) (= t :symbol) (= t :keyword) (= t :buffer-view) (= t :bytecode-array)
                    (= t :file-handle)))))
(defn vp/call (i env form)
      (def r (try (fn (e) (set! vp/trace (cons :exception! vp/trace)) :exception!)
               (def v (eval-in env form))
               (set! vp/trace (cons (vp/type v) vp/trace))
               (if (vp/small? v) v #nil)))
      (set! vp/vals i r))
(defn vp/r (i) (ref vp/vals i))
;; Uses a bit of everything, with a result known in advance.
(defn vp/self-test ()
      (def a (array/new 3 1 2))
      (def t (tree/new :b 2 :a 1))
      (def b (buffer/allocate 16))
      (def v (:s32 b))
      (set! v 1 -2)
      (set! b 0 77)
      (set! t :c 3)
      (def k 0)
      (def l #nil)
      (while (< k 300)
        (set! l (cons (list k (cat "x" k) (* 1.5 k)) l))
        (set! k (inc/int k)))
      (list (+ 1 2) (/ 7 2) (/ 7.0 2) (* -3 5) (rem 17 5) (bit-shift-left 1 40)
            (list/sort (list 3 1 2)) (:keys t) (:values t) (ref v 1) (ref b 0) (ref b 4)
            (try (fn (e) (list (car e) 1)) (throw (list :boom "b" 5)))
            (try (fn (e) (car e)) (ref a 99))
            (try (fn (e) (car e)) (vp/no-such-thing))
            (eval '(let ((x 5)) (defn f (n) (if (= n 0) x (+ 1 (f (- n 1))))) (f 20)))
            (:length l) (caddr (car l)) (cadr (car l)) (reduce (map l car) + 0)
            (cut "hello world" 2 5) (:index-of "hello" "l" 0) (read "(1 2.5 \"s\" :k sym)")
            (string/write (list 1 "a" :b 'c #t #nil 2.5)) (split "a,b,c" ",") (join '("a" "b") "-")
            (image/deserialize (image/serialize (list 1 "x" (array/new 1 2))))
            (= (:symbol "abc") 'abc) (:string :kw) (int->string 255) (apply + '(4 5))
            ((fn (a b) (cons b a)) 1)))
"""

# name -> kinds of its arguments
#  n number  i int  m small int or absurd  s string  b buffer  v view  a array  t tree  l list  k keyword/symbol  f function
#  x anything  c collection  e leaf  o port  h handle  S file name  y bytecode array  d byte  p predicate
SIG = {}
for line in """
array/new e e e
tree/new k e k e
ref c i|ref t k|ref s i|ref b i|ref v i|ref a i
int x|int s|int n
float x|float n
+ n n
- n n
* n n
/ n n
rem n n
pow n n
add/int n n
sub/int n n
mul/int n n
div/int n n
mod/int n n
inc/int n
bit-and n n
bit-or n n
bit-xor n n
bit-not n
bit-shift-left n n
bit-shift-right n n
popcount n
abs n
sqrt n
cbrt n
floor n
ceil n
round n
sin n
cos n
tan n
atan2 n n
cut l q q|cut s i i|cut b i i
buffer/allocate m
buffer/copy b b i i|buffer/copy b s i i|buffer/copy b b i
buffer->string b i i|buffer->string b|buffer->string s i i
list x x x
read s
resolves? k
val->id x
nreverse l
time
time/milliseconds
garbage-collection-runs
image/serialize x
image/deserialize B
file/stat S
rm S
ls S x
rmdir S
mkdir S
cwd
file/open-output* S k
file/open-input* S
file/close* h
file/read* h b i i
file/write* h b i i|file/write* h s i i
file/flush* h
file/tell* h
file/seek* h i i
file/eof*? h
file/error*? h
file/bytes-available* h
error x
append l l|append a a
write x|write x o
display x|display x o
fn/check l l
meta/parse/body k l l
compile/do* l
cons x x
list/cut l q q
array/cut a i i
int->string/HEX n
cat x x x
print/error x
trim s
nil? x
println x
equal? x x
print x|print x o
array/equal? a a
tree/equal? t t
list/equal? l l
reverse l|reverse a
list/replace l x x
compile* L
join l s
map c f
split s s
int->string/hex n
lower-case s
max n n n
min n n
list-take l q
list-drop l i
capitalize s
upper-case s
lower-case-char i
pad-end s q s
pad-middle s q s
pad-start s q s
whitespace? i
reduce c g x
write/raw x o x
string/display x
count c p
constant-fold L
macroexpand* L
list/map l f
array/map a f
module/resolve-string s
module/resolve-string/join l l i
int->string/decimal n
closure/name f
procedure? x
upper-case-char i
file/dir? S
bit-test? i i
except-last-pair l
last-pair l
tree/reduce t g x
array/reduce a g x
list/reduce l g x
not= x x
every? c p
string/write x
$push/int/byte i
int-fit-in-byte? x
cadr l
print/stacktrace l
compile/backend/bytecode L
assemble* l
bytecompile L
compile/backend/none L
bytecompile* L
$push/int i
$push/val x
slurp S
slurp/buffer S
spit S s
describe/closure f i
array/filter a p
filter c p
list/filter l p
tree/filter t p
$get/val k
$set/val k
$apply i
$jf k
gensym s
$jmp k
$jt k
$def/val k
$try k
$list i
file/copy S S
car l
cdr l
zero? x
< x x
<= x x
= x x
>= x x
> x x
caddr l
caar l
cdddddr l
identity x
path/extension s
file/read/single S
file/read S
read/single s
file/file? S
flatten l
cadar l
environment? x
array/swap a i i
list/sort l
path/dirname s
array/sort a
array/heap-sort a
tree/+= t k n
array/+= a i n
array/append a a
array/fill! a e
boolean x
not x
string? x
directory/read-relative S
file/write s S
delete l x|delete c x
array/++ a i
directory/read-recursive S
tree/zip l l
module/qualify-symbol k k
for-each c f
file/read/buffer S
remove c p
macro? x
list-merge-sort l g
pair? x
list? x
sort l|sort a
symbol? x
number? x
from-char-code i i
int->string/octal n
bytecode-array? x
radians n
caddddr l
last? l
path/basename s
array/dup a
string/round s i
int->string/binary n
path/ext?! s
cddr l
odd? n
even? n
keyword? x
zero-neg? x
pos? n
bit-flip i i
cdddr l
array/push a e
native? x
tree/merge t t
cadddr l
path/without-extension s
read/float s
disassemble f|disassemble y
not-zero? x
range w w w
lambda? x
cdar l
errorln s
float? x
in-range? n n n
bool? x
array? x
not-equal? x x
int? x
inc n
sum c
callable? x
neg? n
cddddr l
dec n
tree? x
closure/documentation f
bit-set i i
buffer? x
describe f
bit-clear i i
collection? x
closure/cat f
int->string n
apply f l|apply g l
eval-in E L
exports
readline s
read-line
read-line/raw o b
init/options
""".split("\n"):
    for alt in line.split("|"):
        w = alt.split()
        if w:
            SIG.setdefault(w[0], []).append(w[1:])

METHODS = {}
for line in """
a length
a length! m
a bytecode-array a
a has? i
b length
b immutable?
b length! m
b clone x
b cut i i
b u8 x
b s8 x
b u16 x
b s16 x
b u32 x
b s32 x
b f32 x
b s64 x
b f64 x
b buffer->string x
v length
v buffer
v immutable?
y array
y literals
y length
x string
k keyword
s keyword
k symbol
s symbol
s cut i i
s index-of s i
s last-index-of s i
s length
t length
t clone
t values
t keys
t key*
t value*
t left*
t right*
t has? k
x type-of
x type-name
x length
x meta k
l length
f has? k
f code
f data
f arguments
f meta k
f meta! k e
N meta k
N arguments
T name
T alloc m
o char-write i
o block-write s i
o line-write s
o char-read
o block-read b i i
o line-read
o close!
o return-string
o flush!
x no-such-method x
""".split("\n"):
    w = line.split()
    if w:
        METHODS.setdefault(w[1], []).append((w[0], w[2:]))

FORMS = ["if", "cond", "let", "let*", "when", "when-not", "if-not", "case", "and", "or", "do", "def", "set!", "fn", "defn", "defmacro", "macro*", "fn*",
         "try", "throw", "quote", "quasiquote", "return", "doseq", "inc!", "dec!", "+=", "cddr!", "cdr!", "cons!", "tree/++", "tree/--", "tree/-=", "fmt", "pfmt",
         "efmtln", "exception", "->", "deftest", "defclass", "with-string-port", "environment*", "comment", "eval", "macroexpand", "compile",
         "typecheck/only", "import", "export", "defmodule", "require", "use", "asmrun-x"]
# changing files: only with names made for it
FILES = {"rm", "rmdir", "mkdir", "file/open-output*", "spit", "file/write", "file/copy", "ls", "slurp", "slurp/buffer", "file/stat", "file/open-input*",
         "file/read", "file/read/single", "file/read/buffer", "directory/read-recursive", "directory/read-relative", "file/dir?", "file/file?",
         "image/deserialize"}
# storing: only leaves, so that nothing comes to contain itself
STORES = {"array/fill!", "array/push", "array/new", "tree/new", "array/+=", "tree/+=", "meta!"}
LINEAR = {"list-take", "list/cut", "cut", "buffer/allocate", "alloc", "length!", "pad-end", "pad-middle", "pad-start", "range", "string/round", "$list", "pow", "$apply", "gensym"}

INTS = [0, 1, -1, 2, 3, 5, 7, 8, 15, 16, 31, 63, 64, 65, 100, 127, 128, -128, 255, 256, 65535, 65536, 1 << 31, (1 << 31) - 1, -(1 << 31), 1 << 32, (1 << 32) + 1,
        1 << 47, 1 << 60, (1 << 62), 999999999999999999, -999999999999999999]
SPECIAL = ["(- (- 0 9223372036854775807) 1)", "9223372036854775807"]
STRS = ['""', '"a"', '"hello"', '"a,b,,c"', '" x\\ty "', '"12"', '"-1.5"', '"0x1F"', '"(1 2 . 3)"', '"(1 (2"', '"%% {} {1}"', '"\\0\\0"', '"q/w.e.r"', '"../.."',
        '"åß÷"', '"#x"', '"#m00"', '")"', '"\\"un"', '(cat "ab" 12 "cd")', '(:cut "some longer text than others" 2 9)', "(vp/long)"]
FNAMES = ['"f1"', '"f2"', '"d1"', '"d1/f"', '"nope"', '""', '"f1/x"', '"."']
KEYS = [":a", ":b", ":length", ":name", "'a", "'+", "'car", ":documentation", ":replace", ":append", "'if", ":é", "(:symbol \"\")", "(gensym)"]
HANDLES = ["stdin*", "(file/open-input* \"f1\")", "(file/open-output* \"f2\" :replace)", "vp/h"]
PORTS = ["(:new StringOutputPort)", "vp/port", "stdin", "vp/sp"]
FUNS1 = ["(fn (a) a)", "(fn (a) (cons a a))", "(fn () 7)", "(fn l l)", "(fn (a . b) b)", "car", "int?", "not", "inc/int", "(fn (a) (throw a))", "(fn (a) (garbage-collect-x))",
         "string/write", "abs", "vp/fun", "vp/mac", "(fn (a) (return a) 4)", "#nil", "{:a 5}", "[1 2 3]", '"str"', "3", ":length", "'sym", "quote", "if", "ref", "throw"]
FUNS2 = ["+", "(fn (a b) a)", "(fn (a b) b)", "cons", "<", "=", "cat", "(fn (a b c d) d)", "max", "-", "list", "(fn (a b) (throw (list :x a b)))", "ref", "apply"]


class Api(Prop):
    """Sequences of calls over a shared pool of values; no call may crash and everything must still work at the end."""
    id = "P25.calls"
    variant = "asan"
    setup = SETUP
    batch = 40
    per_case = 20.0
    quick_cases = 2400
    thorough_factor = 30
    rule = "a case counts when at least a third of its calls returned a value and one raised an exception"
    scale = 12

    def gen(self, c):
        nsteps = c.int(4, self.scale)
        store = [0]

        def small():
            return str(c.pick([0, 1, 2, 3, 5, 8, 17, 64, 300, -1, -5, 1 << 61, 999999999999999999]))

        def integer():
            k = c.draw(5)
            return str(c.int(-3, 12)) if k < 4 else str(c.pick(INTS)) if k == 4 else c.pick(SPECIAL)

        def num():
            return integer() if c.bool(3, 4) else c.pick(["0.0", "1.5", "-2.25", "1000.5", "0.000001", "(* 1.0 %s)" % c.pick(INTS), "(/ 1.0 3)"])

        def leaf():
            return c.weighted([(3, integer), (1, num), (2, lambda: c.pick(STRS)), (1, lambda: c.pick(KEYS)), (1, lambda: c.pick(["#t", "#f", "#nil"]))])()

        def lst(d=0):
            k = c.draw(7)
            if k == 0:
                return c.pick(["#nil", "'()", "'(1)", "'(1 2 3)", "'(1 . 2)", "'(1 2 . 3)", "'((1 2) (3 4))", "'(\"a\" \"b\")", "'(:a 1 :b 2)", "(cons 1 2)"])
            if k == 6:
                return "(range %d)" % c.int(0, 40)
            return "(list %s)" % " ".join(kind(c.pick("iisxek") if d < 2 else "e", d + 1) for _ in range(c.int(0, 5)))

        def arr(d=0):
            k = c.draw(4)
            return ["vp/arr", "(array/new %s)" % " ".join(leaf() for _ in range(c.int(0, 6))), "(:alloc Array %d)" % c.int(0, 20),
                    "[%s]" % " ".join(integer() for _ in range(c.int(0, 4))), "(array/dup vp/arr)"][k]

        def tree(d=0):
            k = c.draw(4)
            return ["vp/tree", "(tree/new %s)" % " ".join("%s %s" % (c.pick(KEYS), leaf()) for _ in range(c.int(0, 5))), "{:a 1 :b 2}", "#@(:a 1)", "(:clone vp/tree)"][k]

        def buf():
            k = c.draw(5)
            return ["vp/buf2", "(buffer/allocate %d)" % c.pick([0, 1, 3, 7, 8, 9, 16, 64]), "#m00FF1122", c.pick(STRS), "(:clone vp/buf2 %s)" % c.pick(["#t", "#f"]),
                    "(image/serialize '(1 2))"][k]

        def view():
            return "(:%s %s%s)" % (c.pick(["u8", "s8", "u16", "s16", "u32", "s32", "s64", "f32", "f64"]), buf(), c.pick(["", " #t", " #f"]))

        def form(d=0):
            """Code, mostly malformed."""
            k = c.draw(6)
            if k == 0 or d > 2:
                return c.pick(["1", "x", "\"s\"", ":k", "()", "#nil", "(1 . 2)", "(a b)", "((x 1))", "(x)", "[x]", "{:a x}", "#t", "&", "'x", "`(a ,x)", "(unquote x)", "(unquote-splicing x)"])
            if k <= 4:
                return "(%s%s)" % (c.pick(FORMS), "".join(" " + form(d + 1) for _ in range(c.int(0, 4))))
            return "(%s)" % " ".join(form(d + 1) for _ in range(c.int(1, 4)))

        def image():
            """An image, damaged."""
            return "(vp/damage (image/serialize %s) %d %d %d)" % (c.pick([
                "'(1 2 \"abc\" :k s)", "{:a [1 2] :b \"x\"}", "vp/arr", "vp/tree", "[1.5 #t #nil 'x]", "#m0011", "12", "(list vp/arr vp/arr)", "(:u16 #m00112233)",
                "(:code vp/fun)"]),
                c.draw(400), c.pick([0, 1, 2, 3, 255, 127, 128, 64, 16, c.draw(255)]), c.pick([0, 0, 1, 2, 5, 40]))

        def earlier():
            return "(vp/r %d)" % c.draw(15)

        def kind(k, d=0):
            if k == "S":
                return c.pick(FNAMES) if c.bool(5, 6) else c.pick(["#nil", "1", ":f", "[1]", "'f", "-5", "1.5", "(list \"a\")"])
            if k == "E":
                return c.pick(["(environment*)", "(let* (def q 1) (current-closure))", "vp/fun", "#nil", "5"])
            if k == "B":
                return image()
            if d < 3 and c.bool(1, 5):
                k = c.pick("nislatbvkfxxo")
            if k in "xcslabtine" and c.bool(1, 6) and k != "e":
                return earlier()
            if k == "x":
                k = c.pick("nnisslltabvkfhoyNTE")
                if k == "E":
                    return kind("E")
            return {"n": num, "i": integer, "m": small, "q": lambda: str(c.pick([0, 1, 2, 7, 40, 300, -3])), "w": lambda: str(c.pick([0, 1, 3, 10, -4, 50, 200, "2.5"])), "s": lambda: c.pick(STRS),
                    "b": buf, "v": view, "a": arr, "t": tree, "l": lambda: lst(d), "k": lambda: c.pick(KEYS), "f": lambda: c.pick(FUNS1), "p": lambda: c.pick(FUNS1),
                    "g": lambda: c.pick(FUNS2), "c": lambda: kind(c.pick("latsb"), d + 1), "e": leaf, "o": lambda: c.pick(PORTS), "h": lambda: c.pick(HANDLES),
                    "y": lambda: "(:code vp/fun)", "N": lambda: c.pick(["car", "abs", "popcount", "ref", "+"]), "T": lambda: c.pick(["Int", "Array", "Tree", "Any", "String", "Lambda"]),
                    "L": lambda: "'" + form(), "d": integer}[k]()

        def args(name, sig):
            ks = list(sig)
            if name not in FILES and name not in LINEAR:
                r = c.draw(9)
                if r == 8:
                    ks = ks[:c.draw(len(ks))]
                elif r == 9:
                    ks += ["e" if name in STORES else "x"] * c.int(1, 3)
            elif c.bool(1, 8):
                ks = ks[:c.draw(len(ks))]
            if name in STORES:
                return [kind(k) if n == 0 and name not in ("array/new", "tree/new") else leaf() for n, k in enumerate(ks)]
            if name in LINEAR:
                return [kind(k, 3) if k not in "mqw" or c.bool(7, 8) else c.pick(['"x"', "#nil", "2.5", ":k", "3"]) for k in ks]
            return [kind(k) for k in ks]

        steps = []
        names = sorted(SIG)
        methods = sorted(METHODS)
        for _ in range(nsteps):
            k = c.weighted([(12, 0), (6, 1), (2, 2), (2, 3), (1, 4), (1, 5)])
            if k == 0:
                n = c.pick(names)
                s = "(%s)" % " ".join([n] + args(n, c.pick(SIG[n])))
            elif k == 1:
                n = c.pick(methods)
                recv, sig = c.pick(METHODS[n])
                # methods that change their receiver are not called on the interpreter's own things
                if n in ("meta!",):
                    s = "(:%s vp/fun %s)" % (n, " ".join([c.pick(KEYS), leaf()]))
                else:
                    s = "(:%s)" % " ".join([n, kind(recv)] + args(n, sig))
            elif k == 2:
                s = "(eval '%s)" % form()
            elif k == 3:
                s = "(do (def vp/x %s) (set! vp/x %s %s))" % (kind(c.pick("aatbvsl")), kind("i") if c.bool(2, 3) else kind("k"), leaf())
            elif k == 4:
                s = "(apply %s %s)" % (c.pick([n for n in names if n not in FILES and n not in STORES and n not in LINEAR]), lst(1))
            else:
                s = "(%s %s)" % (c.pick(FUNS1 + FUNS2), " ".join(leaf() for _ in range(c.int(0, 5))))
            i, store[0] = store[0], (store[0] + 1) % 16
            steps.append("(vp/call %d vp/env '%s)" % (i, s))
        return {"text": self.wrap(steps), "steps": steps}

    def wrap(self, steps):
        return PRE + "\n".join(steps) + "\n(list (nreverse vp/trace) (vp/self-test)))"

    def judge(self, case, outs):
        bad = health(outs)
        if bad:
            return bad
        o = outs[0]
        if o.kind != "ok":
            # a call that does not even compile: it must be reported as such
            return None if o.exc_type() else "unexpected %r" % o
        trace, got = o.value
        if len(trace or []) != len(case["steps"]):
            return "%d calls made, %d recorded: %r" % (len(case["steps"]), len(trace or []), trace)
        return None if same(WANT, got) else "afterwards the interpreter no longer works: %.1500r\nexpected %.1500r" % (got, WANT)

    def nontrivial(self, case, outs):
        if outs[0].kind != "ok":
            return False
        t = outs[0].value[0]
        x = sum(1 for k in t if k == Kw(b"exception!"))
        return 0 < x <= len(t) * 2 / 3

    def show(self, case):
        return "\n".join(case["steps"])


PRE = r"""(do
(set! vp/vals (:alloc Array 16))
(set! vp/trace #nil)
(def vp/arr (array/new 5 3 9 "s" :k))
(def vp/tree (tree/new :a 1 :m 2 :z "q" :length-x 4))
(def vp/buf2 (buffer/allocate 24))
(def vp/fun (fn (a b . c) "A function" (if a (list a b c) vp/arr)))
(def vp/mac when)
(def vp/port (:new StringOutputPort))
(def vp/sp (:new StringOutputPort))
(spit "f1" "line one\nline two\r\n(1 2 3)")
(mkdir "d1")
(def vp/h (file/open-input* "f1"))
(defn vp/long () (def p (:new StringOutputPort)) (def k 0) (while (< k 40) (:block-write p "some words, ") (set! k (inc/int k))) (:return-string p))
(defn vp/damage (b pos val cut)
      (def n (- (:length b) cut))
      (def r (buffer/allocate (if (> n 0) n 0)))
      (buffer/copy r b 0 (:length r))
      (when (and (> (:length r) 0) (not= cut 1)) (set! r (rem pos (:length r)) val))
      r)
(def vp/env (current-closure))
"""
WANT = [3, 3.5, 3.5, -15, 2, 1 << 40, [1, 2, 3], [Kw(b"a"), Kw(b"b"), Kw(b"c")], [1, 2, 3], -2, 77, 254, [Kw(b"boom"), 1], Kw(b"out-of-bounds"),
        Kw(b"unbound-variable"), 25, 300, 448.5, b"x299", 44850, b"llo", 2, [[1, 2.5, b"s", Kw(b"k"), Sym(b"sym")]], b'(1 "a" :b c #t #nil 2.5)',
        [b"a", b"b", b"c"], b"a-b", [1, b"x", Arr([1, 2])], True, b"kw", b"255", 9, Pair([None], 1)]


class Images(Prop):
    """Loads damaged images: each one is refused or gives some value, and nothing is corrupted."""
    id = "P25.images"
    variant = "asan"
    setup = SETUP
    batch = 20
    per_case = 20.0
    quick_cases = 160
    thorough_factor = 40
    rule = "a case counts when at least one damaged image was refused and one was loaded"

    def gen(self, c):
        depth = [0]

        def value():
            k = c.draw(11) if depth[0] < 3 else c.draw(6)
            depth[0] += 1
            try:
                if k <= 1:
                    return c.pick(["1", "-1", "70000", "5000000000", "-129", "128"])
                if k == 2:
                    return c.pick(STRS)
                if k == 3:
                    return c.pick([":k", "'s", "#t", "#f", "#nil", "1.5", "0.1"])
                if k == 4:
                    return c.pick(["#m0011223344", "(buffer/allocate 40)", "(:u16 #m00112233)", "(:clone (buffer/allocate 5) #t)", "(:f64 vp/buf2)"])
                if k == 5:
                    return c.pick(["car", "Int", "(:code (fn (a b) (if a (list a b \"q\" 1.5) 'z)))", "stdin*"])
                if k == 6:
                    return "vp/shared"
                if k <= 8:
                    return "(list %s)" % " ".join(value() for _ in range(c.int(1, 6)))
                if k == 9:
                    return "(array/new %s)" % " ".join(value() for _ in range(c.int(0, 6)))
                if k == 10:
                    return "(tree/new %s)" % " ".join("%s %s" % (c.pick(KEYS[:4] + [":x%d" % i for i in range(9)]), value()) for _ in range(c.int(0, 8)))
                return "(cons %s %s)" % (value(), value())
            finally:
                depth[0] -= 1
        tries = []
        for _ in range(c.int(10, 60)):
            muts = [(c.draw(1 << 16), c.pick([0, 1, 2, 3, 4, 8, 16, 32, 64, 127, 128, 129, 200, 254, 255]) if c.bool(2, 3) else c.draw(255)) for _ in range(c.pick([1, 1, 1, 2, 3, 8]))]
            tries.append("(%d %s)" % (c.pick([0, 0, 0, 0, c.draw(60)]), " ".join("%d %d" % m for m in muts)))
        steps = ["(def vp/shared (list 1 (array/new \"s\" 2)))", "(def vp/img (image/serialize %s))" % value(), "(def vp/tries '(%s))" % "\n".join(tries)]
        return {"text": PRE + "\n".join(steps) + """
(doseq (t vp/tries)
  (def n (:length vp/img))
  (def r (buffer/allocate (max 0 (- n (car t)))))
  (buffer/copy r vp/img 0 (:length r))
  (def m (cdr t))
  (while m
    (when (> (:length r) 0) (set! r (rem (car m) (:length r)) (cadr m)))
    (set! m (cddr m)))
  (def v (try (fn (e) :refused) (image/deserialize r)))
  (set! vp/trace (cons (if (= v :refused) :exception! :loaded) vp/trace)))
(verify/gc-every 1) (cons 1 (list 2 (cat "a" 3))) (verify/gc-every 0)
(list (nreverse vp/trace) (vp/self-test)))""", "steps": tries, "src": steps}

    judge = Api.judge

    def nontrivial(self, case, outs):
        if outs[0].kind != "ok":
            return False
        t = outs[0].value[0]
        return len(set(t)) == 2

    def show(self, case):
        return "\n".join(case["src"])


# --- arguments of the wrong kind, one at a time -------------------------------------------------------------------------------------------------------
# functions and methods written in C: what reaches them unchecked is a crash
NATIVE = {n for n in SIG} & set("""* + - / abs add/int array/new atan2 bit-and bit-not bit-or bit-shift-left bit-shift-right bit-xor buffer->string buffer/allocate
 buffer/copy cbrt ceil cos cut cwd div/int file/bytes-available* file/close* file/eof*? file/error*? file/flush* file/open-input* file/open-output* file/raw* file/read*
 file/seek* file/stat file/tell* file/write* float floor garbage-collection-runs image/deserialize image/serialize inc/int int list ls mkdir mod/int mul/int nreverse
 popcount pow read ref rem resolves? rm rmdir round sin sqrt sub/int tan time tree/new val->id""".split())
# and what those of the table above leave out
EXTRA_METHODS = [("f", "parent", []), ("f", "parent!", ["f"]), ("f", "arguments", []), ("f", "length", []), ("t", "prototype-x", []), ("T", "add-method", ["k", "f"]),
                 ("y", "array", []), ("y", "literals", []), ("N", "meta!", ["k", "e"]), ("E", "data", []), ("E", "parent", []), ("E", "has?", ["k"]), ("E", "parent!", ["f"])]
GOOD = {"n": ["3", "2.5", "-7"], "i": ["1", "0", "3"], "m": ["4", "9"], "q": ["2"], "w": ["5"], "s": ['(cat "hel" "lo")', '"a,b"'], "b": ["(buffer/allocate 16)", "vp/buf2"],
        "v": ["(:u8 vp/buf2)", "(:s32 (buffer/allocate 12))", "(:f64 (buffer/allocate 24))"], "a": ["vp/arr", "(array/new 1 2 3)"], "t": ["vp/tree", "(tree/new :a 1)"],
        "l": ["(list 1 2 3)"], "k": [":a", "'b", ":vp-who"], "f": ["vp/fun", "(fn (a) a)"], "p": ["int?"], "g": ["+"], "x": ["5", '"s"', "(list 1)"], "c": ["(list 1 2)"],
        "e": ["1"], "o": ["vp/port"], "h": ["vp/h"], "S": ['"f1"', '"d1"'], "y": ["(:code vp/fun)"], "N": ["abs"], "T": ["Pair"], "L": ["'(+ 1 2)"], "d": ["65"],
        "E": ["vp/env2"], "B": ["(image/serialize '(1 2))"]}
HOSTILE = ["#nil", "#t", "#f", "0", "-1", "1", "7", "255", "2147483648", "(- (- 0 #x7FFFFFFFFFFFFFFF) 1)", "#x4000000000000000", "1.5", "-1.5", "(* 1.0 #x7FFFFFFFFFFFFFF)", '""', '"abc"', ":k", "'s",
           "'()", "(list 1 2)", "(cons 1 2)", "(list #nil)", "(array/new)", "(array/new 1 2 3)", "(tree/new)", "(tree/new :a 1)", "#m", "#m0102", "(buffer/allocate 0)", "(buffer/allocate 8)",
           "(:clone (buffer/allocate 8) #t)", "(:u8 (buffer/allocate 4))", "(:s64 (buffer/allocate 16))", "(:f64 (buffer/allocate 9))", "(:u16 #m010203)", "(:s32 (buffer/allocate 3))",
           "(fn (a) a)", "(fn l l)", "abs", "list", "when", "vp/env2", "(:code (fn (a) a))", "stdin*", "vp/closed", "Int", "Any", "vp/port", "vp/fun", "vp/arr", "vp/tree", "vp/buf2"]
HUGE = {"2147483648", "#x4000000000000000", "(- (- 0 #x7FFFFFFFFFFFFFFF) 1)", "(* 1.0 #x7FFFFFFFFFFFFFF)", "255"}
AFTER = ["(vp/fun 1 2 3)", "(vp/fun #nil 2)", "(string/write vp/fun)", "(:data vp/fun)", "(:arguments vp/fun)", "(:parent vp/fun)", "(resolves? 'vp-unknown-thing vp/fun)",
         "(ref vp/arr 0)", "(set! vp/arr 1 2)", "(:values vp/tree)", "(set! vp/tree :q 1)", "(image/serialize vp/arr)", "(string/write vp/tree)", "(ref vp/buf2 3)",
         "(:u8 vp/buf2)", "(:has? vp/env2 :nope)", "(ref vp/env2 'vp-unknown-thing)", "(eval-in vp/env2 'vp-w)"]
VIEWS = [("u8", 1), ("s8", 1), ("u16", 2), ("s16", 2), ("u32", 4), ("s32", 4), ("s64", 8), ("f32", 4), ("f64", 8)]


class Hostile(Prop):
    """Every function and method with arguments that are right but for one; stores and loads around every boundary of every kind of collection."""
    id = "P25.hostile"
    variant = "asan"
    setup = SETUP
    batch = 20
    per_case = 20.0
    quick_cases = 1600
    thorough_factor = 40
    rule = "a case counts when at least one of its calls returned a value and one raised an exception"

    def gen(self, c):
        steps = []

        def call(s):
            steps.append("(vp/call %d vp/env '%s)" % (len(steps) % 16, s))

        def one(name, sig):
            p = c.draw(len(sig) - 1) if sig else 0
            a = [c.pick(GOOD[k]) for k in sig]
            h = c.pick(HOSTILE)
            if name.lstrip(":") in LINEAR or name in LINEAR:
                while h in HUGE:
                    h = c.pick(HOSTILE[:4])
            if a:
                a[p] = h
            r = c.draw(7)
            if r == 6:
                a = a[:p]
            elif r == 7:
                a = a + [c.pick(HOSTILE)] if name not in LINEAR and name.lstrip(":") not in LINEAR and name not in STORES else a
            call("(%s)" % " ".join([name] + a))

        def bounds():
            """An index around a boundary of a collection."""
            k = c.draw(5)
            n = c.int(0, 9)
            if k <= 2:
                t, w = c.pick(VIEWS)
                col, ln = "(:%s (buffer/allocate %d))" % (t, n * w + c.draw(w - 1)), n
                v = c.pick(["1", "-1", "#x7FFFFFFFFFFFFFFF"] + (["1.5"] if t[0] == "f" else []))
            elif k == 3:
                col, ln, v, w = "(buffer/allocate %d)" % n, n, "7", 1
            elif k == 4:
                col, ln, v, w = "(:alloc Array %d)" % n, n, "7", 1
            else:
                col, ln, v, w = '(cat "%s")' % ("x" * n), n, "7", 1
            i = c.pick([ln - 1, ln, ln, ln + 1, ln + 2, -1, 0, ln * w - 1, ln * w, ln * w + 1, ln * 2, (1 << 32) + ln, 1 << 59, (1 << 58) + 1, "#x1000000000000001", "#x4000000000000000", ln + 500])
            if c.bool():
                call("(ref %s %s)" % (col, i))
            else:
                call("(do (def vp/x %s) (set! vp/x %s %s))" % (col, i, v))

        names = sorted(SIG)
        nat = sorted(NATIVE)
        meths = [(":" + n, [r] + list(s)) for n in sorted(METHODS) for r, s in METHODS[n] if r != "o"] + [(":" + n, [r] + s) for r, n, s in EXTRA_METHODS]
        for _ in range(c.int(6, 20)):
            k = c.weighted([(5, 0), (3, 1), (5, 2), (3, 3)])
            if k == 0:
                n = c.pick(nat)
                one(n, list(c.pick(SIG[n])))
            elif k == 1:
                n = c.pick(names)
                if n in FILES:
                    continue
                one(n, list(c.pick(SIG[n])))
            elif k == 2:
                n, s = c.pick(meths)
                one(n, s)
            else:
                bounds()
        for s in [c.pick(AFTER) for _ in range(c.int(2, 5))]:
            call(s)
        return {"text": PRE2 + "\n".join(steps) + "\n(list (nreverse vp/trace) (vp/self-test)))", "steps": steps}

    judge = Api.judge
    show = Api.show

    def nontrivial(self, case, outs):
        if outs[0].kind != "ok":
            return False
        t = outs[0].value[0]
        x = sum(1 for k in t if k == Kw(b"exception!"))
        return 0 < x < len(t)


PRE2 = PRE + r"""
(def vp/env2 (let* (def vp-w 5) (current-closure)))
(def vp/closed (file/open-input* "f1"))
(file/close* vp/closed)
"""


PROPS = [Api(), Hostile(), Images()]
