"""Method dispatch and prototypes (P23)."""
from vp.session import Any, Raises, Session, SessionProp
from vp.values import Kw, Sym

TYPES = ["Any", "Nil", "Symbol", "Keyword", "Bool", "Int", "Float", "Pair", "Array", "Tree", "Lambda", "Macro", "NativeFunc", "Environment",
         "String", "Buffer", "BufferView", "BytecodeArr", "FileHandle", "Type"]
PARENT = {t: "Any" for t in TYPES}
PARENT.update(Any=None, Macro="Lambda", Environment="Lambda", String="Buffer")
NAME = {"NativeFunc": "native-function", "BufferView": "buffer-view", "BytecodeArr": "bytecode-array", "FileHandle": "file-handle"}
EXAMPLES = {
    "Nil": ["#nil"], "Symbol": ["'a", "(:symbol \"b\")"], "Keyword": [":a", "(:keyword \"zz\")"], "Bool": ["#t", "#f"], "Int": ["0", "-5", "7"],
    "Float": ["1.5", "-0.5"], "Pair": ["'(1 2)", "(cons 1 2)"], "Array": ["[1 2]", "(:alloc Array 2)"], "Tree": ["{:q 1}"],
    "Lambda": ["(fn () 1)", "max"], "Macro": ["when", "if-not"], "NativeFunc": ["abs", "popcount"], "Environment": ["(environment*)", "(let* (current-closure))"],
    "String": ['"str"', '(cat "a" 1)'], "Buffer": ["(buffer/allocate 3)"], "BufferView": ["(:u8 (buffer/allocate 3))"],
    "BytecodeArr": ["(:code max)"], "FileHandle": ["stdin*", "stdout*"], "Type": ["Int", "Type", "Any"],
}


class Dispatch(SessionProp):
    """Tables of methods on every type and on objects with prototypes, against a dictionary model."""
    id = "P23.dispatch"
    quick_cases = 4000
    rule = "a case counts when a call was answered by an inherited method"

    def gen(self, c):
        s = Session()
        tag = "%06x" % c.draw(0xFFFFFF)
        names = ["m%s%d" % (tag, i) for i in range(c.int(1, 6))]
        table = {}                       # (type, name) -> id
        objs = []                        # dict of own slots: name -> ("fn", id) | ("val", v) ; proto: index or None
        ids = [0]
        used = [False]

        def method(obj=False):
            """A method that tells which it is, its arguments and whether self is what it was called on."""
            ids[0] += 1
            return ids[0], "(fn (self a b) (list %d (:type-name self) a b))" % ids[0]

        def lookup_type(t, name):
            d = 0
            while t:
                if (t, name) in table:
                    if d:
                        used[0] = True
                    return table[(t, name)]
                t, d = PARENT[t], d + 1
            return None

        def lookup_obj(i, name):
            seen, d = set(), 0
            while i is not None and i not in seen:
                seen.add(i)
                if name in objs[i]["slots"]:
                    if d:
                        used[0] = True
                    return objs[i]["slots"][name]
                i, d = objs[i]["proto"], d + 1
            m = lookup_type("Tree", name)
            return None if m is None else ("fn", m)

        def want(hit, t, args):
            if hit is None:
                return Raises("type-error")
            if hit[0] == "val":
                return Raises("type-error")
            a = (list(args) + [None, None])[:2]
            return [hit[1], Kw(NAME.get(t, t.lower()).encode()), a[0], a[1]]

        for _ in range(c.int(3, 40)):
            op = c.weighted([(3, "add"), (5, "call"), (2, "obj"), (3, "slot"), (4, "ocall"), (1, "proto"), (2, "ref"), (1, "apply"), (1, "bad"), (1, "many")])
            name = c.pick(names)
            args = [c.draw(9) for _ in range(c.weighted([(2, 0), (2, 1), (2, 2), (1, 3)]))]
            sargs = " ".join(map(str, args))
            if op == "add":
                t = c.pick(TYPES if c.bool() else ["Any", "Buffer", "String", "Lambda", "Environment", "Macro", "Tree"])
                i, src = method()
                table[(t, name)] = i
                s.step("(:name (:add-method %s :%s %s))" % (t, name, src), Kw(NAME.get(t, t.lower()).encode()))
            elif op in ("call", "apply"):
                t = c.pick(TYPES[1:] if c.bool() else ["Buffer", "String", "Lambda", "Environment", "Macro", "Int", "Tree"])
                v = c.pick(EXAMPLES[t])
                m = lookup_type(t, name)
                w = want(None if m is None else ("fn", m), t, args)
                if op == "call":
                    s.step("(:%s %s %s)" % (name, v, sargs), w)
                else:
                    s.step("(apply :%s (list %s %s))" % (name, v, sargs), w)
            elif op == "obj":
                p = c.int(0, len(objs) - 1) if objs and c.bool(3, 4) else None
                i = len(objs)
                objs.append({"slots": {}, "proto": p})
                s.do("(def o%d (tree/new :id %d%s))" % (i, i, "" if p is None else " :prototype* o%d" % p))
            elif not objs:
                continue
            elif op == "slot":
                i = c.int(0, len(objs) - 1)
                if c.bool(3, 4):
                    k, src = method()
                    objs[i]["slots"][name] = ("fn", k)
                else:
                    k = c.draw(99)
                    objs[i]["slots"][name] = ("val", k)
                    src = str(k)
                s.do("(set! o%d :%s %s)" % (i, name, src))
                s.step("(:length (:clone o%d))" % i, len(objs[i]["slots"]) + 1 + (objs[i]["proto"] is not None or "p" in objs[i]))
            elif op == "many":
                i = c.int(0, len(objs) - 1)
                k = c.int(1, 20)
                new = ["x%d" % j for j in range(k)]
                s.do("(dotimes (j %d) (set! o%d (:symbol (cat \"x\" j)) j))" % (k, i))
                for n in new:
                    objs[i]["slots"][n] = ("val", int(n[1:]))
            elif op == "proto":
                i, p = c.int(0, len(objs) - 1), c.int(0, len(objs) - 1)     # may close a cycle
                if c.bool(1, 5):
                    objs[i]["proto"] = None
                    objs[i]["p"] = 1
                    s.do("(set! o%d :prototype* %s)" % (i, c.pick(["#nil", "5", "Int", '"x"', "[1]", "car"])))
                else:
                    objs[i]["proto"] = p
                    s.do("(set! o%d :prototype* o%d)" % (i, p))
            elif op == "ocall":
                i = c.int(0, len(objs) - 1)
                s.step("(:%s o%d %s)" % (name, i, sargs), want(lookup_obj(i, name), "Tree", args))
            elif op == "ref":
                i = c.int(0, len(objs) - 1)
                h = objs[i]["slots"].get(name)
                if h is None:
                    s.step("(ref o%d :%s)" % (i, name), None)
                    s.step("(:has? o%d :%s)" % (i, name), False)
                elif h[0] == "val":
                    s.step("(ref o%d :%s)" % (i, name), h[1])
                else:
                    s.step("((ref o%d :%s) o%d)" % (i, name, i), want(h, "Tree", []))
            elif op == "bad":
                s.step(c.pick(["(:add-method Int :%s abs)", "(:add-method Int \"%s\" (fn (self) 1))", "(:add-method 5 :%s (fn (self) 1))", "(:add-method Int :%s 1)",
                               "(:nosuch%s 1)", "(apply :nosuch%s '(1))"]) % name, Raises("type-error"))
        return s.case(big=used[0])


class Objects(SessionProp):
    """Classes, instances and shared class state, environments as parents, and metadata of functions."""
    id = "P23.objects"
    quick_cases = 2000
    rule = "a case counts when an object answered through a class or an environment through its parent"

    def gen(self, c):
        s = Session()
        used = False
        ncls = c.int(1, 3)
        cls = []
        for i in range(ncls):
            parent = c.int(0, i - 1) if i and c.bool(2, 3) else None
            scale = c.int(1, 9)
            s.do("""(defclass C%d (def counter %d)
  (defn scale () %d)
  (defn new (self v) (tree/new :v v :prototype* self))
  (defn get (self) (* (scale) (ref self :v)))
  (defn put! (self v) (set! self :v v))
  (defn twice (self) (+ (:get self) (:get self)))
  (defn bump! (self n) (set! counter (+ counter n)) counter)
  (def limit %d))""" % (i, i * 100, scale, 40 + i))
            if parent is not None:
                # only inherits what it does not define itself
                s.do("(def D%d (tree/new :prototype* C%d :twice (fn (self) (list :twice (:get self)))))" % (i, parent))
            cls.append({"counter": i * 100, "scale": scale, "parent": parent, "own": {}})
        insts = []
        envs, fns = [], []
        for _ in range(c.int(4, 40)):
            op = c.weighted([(3, "new"), (3, "get"), (2, "put"), (2, "bump"), (2, "grow"), (1, "override"), (2, "env"), (2, "envget"), (1, "envset"),
                             (1, "reparent"), (2, "fn"), (2, "meta"), (2, "metaget"), (1, "derived")])
            if op == "new":
                k = c.int(0, ncls - 1)
                v = c.draw(99)
                s.do("(def i%d (:new C%d %d))" % (len(insts), k, v))
                insts.append({"c": k, "v": v, "get": None, "derived": False})
            elif op == "derived":
                ks = [k for k in range(ncls) if cls[k]["parent"] is not None]
                if ks:
                    k = c.pick(ks)
                    v = c.draw(99)
                    s.do("(def i%d (:new D%d %d))" % (len(insts), k, v))
                    insts.append({"c": cls[k]["parent"], "v": v, "get": None, "derived": True})
            elif op in ("get", "put", "override") and insts:
                i = c.int(0, len(insts) - 1)
                o = insts[i]
                used = True
                if op == "put":
                    o["v"] = c.draw(99)
                    s.step("(ref (:put! i%d %d) :v)" % (i, o["v"]), o["v"])
                elif op == "override":
                    o["get"] = c.draw(99)
                    s.do("(set! i%d :get (fn (self) %d))" % (i, o["get"]))
                g = o["get"] if o["get"] is not None else cls[o["c"]]["scale"] * o["v"]
                s.step("(:get i%d)" % i, g)
                s.step("(:twice i%d)" % i, [Kw(b"twice"), g] if o["derived"] else 2 * g)
                s.step("(ref i%d :limit)" % i, None)
                s.step("(ref C%d :v)" % o["c"], None)
            elif op == "bump":
                k = c.int(0, ncls - 1)
                n = c.draw(9)
                cls[k]["counter"] += n
                who = [i for i, o in enumerate(insts) if o["c"] == k]
                s.step("(:bump! %s %d)" % ("i%d" % c.pick(who) if who and c.bool(3, 4) else "C%d" % k, n), cls[k]["counter"])
                used = used or bool(who)
            elif op == "grow":
                k = c.int(0, ncls - 1)
                n = c.int(1, 30)
                new = {"s%d" % j: j + n for j in range(n)}
                cls[k]["own"].update(new)
                s.do("(dotimes (j %d) (set! C%d (:symbol (cat \"s\" j)) (+ j %d)))" % (n, k, n))
                q = c.pick(sorted(cls[k]["own"]))
                s.step("(ref C%d :%s)" % (k, q), cls[k]["own"][q])
                s.step("(ref C%d :limit)" % k, 40 + k)
                s.step("(:length C%d)" % k, 9 + len(cls[k]["own"]))
                s.step("(:bump! C%d 0)" % k, cls[k]["counter"])
            elif op == "env":
                vs = {"e%d" % c.int(0, 5): c.draw(99) for _ in range(c.int(0, 4))}
                p = c.int(0, len(envs) - 1) if envs and c.bool(2, 3) else None
                i = len(envs)
                s.do("(def env%d (environment* %s))" % (i, " ".join("(def %s %d)" % kv for kv in sorted(vs.items()))))
                s.do("(:parent! env%d %s)" % (i, "root-closure" if p is None else "env%d" % p))
                envs.append({"vars": vs, "parent": p})
            elif op == "reparent" and len(envs) > 1:
                i = c.int(1, len(envs) - 1)
                p = c.int(0, i - 1)
                envs[i]["parent"] = p
                s.step("(:type-name (:parent! env%d env%d))" % (i, p), Kw(b"environment"))
            elif op in ("envget", "envset") and envs:
                i = c.int(0, len(envs) - 1)
                k = "e%d" % c.int(0, 5)
                if op == "envset":
                    v = c.draw(99)
                    # assignment changes the nearest definition, DEF always its own scope
                    if c.bool():
                        envs[i]["vars"][k] = v
                        s.step("(eval-in env%d '(def %s %d))" % (i, k, v), v)
                    else:
                        j = i
                        while j is not None and k not in envs[j]["vars"]:
                            j = envs[j]["parent"]
                        s.step("(eval-in env%d '(set! %s %d))" % (i, k, v), Raises("unbound-variable") if j is None else v)
                        if j is not None:
                            envs[j]["vars"][k] = v
                j, d = i, 0
                while j is not None and k not in envs[j]["vars"]:
                    j, d = envs[j]["parent"], d + 1
                used = used or (j is not None and d > 0)
                w = Raises("unbound-variable") if j is None else envs[j]["vars"][k]
                s.step("(ref env%d '%s)" % (i, k), w)
                s.step("(eval-in env%d '%s)" % (i, k), w)
                s.step("(:has? env%d :%s)" % (i, k), j is not None)
                s.step("(:length (:data env%d))" % i, len(envs[i]["vars"]))
            elif op == "fn":
                i = len(fns)
                params = ["a", "b", "c"][:c.int(0, 3)]
                fns.append({"meta": {}, "params": params})
                s.do(c.pick(["(def f%d (fn (%s) %d))", "(def f%d ((fn (x) (fn (%s) (list x %d))) 1))"]) % (i, " ".join(params), i))
                s.step("(:arguments f%d)" % i, [Sym(x.encode()) for x in params] or [None])
            elif op == "meta" and fns:
                i = c.int(0, len(fns) - 1)
                k, v = "k%d" % c.int(0, 9), c.draw(99)
                fns[i]["meta"][k] = v
                s.step("(:type-name (:meta! f%d :%s %d))" % (i, k, v), Kw(b"lambda"))
            elif op == "metaget" and fns:
                i = c.int(0, len(fns) - 1)
                k = "k%d" % c.int(0, 9)
                s.step("(:meta f%d :%s)" % (i, k), fns[i]["meta"].get(k))
        return s.case(big=used)


class TypeOf(SessionProp):
    """What kind of value something is, and the predicates that tell."""
    id = "P23.types"
    quick_cases = 400
    rule = "a case counts for every distinct sequence of values"
    PRED = [("nil?", ("Nil",)), ("int?", ("Int",)), ("float?", ("Float",)), ("bool?", ("Bool",)), ("pair?", ("Pair",)), ("array?", ("Array",)),
            ("string?", ("String",)), ("symbol?", ("Symbol",)), ("keyword?", ("Keyword",)), ("tree?", ("Tree",)), ("buffer?", ("Buffer",)), ("callable?", ("Macro", "Lambda", "NativeFunc")),
            ("lambda?", ("Lambda",)), ("macro?", ("Macro",)), ("native?", ("NativeFunc",)), ("environment?", ("Environment",)),
            ("bytecode-array?", ("BytecodeArr",)), ("number?", ("Int", "Float")), ("procedure?", ("Lambda", "NativeFunc"))]

    def gen(self, c):
        s = Session()
        for _ in range(c.int(2, 12)):
            t = c.pick(TYPES[1:])
            v = c.pick(EXAMPLES[t])
            s.step("(:type-name %s)" % v, Kw(NAME.get(t, t.lower()).encode()))
            s.step("(= (:type-of %s) %s)" % (v, t), True)
            s.step("(:name (:type-of %s))" % v, Kw(NAME.get(t, t.lower()).encode()))
            for p, ts in self.PRED:
                if c.bool(1, 3):
                    s.step("(if (%s %s) #t #f)" % (p, v), t in ts)
        return s.case()


PROPS = [Dispatch(), Objects(), TypeOf()]
