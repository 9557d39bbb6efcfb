"""Operation histories against a model: each step's outcome is compared with the model's prediction."""
from .core import Prop, health
from .values import Arr, F, Kw, Opaque, Pair, Tree, expr, same

# Deep copies what a step returned, so that later mutation does not change the record.
SETUP = """
(defn vp/snap (v)
      (def t (:type-name v))
      (cond ((= t :pair) (cons (vp/snap (car v)) (vp/snap (cdr v))))
            ((= t :array)
             (def r (:alloc Array (:length v)))
             (def i 0)
             (while (< i (:length v))
               (set! r i (vp/snap (ref v i)))
               (set! i (inc/int i)))
             r)
            ((= t :tree)
             (def r (tree/new))
             (def ks (:keys v))
             (while ks
               (set! r (car ks) (vp/snap (ref v (car ks))))
               (set! ks (cdr ks)))
             r)
            ((= t :buffer)
             (def r (buffer/allocate (:length v)))
             (def i 0)
             (while (< i (:length v))
               (set! r i (ref v i))
               (set! i (inc/int i)))
             r)
            (#t v)))
(defmacro vp/step body
   `(set! vp/log (cons (try (fn (e) (cons :exception! (if (pair? e) (car e) e))) (vp/snap (do ~@body))) vp/log)))
"""


class Raises:
    """The step must end in a catchable exception (of this type, if given)."""
    def __init__(self, kind=None):
        self.kind = kind

    def __repr__(self):
        return "an exception" + (" :" + self.kind if self.kind else "")


class Any:
    """Any value, or no exception."""
    def __repr__(self):
        return "any value"


class AnyOrRaise(Any):
    def __repr__(self):
        return "anything"


def snap(v):
    """Copy of a model value."""
    if isinstance(v, Arr):
        return Arr(snap(x) for x in v)
    if isinstance(v, Tree):
        return Tree((k, snap(x)) for k, x in v.items())
    if isinstance(v, Pair):
        return Pair([snap(x) for x in v.items], snap(v.tail))
    if isinstance(v, list):
        return norm([snap(x) for x in v])
    return v


def norm(v):
    """The empty list is nil."""
    return None if isinstance(v, list) and not isinstance(v, Arr) and not v else v


def normdeep(v):
    if isinstance(v, Arr):
        return Arr(normdeep(x) for x in v)
    if isinstance(v, Tree):
        return Tree((k, normdeep(x)) for k, x in v.items())
    if isinstance(v, list):
        return norm([normdeep(x) for x in v])
    if isinstance(v, Pair):
        items, tail = [normdeep(x) for x in v.items], normdeep(v.tail)
        if tail is None:
            return items
        if isinstance(tail, list) and not isinstance(tail, Arr):
            return items + tail
        if isinstance(tail, Pair):
            return Pair(items + tail.items, tail.tail)
        return Pair(items, tail)
    return v


def isexc(got, kind=None):
    if isinstance(got, list) and not isinstance(got, Arr) and got and got[0] == Kw(b"exception!"):
        return kind is None            # thrown nil or list
    return (isinstance(got, Pair) and len(got.items) >= 1 and got.items[0] == Kw(b"exception!")
            and (kind is None or got.tail == Kw(kind.encode())))


def matches(want, got):
    if isinstance(want, Raises):
        return isexc(got, want.kind)
    if isinstance(want, AnyOrRaise):
        return True
    if isinstance(want, Any):
        return not isexc(got)
    if callable(want) and not isinstance(want, Opaque):
        return want(got)
    return same(normdeep(want), got)


class Session:
    def __init__(self):
        self.steps = []          # (source, want or None when not observed)

    def do(self, src):
        """A step that is run but not recorded (must not raise)."""
        self.steps.append((src, None, False))

    def step(self, src, want):
        self.steps.append((src, want if isinstance(want, (Raises, Any)) or callable(want) else snap(want), True))

    def define(self, name, src, want):
        """Bind NAME outside of the step (which has a scope of its own), then check what it holds."""
        self.do("(def %s #nil)" % name)
        self.step("(set! %s %s) %s" % (name, src, name), want)

    def case(self, **kw):
        text = "(do (def vp/log #nil)\n%s\n(nreverse vp/log))" % "\n".join(
            "(vp/step %s)" % s if obs else s for s, _, obs in self.steps)
        d = {"text": text, "session": self}
        d.update(kw)
        return d


class SessionProp(Prop):
    setup = SETUP
    batch = 40

    def judge(self, case, outs):
        s = case["session"]
        o = outs[0]
        if o.kind != "ok":
            return "expected the history to run to its end, got %r" % o
        got = o.value or []
        obs = [(src, want) for src, want, ob in s.steps if ob]
        if not isinstance(got, list):
            return "wrong shape: %r" % o
        for i, (src, want) in enumerate(obs):
            if i >= len(got):
                return "step %d (%s) left no record" % (i, src)
            if not matches(want, got[i]):
                return "step %d: %s\n gave %.1500r, expected %.1500r" % (i, src, got[i], normdeep(want))
        if len(got) != len(obs):
            return "%d steps recorded, expected %d" % (len(got), len(obs))
        return None

    def nontrivial(self, case, outs):
        return case.get("big", True)

    def show(self, case):
        return "\n".join(s for s, _, _ in case["session"].steps)
