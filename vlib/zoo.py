"""Callables and values of many kinds, and the local answer to every call."""
import copy
import functools
import operator
import random
import traceback
import zlib


def by_value(source, name, **env):
    """a function cloudpickle has to send by value"""
    scope = dict(env, __name__="__main__")
    exec(source, scope)
    return scope[name]


class Account:
    def __init__(self, rate):
        self.rate = rate

    def add(self, *values):
        return ("account", self.rate, values)

    def __call__(self, *values):
        return ("called", self.rate, values)

    @staticmethod
    def static(*values):
        return ("static", values)

    @classmethod
    def klass(cls, *values):
        return (cls.__name__, values)


class Savings(Account):
    def add(self, *values):
        return ("savings", self.rate, values)


def plain(*values):
    return ("plain", values)


def length(value):
    return len(value)


def closure(k):
    def f(*values):
        return ("closure", k, values)

    return f


def closure2(k):
    def f(*values):
        return ("closure2", k, values)

    return f


def bulky(blob):
    def f(*values):
        return ("bulky", len(blob), zlib.crc32(blob), values)

    return f


def partial_bulky(blob, *values):
    return ("partial", len(blob), zlib.crc32(blob), values)


def eater(k):
    """says what it got, then destroys it"""

    def f(*values):
        import copy

        got = copy.deepcopy(values)
        for v in values:
            if isinstance(v, (list, bytearray)):
                v.append(7)
                v.reverse()
                del v[: len(v) // 2]
            elif isinstance(v, (dict, set)):
                v.clear()
        return ("eater", k, got)

    return f


def twins(rng):
    """two large callables that are the same but for a few bytes somewhere"""
    n = rng.choice([3_000, 70_000, 70_000, 300_000])
    body = bytearray(b"%d" % rng.randrange(3) * n)
    other = bytearray(body)
    at = rng.choice([0, n // 2, n - 1, n - 1])
    other[at] ^= 1
    make = rng.choice([bulky, lambda b: functools.partial(partial_bulky, b), lambda b: Account(b).add])
    return [make(bytes(body)), make(bytes(other))]


class Calls:
    """calls whose arguments are partly objects the caller keeps, passes again and changes in between"""

    def __init__(self, rng):
        self.rng = rng
        n = rng.choice([10, 1_000, 5_000])
        self.pool = [[0] * n, list(range(n)), {str(i): i for i in range(n)}, bytearray(n), {1, 2, 3}, [[1, 2], {"k": [3]}], list(range(n)), [0] * n]

    def arguments(self, most=3):
        rng = self.rng
        return tuple(rng.choice(self.pool) if rng.random() < 0.3 else value(rng) for _ in range(rng.choice([0, 1, 1, 2, most])))

    @staticmethod
    def answer(f, args):
        return f(*[copy.deepcopy(a) for a in args])

    def meddle(self):
        """the caller changes an object it passed before"""
        if self.rng.random() < 0.3:
            v = self.rng.choice(self.pool)
            if isinstance(v, list):
                v.insert(0, self.rng.randrange(5))
            elif isinstance(v, dict):
                v[str(self.rng.randrange(9))] = self.rng.randrange(5)
            elif isinstance(v, bytearray):
                v[0] = self.rng.randrange(256)
            else:
                v.add(self.rng.randrange(9))


def functions(rng, n):
    """n callables; many share a name, some share everything but a captured value"""
    out = []
    while len(out) < n:
        i = len(out)
        if rng.random() < 0.06:
            out += twins(rng)
            continue
        kind = rng.randrange(14)
        k = rng.choice([0, 1, 2, 3, i, f"s{i}", (1, i)])
        if kind == 0:
            out.append(closure(k))
        elif kind == 1:
            out.append(closure2(k))
        elif kind == 2:
            out.append(eval(f"lambda *v: ('lambda', {k!r}, v)", {"__name__": "__main__"}))
        elif kind == 3:
            out.append(functools.partial(plain, k))
        elif kind == 4:
            out.append(rng.choice([Account, Savings])(k).add)
        elif kind == 5:
            out.append(Account(k))
        elif kind == 6:
            out.append(by_value(f"def f(*v):\n    return ('f', {k!r}, v)", "f"))
        elif kind == 7:
            out.append(by_value(f"G = {k!r}\ndef f(*v):\n    return ('global', G, v)", "f"))
        elif kind == 8:
            out.append(rng.choice([Account.static, Account.klass, Savings.klass]))
        elif kind == 9:
            out.append(plain)
        elif kind in (12, 13):
            out.append(eater(k))
        elif kind == 10:
            out.append(by_value(f"def f(*v):\n    def g():\n        return ('nested', {k!r}, v)\n    return g()", "f"))
        else:
            f = by_value(f"def é(*v):\n    return ('named', {k!r}, v)", "é")
            f.__name__ = rng.choice(["f", "plain", "", "x" * 300, "naïve ☃", "add"])
            out.append(f)
    return out


def value(rng, depth=0):
    kind = rng.randrange(14)
    if kind == 0:
        return None
    if kind == 1:
        return rng.choice([True, False, 0, 1, -1, 1.0, 0.0, -0.0, 2 ** 70, 1.5, float("inf")])
    if kind == 2:
        return rng.randbytes(rng.choice([0, 1, 5, 300]))
    if kind == 3:
        return rng.choice(["", "a", "None", "é☃", "x" * 2000, "\0"])
    if kind == 4 and depth < 3:
        return [value(rng, depth + 1) for _ in range(rng.randrange(4))]
    if kind == 5 and depth < 3:
        return tuple(value(rng, depth + 1) for _ in range(rng.randrange(4)))
    if kind == 6 and depth < 3:
        return {str(i): value(rng, depth + 1) for i in range(rng.randrange(3))}
    if kind == 7:
        return frozenset(rng.sample(range(20), 4))
    if kind == 8:
        r = rng.random()
        return rng.randbytes(200_000) if r < 0.1 else rng.randbytes(3_000_000) if r < 0.11 else b"D"
    if kind == 9:
        return range(rng.randrange(10))
    if kind == 10:
        return complex(rng.random(), 1)
    if kind == 11:
        return operator.itemgetter
    return rng.randrange(1000)


def same(a, b):
    """equal, with the same types all the way down"""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return a == b and same(list(a.items()), list(b.items()))
    if isinstance(a, float):
        return repr(a) == repr(b)
    return a == b


# ------------------------------------------------------------------------------------------------ failures
class Custom(Exception):
    pass


class Rich(Exception):
    def __init__(self, code, text):
        super().__init__(code, text)
        self.code = code


class Unloadable(Exception):
    """can be pickled but not loaded again"""

    def __init__(self, a, b):
        super().__init__(f"{a}{b}")


class Unpicklable(Exception):
    def __reduce__(self):
        raise TypeError("cannot be pickled")


class Evil(BaseException):
    pass


class LoadsBadly:
    def __init__(self, tag):
        self.tag = tag

    def __reduce__(self):
        return _refuse, (self.tag,)


def _refuse(tag):
    raise ValueError("does not load", tag)


class PicklesBadly:
    def __reduce__(self):
        raise ValueError("does not pickle")


def failing(rng, tag):
    """(function, arguments, expected) - expected: ("same", exception) arrives as the same type with the same arguments,
    ("any",) some exception arrives"""
    kind = rng.randrange(13)
    if kind == 0:
        e = rng.choice([ValueError("v", tag), KeyError(tag), ZeroDivisionError("division by zero"), OSError(2, "no", "file"), StopIteration(tag),
                        UnicodeDecodeError("utf-8", b"\xff", 0, 1, "bad"), Custom(tag), Rich(7, tag), RuntimeError(), TypeError("x" * 5000),
                        ExceptionGroup("many", [ValueError(1), KeyError(2)]), AssertionError(None), MemoryError("m"), RecursionError("r"),
                        TimeoutError("t", tag), ConnectionError(tag)])
        if rng.random() < 0.05:
            e = rng.choice([ValueError("x" * 3_000_000, tag), Custom(tag, [b"y" * 100_000] * 3, list(range(200_000)))])
        return closure_raise(e), (), ("same", e)
    if kind == 1:
        return closure_raise(Unloadable(1, tag)), (), ("any",)
    if kind == 2:
        return closure_raise(Unpicklable(tag)), (), ("any",)
    if kind == 3:
        return closure_raise(SystemExit(3)), (), ("any",)
    if kind == 4:
        return by_value("import sys\ndef leave(v):\n    sys.exit(v)", "leave"), (rng.choice([0, 1, "bye", None]),), ("any",)
    if kind == 5:
        return returns(PicklesBadly), (), ("any",)
    if kind == 6:
        return returns_loads_badly, (tag,), ("any",)
    if kind == 7:
        return closure_raise(rng.choice([Evil(tag), KeyboardInterrupt(tag), GeneratorExit(tag)])), (), ("any",)
    if kind == 8:
        return plain, (LoadsBadly(tag),), ("any",)
    if kind == 9:
        return by_value("def lock(v):\n    import threading\n    return threading.Lock()", "lock"), (1,), ("any",)
    if kind == 10:
        return by_value("def gen(v):\n    return (x for x in range(v))", "gen"), (3,), ("any",)
    if kind == 11:
        return by_value("def deep(v):\n    return deep(v)", "deep"), (1,), ("any",)
    return HasBadFunction(tag), (tag,), ("any",)


SCRIPT = """
class Trouble(%s):
    note = 7
    def describe(self):
        return self.note, self.args

class Part:
    def __init__(self, v):
        self.v = v
    def __eq__(self, other):
        return type(self) is type(other) and self.v == other.v

class Sub(Trouble):
    pass

def inner(v):
    if v[0] == 0:
        raise Trouble(v)
    if v[0] == 1:
        raise Trouble("with a part", Part(v))
    if v[0] == 2:
        raise ValueError("with a part", Part(v))
    try:
        {}[v]
    except KeyError as e:
        raise Sub(v, 1) from e

def f(*v):
    inner(v)
"""


def script_failing(rng, tag):
    """raises an exception of a class which only exists in the caller's script, or with a value of such a class in it"""
    f = by_value(SCRIPT % rng.choice(["Exception", "ValueError", "OSError", "LookupError", "RuntimeError"]), "f")
    args = (rng.randrange(4), tag)
    try:
        f(*args)
    except Exception as e:
        return f, args, ("same", e)


def untraced(e, want):
    """what is missing of the traceback of an exception that arrived. Only types of the language itself are held to it"""
    if want[0] != "same" or type(want[1]).__module__ != "builtins":
        return None
    names = [frame.f_code.co_name for frame, _ in traceback.walk_tb(e.__traceback__)]
    return None if "f" in names else f"{e!r:.100} arrived without the function that raised it in its traceback, which has {names}"


def fresh(*args):
    """no two calls return the same"""
    import uuid

    return args, uuid.uuid4().hex


def closure_raise(e):
    def f(*values):
        raise e

    return f


def returns(what):
    def f(*values):
        return what()

    return f


def returns_loads_badly(tag):
    return LoadsBadly(tag)


class HasBadFunction:
    """a callable whose pickled form does not load"""

    def __init__(self, tag):
        self.tag = tag

    def __call__(self, v):
        return v

    def __reduce__(self):
        return _refuse, (self.tag,)


# ------------------------------------------------------------------------------------------------ signatures
def signature_source(rng):
    """source of 'def target(...)' returning what it received, and its parameters by kind"""
    names = ["a", "b", "c", "d", "e", "x", "y", "self", "fn", "args", "kwargs"]
    rng.shuffle(names)
    npos, nnorm, nkw = rng.choice([0, 0, 1, 2]), rng.choice([0, 1, 2, 3, 4]), rng.choice([0, 0, 0, 1, 2])
    total = npos + nnorm
    first_default = rng.randrange(total + 1)
    parts, used = [], []
    for i in range(total):
        name = names.pop()
        used.append(name)
        parts.append(name if i < first_default else f"{name}={rng.choice(['D_' + name] * 4 + CONFUSABLE)!r}")
        if i == npos - 1:
            parts.append("/")
    var = rng.random() < 0.3
    if var:
        name = names.pop()
        parts.append("*" + name)
        used.append(name)
    kw = []
    if nkw:
        if not var:
            parts.append("*")
        for _ in range(nkw):
            name = names.pop()
            kw.append(name)
            used.append(name)
            parts.append(name if rng.random() < 0.4 else f"{name}={rng.choice(['K_' + name] * 4 + CONFUSABLE)!r}")
    if rng.random() < 0.2:
        name = names.pop()
        used.append(name)
        parts.append("**" + name)
    body = "{" + ", ".join(f"{n!r}: {n}" for n in used) + "}"
    return f"def target({', '.join(parts)}):\n    return {body}", used[:total], kw


CONFUSABLE = [None, None, 0, 1, True, False, 1.0, 0.0, -0.0, "", "1", b"1", [], (), {}, ..., "None"]


def call(rng, params, kw):
    args, kwargs = _call(rng, params, kw)
    p = rng.choice([0, 0.3, 0.9])
    pick = lambda v: rng.choice(CONFUSABLE) if rng.random() < p else v  # noqa
    return [pick(v) for v in args], {k: pick(v) for k, v in kwargs.items()}


def _call(rng, params, kw):
    if rng.random() < 0.7:  # mostly calls that fit
        k = rng.randrange(len(params) + 1)
        args = [f"v{i}" for i in range(k)]
        kwargs = {n: f"k_{n}" for n in params[k:] if rng.random() < 0.6}
        if rng.random() < 0.4:
            kwargs.update({n: f"k_{n}" for n in kw if rng.random() < 0.8})
    else:
        args = [f"v{i}" for i in range(rng.choice([0, 0, 1, 1, 2, 3, 4, 6]))]
        kwargs = {n: f"k_{n}" for n in params + kw if rng.random() < 0.4}
    if rng.random() < 0.05:
        kwargs["zzz"] = "k_zzz"
    items = list(kwargs.items())
    rng.shuffle(items)
    return args, dict(items)


# ------------------------------------------------------------------------------------------------ graphs
def combine(*values):
    return ("combine", values)


def tag(t):
    def node(*values):
        return (t, values)

    return node


def graph(rng, n=None, failing_node=None):
    """an acyclic graph in arbitrary key order: name -> data or (function, names...)"""
    n = n if n is not None else rng.choice([1, 2, 3, 5, 8, 13])
    names = [rng.choice(["n", "x", "é", "node "]) + str(i) for i in range(n)]
    fs = [combine, plain, tag(1), tag(2), tag("t"), by_value("def combine(*v):\n    return ('other', v)", "combine")]
    out = {}
    for i, name in enumerate(names):
        r = rng.random()
        if i and (i == n - 1 or r < 0.65):
            k = rng.choice([1, 1, 2, 2, 3, 5])
            window = names[max(0, i - rng.choice([2, 4, 20])):i]
            out[name] = (rng.choice(fs), *[rng.choice(window) for _ in range(k)])
        elif r < 0.75 or n == 1:
            out[name] = (rng.choice(fs),)
        else:
            d = rng.choice([value(rng), value(rng), (1, 2), [plain], {"k": plain}, names[0], (names[0], plain)])
            out[name] = 5 if callable(d) or (isinstance(d, tuple) and d and callable(d[0])) else d
    computed = [k for k, v in out.items() if isinstance(v, tuple) and v and callable(v[0])]
    if not computed:
        out["last"] = (combine, *names[:2])
        computed = ["last"]
    items = list(out.items())
    rng.shuffle(items)
    return dict(items), computed


def evaluate(g, key, memo=None):
    memo = {} if memo is None else memo
    if key in memo:
        return memo[key]
    node = g[key]
    if isinstance(node, tuple) and node and callable(node[0]):
        memo[key] = node[0](*[evaluate(g, k, memo) for k in node[1:]])
    else:
        memo[key] = node
    return memo[key]
