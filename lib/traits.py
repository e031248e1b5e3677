"""U08: generated types against a model of what each type query must answer.

The cases are C++ types (built-in, library and generated classes, decorated with
pointers, references, arrays, const) paired with a query of
ristra/utils/type_traits.h or ristra/compatibility/type_traits.h.  The expected
answer is computed here, from how the type was made.  A batch of cases becomes
one generated source file whose program prints the answers; a file that does
not compile is bisected to the query at fault.
"""
import json, random, re

TD = ["value_type", "size_type", "allocator_type", "iterator", "const_iterator",
      "difference_type", "pointer", "reference", "iterator_category"]
TDTEXT = {"value_type": "int", "size_type": "std::size_t",
          "allocator_type": "std::allocator<int>", "iterator": "int *",
          "const_iterator": "int const *", "difference_type": "std::ptrdiff_t",
          "pointer": "int *", "reference": "int &",
          "iterator_category": "std::forward_iterator_tag"}
METH = ["size", "begin", "end", "cbegin", "cend", "data"]
METHTEXT = {"size": "std::size_t size() const { return 0; }",
            "begin": "int * begin() const { return nullptr; }",
            "end": "int * end() const { return nullptr; }",
            "cbegin": "int const * cbegin() const { return nullptr; }",
            "cend": "int const * cend() const { return nullptr; }",
            "data": "int const * data() const { return nullptr; }"}
CONT_TD = TD[:5]
ITER_TD = ["difference_type", "pointer", "reference", "value_type", "iterator_category"]
INTS = ["bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int",
        "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "wchar_t"]
FLOATS = ["float", "double", "long double"]


# ---- types ------------------------------------------------------------------
def B(n):
    return {"k": "b", "n": n}


STR = {"k": "string"}
CSTR = {"k": "ptr", "t": {"k": "const", "t": B("char")}}


def text(t):
    k = t["k"]
    if k == "b":
        return t["n"]
    if k == "string":
        return "std::string"
    if k == "class":
        return "vpgen::S%d" % t["id"]
    if k == "enum":
        return "vpgen::%s" % t["n"]
    if k in ("ptr", "lref", "rref", "const"):
        return {"ptr": "P<%s>", "lref": "L<%s>", "rref": "R<%s>", "const": "K<%s>"}[k] % text(t["t"])
    if k == "array":
        return "A<%s, %d>" % (text(t["t"]), t["n"])
    if k == "stdarray":
        return "std::array<%s, %d>" % (text(t["t"]), t["n"])
    if k in ("vector", "list", "deque", "set", "shared_ptr"):
        return "std::%s<%s>" % (k, text(t["t"]))
    if k == "map":
        return "std::map<%s, %s>" % (text(t["key"]), text(t["t"]))
    if k in ("it", "cit"):
        return "typename %s::%s" % (text(t["t"]), "iterator" if k == "it" else "const_iterator")
    if k == "refwrap":
        return "std::reference_wrapper<%s>" % text(t["t"])
    if k == "function":
        return "std::function<%s>" % text({"k": "fn", "r": t["r"], "args": t["args"]})
    if k == "fn":
        return "F<%s>" % ", ".join([text(t["r"])] + [text(a) for a in t["args"]])
    raise ValueError(k)


def is_ref(t):
    return t["k"] in ("lref", "rref")


def unref(t):
    return t["t"] if is_ref(t) else t


def uncv(t):
    return t["t"] if t["k"] == "const" else t


def canon(t):
    """const of const, reference collapsing, const on references and functions."""
    k = t["k"]
    if k in ("b", "string", "class", "enum"):
        return t
    t = dict(t)
    if "args" in t:
        t["args"] = [uncv(canon(a)) for a in t["args"]]
        t["r"] = canon(t["r"])
        return t
    if "key" in t:
        t["key"] = canon(t["key"])
    u = t["t"] = canon(t["t"])
    if k == "const":
        if u["k"] in ("const", "lref", "rref", "fn"):
            return u
        if u["k"] == "array":
            return {"k": "array", "t": canon({"k": "const", "t": u["t"]}), "n": u["n"]}
    if k == "lref" and is_ref(u):
        return {"k": "lref", "t": u["t"]}
    if k == "rref" and is_ref(u):
        return u
    return t


def decay(t):
    t = unref(canon(t))
    if t["k"] == "array":
        return {"k": "ptr", "t": t["t"]}
    if t["k"] == "fn":
        return {"k": "ptr", "t": t}
    return uncv(t)


def same(a, b):
    return json.dumps(canon(a), sort_keys=True) == json.dumps(canon(b), sort_keys=True)


def is_int(t):
    t = uncv(canon(t))
    return t["k"] == "b" and t["n"] in INTS


def is_arith(t):
    t = uncv(canon(t))
    return t["k"] == "b" and (t["n"] in INTS or t["n"] in FLOATS)


def classes(t, out=None):
    """Class types used by t, bases first."""
    out = {} if out is None else out
    if isinstance(t, dict):
        if t.get("k") == "class":
            classes(t["spec"], out)
            out[t["id"]] = t
        else:
            for v in t.values():
                classes(v, out)
    elif isinstance(t, list):
        for v in t:
            classes(v, out)
    return out


def decl(c):
    s = c["spec"]
    o = ["struct S%d%s {" % (c["id"], " : " + text(s["base"]) if s["base"] else "")]
    for n in s["td"]:
        o.append("  using %s = %s;" % (n, TDTEXT[n]))
    for n in s["meth"]:
        o.append("  " + METHTEXT[n])
    for f in s["call"]:
        o.append("  int operator()(%s)%s%s { return 0; }" % (
            ", ".join(text(a) for a in f["args"]), " const" if f["const"] else "", f["ref"]))
    if s["tcall"]:
        o.append("  template<class... V> int operator()(V &&...) const { return 0; }")
    for f in s["sub"]:
        o.append("  int operator[](%s)%s { return 0; }" % (text(f["idx"]), " const" if f["const"] else ""))
    if s["os"]:
        o.append("  friend std::ostream & operator<<(std::ostream & o, S%d const &) { return o; }" % c["id"])
    o.append("};")
    return "\n".join(o)


# ---- the model ----------------------------------------------------------------
def chain(c):
    while c:
        yield c
        c = c["spec"]["base"]


def has_td(c, n):
    return any(n in x["spec"]["td"] for x in chain(c))


def has_meth(c, n):
    return any(n in x["spec"]["meth"] for x in chain(c))


def calls(c):
    """The visible call operators (a derived class's hide its base's)."""
    for x in chain(c):
        if x["spec"]["call"] or x["spec"]["tcall"]:
            return x["spec"]["call"], x["spec"]["tcall"]
    return [], False


def subs(c):
    for x in chain(c):
        if x["spec"]["sub"]:
            return x["spec"]["sub"]
    return []


def converts(a, p):
    """Can a value of std::declval<a>() initialise a parameter of type p?"""
    a, p = canon(a), canon(p)
    lval = a["k"] == "lref"
    cst = unref(a)["k"] == "const"
    v = uncv(unref(a))
    if p["k"] == "lref":
        q = p["t"]
        if q["k"] != "const":
            return lval and not cst and (same(v, q) or derived(v, q))
        p = q["t"]
        if v["k"] in ("class", "string") and (same(v, p) or derived(v, p)):
            return True
    if is_arith(p) and is_arith(v):
        return True
    if p["k"] == "b" and p["n"] == "bool":
        return v["k"] == "ptr"
    if p["k"] == "string":
        return same(v, STR) or same(v, CSTR)
    if p["k"] == "class":
        return same(v, p) or derived(v, p)
    if p["k"] == "ptr":
        return same(v, p)
    return False


def derived(a, b):
    if a["k"] != "class" or b["k"] != "class":
        return False
    return any(x["id"] == b["id"] for x in chain(a))


def can_call(t, args):
    t = canon(t)
    obj = uncv(unref(t))
    lval, cst = t["k"] == "lref", unref(t)["k"] == "const"
    if obj["k"] == "fn":
        f = obj
    elif obj["k"] == "ptr" and obj["t"]["k"] == "fn":
        f = obj["t"]
    elif obj["k"] == "function":
        f = obj
    elif obj["k"] == "class":
        ops, anything = calls(obj)
        if anything:
            return True
        return any(len(f["args"]) == len(args) and (f["const"] or not cst)
                   and (f["ref"] == "" or (f["ref"] == "&") == lval
                        or (f["ref"] == "&" and f["const"]))
                   and all(converts(a, p) for a, p in zip(args, f["args"])) for f in ops)
    else:
        return False
    return len(f["args"]) == len(args) and all(converts(a, p) for a, p in zip(args, f["args"]))


def can_subscript(t, i):
    t, i = canon(t), canon(i)
    obj, cst = uncv(unref(t)), unref(t)["k"] == "const"
    iv = uncv(unref(i))
    k = obj["k"]
    if k in ("ptr", "array"):
        return obj["t"]["k"] != "fn" and is_int(iv)
    if is_int(obj):
        return iv["k"] in ("ptr", "array") and iv["t"]["k"] != "fn"
    if k in ("vector", "deque", "stdarray", "string"):
        return is_arith(iv)
    if k == "map":
        return not cst and converts(i, {"k": "lref", "t": {"k": "const", "t": obj["key"]}})
    if k == "class":
        return any((f["const"] or not cst) and converts(i, f["idx"]) for f in subs(obj))
    return False


def container(t, minimal):
    c = uncv(unref(canon(t)))
    k = c["k"]
    if minimal:
        if k == "class":
            return has_meth(c, "size") and has_meth(c, "data")
        return k in ("vector", "string", "stdarray")
    if is_ref(canon(t)):
        return False
    if k == "class":
        return all(has_td(c, n) for n in CONT_TD) and all(has_meth(c, n) for n in METH)
    return k in ("vector", "string")


def writeable(t):
    c = uncv(unref(canon(t)))
    k = c["k"]
    if k == "class":
        return any(x["spec"]["os"] for x in chain(c))
    if k == "b":
        return True
    if k == "enum":
        return c["n"].startswith("E")
    return k in ("string", "ptr", "array", "shared_ptr")


def typename(t):
    """What typeid's name demangles to."""
    t = uncv(unref(canon(t)))
    if t["k"] == "array":
        t = dict(t, t=uncv(t["t"]))
    return nm(t)


def nm(t):
    k = t["k"]
    if k == "b":
        return t["n"]
    if k in ("class", "enum"):
        return text(t)
    if k == "const":
        return nm(t["t"]) + " const"
    if k == "ptr":
        return nm(t["t"]) + "*"
    if k == "vector":
        return "std::vector<%s, std::allocator<%s> >" % (nm(t["t"]), targ(t["t"]))
    if k == "array":
        return "%s [%d]" % (nm(t["t"]), t["n"])
    if k == "refwrap":
        return "std::reference_wrapper<%s>" % targ(t["t"])
    if k == "shared_ptr":
        return "std::shared_ptr<%s>" % targ(t["t"])
    raise ValueError(k)


def targ(t):
    s = nm(t)
    return s + " " if s.endswith(">") else s


def nameable(t):
    t = uncv(unref(canon(t)))
    k = t["k"]
    if k in ("b", "class", "enum"):
        return True
    if k in ("ptr", "vector", "refwrap", "shared_ptr"):
        u = uncv(t["t"]) if k == "ptr" else t["t"]
        if k != "ptr" and u["k"] == "const":
            return False
        return u["k"] in ("b", "class", "enum", "ptr", "vector", "refwrap", "shared_ptr") and nameable(u)
    if k == "array":
        return uncv(t["t"])["k"] in ("b", "class", "enum", "ptr") and nameable(t["t"])
    return False


def evaluate(q):
    """(expression text, expected text) of a query; None if the model has no opinion."""
    n, t = q["q"], q["t"]
    b = lambda e, v: ("(%s) ? \"yes\" : \"no\"" % e, "yes" if v else "no")
    T = text(t)
    U = "ristra::utils::"
    C = "ristra::compatibility::"
    lst = ", ".join([""] + [text(a) for a in q["ts"]]) if q.get("ts") else ""
    if n == "is_callable":
        c = uncv(canon(t))
        v = c["k"] == "function" or (c["k"] == "class" and any(calls(c)))
        return b("%s::value && %s || %s::value" % (U + "is_callable<%s>" % T,
                 U + "is_callable_v<%s>" % T, U + "is_callable<%s>" % T), v)
    if n == "has_call_operator":
        return b(U + "has_call_operator<%s%s>::value" % (T, lst), can_call(t, q["ts"]))
    if n == "has_subscript_operator":
        return b(U + "has_subscript_operator<%s%s>::value" % (T, lst), can_subscript(t, q["ts"][0]))
    if n == "is_iterator":
        c = canon(t)
        v = (c["k"] == "ptr" and c["t"]["k"] not in ("fn",)) or c["k"] in ("it", "cit") or \
            (c["k"] == "class" and all(has_td(c, x) for x in ITER_TD))
        return b(U + "is_iterator<%s>::value" % T, v)
    if n == "is_iterator_v":
        r = evaluate(dict(q, q="is_iterator"))
        return (b(U + "is_iterator_v<%s>" % T, False)[0], r[1])
    if n in ("is_container", "is_minimal_container"):
        return b(U + "%s<%s>::value && %s%s_v<%s>" % (n, T, U, n, T), container(t, n != "is_container"))
    if n == "is_ostream_writeable":
        return b(U + "is_ostream_writeable<%s>::value && %sis_ostream_writeable_v<%s>" % (T, U, T), writeable(t))
    if n == "are_type":
        return b(U + "are_type_t<%s%s>::value" % (T, lst), all(same(decay(t), decay(x)) for x in q["ts"]))
    if n == "are_integral":
        ts = [t] + q["ts"] if not q.get("none") else []
        l = ", ".join(text(x) for x in ts)
        return b(U + "are_integral<%s>::value && %sare_integral_v<%s>" % (l, U, l), all(is_int(x) for x in ts))
    if n == "special_decay":
        c = canon(t)
        r = {"k": "lref", "t": c["t"]} if c["k"] == "refwrap" else decay(c)
        return b("std::is_same<%sspecial_decay_t<%s>, %s>::value" % (U, T, text(r)), True)
    if n == "type_as_string":
        return (U + "type_as_string<%s>()" % T, typename(t))
    if n == "is_same":
        return b(C + "is_same_v<%s%s>" % (T, lst), same(t, q["ts"][0]))
    if n == "is_arithmetic":
        return b(C + "is_arithmetic_v<%s>" % T, is_arith(t))
    if n == "is_integral":
        return b(C + "is_integral_v<%s>" % T, is_int(t))
    if n == "is_function":
        return b(C + "is_function_v<%s>" % T, canon(t)["k"] == "fn")
    raise ValueError(n)


# ---- generation -----------------------------------------------------------------
class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.n = 0
        self.pool = []

    def builtin(self):
        return B(self.r.choice(INTS + FLOATS))

    def param(self):
        r = self.r.random()
        if r < .3:
            return B(self.r.choice(["int", "double", "char", "long", "bool"]))
        if r < .45:
            return STR
        if r < .55:
            return CSTR
        if r < .65:
            return {"k": "lref", "t": B("int")}
        if r < .75:
            return {"k": "lref", "t": {"k": "const", "t": STR}}
        if self.pool:
            c = self.r.choice(self.pool)
            return self.r.choice([c, {"k": "lref", "t": c}, {"k": "lref", "t": {"k": "const", "t": c}}])
        return B("float")

    def arg(self, p=None):
        """An argument, often one that fits p."""
        r = self.r.random()
        if p is not None and r < .6:
            v = uncv(unref(canon(p)))
            if r < .25 and not is_ref(p):
                return {"k": "lref", "t": v}
            return self.r.choice([v, {"k": "lref", "t": v}, {"k": "lref", "t": {"k": "const", "t": v}}, {"k": "const", "t": v}])
        return self.r.choice([B("int"), B("double"), B("char"), STR, CSTR, {"k": "lref", "t": B("int")},
                              {"k": "lref", "t": STR}] + self.pool[-4:])

    def cls(self):
        r = self.r
        s = dict(base=None, td=[], meth=[], call=[], tcall=False, sub=[], os=r.random() < .4)
        if self.pool and r.random() < .35:
            s["base"] = r.choice(self.pool)
        mode = r.random()
        if mode < .3:       # a container, perhaps with something missing
            s["td"], s["meth"] = list(CONT_TD), list(METH)
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                l = r.choice([s["td"], s["meth"]])
                if l:
                    l.remove(r.choice(l))
        elif mode < .5:     # an iterator, perhaps with something missing
            s["td"] = list(ITER_TD)
            for _ in range(r.choice([0, 1, 1])):
                s["td"].remove(r.choice(s["td"]))
        elif mode < .7:
            s["td"] = [x for x in TD if r.random() < .5]
            s["meth"] = [x for x in METH if r.random() < .5]
        if r.random() < .5:
            for k in r.sample(range(4), r.choice([1, 1, 2])):  # one per arity
                s["call"].append({"args": [self.param() for _ in range(k)],
                                  "const": r.random() < .5, "ref": r.choice(["", "", "", "&"])})
        elif r.random() < .1:
            s["tcall"] = True
        if r.random() < .4:
            s["sub"] = [{"idx": self.param(), "const": r.random() < .5}]
        c = {"k": "class", "id": self.n, "spec": s}
        self.n += 1
        self.pool.append(c)
        if len(self.pool) > 12:
            self.pool.pop(0)
        return c

    def obj(self, depth=0):
        """An object type without const or reference on top."""
        r = self.r.random()
        if r < .45:
            return self.cls()
        if r < .6:
            return self.builtin()
        if r < .63:
            return {"k": "enum", "n": self.r.choice(["E1", "E2", "X1"])}
        if depth > 1:
            return self.builtin()
        u = self.obj(depth + 1)
        if r < .72:
            return {"k": "ptr", "t": {"k": "const", "t": u} if self.r.random() < .4 else u}
        if r < .77:
            return {"k": "vector", "t": self.elem(u)}
        if r < .80:
            return {"k": self.r.choice(["list", "deque"]), "t": self.elem(u)}
        if r < .82:
            return {"k": "stdarray", "t": self.elem(u), "n": self.r.randint(1, 3)}
        if r < .85:
            return {"k": "map", "key": self.r.choice([B("int"), STR, B("double")]), "t": self.elem(u)}
        if r < .87:
            return STR
        if r < .89:
            return {"k": self.r.choice(["it", "cit"]),
                    "t": {"k": self.r.choice(["vector", "list", "deque"]), "t": self.elem(u)}}
        if r < .91:
            return {"k": "shared_ptr", "t": self.elem(u)}
        if r < .93:
            return {"k": "refwrap", "t": self.elem(u)}
        if r < .96:
            return {"k": "array", "t": self.elem(u), "n": self.r.randint(1, 4)}
        return {"k": "function", "r": B("int"), "args": [self.param() for _ in range(self.r.randint(0, 3))]}

    def elem(self, u):
        u = canon(u)
        if u["k"] in ("array", "fn") or (u["k"] == "b" and u["n"] == "bool"):
            return B("int")
        return u

    def ftype(self):
        return {"k": "fn", "r": B("int"), "args": [self.param() for _ in range(self.r.randint(0, 3))]}

    def deco(self, t):
        r = self.r.random()
        if r < .15:
            t = {"k": "const", "t": t}
        r = self.r.random()
        if r < .2:
            t = {"k": "lref", "t": t}
        elif r < .26:
            t = {"k": "rref", "t": t}
        return canon(t)

    def case(self):
        r = self.r
        q = r.choice(["is_callable", "has_call_operator", "has_call_operator", "has_subscript_operator",
                      "has_subscript_operator", "is_iterator", "is_iterator_v", "is_container", "is_container",
                      "is_minimal_container", "is_ostream_writeable", "are_type", "are_integral",
                      "special_decay", "type_as_string", "is_same", "is_arithmetic", "is_integral", "is_function"])
        ts = []
        none = False
        if q == "is_callable":
            t = self.obj()
            if r.random() < .2:
                t = canon({"k": "const", "t": t})
            while uncv(t)["k"] in ("fn", "it", "cit", "array", "refwrap"):
                t = self.obj()
        elif q == "has_call_operator":
            t = self.obj() if r.random() < .75 else self.ftype()
            while t["k"] == "refwrap":
                t = self.obj()
            if t["k"] == "fn" and r.random() < .5:
                t = {"k": "ptr", "t": t}
            o = t["t"] if t["k"] == "ptr" and t["t"]["k"] == "fn" else t
            sig = o["args"] if o["k"] in ("fn", "function") else None
            if o["k"] == "class" and calls(o)[0]:
                sig = r.choice(calls(o)[0])["args"]
            t = self.deco(t)
            if sig is None:
                ts = [self.arg() for _ in range(r.randint(0, 2))]
            else:
                ts = [self.arg(p) for p in sig]
                if r.random() < .25:
                    ts = ts[1:] if ts and r.random() < .5 else ts + [self.arg()]
        elif q == "has_subscript_operator":
            t = self.obj()
            while t["k"] in ("it", "cit", "refwrap", "enum"):
                t = self.obj()
            p = B("int")
            if t["k"] == "class" and subs(t):
                p = subs(t)[0]["idx"]
            if t["k"] == "map":
                p = t["key"]
            t = self.deco(t)
            ts = [self.arg(p)]
        elif q in ("is_iterator", "is_iterator_v"):
            t = self.obj()
            while t["k"] in ("array",):
                t = self.obj()
        elif q in ("is_container", "is_minimal_container"):
            t = self.cls() if r.random() < .5 else self.obj()
            if r.random() < .3:
                t = self.deco(t)
            if q == "is_container" and is_ref(t):
                t = unref(t)
        elif q == "is_ostream_writeable":
            t = self.obj()
            while t["k"] in ("refwrap", "function", "it", "cit", "array") or (t["k"] == "ptr" and t["t"]["k"] == "fn"):
                t = self.obj()
            t = self.deco(t)
        elif q == "are_type":
            t = self.deco(self.obj() if r.random() < .9 else self.ftype())
            d = decay(t)
            while d["k"] in ("it", "cit"):
                t = self.obj()
                d = decay(t)
            for _ in range(r.randint(0, 4)):
                ts.append(self.deco(d) if r.random() < .85 else self.deco(self.obj()))
            ts = [B("int") if unref(x)["k"] in ("it", "cit") or uncv(unref(x))["k"] in ("it", "cit") else x for x in ts]
        elif q == "are_integral":
            none = r.random() < .05
            f = lambda: self.deco(B(r.choice(INTS))) if r.random() < .9 else self.deco(self.obj())
            t = f()
            ts = [f() for _ in range(r.randint(0, 4))]
            if not none and r.random() < .5:
                t = uncv(unref(t))
                ts = [uncv(unref(x)) for x in ts]
        elif q == "special_decay":
            t = self.obj() if r.random() < .9 else self.ftype()
            if r.random() < .4:
                t = {"k": "refwrap", "t": t if t["k"] != "array" else B("int")}
            else:
                t = self.deco(t)
        elif q == "type_as_string":
            t = self.deco(self.obj())
            while not nameable(t):
                t = self.deco(self.obj())
        elif q == "is_same":
            t = self.deco(self.obj())
            while uncv(unref(t))["k"] in ("it", "cit"):
                t = self.deco(self.obj())
            ts = [t if r.random() < .5 else self.deco(uncv(unref(t))) if r.random() < .8 else self.builtin()]
        else:
            t = self.obj() if r.random() < .4 else (self.builtin() if r.random() < .7 else self.ftype())
            t = self.deco(t)
        return dict(q=q, t=t, ts=ts, none=none)


# ---- programs ---------------------------------------------------------------------
HEAD = """#include <array>
#include <deque>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "ristra/utils/type_traits.h"
#include "ristra/compatibility/type_traits.h"
template<class T> using P = T *;
template<class T> using L = T &;
template<class T> using R = T &&;
template<class T> using K = T const;
template<class T, int N> using A = T[N];
template<class T, class... V> using F = T(V...);
namespace vpgen {
enum E1 { e1 };
enum E2 : long { e2 };
enum class X1 { x1 };
"""


def program(cases):
    out = [HEAD]
    cl = {}
    for _, q in cases:
        classes(q, cl)
    for c in sorted(cl.values(), key=lambda c: c["id"]):
        out.append(decl(c))
    out.append("}\nint main() {")
    for i, q in cases:
        out.append("  std::cout << %d << ' ' << (%s) << '\\n';" % (i, evaluate(q)[0]))
    out.append("}\n")
    return "\n".join(out)


def describe(q):
    s = "%s<%s>" % (q["q"], ", ".join(text(x) for x in ([] if q.get("none") else [q["t"]]) + q["ts"]))
    cl = classes(q)
    return s + ("  where " + " ".join(decl(c).replace("\n", " ") for c in sorted(cl.values(), key=lambda c: c["id"])) if cl else "")


def key(q):
    """The case with its classes renumbered."""
    s = describe(q)
    for n, c in enumerate(sorted(classes(q), reverse=False)):
        s = re.sub(r"\bS%d\b" % c, "C_%d_" % n, s)
    return s


def nontrivial(q):
    """A generated class, a library template or a decorated type is involved."""
    return bool(classes(q)) or any(x["k"] != "b" for x in [q["t"]] + q["ts"])


def consistent(q):
    """Does every class have one definition?"""
    seen = {}

    def walk(t):
        if isinstance(t, dict):
            if t.get("k") == "class" and seen.setdefault(t["id"], t["spec"]) != t["spec"]:
                return False
            return all(walk(v) for v in t.values())
        return all(walk(v) for v in t) if isinstance(t, list) else True
    return walk(q)


def smaller(q):
    """Simpler variants of a case, for shrinking."""
    return (v for v in smaller_any(q) if consistent(v))


def smaller_any(q):
    def variants(t):
        if isinstance(t, dict):
            if t.get("k") == "class":
                s = t["spec"]
                for f in ("td", "meth", "call", "sub"):
                    for i in range(len(s[f])):
                        yield dict(t, spec=dict(s, **{f: s[f][:i] + s[f][i + 1:]}))
                for f in ("tcall", "os"):
                    if s[f]:
                        yield dict(t, spec=dict(s, **{f: False}))
                if s["base"]:
                    yield dict(t, spec=dict(s, base=None))
            if t.get("k") in ("lref", "rref", "const", "ptr", "vector"):
                yield t["t"]
            for k, v in t.items():
                if isinstance(v, (dict, list)):
                    for w in variants(v):
                        yield dict(t, **{k: w})
        elif isinstance(t, list):
            for i, v in enumerate(t):
                for w in variants(v):
                    yield t[:i] + [w] + t[i + 1:]
    if q["q"] in ("are_type", "are_integral"):
        for i in range(len(q["ts"])):
            yield dict(q, ts=q["ts"][:i] + q["ts"][i + 1:])
    for v in variants(q["t"]):
        yield dict(q, t=v)
    for i, x in enumerate(q["ts"]):
        for v in variants(x):
            yield dict(q, ts=q["ts"][:i] + [v] + q["ts"][i + 1:])
