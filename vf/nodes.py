"""Hash-consed symbolic values used by the dataflow engine."""

_table = {}
_count = [0]


class Node:
    __slots__ = ("id", "op", "a", "_str", "_refs")

    def __init__(self, op, a):
        _count[0] += 1
        self.id = _count[0]
        self.op = op
        self.a = a
        self._str = None
        self._refs = None

    def __repr__(self):
        return show(self)


def N(op, *a):
    key = (op, a)
    n = _table.get(key)
    if n is None:
        n = Node(op, a)
        _table[key] = n
    return n


def Int(v):
    return N("int", v)


TRUE = Int(1)
FALSE = Int(0)
UNIT = N("tup")


def is_int(n):
    return n.op == "int"


def app(fn, *args):
    return N("app", fn, *args)


def children(n):
    return [x for x in n.a if isinstance(x, Node)]


def walk(n):
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for c in x.a:
            if isinstance(c, Node):
                st.append(c)


def has_ref(n):
    """does the value contain a reference to local memory"""
    if n._refs is None:
        r = n.op == "ref"
        if not r:
            for c in n.a:
                if isinstance(c, Node) and has_ref(c):
                    r = True
                    break
        n._refs = r
    return n._refs


def short(name):
    name = str(name)
    i = name.find("<")
    parts = name.split("::")
    if i >= 0:
        return name if len(name) < 60 else name[:60]
    return "::".join(parts[-2:]) if len(parts) > 1 and parts[-2][:1].isupper() else parts[-1]


def show(n, depth=12):
    if not isinstance(n, Node):
        return repr(n)
    if depth <= 0:
        return "…"
    s = lambda x: show(x, depth - 1)
    op, a = n.op, n.a
    if op == "int":
        return str(a[0])
    if op == "str":
        return repr(a[0])
    if op == "bytes":
        return "b'%s'" % (a[0] if len(a[0]) < 40 else a[0][:40] + "…")
    if op == "sym":
        return a[0]
    if op == "static":
        return "static " + short(a[0])
    if op == "adt":
        nm, v = a[0], a[1]
        h = v if v else short(nm)
        return h + ("(" + ", ".join(s(x) for x in a[2:]) + ")" if len(a) > 2 else "")
    if op == "tup":
        return "(" + ", ".join(s(x) for x in a) + ")"
    if op == "arr":
        return "[" + ", ".join(s(x) for x in a[:12]) + (", …%d" % len(a) if len(a) > 12 else "") + "]"
    if op == "fld":
        return s(a[0]) + "." + str(a[1])
    if op == "as":
        return s(a[0]) + "@" + str(a[1])
    if op == "is":
        return s(a[0]) + " is " + str(a[1])
    if op == "idx":
        return s(a[0]) + "[" + s(a[1]) + "]"
    if op == "eq":
        return "(" + s(a[0]) + " == " + s(a[1]) + ")"
    if op == "lt":
        return "(" + s(a[0]) + " < " + s(a[1]) + ")"
    if op == "not":
        return "!" + s(a[0])
    if op == "app":
        f = a[0]
        ar = [s(x) for x in a[1:]]
        inf = {"add": "+", "sub": "-", "mul": "*", "div": "/", "rem": "%"}
        if f in inf and len(ar) == 2:
            return "(" + ar[0] + inf[f] + ar[1] + ")"
        return short(f) + "(" + ", ".join(ar) + ")"
    if op == "get":
        return s(a[1]) + "::" + a[0].split("::")[-1] + ("[%s]" % ",".join(s(x) if isinstance(x, Node) else str(x) for x in a[2:]) if len(a) > 2 else "")
    if op == "view":
        return short(a[0]) + "@" + s(a[1])
    if op == "ref":
        return "&F%s._%s%s" % (a[0], a[1], "".join("." + (s(p[1]) if isinstance(p[1], Node) else str(p[1])) for p in a[2]))
    return op + "(" + ", ".join(s(x) if isinstance(x, Node) else (short(x) if isinstance(x, str) else str(x)[:40]) for x in a) + ")"
