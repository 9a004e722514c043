"""C06: conditions combine as boolean expressions, and combining changes no condition."""
import itertools
import re

from hypothesis import strategies as st

from ..core import Part, check

RULE = "expressions have at least three operators; derivations use at least one earlier condition more than once"
ASSUMPTIONS = []

ATOMS = ["a", "b", "c", "d"]
KINDS = ["func", "call", "klass", "klass_args", "syntax", "regex", "comp", "true", "false"]


@st.composite
def tree(draw, depth=4):
    if depth == 0 or draw(st.integers(0, 3)) == 0:
        return ["atom", draw(st.sampled_from(ATOMS))]
    op = draw(st.sampled_from(["and", "or", "not", "and", "or", "not"]))
    if op == "not":
        return ["not", draw(tree(depth=depth - 1))]
    n = draw(st.sampled_from([2, 2, 2, 3]))
    return [op] + [draw(tree(depth=depth - 1)) for _ in range(n)]


def value(t, v):
    if t[0] == "atom":
        return v[t[1]]
    if t[0] == "not":
        return not value(t[1], v)
    vals = [value(x, v) for x in t[1:]]
    return all(vals) if t[0] == "and" else any(vals)


def size(t):
    return 0 if t[0] == "atom" else 1 + sum(size(x) for x in t[1:])


PREC = {"or": 0, "and": 1, "not": 2, "atom": 3}


def render(t, names, sp, redundant, top=0):
    "text of the tree with necessary (and some more) parentheses"
    k = t[0]
    if k == "atom":
        s = names[t[1]]
    elif k == "not":
        s = "~" + (sp if redundant else "") + render(t[1], names, sp, redundant, 2)
    else:
        o = {"and": "&", "or": "|"}[k]
        # operands of the same operator stay nested in parentheses: associativity must not matter
        s = f"{sp}{o}{sp}".join(render(x, names, sp, redundant, PREC[k] + 1) for x in t[1:])
    if PREC[k] < top or (redundant and k != "atom" and size(t) % 2):
        s = "(" + (sp if redundant else "") + s + ")"
    return s


def build(t, atoms, way):
    from rocketry.core.condition import All, Any, Not
    k = t[0]
    if k == "atom":
        return atoms[t[1]]
    subs = [build(x, atoms, way) for x in t[1:]]
    if k == "not":
        return ~subs[0] if way == "oper" else Not(subs[0])
    if way == "class":
        return (All if k == "and" else Any)(*subs)
    out = subs[0]
    for s in subs[1:]:
        out = out & s if k == "and" else out | s
    return out


def make_atoms(kinds, V, env):
    """atoms and their names in the string syntax (None: has none); V gives their truth values"""
    from rocketry.core.condition import BaseCondition, BaseComparable
    from rocketry.conditions import FuncCond
    from rocketry.conds import true, false
    from rocketry.args import Session
    out, names = {}, {}
    for a in ATOMS:
        kind = kinds[a]
        names[a] = None

        if kind == "func":
            def func(a=a):
                return V[a]
            out[a] = env.app.cond()(func)
        elif kind == "call":
            def func(x):
                return V[x]
            out[a] = env.app.cond()(func)(a)
        elif kind == "klass":
            class K(BaseCondition):
                name = a

                def get_state(self):
                    return V[self.name]
            out[a] = K()
        elif kind == "klass_args":
            class K2(BaseCondition):
                name = a

                def get_state(self, session=Session()):
                    assert session is env.session
                    return V[self.name]
            out[a] = K2()
        elif kind == "comp":
            class K3(BaseComparable):
                name = a

                def get_measurement(self):
                    return 5 if V[self.name] else 3
            out[a] = K3() >= 4
        elif kind == "syntax":
            def func(a=a):
                return V[a]
            names[a] = f"is {a} so"
            out[a] = env.app.cond(names[a])(func)
        elif kind == "regex":
            def func(x):
                return V[x]
            env.app.cond(re.compile(fr"holds {a}? *(?P<x>{a}) today"))(func)
            names[a] = f"holds {a} today" if a in "ac" else f"holds  {a} today"
            from rocketry.parse import parse_condition
            out[a] = parse_condition(names[a], session=env.session)
        else:
            out[a] = true if kind == "true" else false
            names[a] = kind if a in "ab" else "always " + kind
    return out, names


def assignments(kinds, picks):
    free = [a for a in ATOMS if kinds[a] not in ("true", "false")]
    for p in picks:
        v = {a: bool(p >> i & 1) for i, a in enumerate(ATOMS)}
        for a in ATOMS:
            if a not in free:
                v[a] = kinds[a] == "true"
        yield v


@st.composite
def expr_case(draw):
    string = draw(st.booleans())
    kinds = {a: draw(st.sampled_from(["syntax", "syntax", "regex", "true", "false"] if string else KINDS)) for a in ATOMS}
    return {"t": draw(tree()), "kinds": kinds, "string": string, "way": draw(st.sampled_from(["oper", "oper", "class"])),
            "sp": draw(st.sampled_from(["", " ", "  "])), "redundant": draw(st.booleans()),
            "v": draw(st.lists(st.integers(0, 15), min_size=2, max_size=6))}


def run_expr(c, ctx):
    from ..env import Env
    from rocketry.parse import parse_condition
    t = c["t"]
    ctx.label("string" if c["string"] else c["way"], f"{min(size(t), 6)} operators")
    ctx.nontrivial(size(t) >= 3)
    V = {a: False for a in ATOMS}
    with Env(app=True) as env:
        atoms, names = make_atoms(c["kinds"], V, env)
        conds = {c["way"]: build(t, atoms, c["way"])}
        if c["string"]:
            text = render(t, names, c["sp"], c["redundant"])
            conds[repr(text)] = parse_condition(text, session=env.session)
        for v in assignments(c["kinds"], c["v"]):
            V.update(v)
            want = value(t, v)
            for name, cond in conds.items():
                got = cond.observe(session=env.session)
                check(bool(got) == want, lambda: f"{name} of {render(t, {a: a for a in ATOMS}, ' ', False)} is {got} with {v}, expected {want}")


# ---- a task's start condition is the expression

def run_task(c, ctx):
    from ..env import Env
    from ..sim import Sim
    t = c["t"]
    ctx.nontrivial(size(t) >= 3)
    V = {a: False for a in ATOMS}
    vs = list(assignments(c["kinds"], c["v"]))
    ran = []
    with Env(app=True) as env:
        atoms, names = make_atoms(c["kinds"], V, env)
        cond = render(t, names, c["sp"], c["redundant"]) if c["string"] else build(t, atoms, c["way"])
        env.app.task(cond, name="task", execution="main", func=lambda: ran.append(sim.i))
        # another task uses the same condition object, one more restricts it
        env.app.task(cond, name="twin", execution="main", func=lambda: None)
        other = env.session["twin"]
        other.start_cond &= atoms["a"]
        other.start_cond |= ~atoms["b"]
        sim = Sim(env, len(vs), before=lambda i: V.update(vs[i - 1]))
        sim.run_ok()
    want = [i + 1 for i, v in enumerate(vs) if value(t, v)]
    ctx.label("string" if c["string"] else c["way"], "some runs" if want else "no run")
    check(ran == want, lambda: f"task with start_cond {render(t, {a: a for a in ATOMS}, ' ', False)} and values {vs} ran in cycles {ran}, expected {want}")


# ---- deriving conditions from conditions changes none of them

@st.composite
def derive_case(draw):
    n = draw(st.integers(2, 10))
    ops = []
    for i in range(n):
        k = 4 + i
        op = draw(st.sampled_from(["and", "or", "not", "cmp", "cmp", "cmp", "and", "or"]))
        if op in ("and", "or"):
            ops.append([op, draw(st.integers(0, k - 1)), draw(st.integers(0, k - 1))])
        elif op == "not":
            ops.append([op, draw(st.integers(0, k - 1))])
        else:
            ops.append([op, draw(st.integers(0, k - 1)), draw(st.sampled_from(["==", "!=", "<", ">", "<=", ">="])), draw(st.integers(0, 4))])
    return {"ops": ops, "v": draw(st.lists(st.lists(st.integers(0, 4), min_size=2, max_size=2), min_size=2, max_size=6)), "inplace": draw(st.booleans())}


CMP = {"==": lambda x, y: x == y, "!=": lambda x, y: x != y, "<": lambda x, y: x < y, ">": lambda x, y: x > y, "<=": lambda x, y: x <= y, ">=": lambda x, y: x >= y}


def run_derive(c, ctx):
    """nodes 0 and 1 are comparable measurements, 2 and 3 are comparisons on them, the rest is derived from earlier nodes"""
    from ..env import Env
    from rocketry.core.condition import BaseComparable
    M = [0, 0]

    def comp(i):
        class Measure(BaseComparable):
            which = i

            def get_measurement(self):
                return M[self.which]
        return Measure()
    with Env() as env:
        nodes = [comp(0), comp(1)]
        models = [("cmp", 0, {}), ("cmp", 1, {})]
        nodes += [nodes[0] > 1, nodes[1] == 2]
        models += [("cmp", 0, {">": 1}), ("cmp", 1, {"==": 2})]
        used = {}
        for op in c["ops"]:
            if op[0] == "cmp":
                base = op[1]
                while models[base][0] != "cmp":
                    base = base % 4
                used[base] = used.get(base, 0) + 1
                n = nodes[base]
                y = op[3]
                nodes.append({"==": lambda: n == y, "!=": lambda: n != y, "<": lambda: n < y, ">": lambda: n > y, "<=": lambda: n <= y, ">=": lambda: n >= y}[op[2]]())
                models.append(("cmp", models[base][1], {**models[base][2], op[2]: y}))
            elif op[0] == "not":
                nodes.append(~nodes[op[1]])
                models.append(("not", op[1]))
            else:
                x = nodes[op[1]]
                if c["inplace"]:
                    y = x
                    if op[0] == "and":
                        y &= nodes[op[2]]
                    else:
                        y |= nodes[op[2]]
                    nodes.append(y)
                else:
                    nodes.append(x & nodes[op[2]] if op[0] == "and" else x | nodes[op[2]])
                models.append((op[0], op[1], op[2]))
                for k in op[1:]:
                    used[k] = used.get(k, 0) + 1

        def val(i):
            m = models[i]
            if m[0] == "cmp":
                x = M[m[1]]
                return all(CMP[o](x, y) for o, y in m[2].items()) if m[2] else x > 0
            if m[0] == "not":
                return not val(m[1])
            return (val(m[1]) and val(m[2])) if m[0] == "and" else (val(m[1]) or val(m[2]))
        ctx.nontrivial(any(n > 1 for n in used.values()))
        ctx.label(f"{len(nodes)} conditions")
        for v in c["v"]:
            M[:] = v
            for i, n in enumerate(nodes):
                got, want = n.observe(session=env.session), val(i)
                check(bool(got) == want, lambda: f"condition {i} ({models[i]} over {models}) with measurements {v} is {got}, expected {want}")


PARTS = [
    Part("expression", expr_case, run_expr, 4000, 80000, "at least three operators"),
    Part("start_cond", expr_case, run_task, 1500, 30000, "at least three operators"),
    Part("derive", derive_case, run_derive, 3000, 60000, "some condition is used more than once"),
]
