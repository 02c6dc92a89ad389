"""O01: evaluating an optimization problem reflects exactly the given variable values."""
import os, sys, math, copy
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
sys.path.insert(0, vm.VERIF)
import numpy as np
import raamigen as G
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.variables import Variable, IntegerVariable, BooleanVariable, BinaryVariable, IndexVariable, DiscreteVariable, CrossSectionVariable
from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
from metku.optimization.objective import ObjectiveFunction, LinearObjective
from metku.optimization.variable_group import VariableGroup, VariableTypeEnum
from metku.optimization.opt_functions import index2binary, potentially_active_constraints
from metku.sections.steel.ISection import IPE, HEA
from metku.sections.steel.RHS import RHS, SHS

PROPERTY = "O01"
RULE = ("one case is one random problem (2-7 variables of all kinds with targets, scaling, target functions and locked variables; linear and nonlinear constraints of all types, with and without structural analysis of chosen load cases) and a random history of "
        "evaluations, substitutions, lockings and queries; after every operation returned values, variable values, target attributes and the state seen by the structural analysis are compared with an independent model of the problem. "
        "Further workloads: real Raami frames with profile variables against the reference solver, binary reformulation of profile problems, and variable groups. Non-trivial: distinct (variable kinds, constraint kinds, operation).")
MONITORS = ["objective", "constraint", "constraint lists", "variable values", "targets", "analysed state", "needed analysis", "feasibility", "potentially active", "linear bounds", "structure edits", "frame results",
            "binary reformulation", "variable group", "allowed values", "start values"]


class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def snap(self):
        return {k: (v.snap() if isinstance(v, Obj) else v) for k, v in self.__dict__.items()}


class Structure:
    """stands for a frame: analysis of a load case records the state it was made for"""

    def __init__(self, objs):
        self.objs = objs
        self.results = {}
        self.calls = []

    def calculate(self, load_id, support_method="ZERO", design=True):
        self.calls.append((load_id, design))
        st = [o.snap() for o in self.objs]
        for lid in ("ALL", 0, 1, 2) if load_id == "ALL" else (load_id,):
            self.results[lid] = copy.deepcopy(st)


def num(v):
    if isinstance(v, (bool, np.bool_)):
        return 3.0 * v
    if isinstance(v, (int, float, np.number)):
        return float(v)
    if isinstance(v, str):
        return float(sum(map(ord, v)) % 97)
    if isinstance(v, dict):
        return response(v)
    raise TypeError(v)


def response(st):
    """some number that depends on every attribute of a state"""
    return sum((1.0 + 0.3 * (sum(map(ord, k)) % 11)) * num(v) / (1 + 0.01 * abs(num(v))) for k, v in sorted(st.items()))


def total(states):
    return sum((k + 1) * response(s) for k, s in enumerate(states))


CLASSES = ["cont", "list", "fun", "int", "bool", "sec", "member", "index", "disc", "xs", "xsl", "free", "kwarg"]


def make_var(r, k, objs, S):
    """a variable and its independent description; S collects plain model of objects"""
    kind = r.choice(CLASSES)
    U = r.uniform
    tgt = sorted(r.sample(range(len(objs)), min(len(objs), r.choice([1, 1, 2]))))
    O = [objs[i] for i in tgt]
    name = "v%d" % k
    d = dict(kind=kind, tgt=tgt, name=name, scale=1.0, locked=False, value=None)
    a = "a%d" % k
    for o, m in zip(objs, S):
        o.__dict__[a] = m[a] = 0.5
    if kind in ("cont", "list", "fun", "free", "kwarg", "xs", "xsl"):
        lb = U(-5, 5)
        ub = lb + U(0.5, 10)
        d["lb"], d["ub"] = lb, ub
        if kind == "free":
            v = Variable(name, lb, ub)
        elif kind == "cont":
            v = Variable(name, lb, ub, target={"property": a, "objects": O})
            d["attrs"] = {a: lambda x: x}
        elif kind == "kwarg":
            v = Variable(name, lb, ub, target_property=a, target_object=O[0]) if r.random() < 0.5 else Variable(name, lb, ub, target_properties=[a], target_objects=O)
            if v.target["objects"] == [O[0]]:
                d["tgt"] = tgt[:1]
            d["attrs"] = {a: lambda x: x}
        elif kind in ("list", "fun", "xsl"):
            b = "b%d" % k
            d["attrs"] = {a: lambda x: x, b: lambda x: x}
            tf = None
            if kind == "fun" or r.random() < 0.4:
                c = U(1, 3)
                tf = {b: lambda x, c=c: c * x * x}
                d["attrs"][b] = tf[b]
            for o, m in zip(objs, S):
                o.__dict__[b] = m[b] = 0.25
            cls = CrossSectionVariable if kind == "xsl" else Variable
            v = cls(name, lb, ub, target={"property": [a, b], "objects": O}, target_fun=tf)
        else:
            v = CrossSectionVariable(name, lb, ub, target={"property": a, "objects": O})
            d["attrs"] = {a: lambda x: x}
        if kind in ("xs", "xsl"):
            d["xs"] = True
            for o, m in zip(objs, S):
                for p in d["attrs"]:
                    setattr(o.cross_section, p, 0.125)
                    m["cross_section"][p] = 0.125
        if r.random() < 0.4 and kind != "free":
            s = U(0.2, 8)
            if r.random() < 0.3:
                v.scale(U(0.2, 8))
            v.scale(s)
            d["scale"], d["lb"], d["ub"] = s, lb / s, ub / s
        d["pick"] = lambda r, d=d: r.choice([U(d["lb"], d["ub"]), U(d["lb"], d["ub"]), d["lb"], d["ub"]])
    elif kind in ("int", "bool"):
        if kind == "int":
            lb = r.randint(-3, 3)
            d["lb"], d["ub"] = lb, lb + r.randint(1, 6)
            v = IntegerVariable(name, d["lb"], d["ub"], target={"property": a, "objects": O})
        else:
            d["lb"], d["ub"] = 0, 1
            v = BooleanVariable(name, target={"property": a, "objects": O})
        d["attrs"] = {a: lambda x: x}
        d["pick"] = lambda r, d=d: r.randint(d["lb"], d["ub"])
    elif kind == "disc":
        vals = [round(U(-4, 9), 3) for _ in range(r.randint(2, 6))]
        v = DiscreteVariable(name, values=vals, target={"property": a, "objects": O})
        d["vals"], d["lb"], d["ub"] = vals, min(vals), max(vals)
        d["attrs"] = {a: lambda x: x}
        d["pick"] = lambda r, d=d: r.choice(d["vals"])
    elif kind == "index":
        vals = ["P%d-%d" % (k, i) for i in range(r.randint(2, 7))]
        v = IndexVariable(name, values=vals, target={"property": a, "objects": O})
        d["vals"], d["lb"], d["ub"] = vals, 0, len(vals) - 1
        d["attrs"] = {a: lambda x, vals=vals: vals[int(round(x))]}
        d["pick"] = lambda r, d=d: float(r.randint(0, d["ub"])) + r.choice([0, 0, -4e-5, 4e-5, -1e-9])
        d["round"] = True
    elif kind == "sec":
        p = r.choice(["profile", "cross_section"])
        sec = "S%d" % k if p == "profile" else Obj(h=U(1, 9), t=U(1, 3))
        v = BinaryVariable(name, section=sec, target={"property": p, "objects": O})
        d["lb"], d["ub"], d["prop"], d["sec"] = 0, 1, p, sec
        d["pick"] = lambda r: r.choice([0, 1, 1.0, 1 - 1e-7])
    else:
        v = BinaryVariable(name, target={"property": "member", "objects": O})
        d["lb"], d["ub"] = 0, 1
        d["pick"] = lambda r: r.choice([0, 1, 1.0, 1 - 1e-7, 1e-8])
    return v, d


def clip(d, x):
    return max(d["lb"], min(x, d["ub"]))


def put(d, S, secs, x):
    """model of substitution of x for the variable d; S: plain states of the objects"""
    if d["locked"]:
        return
    if d.get("round"):
        x = int(round(x))
    d["value"] = x
    for i in d["tgt"]:
        if d["kind"] == "sec":
            if abs(x - 1) <= 1e-4:
                S[i][d["prop"]] = d["sec"].snap() if isinstance(d["sec"], Obj) else d["sec"]
        elif d["kind"] == "member":
            S[i]["active"] = abs(x - 1) <= 1e-4
        elif d["kind"] != "free":
            for p, f in d["attrs"].items():
                t = S[i]["cross_section"] if d.get("xs") else S[i]
                t[p] = f(x * d["scale"])


def same(got, want):
    if isinstance(want, dict):
        return isinstance(got, dict) and set(got) == set(want) and all(same(got[k], want[k]) for k in want)
    if isinstance(want, (bool, str)) or isinstance(got, (bool, str)):
        return got == want
    return abs(got - want) <= 1e-9 * (1 + abs(want))


def w_history(r, mon):
    U = r.uniform
    no = r.randint(1, 3)
    objs = [Obj(cross_section=Obj(h=U(1, 5), t=U(0.1, 1)), active=True, profile="X%d" % i) for i in range(no)]
    S = [o.snap() for o in objs]
    n = r.randint(2, 7)
    vs, ds = [], []
    for k in range(n):
        v, d = make_var(r, k, objs, S)
        vs.append(v)
        ds.append(d)
    # cross-section targets and binary section variables on the same objects would overwrite one another: keep one kind
    if any(d["kind"] == "sec" and d["prop"] == "cross_section" for d in ds) and any(d.get("xs") for d in ds):
        raise vm.CaseSkip("overlapping targets")
    if len([d for d in ds if d["kind"] == "member"]) > 1 or any(a is not b and a["kind"] == b["kind"] == "sec" and set(a["tgt"]) & set(b["tgt"]) for a in ds for b in ds):
        raise vm.CaseSkip("overlapping targets")
    st = Structure(objs)
    by_ctor = r.random() < 0.3
    cons, cd = [], []
    for j in range(r.randint(1, 5)):
        typ = r.choice("<><=")
        fea = r.random() < 0.5
        lids = r.choice([None, [0], [1], [0, 2], ["ALL"], 1]) if fea else None
        c = dict(type=typ, fea=fea, lids=["ALL"] if lids is None else (lids if isinstance(lids, list) else [lids]))
        c["offset"] = U(-2, 2)
        if r.random() < 0.4:
            a = [r.choice([0, 1, U(-2, 2)]) for _ in range(n)]
            numeric = [i for i in range(n) if ds[i]["kind"] in ("cont", "free", "int")]
            c.update(kind="lin", a=a, b=U(-3, 3), bvar=None)
            b = c["b"]
            if numeric and r.random() < 0.25:
                c["bvar"] = r.choice(numeric)
                b = vs[c["bvar"]]
            kw = dict(fea_required=True, load_ids=lids) if fea else {}
            con = LinearConstraint(a=a, b=b, con_type=typ, name="c%d" % j, **kw)
        else:
            c.update(kind="non", w=[U(-1, 1) for _ in range(n)], m=r.choice([0, 0.01]))
            c["seen"] = []

            def fun(x, c=c):
                x = [float(v) for v in x]
                c["seen"].append(list(x))
                g = sum(w * v + 0.1 * w * v * v for w, v in zip(c["w"], x)) - c["offset"] + c["m"] * total([o.snap() for o in objs])
                if c["fea"]:
                    g += 0.02 * sum(total(st.results[l]) for l in c["lids"])
                return g
            con = NonLinearConstraint(con_fun=fun, con_type=typ, name="c%d" % j, fea_required=fea, load_ids=lids)
        cons.append(con)
        cd.append(c)
    od = dict(w=[U(-1, 1) for _ in range(n)], fea=r.random() < 0.5, type=r.choice(["MIN", "min", "MAX"]), m=r.choice([0, 0.01]))
    lin = r.random() < 0.2

    def ofun(x):
        f = sum(w * v for w, v in zip(od["w"], map(float, x))) + od["m"] * total([o.snap() for o in objs])
        if od["fea"]:
            f += 0.03 * total(st.results["ALL"])
        return f
    if lin:
        od["fea"], od["m"] = False, 0
        obj = LinearObjective("f", od["w"], obj_type=od["type"])
    else:
        obj = ObjectiveFunction("f", ofun, obj_type=od["type"], fea_required=od["fea"])
    mon.case(dict(vars=[(d["kind"], d["lb"], d["ub"], d["scale"], d["tgt"], d.get("vals")) for d in ds], cons=[{k: v for k, v in c.items() if k != "seen"} for c in cd], obj=od))
    if by_ctor:
        P = OptimizationProblem("p", variables=vs, constraints=cons, objective=obj, structure=st)
    else:
        P = OptimizationProblem("p")
        if r.random() < 0.5:
            P.add_structure(st)
        else:
            P.structure = st
        how = r.choice([0, 1, 2])
        if how == 0:
            for v in vs:
                P.add(v)
            for c in cons:
                P.add(c)
        elif how == 1:
            P.add_variables(vs)
            P.add_constraints(cons)
        else:
            for v in vs:
                P.add_variable(v)
            for c in cons:
                P.add_constraint(c)
        P.add(obj)
    for v, d in zip(vs, ds):
        if r.random() < 0.4:
            # a value that has not been given to the targets yet
            v.value = d["value"] = int(round(d["pick"](r))) if d.get("round") else d["pick"](r)
    first = [True]

    def free():
        return [d for d in ds if not d["locked"]]

    def pick():
        if not first[0] and r.random() < 0.3:
            return [d["value"] for d in free()]
        if r.random() < 0.3 and not first[0]:
            # change a single variable
            x = [d["value"] for d in free()]
            if x:
                i = r.randrange(len(x))
                x[i] = free()[i]["pick"](r)
            return x
        return [d["pick"](r) for d in free()]

    def subst(x):
        for d, v in zip(free(), list(x)):
            put(d, S, None, clip(d, v))
        first[0] = False

    def xfull(x):
        it = iter(x)
        return [d["value"] if d["locked"] else float(next(it)) for d in ds]

    def want_obj(x):
        f = sum(w * v for w, v in zip(od["w"], xfull(x))) + od["m"] * total(S)
        if od["fea"]:
            f += 0.03 * total(S)
        return -f if od["type"] == "MAX" else f

    def want_con(c, x):
        if c["kind"] == "lin":
            return sum(a * d["value"] for a, d in zip(c["a"], ds)) - (c["b"] if c["bvar"] is None else ds[c["bvar"]]["value"])
        g = sum(w * v + 0.1 * w * v * v for w, v in zip(c["w"], xfull(x))) - c["offset"] + c["m"] * total(S)
        if c["fea"]:
            g += 0.02 * len(c["lids"]) * total(S)
        return g

    def scale_(*a):
        return 1e-6

    ops = []
    x0 = None
    for step in range(r.randint(6, 16)):
        op = r.choice(["obj", "obj", "con", "con", "con", "cons", "eq", "subst", "lock", "unlock", "feas", "var", "neg", "outside", "pot", "fixval", "call"])
        if op == "pot" and all(c["type"] == "=" for c in cd):
            op = "con"
        if first[0] and op in ("lock", "unlock", "feas", "var", "outside", "fixval"):
            op = "con"
        ncalls = len(st.calls)
        nfea = P.num_fem_analyses
        x = pick()
        if r.random() < 0.3:
            x = np.array(x, float)
        dd = "step %d %s x=%s" % (step, op, list(x))
        ops.append(op)
        if op in ("obj", "neg"):
            subst(x)
            got = P.obj(x) if op == "obj" else P.obj.neg_call(x)
            w = want_obj(x)
            mon.close("objective", got, w if op == "obj" else -w, 1e-7, 1e-7, dd)
        elif op in ("con", "cons", "eq", "feas", "pot"):
            subst(x)
            w = [want_con(c, x) for c in cd]
            if op == "con":
                j = r.randrange(len(cons))
                neg = r.random() < 0.3
                got = cons[j].neg_call(x) if neg else cons[j](x)
                mon.close("constraint", got, -w[j] if neg else w[j], 1e-7, 1e-7, dd + " %s" % {k: v for k, v in cd[j].items() if k != "seen"})
                c = cd[j]
                if c["kind"] == "non" and c["seen"]:
                    mon.close("constraint", c["seen"][-1], xfull(x), 1e-9, 2e-10, dd + " point")
                if not c["fea"]:
                    mon.ok("needed analysis", len(st.calls) == ncalls, dd)
                if abs(abs(w[j]) - 0.25) > 1e-5:
                    pot = True if c["type"] == "=" else (w[j] > -0.25 if c["type"] == "<" else w[j] < 0.25)
                    mon.ok("potentially active", cons[j].potential == pot, dd + " g=%s %s" % (w[j], c["type"]))
            elif op == "cons":
                mon.close("constraint lists", P.eval_cons(x), w, 1e-7, 1e-7, dd)
                mon.close("constraint lists", P.eval_nonlin_cons(x), [g for g, c in zip(w, cd) if c["kind"] == "non"], 1e-7, 1e-7, dd)
            elif op == "eq":
                mon.close("constraint lists", P.eval_eq_con(x), [g for g, c in zip(w, cd) if c["type"] == "="], 1e-7, 1e-7, dd)
                mon.close("constraint lists", P.eval_ineq_con(x), [g if c["type"] == ">" else -g for g, c in zip(w, cd) if c["type"] != "="], 1e-7, 1e-7, dd)
                mon.ok("constraint lists", (P.nnonlincons(), P.nlincons(), P.nlineqcons()) == (len([c for c in cd if c["kind"] == "non"]), len([c for c in cd if c["kind"] == "non" and c["type"] != "="]),
                                                                                          len([c for c in cd if c["kind"] == "non" and c["type"] == "="])), dd)
            elif op == "pot":
                act = potentially_active_constraints(P, x)
                if all(abs(abs(g) - 0.25) > 1e-5 for g in w):
                    ex = [cn for cn, c, g in zip(cons, cd, w) if c["type"] == "=" or (c["type"] == "<" and g > -0.25) or (c["type"] == ">" and g < 0.25)]
                    mon.ok("potentially active", [id(c) for c in act] == [id(c) for c in ex], dd)
            else:
                v = [g if c["type"] == "<" else -g if c["type"] == ">" else abs(g) for g, c in zip(w, cd)]
                if all(abs(g - P.con_tol) > 1e-6 for g in v):
                    if r.random() < 0.5:
                        got = P.feasible(x)
                    else:
                        P.substitute_variables(x)
                        got = P.feasible()
                    mon.ok("feasibility", got == all(g < P.con_tol for g in v), dd + " %s" % w)
        elif op == "call":
            if r.random() < 0.5 and not first[0]:
                x = [d["value"] for d in free()]
                P()
            else:
                P(x)
            subst(x)
        elif op in ("subst", "outside"):
            if op == "outside":
                x = [clip(d, v) + r.choice([0, -3.0, 3.0]) for d, v in zip(free(), x)]
            subst(x)
            P.substitute_variables(x)
        elif op == "lock":
            i = r.randrange(n)
            if ds[i]["locked"] or len(free()) < 2:
                continue
            if r.random() < 0.6 or ds[i]["value"] is None:
                val = ds[i]["pick"](r)
                put(ds[i], S, None, val)
                vs[i].lock(val)
            else:
                vs[i].lock()
            ds[i]["locked"] = True
        elif op == "fixval":
            # a locked variable keeps its value
            i = r.randrange(n)
            if ds[i]["locked"]:
                vs[i].substitute(ds[i]["pick"](r))
        elif op == "unlock":
            i = r.randrange(n)
            vs[i].unlock()
            ds[i]["locked"] = False
        else:
            i = r.randrange(n)
            val = ds[i]["pick"](r)
            put(ds[i], S, None, val)
            vs[i].substitute(val)
        # after every operation
        if not first[0]:
            gv = [v.value for v in vs]
            mon.close("variable values", gv, [d["value"] for d in ds], 1e-9, 2e-10, dd)
            mon.ok("targets", all(same(o.snap(), s) for o, s in zip(objs, S)), "%s got=%s want=%s" % (dd, [o.snap() for o in objs], S))
            mon.ok("variable values", P.nvars() == len(free()) and P.vars == [v for v, d in zip(vs, ds) if not d["locked"]] and P.all_vars == vs
                   and all((a is None) == (not d["locked"]) and (a is None or abs(a - d["value"]) < 2e-10) for a, d in zip(P.fixed_vals, ds)), dd)
        mon.ok("needed analysis", P.num_fem_analyses - nfea == len(st.calls) - ncalls and all(not c[1] for c in st.calls), dd)
        if op in ("obj", "neg") and od["fea"] or op == "con" and cd[j]["fea"]:
            for l in ["ALL"] if op != "con" else cd[j]["lids"]:
                mon.ok("analysed state", all(same(a, b) for a, b in zip(st.results[l], S)), "%s case %s analysed=%s now=%s" % (dd, l, st.results[l], S))
            # the same point again: nothing new to analyse for constraints
            nc = len(st.calls)
            if op == "con" and all(v == d["value"] for v, d in zip(x, free())):
                cons[j](x)
                mon.ok("needed analysis", len(st.calls) == nc, dd + " repeated")
        lb, ub = P.var_bounds()
        mon.close("linear bounds", [lb, ub, list(P.xlb()), list(P.xub())], [[d["lb"] for d in free()], [d["ub"] for d in free()]] * 2, 1e-12, 1e-12, dd)
        if r.random() < 0.1:
            xr = P.random_values()
            okv = all(d["lb"] - 1e-12 <= v <= d["ub"] + 1e-12 and (d["kind"] not in ("int", "bool", "sec", "member", "index") or v == int(v)) and (d["kind"] != "disc" or v in d["vals"]) for d, v in zip(free(), xr))
            mon.ok("allowed values", len(xr) == len(free()) and okv, dd + " %s" % xr)
        for op_ in [op]:
            mon.nontrivial((op_, tuple(sorted(set(d["kind"] for d in ds))), any(d["locked"] for d in ds), cd[j]["kind"] + cd[j]["type"] + str(cd[j]["fea"]) if op == "con" else od["type"]))


def w_values(r, mon):
    """allowed values, discrete violation, neighbours, starting point"""
    U = r.uniform
    vals = sorted(set(round(U(-10, 10), 3) for _ in range(r.randint(3, 8))))
    v = DiscreteVariable("d", values=r.sample(vals, len(vals)))
    mon.case(dict(values=vals))
    x = r.choice(vals) + r.choice([0, 0, 2e-5, -2e-5, 5e-3, -5e-3, U(-3, 3)])
    dist = min(abs(a - x) for a in vals)
    if dist < 5e-5 or dist > 2e-3:
        mon.ok("allowed values", v.is_allowed_value(x) == (dist < 5e-5), "%s in %s" % (x, vals))
        mon.close("allowed values", v.discrete_violation(x), dist if dist > 5e-5 else 0, 1e-12, 1e-12, "violation %s" % x)
    mon.ok("allowed values", bool(v.is_allowed_value(x)) == (v.discrete_violation(x) == 0), "allowed and violation of %s" % x)
    if vals[0] < x < vals[-1]:
        mon.ok("allowed values", v.smaller_discrete_value(x) == max(a for a in vals if a < x) and v.larger_discrete_value(x) == min(a for a in vals if a > x), "neighbours of %s" % x)
    lb = r.randint(-5, 3)
    ub = lb + r.randint(1, 9)
    iv = IntegerVariable("i", lb, ub)
    x = r.randint(lb - 2, ub + 2) + r.choice([0, 0, 3e-5, -3e-5, 0.4, -0.3, U(-1, 1)])
    dist = abs(x - math.floor(x + 0.5))
    if dist < 5e-5 or dist > 2e-3:
        mon.ok("allowed values", iv.is_allowed_value(x) == (lb - 5e-5 <= x <= ub + 5e-5 and dist < 5e-5), "%s in [%s,%s]" % (x, lb, ub))
        mon.close("allowed values", iv.discrete_violation(x), dist if dist > 5e-5 else 0, 1e-9, 1e-12, "violation %s" % x)
    mon.ok("allowed values", iv.smaller_discrete_value(x) == math.ceil(x) - 1 and iv.larger_discrete_value(x) == math.floor(x) + 1, "integer neighbours of %s" % x)
    cv = Variable("c", 0, 1)
    mon.ok("allowed values", cv.discrete_violation(x) == 0)
    xc = r.choice([U(-0.5, 1.5), 0, 1])
    if abs(xc) > 2e-3 and abs(xc - 1) > 2e-3 or xc in (0, 1):
        mon.ok("allowed values", bool(cv.is_allowed_value(xc)) == (0 <= xc <= 1), "continuous %s" % xc)
    # starting point of the problem
    P = OptimizationProblem("p")
    for k in range(r.randint(1, 4)):
        P.add(Variable("x%d" % k, -5, 5))
    P.add(ObjectiveFunction("f", lambda x: sum(x)))
    xs = [[r.choice([0.0, 0.0, U(-5, 5)]) for _ in P.vars] for _ in range(3)]
    if r.random() < 0.5:
        xs[0] = [0.0] * len(xs[0])
    for x in xs:
        P.obj(x)
        mon.close("start values", P.X, x, 1e-12, 1e-12, "X")
        mon.close("start values", P.x0, xs[0], 1e-12, 1e-12, "x0")
        mon.close("start values", P.var_values(), x, 1e-12, 1e-12, "values")
    mon.nontrivial(("values", len(vals), lb, ub))


class Profile:
    def __init__(self, r):
        self.A, self.Iy, self.h = (round(r.uniform(1, 99), 3) for _ in range(3))


class Mem:
    pass


def w_binary(r, mon):
    """binary reformulation of a profile selection problem"""
    U = r.uniform
    nm = r.randint(1, 4)
    mems = []
    P = OptimizationProblem("p")
    cat = [Profile(r) for _ in range(r.randint(2, 6))]
    groups = []
    for k in range(nm):
        objs = []
        for _ in range(r.choice([1, 1, 2])):
            m = Mem()
            m.cross_section = copy.copy(cat[0])
            m.L = U(1, 5)
            objs.append(m)
        mems += objs
        vals = r.sample(cat, r.randint(2, len(cat)))
        P.add(IndexVariable("m%d" % k, values=vals, value=r.randrange(len(vals)), target={"property": "cross_section", "objects": objs}))
        groups.append((objs, vals))
    props = r.sample(["A", "Iy", "h"], r.randint(1, 3))
    start = [v.value for v in P.vars]
    mon.case(dict(groups=[(len(o), [(s.A, s.Iy, s.h) for s in v]) for o, v in groups], start=start, props=props))

    def weight(ms):
        return sum(m.L * (m.cross_section.A + 0.1 * m.cross_section.h) for m in ms)
    P.add(ObjectiveFunction("w", lambda x: sum(m.L * sum(getattr(m.cross_section, p) for p in props) for m in mems)))
    sel = [r.randrange(len(v)) for _, v in groups]
    want = P.obj(sel)
    wstart = P.obj(start)
    kind = r.choice(["continuous", "discrete"]) if False else "continuous"
    Pn, packs = index2binary(P, props, kind)
    nprop = len(props)
    mon.ok("binary reformulation", Pn.nvars() == sum(nprop + len(v) for _, v in groups) and len(Pn.cons) == sum(nprop + 1 for _ in groups) and len(packs) == len(groups), "numbers of variables and constraints")

    def point(sel):
        x = []
        for (o, v), s in zip(groups, sel):
            x += [round(getattr(v[s], p), 3) for p in props] + [1.0 if j == s else 0.0 for j in range(len(v))]
        return x
    mon.close("binary reformulation", Pn.var_values(), point(start), 1e-12, 1e-12, "starting values")
    for s, w in ((sel, want), (start, wstart)):
        x = point(s)
        mon.close("binary reformulation", Pn.obj(x), w, 1e-9, 1e-9, "objective at %s" % s)
        mon.close("binary reformulation", Pn.eval_cons(x), [0] * len(Pn.cons), 0, 1e-9, "constraints at %s" % s)
        mon.ok("binary reformulation", Pn.feasible(x), "feasible at %s" % s)
        for (o, v), i in zip(groups, s):
            for m in o:
                mon.ok("binary reformulation", all(abs(getattr(m.cross_section, p) - getattr(v[i], p)) < 1e-9 for p in props), "section of a member at %s" % s)
    # two profiles for a member, or properties of another profile, are infeasible
    x = point(sel)
    g = r.randrange(len(groups))
    off = sum(nprop + len(v) for _, v in groups[:g])
    o, v = groups[g]
    j = r.choice([i for i in range(len(v)) if i != sel[g]])
    if r.random() < 0.5:
        x[off + nprop + j] = 1.0
    else:
        p = r.randrange(nprop)
        x[off + p] = round(getattr(v[j], props[p]), 3)
        if abs(x[off + p] - getattr(v[sel[g]], props[p])) < 0.01:
            raise vm.CaseSkip("equal profiles")
    mon.ok("binary reformulation", not Pn.feasible(x), "infeasible combination")
    mon.nontrivial(("binary", nm, len(cat), tuple(props)))


def w_group(r, mon):
    U = r.uniform
    kind = r.choice(["cont", "disc", "index"])
    attrs = r.sample(["A", "I", "h"], r.randint(1, 3))
    objs = [Obj(A=1.0, I=1.0, h=1.0, sec="s") for _ in range(r.randint(1, 3))]
    kw = dict(objects=objs) if len(objs) > 1 or r.random() < 0.5 else dict(object=objs[0])
    mon.case(dict(kind=kind, attrs=attrs, n=len(objs)))
    if kind == "cont":
        lo = [U(0, 2) for _ in attrs]
        hi = [a + U(1, 4) for a in lo]
        vals = None if r.random() < 0.5 else [U(a, b) for a, b in zip(lo, hi)]
        g = VariableGroup("g", VariableTypeEnum.CONTINUOUS, attributes=attrs, lower_bounds=lo, upper_bounds=hi, value=vals, **kw)
        pick = [lambda a=a, b=b: U(a, b) for a, b in zip(lo, hi)]
        bounds = list(zip(lo, hi))
    elif kind == "disc":
        lists = [[round(U(0, 9), 3) for _ in range(4)] for _ in attrs]
        vals = [l[0] for l in lists]
        g = VariableGroup("g", VariableTypeEnum.DISCRETE, attributes=attrs, value=vals, values=lists, **kw)
        pick = [lambda l=l: r.choice(l) for l in lists]
        bounds = [(min(l), max(l)) for l in lists]
    else:
        attrs = ["sec"]
        cat = ["p%d" % i for i in range(r.randint(2, 6))]
        vals = r.choice([None, r.randrange(len(cat))])
        g = VariableGroup("g", VariableTypeEnum.INDEX, attribute="sec", value=vals, values=cat, **kw)
        pick = [lambda: r.randrange(len(cat))]
        bounds = [(0, len(cat) - 1)]
        vals = [vals or 0]
    mon.ok("variable group", len(g.variables) == len(attrs) and [(v.lb, v.ub) for v in g.variables] == bounds, "bounds")
    mon.ok("variable group", [v.value for v in g.variables] == (vals or [0] * len(attrs)), "values %s" % [v.value for v in g.variables])
    P = OptimizationProblem("p", variables=g.variables)
    P.add(ObjectiveFunction("f", lambda x: sum(num(v) for v in x)))
    for _ in range(3):
        x = [p() for p in pick]
        mon.close("variable group", P.obj(x), sum(x), 1e-9, 1e-9, "objective")
        for v, a, xx in zip(g.variables, attrs, x):
            w = cat[xx] if kind == "index" else xx
            mon.ok("variable group", all(getattr(o, a) == w for o in objs), "%s of every object is %s: %s" % (a, w, [getattr(o, a) for o in objs]))
    mon.nontrivial(("group", kind, tuple(attrs), len(objs)))


CATALOGUE = {"ipe": lambda: [IPE(h) for h in (160, 200, 240, 300, 360, 450)], "shs": lambda: [SHS(h, t) for h, t in ((120, 6), (150, 8), (200, 8), (250, 10))],
             "mixed": lambda: [IPE(200), HEA(200), RHS(200, 100, 8), SHS(160, 10), IPE(400)]}


def w_frame(r, mon):
    """profile variables of a real frame"""
    S = G.topology(r)
    G.gen_loads(r, S, r.sample([0, 1, 2], r.choice([1, 2])))
    lids = sorted(set(l["id"] for l in S.loads))
    f, nodes, mems = G.build_members(S, r)
    for l in S.loads:
        f.add(G.make_load(S, l, nodes, mems))
    f.generate_fem()
    P = OptimizationProblem("frame", structure=f)
    part, ids = [], list(range(len(mems)))
    r.shuffle(ids)
    while ids and len(part) < 4:
        k = r.choice([1, 1, 2, 3])
        part.append(ids[:k])
        ids = ids[k:]
    sets = []
    for k, g in enumerate(part):
        c = CATALOGUE[r.choice(sorted(CATALOGUE))]()
        sets.append(c)
        P.add(IndexVariable("g%d" % k, values=c, target={"property": "cross_section", "objects": [mems[i] for i in g]}))
    mon.case(dict(family=S.fam, nodes=S.nodes, members=[(m["n"], repr(m["sec"]), m["nel"], m["hinges"], m["mtype"]) for m in S.members], groups=part, loads=S.loads))
    P.add(ObjectiveFunction("weight", lambda x: f.weight()))
    cons = []
    for lid in lids:
        k = r.randrange(len(mems))
        cons.append((lid, k))
        P.add(NonLinearConstraint(lambda x, lid=lid, k=k: max(map(abs, mems[k].nodal_forces[lid]["My"])) + max(map(abs, mems[k].nodal_forces[lid]["N"])), name="c", fea_required=True, load_ids=r.choice([[lid], None])))
    cases = {}
    for l in S.loads:
        cases.setdefault(l["id"], []).append((l, 1.0))
    for step in range(r.randint(2, 4)):
        sel = [r.randrange(len(c)) for c in sets]
        for g, c, s in zip(part, sets, sel):
            for i in g:
                S.members[i]["sec"] = c[s]
        ref, _ = G.reference(S, cases)
        W = sum(m["sec"].A * float(np.linalg.norm(np.array(S.nodes[m["n"][0]]) - np.array(S.nodes[m["n"][1]]))) * 7850e-9 for m in S.members)
        sc = max(max(np.max(np.abs(x[k])) for x in ref[lid]) for lid in lids for k in (1, 3))
        order = ["obj"] + list(range(len(cons)))
        r.shuffle(order)
        for o in order:
            if o == "obj":
                mon.close("frame results", P.obj(sel), W, 1e-3, 1e-3, "weight of %s" % sel)
            else:
                lid, k = cons[o]
                w = np.max(np.abs(ref[lid][k][3])) * (S.members[k]["mtype"] not in ("bar", "brace")) + np.max(np.abs(ref[lid][k][1]))
                mon.close("frame results", P.cons[o](sel), w, 3e-4, 3e-4 * sc + 1e-3, "member %d case %s profiles %s" % (k, lid, sel))
        mon.ok("structure edits", all(mems[i].cross_section is c[s] and all(e.section is c[s] for e in mems[i].fem_elements) for g, c, s in zip(part, sets, sel) for i in g), "profiles %s" % sel)
        mon.nontrivial(("frame", S.fam, len(part), len(lids), step))
        if step == 0 and r.random() < 0.5 and len(P.vars) > 1:
            # fix one group
            P.vars[0].lock(sel[0])
            part, sets = part[1:], sets[1:]


WORKLOADS = {"history": (w_history, 16000, 250000), "values": (w_values, 4000, 40000), "binary": (w_binary, 4000, 50000), "group": (w_group, 2000, 20000), "frame": (w_frame, 1500, 25000)}

if __name__ == "__main__":
    vm.main(globals())
