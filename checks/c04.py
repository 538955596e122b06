"""C04: isolation, lineage and freezing over histories of a family of related parameters"""
import pickle

import numpy as np
from hypothesis import strategies as st
from pbt.core import Prop, Recorder, ensure, ensure_eq
from pbt import params as P

idx = st.integers(0, 50)
OPS = st.one_of(
    st.tuples(st.just("spawn"), idx),
    st.tuples(st.just("copy"), idx),
    st.tuples(st.just("sample"), idx),
    st.tuples(st.just("pickle"), idx),
    st.tuples(st.just("mutate"), idx),
    st.tuples(st.just("setdata"), idx, st.lists(P.floats(-3, 3), min_size=1, max_size=4)),
    st.tuples(st.just("setvalue"), idx, idx),
    st.tuples(st.just("recombine"), idx, idx, idx),
    st.tuples(st.just("freeze"), idx),
    st.tuples(st.just("constraint"), idx, st.booleans()),
    st.tuples(st.just("meta"), idx),
    st.tuples(st.just("submutate"), idx, idx),
    st.tuples(st.just("subassign"), idx, idx),
    st.tuples(st.just("bounds"), idx),
    st.tuples(st.just("sigma"), idx),
).map(list)


class Const:
    """picklable constraint with a fixed answer"""

    def __init__(self, answer):
        self.answer = answer

    def __call__(self, value):
        return self.answer


def subs(param):
    """direct sub-parameters, as (accessor, parameter)"""
    import nevergrad as ng

    out = []
    if isinstance(param, ng.p.Instrumentation):
        for a in (0, 1):
            out += subs(param[a])
    elif isinstance(param, ng.p.Tuple):
        out += [param[i] for i in range(len(param))]
    elif isinstance(param, ng.p.Dict):
        out += [param[k] for k in sorted(param)]
    elif isinstance(param, (ng.p.Choice, ng.p.TransitionChoice)):
        out += [param.choices[i] for i in range(len(param.choices))]
    return [p for p in out if isinstance(p, ng.p.Parameter) and not isinstance(p, ng.p.Constant)]


def alldata(param):
    import nevergrad as ng

    if isinstance(param, ng.p.Array) or isinstance(param, ng.p.Scalar):
        sigma = param.sigma.value
        yield (np.array(param.value, copy=True), np.array(sigma, copy=True), [None if b is None else np.array(b, copy=True) for b in param.bounds])
    for s in subs(param):
        yield from alldata(s)


class Snap:
    """observable state of a parameter"""

    def __init__(self, p, root):
        self.value = pickle.loads(pickle.dumps(p.value))
        self.data = np.array(p.get_standardized_data(reference=root), copy=True)
        self.leaves = list(alldata(p))
        self.sat = p.satisfies_constraints()
        self.gen = p.generation
        self.heritage = dict(p.heritage)
        self.parents = list(p.parents_uids)
        self.uid = p.uid
        self.meta = dict(p._meta)

    def diff(self, o):
        if not P.same_value(self.value, o.value):
            return f"value {self.value} became {o.value}"
        if not np.array_equal(self.data, o.data, equal_nan=True):
            return f"standardized data {self.data} became {o.data}"
        if not P.same_value(pickle.loads(pickle.dumps(self.leaves)), o.leaves):
            return f"values, sigmas or bounds of sub-parameters {self.leaves} became {o.leaves}"
        for name in ("sat", "gen", "heritage", "parents", "uid", "meta"):
            if getattr(self, name) != getattr(o, name):
                return f"{name}: {getattr(self, name)} became {getattr(o, name)}"
        return ""


def run_family(case, rec: Recorder) -> None:
    import nevergrad as ng

    spec = case["spec"]
    root = P.build(spec)
    root.random_state.seed(case["seed"])
    root.value  # pylint: disable=pointless-statement
    ref = root.copy()
    dim = root.dimension
    members, frozen = [root], [False]
    snaps = [Snap(root, ref)]
    changed = 0
    uids = {root.uid, ref.uid}
    for op in case["ops"]:
        i = op[1] % len(members)
        cur = members[i]
        target = None  # index of the only member which may change
        new = None
        name = op[0]
        if name in ("spawn", "copy", "sample", "pickle"):
            if name == "spawn":
                new = cur.spawn_child()
                ensure_eq(new.generation, cur.generation + 1, "generation of a child")
                ensure_eq(new.parents_uids, [cur.uid], "parents of a child")
                ensure_eq(new.heritage["lineage"], cur.heritage["lineage"], "lineage of a child")
            elif name == "copy":
                new = cur.copy()
                ensure_eq(new.heritage["lineage"], cur.heritage["lineage"], "lineage of a copy")
                ensure_eq(new.generation, cur.generation, "generation of a copy")
            elif name == "sample":
                new = cur.sample()
                ensure_eq(new.heritage["lineage"], new.uid, "a sample starts its own lineage")
                ensure_eq(new.generation, 0, "generation of a sample")
                ensure_eq(new.parents_uids, [], "parents of a sample")
            else:
                new = pickle.loads(pickle.dumps(cur))
                ensure_eq(new.uid, cur.uid, "uid of a pickled copy")
                ensure(P.same_value(new.value, cur.value), f"pickled {cur.value}, got {new.value}")
            if name != "pickle":
                ensure(new.uid not in uids, "uid is not unique")
                uids.add(new.uid)
                ensure(new.loss is None, "a new instance should have no loss")
                ensure(new._meta == {}, "algorithm metadata leaked to another instance")
            if name != "sample" and not P.is_stochastic(spec):
                ensure(P.same_value(new.value, cur.value), f"{name} of {cur.value} is {new.value}")
            P.check_value(spec, new.value, name)
            ensure(type(new) is type(cur), "type")
        elif name == "freeze":
            cur.freeze()
            frozen[i] = True
        elif name == "constraint":
            cur.register_cheap_constraint(Const(op[2]))
            expected = snaps[i].sat and op[2]
            snaps[i] = Snap(cur, ref)
            ensure_eq(snaps[i].sat, expected, "satisfies_constraints after registering")
        elif name == "meta":
            cur._meta["x"] = len(members)
            cur.heritage["tag"] = cur.uid
            target = i
        elif name in ("bounds", "sigma"):
            leaves = [s for s in subs(cur) + [cur] if isinstance(s, (ng.p.Array, ng.p.Scalar)) and not isinstance(s, ng.p.Log)
                      and (name == "sigma" or (all(b is None for b in s.bounds) and not P.any_node(spec, lambda x: "exponent" in x or "set" in x)))]
            if leaves and not frozen[i]:
                leaf = leaves[op[1] % len(leaves)]
                target = i
                if name == "sigma":
                    leaf.set_mutation(sigma=0.3)
                else:
                    v = np.asarray(leaf.value)
                    try:
                        leaf.set_bounds(float(v.min()) - 1, float(v.max()) + 1, method="clipping")
                    except Exception:  # pylint: disable=broad-except
                        pass  # some combinations with pre-existing layers are refused
        else:
            dimcur = dim
            obj = cur
            if name in ("submutate", "subassign"):
                options = subs(cur)
                if not options:
                    continue
                obj = options[op[2] % len(options)]
                dimcur = obj.dimension

            def act():
                if name in ("mutate", "submutate"):
                    obj.mutate()
                elif name == "subassign":
                    obj.value = obj.sample().value
                elif name == "setdata":
                    obj.set_standardized_data(P.cycle(op[2], dim), reference=ref)
                elif name == "setvalue":
                    obj.value = members[op[2] % len(members)].value
                else:
                    obj.recombine(members[op[2] % len(members)], members[op[3] % len(members)])

            if frozen[i]:
                if dimcur == 0:
                    continue
                try:
                    act()
                except RuntimeError:
                    rec.event("refused on frozen: " + name)
                else:
                    ensure(False, f"{name} was accepted on a frozen parameter")
            else:
                target = i
                act()
                changed += 1
        for k, m in enumerate(members):
            snap = Snap(m, ref)
            if k != target:
                diff = snaps[k].diff(snap)
                ensure(not diff, lambda: f"{op} on member {i} changed member {k}: {diff}")
            snaps[k] = snap
        if target is not None and name not in ("bounds", "meta", "sigma"):
            P.check_value(spec, members[target].value, f"after {op}") if not any(o[0] == "bounds" for o in case["ops"]) else None
        if new is not None and len(members) < 8:
            members.append(new)
            frozen.append(name == "pickle" and frozen[i])
            snaps.append(Snap(new, ref))
            if P.same_value(new.value, cur.value) and not P.is_stochastic(spec):
                ensure_eq(snaps[-1].sat, snaps[i].sat, f"constraints of a {name}")
        rec.event("op:" + name)
    rec.nontrivial(changed > 0 and len(members) > 1 and dim > 0)


PROPS = [
    Prop("family", st.fixed_dictionaries({"spec": P.any_param(), "seed": P.seeds, "ops": st.lists(OPS, min_size=3, max_size=14)}).map(lambda c: dict(c)),
         run_family, 1600, 30000, "at least one modification in a family of at least two members", shards=7),
]
ASSUMPTIONS = ["the mutable value objects (arrays) returned by a parameter are not modified in place by the user"]
