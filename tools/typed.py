#!/usr/bin/env python3
"""C23: every program of a bounded grammar over the typed API, judged by the compiler, against a model of the types.

A program is one function body.  All programs of a group are compiled in one crate that depends on the mirrored
factrs; a program is rejected when the compiler reports an error inside its lines.  The model says which programs are
well typed.  Returns a report in the shape the exploration harness writes."""
import itertools, json, os, re, subprocess, sys, time

VARS = ["VectorVar1", "VectorVar2", "VectorVar3", "VectorVar4", "VectorVar5", "VectorVar6", "SO2", "SE2", "SO3", "SE3", "ImuBias"]
DIM = dict(zip(VARS, [1, 2, 3, 4, 5, 6, 1, 3, 3, 6, 6]))
# symbols: one per type, two with several types, one declared without, one of the library's own
TAGS = {"T" + v: {v} for v in VARS}
TAGS |= {"Pair": {"SE2", "VectorVar2"}, "Triple": {"SO3", "SE3", "VectorVar1"}, "Plain": set(), "factrs::symbols::X": set()}
PRELUDE = """#![allow(warnings)]
use factrs::{assign_symbols, fac, mark};
use factrs::containers::{Factor, FactorBuilder, Graph, Key, Values, TypedSymbol};
use factrs::linalg::{Const, ForwardProp, Numeric, Vector, VectorX, Matrix};
use factrs::noise::*;
use factrs::residuals::*;
use factrs::robust::*;
use factrs::variables::*;
use factrs::traits::*;
use std::fmt;
assign_symbols!(%s);
assign_symbols!(Plain);
""" % "; ".join(f"{s}: {', '.join(sorted(t))}" for s, t in TAGS.items() if t)
# residuals of three to six variables; all of different types where there are enough
RES = {3: (["SE2", "VectorVar2", "SO2"], 2), 4: (["VectorVar1", "SE2", "VectorVar1", "SO3"], 3),
       5: (["SO2", "VectorVar3", "VectorVar2", "SO2", "SE2"], 1), 6: (["SE3", "VectorVar3", "ImuBias", "SE3", "VectorVar3", "ImuBias"], 4)}
for n, (vs, out) in RES.items():
    a = ", ".join(f"x{i}: {v}<T>" for i, v in enumerate(vs))
    PRELUDE += f"""#[derive(Clone, Debug)] struct R{n};
impl fmt::Display for R{n} {{ fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {{ write!(f, "R") }} }}
#[mark]
impl Residual{n} for R{n} {{
    type Differ = ForwardProp<<Self as Residual{n}>::DimIn>;
    type DimIn = Const<{sum(DIM[v] for v in vs)}>;
    type DimOut = Const<{out}>;
    {" ".join(f"type V{i + 1} = {v};" for i, v in enumerate(vs))}
    fn residual{n}<T: Numeric>(&self, {a}) -> VectorX<T> {{ VectorX::zeros({out}) }}
}}
"""


def programs(thorough):
    """(group, name, body, well typed?)"""
    # --- the store
    for s, tags in TAGS.items():
        for v in VARS:
            ok = v in tags
            yield "store", f"insert {s} {v}", f"fn f(v: &mut Values, x: {v}) {{ v.insert({s}(1), x); }}", ok
            yield "store", f"get {s} {v}", f"fn f(v: &Values) {{ let _: Option<&{v}> = v.get({s}(1)); }}", ok
            yield "store", f"get_mut {s} {v}", f"fn f(v: &mut Values) {{ let _: Option<&mut {v}> = v.get_mut({s}(1)); }}", ok
            yield "store", f"remove {s} {v}", f"fn f(v: &mut Values) {{ let _: Option<{v}> = v.remove({s}(1)); }}", ok
            yield "store", f"insert_unchecked {s} {v}", f"fn f(v: &mut Values, x: {v}) {{ v.insert_unchecked({s}(1), x); }}", True
            yield "store", f"get_unchecked {s} {v}", f"fn f(v: &Values) {{ let _: Option<&{v}> = v.get_unchecked({s}(1)); }}", True
            yield "store", f"get_unchecked_mut {s} {v}", f"fn f(v: &mut Values) {{ let _: Option<&mut {v}> = v.get_unchecked_mut({s}(1)); }}", True
            yield "store", f"prior builder {s} {v}", f"fn f(x: {v}) -> Factor {{ FactorBuilder::new1(PriorResidual::new(x), {s}(1)).build() }}", ok
            yield "store", f"prior unchecked {s} {v}", f"fn f(x: {v}) -> Factor {{ FactorBuilder::new1_unchecked(PriorResidual::new(x), {s}(1)).build() }}", True
            for form, keys in enumerate([f"{s}(1)", f"[{s}(1)]", f"({s}(1),)"]):
                tails = ["", f", GaussianNoise::<{DIM[v]}>::from_scalar_sigma(0.5)", f", UnitNoise::<{DIM[v]}>, Huber::default()"]
                for k, tail in enumerate(tails):
                    if thorough or k == form:
                        yield "store", f"prior macro form {form} tail {k} {s} {v}", f"fn f(x: {v}) -> Factor {{ fac![PriorResidual::new(x), {keys}{tail}] }}", ok
    # --- relative residuals: every pair of symbols
    for v in VARS:
        for s1, s2 in itertools.product(TAGS, TAGS):
            ok = v in TAGS[s1] and v in TAGS[s2]
            if not thorough and not (v in TAGS[s1] or v in TAGS[s2]) and (VARS.index(v) + len(s1) * 3 + len(s2)) % 8:
                continue
            yield "between", f"between builder {s1} {s2} {v}", f"fn f(x: {v}) -> Factor {{ FactorBuilder::new2(BetweenResidual::new(x), {s1}(1), {s2}(2)).build() }}", ok
            yield "between", f"between macro {s1} {s2} {v}", f"fn f(x: {v}) -> Factor {{ fac![BetweenResidual::new(x), ({s1}(1), {s2}(2)), GaussianNoise::<{DIM[v]}>::from_scalar_cov(0.5)] }}", ok
            if ok or s1 == "Plain":
                yield "between", f"between unchecked {s1} {s2} {v}", f"fn f(x: {v}) -> Factor {{ FactorBuilder::new2_unchecked(BetweenResidual::new(x), {s1}(1), {s2}(2)).build() }}", True
    # --- residuals of more variables: every set of wrong positions
    for n, (vs, out) in RES.items():
        for bad in itertools.product([0, 1], repeat=n):
            for sub in (["Plain", "TVectorVar5"] if any(bad) else ["Plain"]):
                ks = ", ".join((sub if b else "T" + v) + f"({i})" for i, (b, v) in enumerate(zip(bad, vs)))
                w = "".join(map(str, bad))
                yield "arity", f"{n} variables builder wrong {w} {sub}", f"fn f() -> Factor {{ FactorBuilder::new{n}(R{n}, {ks}).build() }}", not any(bad)
                yield "arity", f"{n} variables macro wrong {w} {sub}", f"fn f() -> Factor {{ fac![R{n}, ({ks}), GaussianNoise::<{out}>::from_scalar_sigma(1.0), Cauchy::default()] }}", not any(bad)
                yield "arity", f"{n} variables brackets wrong {w} {sub}", f"fn f() -> Factor {{ fac![R{n}, ({ks})] }}", not any(bad)
                yield "arity", f"{n} variables unchecked wrong {w} {sub}", f"fn f() -> Factor {{ FactorBuilder::new{n}_unchecked(R{n}, {ks}).build() }}", True
        # positions exchanged
        for p in itertools.permutations(range(n)):
            if n > 4 and not thorough and sum(i != j for i, j in enumerate(p)) > 2:
                continue
            ks = ", ".join(f"T{vs[j]}({i})" for i, j in enumerate(p))
            ok = all(vs[i] == vs[j] for i, j in enumerate(p))
            yield "arity", f"{n} variables builder order {p}", f"fn f() -> Factor {{ FactorBuilder::new{n}(R{n}, {ks}).build() }}", ok
            yield "arity", f"{n} variables macro order {p}", f"fn f() -> Factor {{ fac![R{n}, ({ks})] }}", ok
    # --- number of keys
    res = {1: "PriorResidual::new(x)", 2: "BetweenResidual::new(x)"} | {n: f"R{n}" for n in RES}
    for n, r in res.items():
        vs = RES[n][0] if n in RES else ["SE2"] * n
        for k in range(1, 7):
            ks = ", ".join("T" + (vs + ["SE2"] * 6)[i] + f"({i})" for i in range(k))
            un = ", ".join(f"Plain({i})" for i in range(k))
            yield "count", f"{n} variables with {k} keys builder", f"fn f(x: SE2) -> Factor {{ FactorBuilder::new{k}({r}, {ks}).build() }}", n == k
            yield "count", f"{n} variables with {k} keys macro", f"fn f(x: SE2) -> Factor {{ fac![{r}, ({ks},)] }}", n == k
            yield "count", f"{n} variables with {k} keys brackets", f"fn f(x: SE2) -> Factor {{ fac![{r}, [{ks}], UnitNoise::<{DIM['SE2'] if n < 3 else RES[n][1]}>] }}", n == k
            yield "count", f"{n} variables with {k} keys unchecked", f"fn f(x: SE2) -> Factor {{ FactorBuilder::new{k}_unchecked({r}, {un}).build() }}", n == k
    # --- dimension of the noise
    for v in VARS + list(RES):
        d = DIM[v] if v in VARS else RES[v][1]
        if v in VARS:
            new = {"builder": f"FactorBuilder::new1(PriorResidual::new(x), T{v}(0))", "unchecked": f"FactorBuilder::new1_unchecked(PriorResidual::new(x), Plain(0))",
                   "between": f"FactorBuilder::new2(BetweenResidual::new(x), T{v}(0), T{v}(1))", "between unchecked": f"FactorBuilder::new2_unchecked(BetweenResidual::new(x), Plain(0), Plain(1))"}
            mac = {"macro": f"PriorResidual::new(x), T{v}(0)", "macro two": f"BetweenResidual::new(x), (T{v}(0), T{v}(1))"}
            arg = f"x: {v}"
        else:
            ks = ", ".join(f"T{t}({i})" for i, t in enumerate(RES[v][0]))
            un = ", ".join(f"Plain({i})" for i in range(v))
            new = {"builder": f"FactorBuilder::new{v}(R{v}, {ks})", "unchecked": f"FactorBuilder::new{v}_unchecked(R{v}, {un})"}
            mac = {"macro": f"R{v}, ({ks})"}
            arg = ""
        for m in range(1, 8):
            for kind, noise in [("gaussian", f"GaussianNoise::<{m}>::from_scalar_sigma(0.1)"), ("unit", f"UnitNoise::<{m}>")]:
                for how, b in new.items():
                    yield "noise", f"{v} {how} {kind} {m}", f"fn f({arg}) -> Factor {{ {b}.noise({noise}).build() }}", m == d
                    yield "noise", f"{v} {how} kernel {kind} {m}", f"fn f({arg}) -> Factor {{ {b}.robust(Huber::default()).noise({noise}).build() }}", m == d
                for how, b in mac.items():
                    yield "noise", f"{v} {how} {kind} {m}", f"fn f({arg}) -> Factor {{ fac![{b}, {noise}] }}", m == d
                    yield "noise", f"{v} {how} kernel {kind} {m}", f"fn f({arg}) -> Factor {{ fac![{b}, {noise}, Tukey::default()] }}", m == d
        # a noise whose dimension is left to the compiler
        for w in ["scalar_sigma", "scalar_cov"]:
            for how, b in new.items():
                yield "noise", f"{v} {how} inferred {w}", f"fn f({arg}) -> Factor {{ {b}.noise(GaussianNoise::from_{w}(0.1)).build() }}", True
            for how, b in mac.items():
                yield "noise", f"{v} {how} inferred {w}", f"fn f({arg}) -> Factor {{ fac![{b}, GaussianNoise::from_{w}(0.1), Huber::default()] }}", True
    # --- making the noise
    for n, m in itertools.product(range(1, 7), range(1, 7)):
        for w in ["sigma", "cov", "inf"]:
            yield "make", f"noise {n} from_vec_{w} {m}", f"fn f(x: Vector<{m}>) -> GaussianNoise<{n}> {{ GaussianNoise::<{n}>::from_vec_{w}(x.as_view()) }}", n == m
        for w in ["cov", "inf"]:
            for k in range(1, 7):
                yield "make", f"noise {n} from_matrix_{w} {m}x{k}", f"fn f(x: Matrix<{m}, {k}>) -> GaussianNoise<{n}> {{ GaussianNoise::<{n}>::from_matrix_{w}(x.as_view()) }}", n == m == k
        for w in ["sigmas", "covs"]:
            yield "make", f"noise {n} from_diag_{w} {m} numbers", f"fn f() -> GaussianNoise<{n}> {{ GaussianNoise::<{n}>::from_diag_{w}({', '.join(['1.0'] * m)}) }}", n == m
    # kernels and other things in the wrong place
    for name, b, ok in [("kernel as noise", "FactorBuilder::new1(PriorResidual::new(x), TSE2(0)).noise(Huber::default()).build()", False),
                        ("noise as kernel", "FactorBuilder::new1(PriorResidual::new(x), TSE2(0)).robust(UnitNoise::<3>).build()", False),
                        ("kernel alone", "FactorBuilder::new1(PriorResidual::new(x), TSE2(0)).robust(Huber::default()).build()", True),
                        ("variable as residual", "FactorBuilder::new1(x, TSE2(0)).build()", False),
                        ("macro exchanged", "fac![PriorResidual::new(x), TSE2(0), Huber::default(), UnitNoise::<3>]", False),
                        ("macro kernel as noise", "fac![PriorResidual::new(x), TSE2(0), Huber::default()]", False),
                        ("macro full", "fac![PriorResidual::new(x), TSE2(0), UnitNoise::<3>, Huber::default()]", True),
                        ("number as key", "FactorBuilder::new1(PriorResidual::new(x), 0u64).build()", False),
                        ("key path", "{ let k = TSE2(0); fac![PriorResidual::new(x), k] }", True),
                        ("key path of another type", "{ let k = TSO2(0); fac![PriorResidual::new(x), k] }", False)]:
        yield "make", name, f"fn f(x: SE2) -> Factor {{ {b} }}", ok
    # --- the macro's shape: errors of its own, each compiled by itself
    if thorough:
        for name, b, ok in [("macro one item", "fac![PriorResidual::new(x)]", False), ("macro five items", "fac![PriorResidual::new(x), TSE2(0), UnitNoise::<3>, Huber::default(), 1]", False),
                            ("macro number as keys", "fac![PriorResidual::new(x), 3]", False), ("macro no keys", "fac![PriorResidual::new(x), ()]", False)]:
            yield "own " + name, name, f"fn f(x: SE2) -> Factor {{ {b} }}", ok


def compile_group(progs, prelude, crate, env):
    src = os.path.join(crate, "src", "lib.rs")
    lines = prelude.rstrip("\n").split("\n")
    at = {}
    for i, (_, name, body, _) in enumerate(progs):
        lines.append(f"mod p{i} {{ use super::*; {body} }}")
        at[len(lines)] = i
    os.makedirs(os.path.dirname(src), exist_ok=True)
    open(src, "w").write("\n".join(lines) + "\n")
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "-q", "--message-format=json"], cwd=crate, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    errs, stray = {}, []
    for l in r.stdout.decode(errors="replace").split("\n"):
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        msg = m["message"]
        spans = [s for s in msg["spans"] if s["is_primary"]]

        def outer(s):
            while s.get("expansion"):
                s = s["expansion"]["span"]
            return s
        hit = [at[outer(s)["line_start"]] for s in spans if outer(s)["file_name"].endswith("lib.rs") and m["target"]["name"] == "typed" and outer(s)["line_start"] in at]
        if hit:
            for h in hit:
                errs.setdefault(h, msg["message"])
        elif not msg["message"].startswith(("aborting due to", "could not compile")):
            stray.append(f"{m['target']['name']}: {msg['message']}")
    if stray or (r.returncode and not errs):
        return None, "\n".join(stray) + r.stderr.decode(errors="replace")[-3000:]
    return errs, ""


def run(crate, env, tier, only=None):
    t0 = time.time()
    groups = {}
    for p in programs(tier == "thorough"):
        if only is None or p[1] == only:
            groups.setdefault(p[0], []).append(p)
    names = [p[1] for ps in groups.values() for p in ps]
    assert len(set(names)) == len(names), "programs are named apart"
    viol, n, good, samples = [], 0, 0, []
    for g, ps in groups.items():
        errs, why = compile_group(ps, PRELUDE, crate, env)
        if errs is None:
            print(why)
            print("ERROR: the programs' prelude does not build against /repo's working tree (no verdict)")
            sys.exit(2)
        for i, (_, name, body, ok) in enumerate(ps):
            n += 1
            good += i not in errs
            if ok and i in errs:
                viol.append({"case": name, "msg": f"a well-typed program is rejected: {body} => {errs[i]}"})
            elif not ok and i not in errs:
                viol.append({"case": name, "msg": f"an ill-typed program compiles: {body}"})
        samples += [p[1] + ": " + p[2] for p in ps[:: max(1, len(ps) // 2)]]
    return {"states": n, "transitions": n, "traces": n, "cases": n, "wall_s": round(time.time() - t0, 3), "violations": viol, "samples": samples[:12],
            "counters": {"programs accepted": good, "programs rejected": n - good}, "note": ""}
