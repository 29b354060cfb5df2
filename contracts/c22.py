"""C22: problem descriptors state what their circuits do."""
import math

from contracts import circ, hc
from contracts.common import require
from contracts.c05 import lay_of

LEVEL = "other"
EXPLANATION = ("Proved for every layout size, number of sub-rounds and noise strength: every field of the descriptor, the label, the problem's circuit being the layout's, "
               "the noise model being the style's at the layout's strength; likewise surface code problems for every distance. The surface code files and both benchmark lists are "
               "finite and evaluated completely. Proved for every number of sub-rounds on the 2 x 6 and 4 x 6 patches (three more thorough): qubits, sub-rounds and observable of the "
               "circuit are those stated. Bounded: the same on other patches (that the declared qubits are as many as stated is C06, for every size)")
BUDGET = {"quick": 120, "thorough": 900}
CHUNK = 2
BOUND = "layouts up to 8 x 24 x all styles x observables x sub-round counts 1..19; every surface code file; the complete benchmark lists"


def cases(tier, rng):
    for dw in (2, 4, 6, 8, 12):
        for dh in (6, 12, 18, 24):
            for st in hc.STYLES:
                n = rng.choice([3, 6, 9, 12, 15, 36] if st == "SI1000" else list(range(1, 20)))
                yield {"kind": "hex", "dw": dw, "dh": dh, "style": st, "obs": rng.choice("HV"), "n": n, "noise": rng.choice([0.0, 0.001, 0.0015, 1e-05, 0.1]), "dec": rng.choice(["internal", "pymatching", "x"])}
    for st in hc.STYLES:
        for n in range(1, 20):
            yield {"kind": "hex", "dw": 4, "dh": 6, "style": st, "obs": "HV"[n % 2], "n": n, "noise": 0.002, "dec": "pymatching"}
    for nn in ("SD6", "SI1000"):
        for ob in "XZ":
            for d in (3, 7, 11, 15, 19):
                yield {"kind": "surf", "name": nn, "obs": ob, "d": d, "noise": rng.choice([0.0001, 0.003])}
    yield {"kind": "lists"}
    yield {"kind": "listcirc", "i": [rng.randrange(10 ** 6) for _ in range(4 if tier == "quick" else 30)]}


def used(circuit):
    qs = set()
    for a in circ.atoms(circuit.without_noise()):
        if a[0] not in circ.ANNOT:
            qs |= circ.qubits(a)
    return qs


def run_case(c):
    if "kind" not in c:
        c = {**c, "kind": "hex", "noise": 0.0, "dec": "internal"}
    if c["kind"] == "hex":
        lay = lay_of(c)
        what = str(c)
        p = lay.as_decoder_problem(c["dec"])
        d = p.desc
        require(d == lay.as_decoder_problem_desc(c["dec"]), f"{what}: the problem's descriptor is not the layout's")
        want = dict(data_width=c["dw"], data_height=c["dh"], rounds=-(-c["n"] // 3), noise=c["noise"], circuit_style="honeycomb_" + c["style"], preserved_observable=c["obs"],
                    decoder=c["dec"], code_distance=min(c["dw"], c["dh"] * 2 // 3), num_qubits=c["dw"] * c["dh"] * (1 if c["style"].startswith("EM3") else 2.5))
        for k, v in want.items():
            require(getattr(d, k) == v, f"{what}: descriptor {k} = {getattr(d, k)!r}, expected {v!r}")
            if isinstance(v, int):
                require(type(getattr(d, k)) is int, f"{what}: descriptor {k} = {getattr(d, k)!r} is not an integer")
        lab = lay.legend_label()
        require(f"{c['dw']}x{c['dh']}" in lab and f"{c['n'] // 3} rounds" in lab and (not c["noise"] or repr(c["noise"]) in lab), f"{what}: label {lab!r}")
        if c["dw"] * c["dh"] > 96 or (c["style"] == "SI1000" and c["n"] % 3):
            return
        circuit = p.circuit_maker()
        require(circuit == lay.make_circuit(), f"{what}: the problem makes another circuit than the layout")
        nd = c["dw"] * c["dh"]
        u = used(circuit)
        extra = 1 if c["style"] == "EM3_v2" and c["noise"] else 0
        require(len(u) - extra == d.num_qubits, f"{what}: {d.num_qubits} qubits reported, the circuit uses {len(u)}")
        require((circuit.num_measurements - nd) / (nd // 2) == c["n"], f"{what}: the circuit does not have {c['n']} sub-rounds")
        require(circuit.num_observables == 1 + (c["obs"] == "H"), f"{what}: observables {circuit.num_observables}")
        noisy = any(a[0] in circ.NOISE for a in circ.atoms(circuit))
        require(noisy == (c["noise"] > 0), f"{what}: noise {'present' if noisy else 'missing'}")
        if c["noise"]:
            from contracts.c08 import judge
            judge({"EM3": "EM3_v1"}.get(c["style"], c["style"]), c["noise"], lay_of(c, noise=0.0).make_circuit(), circuit, set(range(lay_of(c, noise=0.0).make_circuit().num_qubits)), what)
        return
    import paper.main_collect_all as mca
    import os
    surf = os.path.join(os.path.dirname(mca.__file__), "surface_code_circuits")
    if c["kind"] == "surf":
        p = mca.surface_code_problem(surf, c["name"], c["noise"], c["obs"], c["d"], "internal")
        check_surface(p, surf, c["name"], c["noise"], c["obs"], c["d"], "internal", True)
        return
    hp = mca.honeycomb_problems()
    if c["kind"] == "lists":
        combos = set()
        for p in hp:
            d = p.desc
            require(d.circuit_style.startswith("honeycomb_"), f"{d}")
            u = d.data_width // 4
            require((d.data_width, d.data_height, d.code_distance) == (4 * u, 6 * u, 4 * u) and d.rounds == 3 * d.code_distance, f"{d}: not a three-cell problem of a square patch")
            combos.add((u, d.noise, d.circuit_style, d.preserved_observable, d.decoder))
        full(combos, len(hp), "honeycomb")
        sizes, noises, styles, obs, decs = (sorted({k[i] for k in combos}) for i in range(5))
        require(obs == ["H", "V"] and len(noises) == 15 and sizes == [1, 2, 3, 4, 5] and styles == ["honeycomb_EM3_v2", "honeycomb_SD6", "honeycomb_SI1000"]
                and decs == ["internal", "internal_correlated"], f"honeycomb benchmark parameters {sizes} {styles} {obs} {decs} {noises}")
        sp = mca.surface_code_problems(surf)
        combos = set()
        for p in sp:
            d = p.desc
            name = d.circuit_style.replace("surface_", "")
            check_surface(p, surf, name, d.noise, d.preserved_observable, d.code_distance, d.decoder, False)
            combos.add((d.code_distance, d.noise, d.circuit_style, d.preserved_observable, d.decoder))
        full(combos, len(sp), "surface code")
        require(sorted({k[0] for k in combos}) == [3, 7, 11, 15, 19] and sorted({k[1] for k in combos}) == noises and sorted({k[3] for k in combos}) == ["X", "Z"]
                and sorted({k[2] for k in combos}) == ["surface_SD6", "surface_SI1000"] and sorted({k[4] for k in combos}) == decs, "surface code benchmark parameters")
        for none in (None, "", "-"):
            require(mca.surface_code_problems(none) == [], "surface code problems without a directory")
        return
    small = [p for p in hp if p.desc.data_width <= 8]
    for i in c["i"]:
        p = small[i % len(small)]
        d = p.desc
        from honeycomb_layout import HoneycombLayout
        want = HoneycombLayout(data_width=d.data_width, data_height=d.data_height, sub_rounds=3 * d.rounds, style=d.circuit_style[len("honeycomb_"):], obs=d.preserved_observable, noise=d.noise)
        require(p.circuit_maker() == want.make_circuit(), f"{d}: the circuit is not the one described")
        require(want.as_decoder_problem_desc(d.decoder) == d, f"{d}: descriptor")
        sp = mca.surface_code_problems(surf)
        ss = [q for q in sp if q.desc.code_distance <= 7]
        q = ss[i % len(ss)]
        e = q.desc
        check_surface(q, surf, e.circuit_style.replace("surface_", ""), e.noise, e.preserved_observable, e.code_distance, e.decoder, True)


def full(combos, n, what):
    sides = [sorted({k[i] for k in combos}) for i in range(5)]
    require(math.prod(map(len, sides)) == len(combos) == n, f"the {what} list has {n} problems, {len(combos)} distinct, {math.prod(map(len, sides))} combinations")


def check_surface(p, surf, name, noise, obs, d, dec, circuit):
    import stim
    s = p.desc
    what = f"surface code {name} {obs} d={d} p={noise}"
    want = dict(data_width=d, data_height=d, code_distance=d, num_qubits=2 * d * d - 1, rounds=3 * d, noise=noise, circuit_style=f"surface_{name}", preserved_observable=obs, decoder=dec)
    for k, v in want.items():
        require(getattr(s, k) == v, f"{what}: descriptor {k} = {getattr(s, k)!r}, expected {v!r}")
    if not circuit:
        return
    c = p.circuit_maker()
    base = stim.Circuit.from_file(f"{surf}/{name.lower()}_{obs}/d{d}_p0.0.stim")
    require(len(used(c)) == s.num_qubits, f"{what}: {len(used(c))} qubits used")
    require(c.num_measurements == (d * d - 1) * s.rounds + d * d, f"{what}: {c.num_measurements} measurements")
    from contracts.c07 import compare
    compare(circ.atoms(base), circ.atoms(c), False, what)
    if d <= 7:
        from contracts.c08 import judge
        judge(name, noise, base, c, set(range(base.num_qubits)), what)


# ------------------------------------------------------------------ obligations
def prove(P):
    from contracts import hcsym
    for style in hc.STYLES:
        for obs in "HV":
            descriptor(P, style, obs)
    for style in hc.STYLES + ["?"]:
        noise_of(P, style)
    surface(P)
    P.parallel([(n, o, d) for n in ("SD6", "SI1000") for o in "XZ" for d in (3, 7, 11, 15, 19)], surface_file)
    lists(P)
    P.parallel(hcsym.configurations(P.tier), circuits)


def decoders(P):
    from pyvc.values import OtherStr
    k = P.eng.choose(4)
    return OtherStr() if k == 3 else ("internal", "internal_correlated", "pymatching")[k]


def same(a, b):
    return type(a) is type(b) and a == b if isinstance(a, str) or isinstance(b, str) else a is b


def own(made, got):
    """The contract of the circuit generator can be used if it is called once and its result is passed on."""
    from pyvc.core import Unsupported
    if len(made) != 1 or got is not CIRCUIT:
        raise Unsupported("the circuit does not come from the function under contract")


def same_layout(a, b):
    from pyvc.values import as_num, land
    fields = ("sub_rounds", "noise", "data_width", "data_height")
    return a is b or land(type(a) is type(b), a.style == b.style, a.obs == b.obs, *[as_num(getattr(a, f)) == as_num(getattr(b, f)) for f in fields])


CIRCUIT = "the circuit"


def descriptor(P, style, obs):
    import honeycomb_layout as hl
    from pyvc.interp import StrOf, SText
    from pyvc.prover import mval
    from pyvc.values import SBool, as_num, ite, land, zb
    eng = P.eng

    def text(t):
        return t.parts if isinstance(t, SText) else [t]

    def shown(parts):
        """Adjacent literals joined; values as (value, conversion, format)."""
        out = []
        for x in parts:
            if isinstance(x, SText):
                x = shown(x.parts)
            elif isinstance(x, StrOf):
                fmt = {"r": (114, ""), None: (-1, "")}.get(x.fmt, x.fmt)
                x = [(x.v, fmt)]
            else:
                x = [x]
            for y in x:
                if isinstance(y, str) and out and isinstance(out[-1], str):
                    out[-1] += y
                else:
                    out.append(y)
        return out

    def go():
        tw, th, n, p = P.int("tw", 1), P.int("th", 1), P.int("sub_rounds", 1), P.real("noise", 0)
        dec = decoders(P)

        def wit(m):
            a, b = mval(m, tw), mval(m, th)
            q = mval(m, p)
            if a * b > 60 or mval(m, n) > 200:
                return None
            return {"kind": "hex", "dw": 2 * a, "dh": 6 * b, "style": style, "obs": obs, "n": mval(m, n), "noise": float(q if q is not None else 0), "dec": dec if isinstance(dec, str) else "some"}
        lay = P.call(hl.HoneycombLayout, data_width=2 * tw, data_height=6 * th, sub_rounds=n, style=style, obs=obs, noise=p)
        made = []

        def generate(which):
            made.append(which)
            return CIRCUIT
        eng.callee_contracts = {"honeycomb_circuit.generate_honeycomb_circuit": generate}
        prob = P.interp.call(P.interp.getattr(lay, "as_decoder_problem"), (dec,), {})
        alone = P.interp.call(P.interp.getattr(lay, "as_decoder_problem_desc"), (dec,), {})
        for what, d in (("problem", prob.desc), ("layout", alone)):
            def ok(name, cond):
                P.prove(f"{name} (descriptor of the {what})", cond, wit)
            ok("width", as_num(d.data_width) == 2 * tw)
            ok("height", as_num(d.data_height) == 6 * th)
            r = as_num(d.rounds)
            ok("rounds are sub-rounds in threes, a partial one counted up", land(3 * r >= n, 3 * r < n + 3, SBool(zb(r.is_int_sort and r.den == 1))))
            ok("noise strength", as_num(d.noise) == p)
            ok("style", same(d.circuit_style, "honeycomb_" + style))
            ok("observable", same(d.preserved_observable, obs))
            ok("decoder", same(d.decoder, dec))
            dist, w, h = as_num(d.code_distance), 2 * tw, 4 * th
            ok("code distance: the smaller of the width and two thirds of the height", dist == ite(zb(w <= h), w, h))
            ok("number of qubits: data qubits, and 3/2 as many ancillas but for pair measurements", 2 * as_num(d.num_qubits) == (24 if style.startswith("EM3") else 60) * tw * th)
        made.clear()
        got = P.interp.call(prob.circuit_maker, (), {})
        own(made, got)
        P.prove("the problem's circuit is the layout's", same_layout(made[0], lay), wit)
        made.clear()
        got = P.interp.call(P.interp.getattr(lay, "make_circuit"), (), {})
        own(made, got)
        P.prove("the layout makes its own circuit", same_layout(made[0], lay), wit)
        P.prove("the layout is not changed", land(as_num(lay.sub_rounds) == n, as_num(lay.noise) == p, as_num(lay.data_width) == 2 * tw, as_num(lay.data_height) == 6 * th, lay.style == style and lay.obs == obs), wit)
        lab = shown(text(P.interp.call(P.interp.getattr(lay, "legend_label"), (), {})))
        lits = [x for x in lab if isinstance(x, str)]
        vals = [x for x in lab if not isinstance(x, str)]
        noisy = len(vals) == 4
        P.prove("the label is '<rounds> rounds, <width>x<height> data[, noise <noise>]'",
                lits == [" rounds, ", "x", " data, noise "][:4 if noisy else 2] + ([] if noisy else [" data"]) and len(vals) in (3, 4)
                and [f for _, f in vals] == [(-1, "")] * 3 + [(114, "")] * noisy, wit)
        if len(vals) in (3, 4):
            P.prove("the label states the layout", land(as_num(vals[0][0]) == n // 3, as_num(vals[1][0]) == 2 * tw, as_num(vals[2][0]) == 6 * th,
                                                         SBool(zb(p > 0)) if noisy else p == 0, *([as_num(vals[3][0]) == p] if noisy else [])), wit)
    P.group(f"descriptor {style} {obs}", go)
    eng.callee_contracts = {}


def same_model(a, b):
    """Equality of noise models with symbolic strengths."""
    from pyvc.values import as_num, is_sym, land
    if type(a) is not type(b):
        if is_sym(a) or is_sym(b) or isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return as_num(a) == as_num(b)
        return False
    if isinstance(a, dict):
        return land(set(a) == set(b), *[same_model(a[k], b[k]) for k in a if k in b])
    if isinstance(a, (set, frozenset)):
        return a == b
    if is_sym(a):
        return as_num(a) == as_num(b)
    if dataclass_like(a):
        return same_model(vars(a), vars(b))
    return a == b


def dataclass_like(a):
    return type(a).__module__ == "noise"


def noise_of(P, style):
    """The layout's noise model is the one of its style, at its strength (the models themselves are C08's)."""
    import honeycomb_layout as hl
    from noise import NoiseModel

    def go():
        p = P.real("noise", 0, 1)
        lay = P.call(hl.HoneycombLayout, data_width=4, data_height=6, sub_rounds=6, style=style, obs="H", noise=p)
        if style == "?":
            from pyvc.core import PyExc
            try:
                P.interp.getattr(lay, "noise_model")
            except PyExc:
                P.prove("an unknown style is refused", True)
            else:
                P.prove("an unknown style is refused", False)
            return
        want = P.call(getattr(NoiseModel, {"EM3": "EM3_v1"}.get(style, style)), p)
        P.prove("the noise model is the style's", same_model(P.interp.getattr(lay, "noise_model"), want),
                lambda m: {"kind": "hex", "dw": 4, "dh": 6, "style": style, "obs": "H", "n": 6, "noise": 0.001, "dec": "x"})
    P.group(f"noise model of {style}", go)


def surface(P):
    import paper.main_collect_all as mca
    from pyvc.core import Unsupported
    from pyvc.values import as_num
    eng = P.eng
    for name in ("SD6", "SI1000"):
        for obs in "XZ":
            def go():
                d, p = P.int("d", 1), P.real("noise", 0, 1)
                dec = decoders(P)
                made = []

                def circuit(*a, **k):
                    ks = dict(zip(("directory", "noise_name", "noise", "obs", "d"), a), **k)
                    made.append(ks)
                    return CIRCUIT
                eng.callee_contracts = {"paper.main_collect_all.surface_code_circuit": circuit}

                def wit(m):
                    return {"kind": "surf", "name": name, "obs": obs, "d": 3, "noise": 0.003}
                prob = P.call(mca.surface_code_problem, "dir", name, p, obs, d, dec)
                s = prob.desc

                def ok(what, cond):
                    P.prove(what, cond, wit)
                ok("width, height and distance", (as_num(s.data_width) == d) & (as_num(s.data_height) == d) & (as_num(s.code_distance) == d))
                ok("number of qubits", as_num(s.num_qubits) == 2 * d * d - 1)
                ok("rounds", as_num(s.rounds) == 3 * d)
                ok("noise", as_num(s.noise) == p)
                ok("style", same(s.circuit_style, "surface_" + name))
                ok("observable", same(s.preserved_observable, obs))
                ok("decoder", same(s.decoder, dec))
                got = P.interp.call(prob.circuit_maker, (), {})
                own(made, got)
                if set(made[0]) != {"directory", "noise_name", "noise", "obs", "d"}:
                    raise Unsupported("parameters of surface_code_circuit")
                ok("the circuit is that of the same parameters", made[0]["directory"] == "dir" and made[0]["noise_name"] == name and made[0]["obs"] == obs)
                ok("the circuit has the problem's noise and distance", (as_num(made[0]["noise"]) == p) & (as_num(made[0]["d"]) == d))
            P.group(f"surface code problem {name} {obs}", go)
    eng.callee_contracts = {}


def surf_dir():
    import os
    import paper.main_collect_all as mca
    return os.path.join(os.path.dirname(mca.__file__), "surface_code_circuits")


def surface_file(P, item):
    """Every circuit file there is: what it does, and that it is the one read, and given the model's noise."""
    import paper.main_collect_all as mca
    import stim
    from noise import NoiseModel
    name, obs, d = item
    wit = {"kind": "surf", "name": name, "obs": obs, "d": d, "noise": 0.003}

    def go():
        base = stim.Circuit.from_file(f"{surf_dir()}/{name.lower()}_{obs}/d{d}_p0.0.stim")
        P.evaluated("qubits of the file", len(used(base)) == 2 * d * d - 1, f"{len(used(base))} qubits", wit)
        P.evaluated("rounds of the file", base.num_measurements == (d * d - 1) * 3 * d + d * d, f"{base.num_measurements} measurements", wit)
        P.evaluated("observables of the file", base.num_observables == 1, f"{base.num_observables} observables", wit)
        err = base.num_detectors and not any(a[0] in circ.NOISE for a in circ.atoms(base))
        P.evaluated("the file is free of noise", bool(err), "noise in the file", wit)
        p = P.real("noise", 0, 1)
        seen = []

        def noisy(self_, circuit, **kw):
            seen.append((self_, circuit, kw))
            return CIRCUIT
        P.eng.callee_contracts = {"noise.NoiseModel.noisy_circuit": noisy}
        got = P.call(mca.surface_code_circuit, surf_dir(), name, p, obs, d)
        P.eng.callee_contracts = {}
        own(seen, got)
        P.prove("noise is added to the circuit of the file", seen[0][1] == base and not seen[0][2], lambda m: wit)
        P.prove("the noise is the model's", same_model(seen[0][0], P.call(getattr(NoiseModel, name), p)), lambda m: wit)
    P.group(f"surface code circuit {name} {obs} d={d}", go)
    P.eng.callee_contracts = {}


def lists(P):
    """The benchmark lists are finite: all of both is checked."""
    from contracts.common import Broken
    from pyvc.core import Unsupported

    def go():
        import paper.main_collect_all as mca
        try:
            run_case({"kind": "lists"})
            P.evaluated("both lists are the product of their parameters", True)
        except Broken as ex:
            P.evaluated("both lists are the product of their parameters", False, str(ex)[:400], {"kind": "lists"})
            return
        # Each problem of the lists is made by the functions under contract with parameters that reproduce its descriptor.
        import honeycomb_layout as hl
        made, eng = [], P.eng

        def problem(*a, **k):
            made.append(dict(zip(("directory", "noise_name", "noise", "obs", "d", "decoder"), a), **k))
            return mca.surface_code_problem(*a, **k)
        eng.callee_contracts = {"paper.main_collect_all.surface_code_problem": problem}
        got = P.call(mca.surface_code_problems, surf_dir())
        eng.callee_contracts = {}
        if len(made) != len(got):
            raise Unsupported("surface code problems from elsewhere")
        seen = []

        def circuit(directory, noise_name, noise, obs, d):
            seen.append((directory, noise_name, noise, obs, d))
            return None
        eng.callee_contracts = {"paper.main_collect_all.surface_code_circuit": circuit}
        for pr in got:
            P.interp.call(pr.circuit_maker, (), {})
        eng.callee_contracts = {}
        P.evaluated("each surface code problem of the list makes its own circuit",
                    seen == [tuple(m[k] for k in ("directory", "noise_name", "noise", "obs", "d")) for m in made], "", {"kind": "lists"})
        P.evaluated("surface code problems are of the given directory", all(m["directory"] == surf_dir() for m in made), "", {"kind": "lists"})
        lays = []

        def one(lay, decoder):
            lays.append((lay, decoder))
            return hl.HoneycombLayout.as_decoder_problem(lay, decoder)
        eng.callee_contracts = {"honeycomb_layout.HoneycombLayout.as_decoder_problem": one}
        hp = P.call(mca.honeycomb_problems)
        eng.callee_contracts = {}
        if len(lays) != len(hp):
            raise Unsupported("honeycomb problems from elsewhere")
        seen = []
        eng.callee_contracts = {"honeycomb_layout.HoneycombLayout.make_circuit": seen.append}
        for pr in hp:
            P.interp.call(pr.circuit_maker, (), {})
        eng.callee_contracts = {}
        P.evaluated("each honeycomb problem of the list makes its own layout's circuit", seen == [lay for lay, _ in lays], "", {"kind": "lists"})
        P.evaluated("honeycomb problems have whole rounds", all(lay.sub_rounds % 3 == 0 for lay, _ in lays), "", {"kind": "lists"})
    P.group("benchmark lists", go)
    P.eng.callee_contracts = {}


def circuits(P, conf):
    """What the circuit does, for every number of sub-rounds: qubits, sub-rounds, observables."""
    import sys
    from contracts import hcsym
    from pyvc.core import Unsupported
    me = sys.modules[__name__]
    dw, dh, st, o, r = conf

    def go():
        F, m = hcsym.folded(P, conf)
        ats = F.P + F.B + F.S

        def judge(what, ok, why):
            hcsym.decide(P, what, ok, why, conf, me)
        qs = set()
        for a in F.P + F.S:
            if a[0] not in circ.ANNOT:
                qs |= circ.qubits(a)
        inner = set()
        for a in F.B:
            if a[0] not in circ.ANNOT:
                inner |= circ.qubits(a)
        want = dw * dh * (1 if st.startswith("EM3") else 2.5)
        judge("the circuit uses the number of qubits stated", inner <= qs and len(qs) == want, f"{len(qs)} qubits instead of {want}")
        meas = [sum(1 for a in part if a[0] in circ.MEAS) for part in (F.P, F.B, F.S)]
        edges = dw * dh // 2
        judge("a repetition is six sub-rounds", meas[1] == 6 * edges, f"{meas[1]} measurements")
        judge("the circuit has the number of sub-rounds stated", meas[0] + meas[2] - dw * dh == (6 * hcsym.FIRST_M + r) * edges, f"{meas[0]} + {meas[2]} measurements")
        obs = {int(a[1][0]) for a in ats if a[0] == "OBSERVABLE_INCLUDE"}
        judge("the circuit has one observable", obs == {1 if o == "H" else 0}, f"observables {obs}")
        judge("the bare circuit has no noise", not any(a[0] in circ.NOISE for a in ats), "noise")
        P.eng.assumptions.add("contract of NoiseModel.noisy_circuit (C07, C08): noise added to a circuit leaves its operations and their order; "
                              "EM3_v2 uses one further qubit for its correlated errors")
    P.group("circuit " + hcsym.name_of(*conf), go)
