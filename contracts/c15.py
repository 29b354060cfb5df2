"""C15: CSV rows are appended intact and read back exactly."""
import contextlib
import io
import math
import os
import sys
import tempfile

from contracts.common import Broken, require

LEVEL = "proof"
BUDGET = {"quick": 80, "thorough": 600}
CHUNK = 5
BOUND = "random descriptors, 1-4 problems, up to 8 batches each, interruption after every batch, existing/absent/discarded files; random CSV file sets read back and re-aggregated"
EXPLANATION = ("writing: any list of problems, outcomes and limits; a contract of open/print/flush/close says when a row is on disk: the file is only emptied when asked, starts with a "
               "header naming the columns, and every batch is one complete row with the descriptor, shots, correct count and elapsed time in the header's columns, closed or flushed before "
               "the next batch starts; the same for detection fractions. Reading: fold over any files and any rows: a step adds exactly its row to its problem, from the arbitrary totals "
               "before. Aggregation: prints one matching row per recorded problem")
COLS = ["data_width", "data_height", "rounds", "noise", "circuit_style", "preserved_observable", "code_distance", "num_qubits",
        "num_shots", "num_correct", "total_processing_seconds", "decoder", "version"]
KEYS = ["data_width", "data_height", "rounds", "noise", "circuit_style", "preserved_observable", "code_distance", "num_qubits", "decoder"]


def desc(rng):
    return {"data_width": rng.choice([2, 4, 8, 20]), "data_height": rng.choice([6, 12, 30]), "rounds": rng.choice([1, 9, 36, 12]),
            "noise": rng.choice([0.001, 0.0001, 1e-7, 0.1, 1 / 3, 0.0, 1e-5]), "circuit_style": rng.choice(["honeycomb_SD6", "surface_SI1000", "x"]),
            "preserved_observable": rng.choice("HVXZ"), "code_distance": rng.choice([2, 4, 7, 16]), "num_qubits": rng.choice([24, 60, 721]),
            "decoder": rng.choice(["pymatching", "internal", "internal_correlated"])}


def cases(tier, rng):
    n = 1 if tier == "quick" else 12
    for _ in range(150 * n):
        yield {"kind": "collect", "descs": [desc(rng) for _ in range(rng.randint(1, 4))], "mx": rng.choice([1, 7, 20, 100]), "mb": rng.choice([None, 1, 5, 13]),
               "pre": rng.choice(["absent", "header", "rows", "empty"]), "discard": rng.random() < 0.4, "crash": rng.choice([None, None, rng.randint(0, 6)]),
               "seed": rng.randint(0, 10 ** 9)}
    for _ in range(150 * n):
        ds = [desc(rng) for _ in range(rng.randint(1, 5))]
        files = []
        for _ in range(rng.randint(1, 4)):
            rows = []
            for _ in range(rng.randint(0, 8) if rng.random() < 0.99 else 3000):
                s = rng.choice([0, 1, 25, 10 ** 6, 10 ** 12, 2 ** 60 + 1])
                rows.append([rng.randrange(len(ds)), s, rng.randint(0, s), rng.choice([0.0, 0.125, 3.5, 1e-3])])
            files.append(rows)
        yield {"kind": "read", "descs": ds, "files": files, "shuffle": rng.random() < 0.3, "seed": rng.randint(0, 10 ** 9)}
    for _ in range(20 * n):
        yield {"kind": "detfrac", "descs": [desc(rng) for _ in range(rng.randint(1, 3))], "shots": rng.choice([1, 5, 64]), "nd": rng.randint(1, 6),
               "fire": rng.randint(0, 6), "seed": rng.randint(0, 10 ** 9), "pre": rng.choice(["absent", "rows"]), "discard": rng.random() < 0.4}


OLD = "4,6,3,0.001,old,H,4,24,100,99,1.5,pymatching,2"


def prepare(path, pre):
    import collect_data as cd
    if pre == "absent":
        return []
    with open(path, "w") as f:
        if pre != "empty":
            print(",".join(COLS), file=f)
        if pre == "rows":
            print(OLD, file=f)
    return [",".join(COLS), OLD][:{"header": 1, "rows": 2, "empty": 0}[pre]]


def parse(path):
    import csv
    with open(path) as f:
        lines = f.read().splitlines()
    require(lines and lines[0] == ",".join(COLS), f"the header is {lines[:1]!r}")
    out = []
    for ln in lines[1:]:
        parts = ln.split(",")
        require(len(parts) == len(COLS), f"row {ln!r} does not match the header")
        out.append(dict(zip(COLS, parts)))
    return out


def check_row(row, d, n, correct):
    for k in KEYS:
        v = row[k]
        w = d[k]
        ok = (float(v) == w) if isinstance(w, float) else (v == str(w))
        require(ok, f"column {k} holds {v!r} for a problem with {k}={w!r}")
    require(int(row["num_shots"]) == n and int(row["num_correct"]) == correct, f"row {row!r}, expected {n} shots, {correct} correct")
    sec = float(row["total_processing_seconds"])
    require(0 <= sec < 60, f"processing seconds {sec}")


def run_case(c):
    import random
    import collect_data as cd
    import decoding
    rng = random.Random(c["seed"])
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "out.csv")
        if c["kind"] == "collect":
            old = prepare(path, c["pre"])
            if c["pre"] == "empty" and not c["discard"]:
                old = None
            log = []

            def keep():
                return c["pre"] == "rows" and not c["discard"]

            def expect_file():
                if old is None:
                    return
                rows = parse(path)
                if keep():
                    check_row(rows[0], dict(zip(["data_width", "data_height", "rounds", "noise", "circuit_style", "preserved_observable", "code_distance", "num_qubits", "decoder"],
                                                [4, 6, 3, 0.001, "old", "H", 4, 24, "pymatching"])), 100, 99)
                    rows = rows[1:]
                require(len(rows) == len(log), f"{len(rows)} rows on disk after {len(log)} batches")
                for r, (i, n, k) in zip(rows, log):
                    check_row(r, c["descs"][i], n, k)

            class Crash(Exception):
                pass

            def sampler(*, circuit, num_shots, decoder, model_circuit=None):
                expect_file()
                if c["crash"] is not None and len(log) >= c["crash"]:
                    raise Crash()
                k = rng.randint(0, num_shots)
                log.append((int(circuit), num_shots, k))
                return k
            problems = [cd.DecodingProblem(cd.DecodingProblemDesc(**d), lambda i=i: str(i)) for i, d in enumerate(c["descs"])]
            s1, s2 = getattr(cd, "sample_decode_count_correct", None), decoding.sample_decode_count_correct
            cd.sample_decode_count_correct = decoding.sample_decode_count_correct = sampler
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    cd.collect_simulated_experiment_data(problems, min_shots=1, max_shots=c["mx"], max_batch=c["mb"], min_seen_logical_errors=10 ** 9,
                                                         out_path=path, discard_previous_data=c["discard"])
            except Crash:
                pass
            finally:
                cd.sample_decode_count_correct, decoding.sample_decode_count_correct = s1, s2
            expect_file()
            if old is None:
                return
            got = cd.read_recorded_data(path)
            want = {}
            for i, n, k in log:
                w = want.setdefault(cd.DecodingProblemDesc(**c["descs"][i]), [0, 0])
                w[0] += n
                w[1] += k
            if keep():
                want[cd.DecodingProblemDesc(data_width=4, data_height=6, rounds=3, noise=0.001, circuit_style="old", preserved_observable="H", code_distance=4, num_qubits=24, decoder="pymatching")] = [100, 99]
            require({k: [v.num_shots, v.num_correct] for k, v in got.data.items()} == want, "reading back differs from what was recorded")
            return
        if c["kind"] == "read":
            paths = []
            totals = {}
            for i, rows in enumerate(c["files"]):
                cols = list(COLS)
                if c["shuffle"]:
                    rng.shuffle(cols)
                sub = os.path.join(tmp, f"d{i % 2}")
                os.makedirs(sub, exist_ok=True)
                p = os.path.join(sub, f"f{i}.csv")
                paths.append(p)
                with open(p, "w") as f:
                    print(",".join(cols), file=f)
                    for di, s, k, t in rows:
                        d = c["descs"][di]
                        v = dict({a: str(b) for a, b in d.items()}, num_shots=str(s), num_correct=str(k), total_processing_seconds=str(t), version="2")
                        print(",".join(v[x] for x in cols), file=f)
                        w = totals.setdefault(cd.DecodingProblemDesc(**d), [0, 0, 0.0])
                        w[0] += s
                        w[1] += k
                        w[2] += t

            def same(data, what):
                require(set(data) == set(totals), f"{what}: problems {sorted(map(repr, data))} expected {sorted(map(repr, totals))}")
                for k, w in totals.items():
                    v = data[k]
                    require((v.num_shots, v.num_correct) == (w[0], w[1]) and math.isclose(v.total_processing_seconds, w[2], rel_tol=1e-9, abs_tol=1e-12),
                            f"{what}: {k!r} totals {v!r}, expected {w!r}")
            got = cd.read_recorded_data(*paths)
            same(got.data, "read_recorded_data")
            for k in got.data:
                require(type(k.noise) is float and type(k.rounds) is int and type(got.data[k].num_shots) is int, "field types changed")
            twice = cd.read_recorded_data(*paths)
            require(twice == got, "reading twice differs")
            import paper.aggregate_csv_data as agg
            argv = sys.argv
            sys.argv = ["x"] + rng.choice([paths, [tmp]])
            try:
                with contextlib.redirect_stdout(io.StringIO()) as out:
                    agg.main()
            finally:
                sys.argv = argv
            p2 = os.path.join(tmp, "agg.out")
            with open(p2, "w") as f:
                f.write(out.getvalue())
            rows = parse(p2)
            require(len(rows) == len(totals), "aggregated rows are not one per problem")
            same(cd.read_recorded_data(p2).data, "aggregated data")
            return
        # detection fractions
        import stim
        old = prepare(path, c["pre"])
        nd, fire = c["nd"], min(c["fire"], c["nd"])
        circ = stim.Circuit()
        for q in range(nd):
            if q < fire:
                circ.append("X_ERROR", [q], 1)
        for q in range(nd):
            circ.append("M", [q])
            circ.append("DETECTOR", [stim.target_rec(-1)])
        problems = [cd.DecodingProblem(cd.DecodingProblemDesc(**d), lambda: circ) for d in c["descs"]]
        with contextlib.redirect_stdout(io.StringIO()):
            cd.collect_detection_fraction_data(problems, shots=c["shots"], out_path=path, discard_previous_data=c["discard"])
        rows = parse(path)
        if c["pre"] == "rows" and not c["discard"]:
            rows = rows[1:]
        require(len(rows) == len(problems), f"{len(rows)} rows for {len(problems)} problems")
        for r, d in zip(rows, c["descs"]):
            check_row(r, dict(d, preserved_observable="-", decoder="detection_fraction"), nd * c["shots"], (nd - fire) * c["shots"])


def prove(P):
    P.parallel(["batch limit", "no batch limit", "detection fractions", "reading"], part)


def some_cases(kind, n):
    import itertools
    import random
    cs = list(itertools.islice((c for c in cases("quick", random.Random(5)) if c["kind"] == kind), n))
    return lambda m: cs


def part(P, what):
    from contracts import collect
    if what == "detection fractions":
        collect.detection_fractions(P, True, some_cases("detfrac", 12))
    elif what == "reading":
        collect.reading(P, some_cases("read", 40))
        collect.aggregation(P, some_cases("read", 40))
    else:
        collect.sampling_loop(P, True, what == "batch limit", some_cases("collect", 40), stops=False)
