"""C25: the file protocol of the external decoder, exercised with a recording stand-in for the binary."""
import os
import re
import shutil
import stat
import tempfile

from contracts.common import require

BUDGET = {"quick": 60, "thorough": 600}
CHUNK = 4
EXPLANATION = ("decode_using_internal_decoder for any numbers of shots, detectors and observables, any symptoms, any answer (an arbitrary text with an end) and both correlation settings: "
               "files, temporary directory and subprocess by contract, the loops over shots, fired detectors and characters by induction; internal_decoder_path for every set of existing files; "
               "sample_decode_count_correct is under contract in C13")
ASSUMPTIONS = ["files, temporary directories, subprocesses and shell quoting behave as documented", "np.nonzero lists exactly the true elements, each once", "real files are exercised by the bounded runs"]
BOUND = "random circuits (1-40 detectors, 0-4 observables), 0-40 shots of random, empty and full symptoms, random and malformed answers; the binary is a recording stand-in"

FAKE = r'''#!/bin/bash
# Records its inputs and plays back a prepared answer.
cd_rec="$FAKE_REC"
printf '%s\n' "$@" > "$cd_rec/argv"
while [ $# -gt 0 ]; do
  case "$1" in
    -dem_fname) cp "$2" "$cd_rec/dem"; shift;;
    -dets_fname) cp "$2" "$cd_rec/dets"; shift;;
    -out) out="$2"; shift;;
  esac
  shift
done
[ -e "$cd_rec/fail" ] && exit 3
[ -e "$cd_rec/answer" ] && cp "$cd_rec/answer" "$out"
exit 0
'''


def cases(tier, rng):
    for nd, no, shots in ((2500, 1, 3), (3, 90, 5), (2, 1, 3000), (70, 2, 70)):
        yield {"nd": nd, "no": no, "shots": shots, "corr": False, "mode": "ok", "where": "./", "dens": 1 if nd > 1000 else 0.5, "seed": nd}
    for i in range(150 if tier == "quick" else 1500):
        yield {"nd": rng.choice([1, 2, 5, 11, 40]), "no": rng.choice([0, 1, 1, 2, 3, 4]), "shots": rng.choice([0, 1, 2, 9, 40]), "corr": rng.random() < 0.5,
               "mode": rng.choice(["ok", "ok", "ok", "ok", "short", "char", "long_row", "short_row", "fail", "noout", "nobinary", "count"]),
               "where": rng.choice(["./", "src/", "../"]), "seed": rng.randint(0, 10 ** 9)}


def run_case(c):
    import random
    import numpy as np
    import decoding
    from contracts import c13
    rng = random.Random(c["seed"])
    nd, no, shots = c["nd"], c["no"], c["shots"]
    circ = c13.build(rng, nd, no, rng.randint(1, 10), lambda: rng.choice([0.1, 0.01, 0.25]))
    dens = c["dens"] if "dens" in c else rng.choice([0, 0.1, 0.5, 1])
    dets = np.array([[rng.random() < dens for _ in range(nd)] for _ in range(shots)], dtype=np.bool_).reshape(shots, nd)
    pred = np.array([[rng.random() < 0.5 for _ in range(no)] for _ in range(shots)], dtype=np.bool_).reshape(shots, no)
    rows = ["".join("01"[int(b)] for b in r) for r in pred]
    mode = c["mode"]
    if mode in ("char", "long_row", "short_row", "short") and (shots == 0 or no == 0):
        mode = "ok"
    if mode == "noout" and shots == 0:
        mode = "ok"
    k = rng.randrange(shots) if shots else 0
    answer = "".join(r + "\n" for r in rows)
    if mode == "short":
        answer = answer[:rng.randrange(len(answer))]
    elif mode == "char":
        j = rng.randrange(no)
        rows[k] = rows[k][:j] + rng.choice("2x -\n") + rows[k][j + 1:]
        answer = "".join(r + "\n" for r in rows)
    elif mode == "long_row":
        rows[k] += "0"
        answer = "".join(r + "\n" for r in rows)
    elif mode == "short_row":
        rows[k] = rows[k][1:]
        answer = "".join(r + "\n" for r in rows)
    base = tempfile.mkdtemp()
    old = os.getcwd()
    oldenv = os.environ.get("FAKE_REC")
    try:
        work = os.path.join(base, "work")
        os.makedirs(os.path.join(work, "src"))
        rec = os.path.join(base, "rec")
        os.makedirs(rec)
        os.environ["FAKE_REC"] = rec
        os.chdir(work)
        if mode != "nobinary":
            p = os.path.join(work, c["where"], "internal_decoder.binary")
            with open(p, "w") as f:
                f.write(FAKE)
            os.chmod(p, os.stat(p).st_mode | stat.S_IXUSR)
        if mode not in ("noout",):
            with open(os.path.join(rec, "answer"), "w") as f:
                f.write(answer)
        if mode == "fail":
            open(os.path.join(rec, "fail"), "w").close()
        if mode == "count":
            # through the counting front end: without errors in the circuit every actual flip is zero
            quiet = circ.without_noise()
            n = 7
            rr = [[int(rng.random() < 0.3) for _ in range(no)] for _ in range(n)]
            with open(os.path.join(rec, "answer"), "w") as f:
                f.write("".join("".join(map(str, r)) + "\n" for r in rr))
            got = decoding.sample_decode_count_correct(circuit=quiet, model_circuit=circ, num_shots=n, decoder="internal_correlated" if c["corr"] else "internal")
            require(int(got) == sum(not any(r) for r in rr), f"{int(got)} correct shots, expected {sum(not any(r) for r in rr)}")
            require(open(os.path.join(rec, "dets")).read() == "shot\n" * n, "the quiet shots were not handed over as empty shots")
            shots, dets = n, None
        else:
            err = None
            got = None
            keep = dets.copy()
            try:
                got = decoding.decode_using_internal_decoder(circ, dets, c["corr"])
            except BaseException as ex:  # noqa
                err = ex
            require((dets == keep).all(), "the samples were modified")
            if mode not in ("ok", "count"):
                require(err is not None, f"accepted although the decoder's answer was unusable ({mode})")
                if mode == "nobinary":
                    return
            else:
                if err is not None:
                    raise err
                require(got.shape == (shots, no) and (np.asarray(got, dtype=np.bool_) == pred).all(), f"read back {got.tolist()}, the decoder answered {rows}")
        argv = open(os.path.join(rec, "argv")).read().split("\n")
        want = str(circ.detector_error_model(decompose_errors=True))
        require(open(os.path.join(rec, "dem")).read().strip() == want.strip(), "the decoder was not handed the circuit's decomposed error model")
        if dets is not None:
            lines = open(os.path.join(rec, "dets")).read().split("\n")
            require(lines and lines[-1] == "" and len(lines) == shots + 1, f"{len(lines) - 1} shots handed over, expected {shots}")
            for i in range(shots):
                toks = lines[i].split()
                require(toks[:1] == ["shot"] and sorted(toks[1:]) == sorted(f"D{j}" for j in np.nonzero(dets[i])[0]),
                        f"shot {i} handed over as {lines[i]!r}, fired detectors are {np.nonzero(dets[i])[0].tolist()}")
        flags = {"-cheap_corr", "-edge_corr", "-node_corr"}
        require(flags & set(argv) == (flags if c["corr"] else set()), f"correlated={c['corr']} but the arguments are {argv}")
        require("-mode" in argv and argv[argv.index("-mode") + 1] == "fi_match_from_dem", f"arguments {argv}")
    finally:
        os.chdir(old)
        if oldenv is None:
            os.environ.pop("FAKE_REC", None)
        else:
            os.environ["FAKE_REC"] = oldenv
        shutil.rmtree(base, ignore_errors=True)


# ------------------------------------------------------------------ obligations
PLACE, BINARY, DEM, CIRCUIT = "/nonexistent-scratch/of-the-proof", "./internal_decoder.binary", "\0the error model\0", "\0the circuit\0"


def some_cases(*modes):
    import random
    rng = random.Random(1)
    return lambda model: [c for c in cases("quick", rng) if c["mode"] in modes and c["where"] == "./"][:10]


def prove_external(P, corr):
    """decode_using_internal_decoder for any numbers of shots, detectors and observables, any symptoms and any answer."""
    import shlex
    import subprocess
    import tempfile
    import z3
    import decoding
    from contracts import arrays, c13
    from contracts.arrays import Loops, Mat, Ranged, in_order, same
    from contracts.collect import flat, printed
    from pyvc import core
    from pyvc.interp import StrOf
    from pyvc.values import SBool, SNum, Sym, as_num, ite, land, lnot, lor, value_eq, zb
    eng = P.eng
    I, B = z3.IntSort(), z3.BoolSort()
    arrays.install(P)
    D, O, S, BIT, _ = c13.shots(P)
    chr_, end_ = z3.Function("answer", I, I, I), z3.Function("answer_ends_before", I, I, B)
    CHR, END = (lambda i, j: SNum(chr_(as_num(i).e, as_num(j).e))), (lambda i, j: SBool(end_(as_num(i).e, as_num(j).e)))
    ONE = lambda i, j: land(lnot(END(i, j)), CHR(i, j) == ord("1"))
    wit_out, wit_in, wit = some_cases("ok"), some_cases("ok", "short", "char", "long_row", "short_row"), some_cases("ok", "fail", "noout", "nobinary")
    outcome = eng.choose(4)      # 0: there is no decoder; 1: it fails; 2: it writes nothing; 3: it writes an answer

    def bad(i, j):
        """The answer has something else than its (i, j)-th character there (j = O: the end of the line)."""
        i, j = as_num(i), as_num(j)
        is_flip = lor(CHR(i, j) == ord("0"), CHR(i, j) == ord("1"))
        return lor(END(i, j), lnot(ite(zb(j < O), is_flip, CHR(i, j) == 10)))

    class Mark:
        """What the steps of a loop have added to a line: ' D<k>' of the first t fired (or of those among the first t) detectors of shot r."""
        def __init__(self, kind, r, t, src):
            self.kind, self.r, self.t, self.src = kind, r, t, src

    class Rows:
        """The lines of the first n shots."""
        def __init__(self, n):
            self.n = as_num(n)
    styles = {}

    # -- files: eng.local[("file", path)] = pieces; ("open", path) while it is being written
    def pieces(path):
        return eng.local.get(("file", path))

    class Writer:
        _pyvc_model = True

        def __init__(self, path):
            self.path = path
            eng.local[("file", path)] = ()
            eng.local[("open", path)] = True

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()
            return False

        def close(self):
            eng.local[("open", self.path)] = False

        def flush(self):
            pass

        def write(self, s):
            if not eng.local.get(("open", self.path)):
                raise core.PyExc(ValueError("I/O operation on closed file"))
            eng.local[("file", self.path)] = pieces(self.path) + tuple(p for p in flat(s) if p != "")

        def sym_print(self, a, k):
            self.write(printed(a, k))

    class Whole(Sym):
        """The text of a file."""
        py_type = str

        def __hash__(self):
            return id(self)

    class Char(Sym):
        py_type = str

        def __init__(self, i, j):
            self.i, self.j = i, j

        def __eq__(self, o):
            if isinstance(o, str):
                if o == "":
                    return END(self.i, self.j)
                return land(lnot(END(self.i, self.j)), CHR(self.i, self.j) == ord(o)) if len(o) == 1 else False
            return NotImplemented

        def __ne__(self, o):
            r = self.__eq__(o)
            return r if r is NotImplemented else lnot(r)

        def sym_in(self, c):
            if isinstance(c, str):
                return lor(self == "", *[self == x for x in c])
            if isinstance(c, (list, tuple, set, frozenset)):
                return lor(*[self == x for x in c if isinstance(x, str)])
            raise core.Unsupported("membership of a character")

        def __bool__(self):
            return bool(lnot(END(self.i, self.j)))

        def sym_int(self):
            if not self:
                raise core.PyExc(ValueError("invalid literal for int()"))
            if bool(self == "0"):
                return 0
            if bool(self == "1"):
                return 1
            v = eng.fresh("digit", I)
            if bool(SBool(eng.fresh("is_digit", B))):
                eng.assume(z3.And(v >= 0, v <= 9))
                return SNum(v)
            raise core.PyExc(ValueError("invalid literal for int()"))

        def __hash__(self):
            return id(self)

    class Reader:
        _pyvc_model = True

        def __init__(self):
            eng.local["position"] = (as_num(0), as_num(0))

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass

        def read(self, n=None):
            if n != 1 or isinstance(n, Sym):
                raise core.Unsupported("reading of more than a character")
            i, j = where()
            for a, b in eng.local.get("read", ()):
                if same(a, i):
                    eng.assume_fact(zb(lor(lnot(END(a, b)), END(i, j))))
            for f in eng.local.get("facts", ()):
                f(i, j)
            eng.local["position"] = (i, j + 1)
            eng.local["read"] = eng.local.get("read", ()) + ((i, j),)
            return Char(i, j)

    class Other:
        """Another file opened for reading."""
        _pyvc_model = True

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass

        def read(self):
            return Whole()

    def where():
        i, j = eng.local["position"]
        if same(j, O + 1):
            return i + 1, as_num(0)
        if not eng.implied(zb(land(j >= 0, j <= O))):
            raise core.Unsupported("position in the answer")
        return i, j

    def m_open(path, mode="r", *a, **k):
        if a or set(k) - {"newline", "encoding"} or isinstance(path, Sym):
            raise core.Unsupported("options of open")
        path, mode = str(path), mode.replace("t", "")
        if mode == "w":
            return Writer(path)
        if mode != "r":
            raise core.Unsupported("mode of open")
        if path == eng.local.get("answer"):
            if outcome == 2:
                raise core.PyExc(FileNotFoundError(path))
            return Reader()
        if pieces(path) is None:
            raise core.PyExc(FileNotFoundError(path))
        return Other()

    class Scratch:
        _pyvc_model = True
        name = PLACE

        def __init__(self, *a, **k):
            pass

        def __enter__(self):
            return PLACE

        def __exit__(self, *a):
            return False

        def cleanup(self):
            pass

    # -- the run
    def run(command, **k):
        shell = k.get("shell", False)
        if isinstance(command, Sym) or bool(shell) != isinstance(command, str):
            raise core.Unsupported("form of the command")
        argv = shlex.split(command) if shell else [str(x) for x in command]
        opts = {argv[i]: argv[i + 1] for i in range(1, len(argv) - 1)}
        flags = {"-cheap_corr", "-edge_corr", "-node_corr"}
        P.prove("the decoder is run", argv[:1] == [BINARY], wit)
        P.prove("correlated decoding is requested exactly when asked for", flags & set(argv) == (flags if corr else set()), wit)
        P.prove("the decoder is told to take its model from a file", opts.get("-mode") == "fi_match_from_dem", wit)
        dem, dets, out = opts.get("-dem_fname"), opts.get("-dets_fname"), opts.get("-out")
        P.prove("the files are named", None not in (dem, dets, out) and len({dem, dets, out}) == 3, wit)
        P.prove("the files are complete before the decoder is run", not eng.local.get(("open", dem)) and not eng.local.get(("open", dets)), wit_out)
        c = pieces(dem)
        P.prove("the decoder is handed the error model", c is not None and all(isinstance(x, str) for x in c) and "".join(c).strip() == DEM, wit_out)
        c = pieces(dets)
        P.prove("the file of symptoms is there", c is not None, wit_out)
        if c is None or len(c) > 1 or c and not isinstance(c[0], Rows):
            raise core.Unsupported(f"form of the file of symptoms {c}")
        n = c[0].n if c else as_num(0)
        P.prove("the decoder is handed the symptoms of all shots", value_eq(n, S), wit_out)
        eng.local["ran"] = True
        if outcome == 1:
            raise core.PyExc(subprocess.CalledProcessError(3, "decoder"))
        eng.local["answer"] = out
        return b""

    def run_checked(command, *a, **k):
        if not k.get("check"):
            raise core.Unsupported("subprocess.run without check")
        return run(command, **k)

    # -- what a line holds
    def joined(ps):
        out = []
        for p in ps:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        return out

    def detector_in(ps):
        """(leading space?, number, trailing space?) of the text ' D<number> ', or None."""
        ps = joined(ps)
        if len(ps) == 2:
            ps.append("")
        if len(ps) == 3 and isinstance(ps[0], str) and isinstance(ps[1], StrOf) and isinstance(ps[2], str) and ps[1].fmt in (None, (-1, ""), (-1, "d"), (115, "")) \
                and isinstance(ps[1].v, SNum) and ps[0].lstrip(" ") == "D" and ps[2].strip(" ") == "":
            return ps[0] != "D", ps[1].v, ps[2] != ""
        return None

    def line_is(ps, r):
        """Obligations: the pieces are the line of shot r."""
        ps = joined(ps)
        if [type(p) for p in ps] != [str, Mark, str]:
            raise core.Unsupported("form of a line")
        pre, m, post = ps
        st = styles.get(m.kind, {"lead"})
        P.prove("a shot is one line that starts with 'shot'", pre.strip(" ") == "shot" and "\n" not in pre and post.strip(" ") == "\n", wit_out)
        P.prove("the detectors of a line are separated", st <= {"lead", "both"} or st <= {"trail", "both"} and pre.endswith(" "), wit_out)
        P.prove("a line holds the detectors of its own shot", value_eq(m.r, r), wit_out)
        P.prove("a line holds all detectors that fired", value_eq(m.t, D if m.kind == "among" else m.src.n), wit_out)

    def writing(env):
        fs = [k[1] for k, v in eng.local.items() if isinstance(k, tuple) and k[0] == "open" and v]
        fs = [f for f in fs if all(isinstance(p, Rows) for p in pieces(f)[:1])]
        if len(fs) != 1:
            raise core.Unsupported("not exactly one file is being written")
        return fs[0]

    def made(env):
        ms = {id(v): v for v in env.values() if isinstance(v, Mat) and v.frozen is None and same(v.n, S) and same(v.m, O)}
        if len(ms) != 1:
            raise core.Unsupported("not exactly one array of predictions")
        return list(ms.values())[0]

    # -- loops over the shots
    def shot_state(env, i):
        if i is None:
            return {}
        if not eng.local.get("ran"):
            eng.local[("file", writing(env))] = (Rows(i),)
            return {}
        m = made(env)
        old = m.at
        m.at = lambda r, c: ite(zb(as_num(r) < i), ONE(r, c), old(r, c))
        eng.local["position"] = (as_num(i), as_num(0))
        eng.local["read"] = ()
        eng.local["rows"] = as_num(i)
        return {}

    def shot_check(env, i):
        if not eng.local.get("ran"):
            f = writing(env)
            c = pieces(f)
            if shot.index is None or same(i, 0):
                P.prove("nothing precedes the first shot", not c, wit_out)
                return
            if not isinstance(c[0], Rows):
                raise core.Unsupported(f"form of the file of symptoms {c}")
            P.prove("the lines before stay", value_eq(c[0].n, shot.index), wit_out)
            line_is(c[1:], shot.index)
            return
        m = made(env)
        a, b = where()
        P.prove("the answer is read line by line", land(value_eq(a, i), value_eq(b, as_num(0))), wit_in)
        r, c = SNum(eng.fresh("shot", I)), SNum(eng.fresh("obs", I))

        def point():
            eng.assume(land(r >= 0, r < i, c >= 0, c < O))
            known(r, c)
            P.prove("the predictions of the earlier shots are those of the answer", value_eq(m.at(r, c), ONE(r, c)), wit_in)
        eng.sub_explore(point)
        if shot.index is not None:
            def line(c=c):
                eng.assume(land(c >= 0, c <= O))
                known(shot.index, c)
                P.prove("a malformed line of the answer is refused", lnot(bad(shot.index, c)), wit_in)
            eng.sub_explore(line)

    def known(r, c):
        """Facts on the answer at (r, c) that the loops have established."""
        i, rows = shot.index, eng.local.get("rows")
        if rows is not None:
            eng.assume(zb(lor(lnot(land(r >= 0, r < rows, c >= 0, c <= O)), lnot(bad(r, c)))))
        for f in eng.local.get("facts", ()):
            f(r, c)
        for a, b in eng.local.get("read", ()):
            eng.assume(zb(lor(lnot(land(value_eq(a, r), c <= b, END(r, c))), END(a, b))))

    def obs_state(env, j):
        if j is None:
            return {}
        m, k = made(env), shot.index
        old = m.at
        m.at = lambda r, c: ite(zb(land(value_eq(as_num(r), k), as_num(c) < j)), ONE(r, c), old(r, c))
        eng.local["position"] = (k, as_num(j))
        eng.local["read"] = ()

        def fact(r, c):
            eng.assume(zb(lor(lnot(land(value_eq(r, k), c >= 0, c < j)), END(r, c), lnot(bad(r, c)))))
        eng.local["facts"] = (fact,)
        return {}

    def obs_check(env, j):
        m, k = made(env), shot.index
        a, b = where()
        P.prove("the answer is read character by character", lor(land(value_eq(a, k), value_eq(b, as_num(j))), land(value_eq(j, O + 1), value_eq(a, k + 1), value_eq(b, as_num(0)))), wit_in)
        c = SNum(eng.fresh("obs", I))

        def point():
            eng.assume(land(c >= 0, c < j, c < O))
            known(k, c)
            P.prove("the predictions of the earlier observables are those of the answer", value_eq(m.at(k, c), ONE(k, c)), wit_in)
            P.prove("a foreign character is refused", lor(END(k, c), lnot(bad(k, c))), wit_in)
        eng.sub_explore(point)

    def malformed(pe, pre, i):
        reads = eng.local.get("read", ())
        P.prove(f"only a malformed answer is refused ({type(pe.exc).__name__})", lor(False, *[bad(a, b) for a, b in reads]), wit_in)

    # -- loops that write the detectors of a shot
    def line_state(kind):
        def state(env, t):
            if t is not None:
                f = writing(env)
                eng.local[("file", f)] = pieces(f) + (Mark(kind, shot.index, as_num(t), (fired if kind == "fired" else among).src),)
            return {}

        def check(env, t):
            c = pieces(writing(env))
            at = [q for q, p in enumerate(c) if isinstance(p, Mark)]
            rule = fired if kind == "fired" else among
            if not at:
                if rule.index is not None and not same(t, 0):
                    raise core.Unsupported("form of a line")
                return
            m, new = c[at[-1]], c[at[-1] + 1:]
            v = detector_in(new)
            if kind == "among":
                hit = BIT(m.r, m.t)
                if not new:
                    P.prove("every detector that fired is written", lnot(hit), wit_out)
                    return
                P.prove("only detectors that fired are written", hit, wit_out)
                want = m.t
            else:
                want = m.src.at(m.t)
            if new and v is None:
                raise core.Unsupported("form of a detector")
            P.prove("one detector is written per step", v is not None, wit_out)
            if v is not None:
                P.prove("the detector that fired is written", value_eq(v[1], want), wit_out)
                P.prove("detectors are separated", v[0] or v[2], wit_out)
                styles.setdefault(kind, set()).add("both" if v[0] and v[2] else "lead" if v[0] else "trail")
        return state, check

    def fires(src, sc):
        row = getattr(src, "nonzero_of", None)
        if row is None or shot.index is None:
            return False
        P.prove("all detectors of a shot are looked at", value_eq(row.n, D), wit_out)
        j = SNum(eng.fresh("det", I))
        at = row.now()

        def point():
            eng.assume(land(j >= 0, j < D, j < row.n))
            P.prove("the symptoms of the shot are written", value_eq(at(j), BIT(shot.index, j)), wit_out)
        eng.sub_explore(point)
        return True
    shot = Ranged("shots", lambda src, sc: shot.index is None and same(src.n, S) and in_order(src), S, shot_state, shot_check, on_raise=malformed)
    fired = Ranged("fired detectors", fires, None, *line_state("fired"))
    among = Ranged("detectors", lambda src, sc: shot.index is not None and not eng.local.get("ran") and same(src.n, D) and in_order(src), D, *line_state("among"))
    obs = Ranged("observables", lambda src, sc: shot.index is not None and bool(eng.local.get("ran")) and same(src.n, O) and in_order(src), O, obs_state, obs_check, on_raise=malformed)
    P.interp.loop_rules[:] = [Loops(shot, fired, among, obs)]
    for real, model in ((open, m_open), (tempfile.TemporaryDirectory, Scratch), (subprocess.check_output, run), (subprocess.check_call, run), (subprocess.run, run_checked)):
        P.interp.override(real, model)
    eng.callee_contracts = {"decoding.internal_decoder_path": lambda: None if outcome == 0 else BINARY}

    class Dem:
        _pyvc_model = True

        def __str__(self):
            return DEM

        def to_file(self, f):
            with m_open(f, "w") if isinstance(f, str) else f as h:
                h.write(DEM + "\n")

    class Circuit:
        _pyvc_model = True
        num_detectors, num_observables = D, O

        def __str__(self):
            return CIRCUIT

        def detector_error_model(self, *, decompose_errors=False, **k):
            if any(k.values()):
                raise core.Unsupported("options of the error model")
            P.prove("the error model is decomposed", decompose_errors, wit_out)
            return Dem()
    samples = Mat(S, D, BIT, lambda: P.prove("the samples handed in are left as they are", False, wit_out))
    try:
        got = P.call(decoding.decode_using_internal_decoder, Circuit(), samples, corr)
    except core.PyExc as pe:
        eng.path = list(getattr(pe, "path", None) or eng.path)
        P.prove(f"nothing is refused but an unusable answer ({type(pe.exc).__name__})", outcome in (0, 1, 2) or lor(False, *[bad(a, b) for a, b in eng.local.get("read", ())]), wit)
        return
    P.prove("a missing, failing or silent decoder is reported", outcome == 3, wit)
    P.prove("the decoder is run", bool(eng.local.get("ran")), wit)
    if not isinstance(got, Mat):
        raise core.Unsupported("predictions that are not an array")
    P.prove("there is one row per shot", value_eq(got.n, S), wit_in)
    P.prove("there is one column per observable", value_eq(got.m, O), wit_in)
    r, c = SNum(eng.fresh("shot", I)), SNum(eng.fresh("obs", I))
    eng.assume(land(r >= 0, r < S, c >= 0, c <= O))
    known(r, c)
    P.prove("an answer with a malformed or missing line is refused", lnot(bad(r, c)), wit_in)
    P.prove("the prediction of each shot and observable is that of the answer", lor(value_eq(c, O), value_eq(got.at(r, c), ONE(r, c))), wit_in)


def prove_path(P):
    """internal_decoder_path: an existing file, or nothing."""
    import pathlib
    import decoding
    from pyvc import core
    eng = P.eng
    asked, eng.callee_contracts = {}, {}

    class Path:
        _pyvc_model = True

        def __init__(self, *p):
            self.path = "/".join(map(str, p)).replace("//", "/")

        def __truediv__(self, o):
            return Path(self.path, o)

        def __str__(self):
            return str(pathlib.PurePath(self.path)) if not self.path.startswith("./") else self.path

        def exists(self):
            import os
            k = os.path.normpath(self.path)
            if k not in asked:
                asked[k] = eng.choose(2) == 1
            return asked[k]
        is_file = exists
    P.interp.override(pathlib.Path, Path)
    got = P.call(decoding.internal_decoder_path)
    import os
    P.prove("the path of an existing file is returned, if there is one", (got is None and not any(asked.values())) or isinstance(got, str) and asked.get(os.path.normpath(got), False))


def prove(P):
    P.eng.assumptions.add("files, temporary directories and subprocesses as documented; np.nonzero lists the positions of the true elements; the decoder leaves its input files alone")
    for corr in (False, True):
        P.interp.reset()
        P.group("external decoder" + (", correlated" if corr else ""), lambda: prove_external(P, corr))
    P.interp.reset()
    P.group("path of the decoder", lambda: prove_path(P))
