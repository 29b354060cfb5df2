"""Linear algebra over circuits: which parities are fixed at each point (stabiliser relations up to sign), and where Pauli errors go.

A relation (x, z, r) says: the Pauli with x/z components x, z, times the parity of the records in r, has a definite value.
Integers are used as bit masks. Record k is bit k of r.
"""
from contracts import circ


class Outside(Exception):
    """The circuit uses something this algebra does not cover."""


_tab = {}


def table(name):
    """Images of X1, Z1 (X2, Z2) under the gate as (x bits, z bits), qubit 0 = bit 0."""
    if name not in _tab:
        import stim
        d = stim.gate_data(name)
        if not d.is_unitary:
            raise Outside(name)
        t = d.tableau
        n = len(t)
        im = []
        for k in range(n):
            for p in (t.x_output(k), t.z_output(k)):
                im.append((sum(1 << j for j in range(n) if p[j] in (1, 2)), sum(1 << j for j in range(n) if p[j] in (2, 3))))
        _tab[name] = im
    return _tab[name]


def basis(rows):
    """Echelon form of a list of integers: {leading bit: row}."""
    ech = {}
    for v in rows:
        while v:
            h = v.bit_length() - 1
            w = ech.get(h)
            if w is None:
                ech[h] = v
                break
            v ^= w
    return ech


def reduce(ech, v):
    while v:
        w = ech.get(v.bit_length() - 1)
        if w is None:
            return v
        v ^= w
    return 0


def meet(a, b):
    """Basis of the intersection of two spans (Zassenhaus)."""
    n = max([v.bit_length() for v in a + b], default=0)
    rows = [(v << n) | v for v in a] + [v << n for v in b]
    ech = basis(rows)
    return [v for h, v in ech.items() if h < n]


PAULI = {"M": "Z", "MX": "X", "MY": "Y", "R": "Z", "RX": "X", "RY": "Y"}


def pauli_of(name, ts):
    """(x, z) bit masks of the measured or prepared Pauli."""
    x = z = 0
    for t in ts:
        p = ("X" if t.is_x_target else "Y" if t.is_y_target else "Z") if name == "MPP" else PAULI[name]
        if p in "XY":
            x ^= 1 << t.value
        if p in "YZ":
            z ^= 1 << t.value
    return x, z


class Relations:
    """The span of known relations; `obs` holds one classical accumulator per observable."""

    def __init__(self, nq):
        self.nq = nq
        self.rows = [(0, 1 << q, 0, 0) for q in range(nq)] + [(0, 0, 0, 1 << k) for k in range(8)]     # (x, z, records, observables)
        self.nrec = 0
        self.on_detector = None

    def pack(self, row):
        x, z, r, o = row
        return (((r << self.nq | x) << self.nq | z) << 8) | o    # records highest: see window()

    def unpack(self, v):
        o = v & 255
        v >>= 8
        m = (1 << self.nq) - 1
        return (v >> self.nq) & m, v & m, v >> (2 * self.nq), o

    def tidy(self):
        self.rows = [self.unpack(v) for v in basis([self.pack(r) for r in self.rows]).values()]

    def fixed(self, records, obs=0):
        """Whether the parity of these records (and observables) is the same in every run."""
        return reduce(basis([self.pack(r) for r in self.rows]), self.pack((0, 0, records, obs))) == 0

    def measure(self, px, pz, keep=True):
        anti = [k for k, (x, z, r, o) in enumerate(self.rows) if ((x & pz).bit_count() + (z & px).bit_count()) & 1]
        if anti:
            a = self.rows[anti[0]]
            for k in anti[1:]:
                self.rows[k] = tuple(u ^ v for u, v in zip(self.rows[k], a))
            del self.rows[anti[0]]
        if keep:
            self.rows.append((px, pz, 1 << self.nrec, 0))
            self.nrec += 1

    def run(self, ats):
        since = 0
        for name, args, ts in ats:
            if name in ("TICK", "SHIFT_COORDS", "QUBIT_COORDS"):
                continue
            if name == "DETECTOR":
                r = 0
                for t in ts:
                    r ^= 1 << (self.nrec + t.value)
                if self.on_detector is not None:
                    self.on_detector(self, r, args)
                continue
            if name == "OBSERVABLE_INCLUDE":
                r = 0
                for t in ts:
                    if not t.is_measurement_record_target:
                        raise Outside("observable of a qubit")
                    r ^= 1 << (self.nrec + t.value)
                bit = 1 << int(args[0])
                if bit > 128:
                    raise Outside("observable index")
                self.rows = [(x, z, rr ^ r, o) if o & bit else (x, z, rr, o) for x, z, rr, o in self.rows]
                continue
            if name in ("R", "RX", "RY"):
                px, pz = pauli_of(name, ts)
                self.measure(px, pz, keep=False)
                # What was known about the qubit together with others is lost.
                has = [k for k, (x, z, r, o) in enumerate(self.rows) if (x & px) | (z & pz)]
                if has:
                    a = self.rows[has[0]]
                    for k in has[1:]:
                        self.rows[k] = tuple(u ^ v for u, v in zip(self.rows[k], a))
                    del self.rows[has[0]]
                self.rows.append((px, pz, 0, 0))
            elif name in ("M", "MX", "MY", "MPP"):
                self.measure(*pauli_of(name, ts))
                since += 1
                if since % 64 == 0:
                    self.tidy()
            else:
                im = table(name)
                qs = [t.value for t in ts]
                if any(not t.is_qubit_target for t in ts) or len(set(qs)) != len(qs) or len(im) != 2 * len(qs):
                    raise Outside(f"{name} {ts}")
                mask = 0
                for q in qs:
                    mask |= 1 << q
                out = []
                for x, z, r, o in self.rows:
                    if (x | z) & mask:
                        nx, nz = x & ~mask, z & ~mask
                        for k, q in enumerate(qs):
                            for bit, (ix, iz) in (((x >> q) & 1, im[2 * k]), ((z >> q) & 1, im[2 * k + 1])):
                                if bit:
                                    for j, q2 in enumerate(qs):
                                        nx ^= ((ix >> j) & 1) << q2
                                        nz ^= ((iz >> j) & 1) << q2
                        x, z = nx, nz
                    out.append((x, z, r, o))
                self.rows = out

    def window(self, width):
        """The relations that involve only the last `width` records, with those records renumbered 0 .. width-1."""
        drop = max(0, self.nrec - width)
        low = (1 << drop) - 1

        def pack(row):
            x, z, r, o = row
            return (((r & low) << (width + 2 * self.nq + 8)) | ((r >> drop) << (2 * self.nq + 8)) | (x << (self.nq + 8)) | (z << 8) | o)
        ech = basis([pack(r) for r in self.rows])
        return [v for h, v in ech.items() if h < width + 2 * self.nq + 8]

    def load(self, packed, width):
        """Starts over from relations on the last `width` records."""
        m = (1 << self.nq) - 1
        self.rows = [((v >> (self.nq + 8)) & m, (v >> 8) & m, v >> (2 * self.nq + 8), v & 255) for v in packed]
        self.nrec = width


def faults(name, args, ts):
    """[(x, z, flipped own record)] for every error the noise of one operation can cause."""
    out = []
    if name in ("M", "MX", "MY", "MPP"):
        return [(0, 0, 1)] if args and args[0] else []
    if not args or not args[0]:
        return []
    for p, ps in circ.noise_terms((name, args, ts)):
        x = z = 0
        for q, c in ps.items():
            if c in "XY":
                x |= 1 << q
            if c in "YZ":
                z |= 1 << q
        out.append((x, z, 0))
    return out


class Frames:
    """Many Pauli errors at once: per qubit and per record a bit mask over the errors (bit e set: error e is there)."""

    def __init__(self, nq):
        self.nq = nq
        self.x, self.z = [0] * nq, [0] * nq
        self.rec = []
        self.hit, self.obs = 0, 0
        self.n = 0

    def add(self, x, z):
        e = 1 << self.n
        self.n += 1
        while x:
            b = x & -x
            self.x[b.bit_length() - 1] |= e
            x ^= b
        while z:
            b = z & -z
            self.z[b.bit_length() - 1] |= e
            z ^= b
        return e

    def run(self, ats, new=True):
        for name, args, ts in ats:
            if name in ("TICK", "SHIFT_COORDS", "QUBIT_COORDS"):
                continue
            if name == "DETECTOR":
                v = 0
                for t in ts:
                    v ^= self.rec[t.value]
                self.hit |= v
            elif name == "OBSERVABLE_INCLUDE":
                for t in ts:
                    self.obs ^= self.rec[t.value]
            elif name in circ.NOISE:
                if new:
                    for x, z, _ in faults(name, args, ts):
                        self.add(x, z)
            elif name in ("R", "RX", "RY"):
                self.x[ts[0].value] = self.z[ts[0].value] = 0
            elif name in ("M", "MX", "MY", "MPP"):
                v = 0
                px, pz = pauli_of(name, ts)
                for t in ts:
                    q = t.value
                    if (pz >> q) & 1:
                        v ^= self.x[q]
                    if (px >> q) & 1:
                        v ^= self.z[q]
                if new and args and args[0]:
                    v ^= self.add(0, 0)
                self.rec.append(v)
            else:
                im = table(name)
                qs = [t.value for t in ts]
                if len(im) != 2 * len(qs):
                    raise Outside(name)
                nx, nz = [0] * len(qs), [0] * len(qs)
                for k, q in enumerate(qs):
                    for val, (ix, iz) in ((self.x[q], im[2 * k]), (self.z[q], im[2 * k + 1])):
                        for j in range(len(qs)):
                            if (ix >> j) & 1:
                                nx[j] ^= val
                            if (iz >> j) & 1:
                                nz[j] ^= val
                for j, q in enumerate(qs):
                    self.x[q], self.z[q] = nx[j], nz[j]

    def states(self, width):
        """The undetected errors as {(x, z, last records, observable)}."""
        out = set()
        cols = self.x + self.z + self.rec[len(self.rec) - width:] + [self.obs]
        live = ~self.hit & ((1 << self.n) - 1)
        per = {}
        for k, c in enumerate(cols):
            c &= live
            while c:
                b = c & -c
                e = b.bit_length() - 1
                per[e] = per.get(e, 0) | 1 << k
                c ^= b
        return set(per.values())

    def load(self, states, width):
        self.x, self.z, self.rec = [0] * self.nq, [0] * self.nq, [0] * width
        self.hit = self.obs = 0
        self.n = len(states)
        for e, v in enumerate(sorted(states)):
            while v:
                b = v & -v
                k = b.bit_length() - 1
                v ^= b
                if k < self.nq:
                    self.x[k] |= 1 << e
                elif k < 2 * self.nq:
                    self.z[k - self.nq] |= 1 << e
                elif k < 2 * self.nq + width:
                    self.rec[k - 2 * self.nq] |= 1 << e
                else:
                    self.obs |= 1 << e
