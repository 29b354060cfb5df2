"""Helpers shared by the layout and circuit contracts: GF(2) linear algebra and an independent honeycomb geometry."""


class Span:
    """Row space over GF(2) of Python-int bit vectors."""

    def __init__(self, rows=()):
        self.piv = {}
        for r in rows:
            self.add(r)

    def reduce(self, v):
        while v:
            p = v.bit_length() - 1
            if p not in self.piv:
                return v
            v ^= self.piv[p]
        return 0

    def add(self, v):
        v = self.reduce(v)
        if v:
            self.piv[v.bit_length() - 1] = v
            return True
        return False

    def __contains__(self, v):
        return self.reduce(v) == 0

    def __len__(self):
        return len(self.piv)

    def canon(self):
        out = []
        for p in sorted(self.piv):
            v = self.piv[p]
            for q, w in self.piv.items():
                if q < p and v >> q & 1:
                    pass
            out.append(v)
        # fully reduced rows
        rows = sorted(out)
        for i, r in enumerate(rows):
            p = r.bit_length() - 1
            for j in range(len(rows)):
                if j != i and rows[j] >> p & 1:
                    rows[j] ^= r
        return tuple(sorted(rows))


class Torus:
    """The honeycomb torus, built from its definition: data qubits at odd columns and all rows, plaquettes of height two centred on
    the even columns, colours shifting by one from row to row and column to column."""

    def __init__(self, dw, dh):
        self.W, self.H = 2 * dw, dh
        self.dw, self.dh = dw, dh
        self.data = [(x, y) for x in range(1, self.W, 2) for y in range(self.H)]
        self.hexes = {}
        for x in range(0, self.W, 2):
            for y in range(self.H):
                if (y + x // 2) % 2 == 0:
                    # column 0: rows 0, 2, 4 are colours 0, 2, 1; column 2 is one row up and carries the colour of the lower left plaquette + ...
                    row = (y + (x // 2) % 2) // 2
                    self.hexes[x, y] = (-row - (x // 2) % 2) % 3

    def w(self, x, y):
        return (x % self.W, y % self.H)

    def hex_qubits(self, h):
        x, y = h
        return [self.w(x + a, y + b) for a in (-1, 1) for b in (-1, 0, 1)]


def xy(c):
    return (c.real, c.imag)


def pauli(basis, idx, n):
    """(x bits, z bits) packed as one int: x in the low n bits, z in the high ones."""
    m = 0
    for i in idx:
        m ^= 1 << i
    return (m if basis in "XY" else 0) | ((m << n) if basis in "YZ" else 0)


def anticommute(a, b, n):
    mask = (1 << n) - 1
    return bin((a & mask) & (b >> n)).count("1") + bin((b & mask) & (a >> n)).count("1") & 1
