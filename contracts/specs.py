"""Defining matrices (specification functions), written index by index for both readings."""


def unravel(U, i, dims):
    out = []
    for n in reversed(dims[1:]):
        i, r = U.divmod(i, n)
        out.append(r)
    return [i] + out[::-1]


def kron_spec(U, Ms):
    rs, cs = [M.shape[0] for M in Ms], [M.shape[1] for M in Ms]
    R = C = 1
    for r, c in zip(rs, cs): R, C = R * r, C * c

    def f(ix):
        a, b = unravel(U, ix[0], rs), unravel(U, ix[1], cs)
        x = 1
        for M, p, q in zip(Ms, a, b): x = x * U.at(M, p, q)
        return x
    return U.table((R, C), f)


def kronsum_spec(U, Ms):
    rs = [M.shape[0] for M in Ms]
    R = 1
    for r in rs: R = R * r

    def f(ix):
        a, b = unravel(U, ix[0], rs), unravel(U, ix[1], rs)
        tot = 0
        for t, M in enumerate(Ms):
            x = U.at(M, a[t], b[t])
            for s in range(len(Ms)):
                if s != t: x = x * U.delta(a[s], b[s])
            tot = tot + x
        return tot
    return U.table((R, R), f)


def locate(U, i, sizes):
    """(block number, offset inside) of position i among consecutive blocks"""
    off = 0
    for t, s in enumerate(sizes):
        if type(s) is int and s == 0: continue
        if t == len(sizes) - 1 or U.lt(i, off + s): return t, i - off
        off = off + s


def directsum_spec(U, Ms, mults):
    R = C = 0
    for M, c in zip(Ms, mults): R, C = R + M.shape[0] * c, C + M.shape[1] * c

    def f(ix):
        t, i = locate(U, ix[0], [M.shape[0] * c for M, c in zip(Ms, mults)])
        s, j = locate(U, ix[1], [M.shape[1] * c for M, c in zip(Ms, mults)])
        if s != t: return 0
        a, i = U.divmod(i, Ms[t].shape[0])
        b, j = U.divmod(j, Ms[t].shape[1])
        return U.delta(a, b) * U.at(Ms[t], i, j)
    return U.table((R, C), f)


def concat_spec(U, Ms):
    R = 0
    for M in Ms: R = R + M.shape[0]

    def f(ix):
        t, i = locate(U, ix[0], [M.shape[0] for M in Ms])
        return U.at(Ms[t], i, ix[1])
    return U.table((R, Ms[0].shape[1]), f)


def eye_spec(U, n): return U.table((n, n), lambda ix: U.delta(ix[0], ix[1]))


def perm_spec(U, p, n):
    """(P V)[i] = V[p[i]]"""
    return U.table((n, n), lambda ix: U.delta(U.at(p, ix[0]), ix[1]))
