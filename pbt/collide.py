"""Eight-byte strings with the same 32-bit XXH32 hash (seed 0), made by running the hash backwards."""
P3, P4, P5 = 3266489917, 668265263, 374761393
M = (1 << 32) - 1


def rotr(x, r):
    return (x >> r | x << (32 - r)) & M


I3, I4 = pow(P3, -1, 1 << 32), pow(P4, -1, 1 << 32)


def twin(state, second):
    """The string that ends with the given word and brings the hash in the given state."""
    h = (rotr(state * I4 & M, 17) - second * P3) & M
    first = (rotr(h * I4 & M, 17) - P5 - 8) * I3 & M
    return first.to_bytes(4, "little") + second.to_bytes(4, "little")


def twin_sizes(rng, n):
    """Different file sizes with the same hash."""
    state = rng.getrandbits(32)
    return [int.from_bytes(twin(state, k), "little") for k in range(1, n + 1)]


def twin_names(rng, n, allowed):
    state = rng.getrandbits(32)
    out = []
    while len(out) < n:
        t = twin(state, int.from_bytes(bytes(rng.choice(allowed) for _ in range(4)), "little"))
        if all(c in allowed for c in t) and t not in out:
            out.append(t)
    return out
