from ..check import Check, Model
from ..segygen import s32


class C(Check):
    models = [Model("MCIBM", consts={"FB": 8, "EB": 2, "IB": 3}, thorough={"FB": 12})]
    trace_module = "TrEnc"
    assumptions = ["NaN payloads are compared bit for bit on this platform's floating point registers"]

    def scenarios(self, rng, tier):
        n = 3 if tier == "quick" else 12
        sc = []

        def add(k, xs):
            for j in range(0, len(xs), 250):
                sc.append({"P": 1, "piol": 0, "ops": [{"op": "enc", "k": k, "x": xs[j:j + 250]}]})
        edge = [0, 1, -1, 127, 128, 255, 256, 32767, -32768, 0x0102, 0x0201, -2, -256, 0x7f00, 0x00ff]
        edge += [q * (1 << k) for k in range(15) for q in (1, -1)] + [(1 << k) - 1 for k in range(16)]
        add("i16", edge + [rng.randrange(-32768, 32768) for _ in range(700 * n)])
        e32 = [0, 1, -1, 2**31 - 1, -2**31, 0x01020304, 0x04030201, 0x00ff00ff, 0x7f008000] + [1 << k for k in range(31)]
        add("i32", e32 + [rng.randrange(-2**31, 2**31) for _ in range(700 * n)])
        e64 = [0, 1, 2**64 - 1, 2**63, 2**32, 2**32 - 1, 0x0102030405060708] + [1 << k for k in range(64)]
        lim = lambda v: [v & 0xffff, (v >> 16) & 0xffff, (v >> 32) & 0xffff, (v >> 48) & 0xffff]
        add("i64", [lim(v) for v in e64 + [rng.getrandbits(64) for _ in range(500 * n)]])
        fl = [0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7fc00001, 0x7f800001, 0xffa00000, 1, 0x807fffff, 0x00800000,
              0x3f800000, 0x7f7fffff]
        fl += [rng.getrandbits(1) << 31 | e << 23 | rng.choice([0, 1, 0x400000, 0x7fffff, rng.getrandbits(23)]) for e in range(256)]
        add("float", [s32(v) for v in fl + [rng.getrandbits(32) for _ in range(700 * n)]])
        ib = []
        for s in (0, 1):
            for e in range(128):
                for f in (0, 1, 0x100000, 0xffffff, 0x800000, 0x080000, 0x000001 << rng.randrange(24),
                          rng.getrandbits(24), rng.getrandbits(rng.randrange(1, 25))):
                    ib.append(s << 31 | e << 24 | f)
        # around the smallest numbers, where results are rounded
        for _ in range(1200 * n):
            ib.append(rng.getrandbits(1) << 31 | rng.randrange(24, 36) << 24 |
                      rng.choice([rng.getrandbits(24), 1 << rng.randrange(24), 3 << rng.randrange(23), 0xffffff >> rng.randrange(24)]))
        for _ in range(800 * n):
            ib.append(rng.getrandbits(32))
        # every exponent with every place of the first one bit
        for _ in range(n):
            for e in range(128):
                for b in range(24):
                    low = rng.choice([rng.getrandbits(b) if b else 0, rng.getrandbits(b) if b else 0, 0, (1 << b) - 1,
                                      1 << rng.randrange(b) if b else 0])
                    ib.append(rng.getrandbits(1) << 31 | e << 24 | 1 << b | low)
        # around the largest number
        for _ in range(300 * n):
            ib.append(rng.getrandbits(1) << 31 | rng.choice([0x60, 0x60, 0x61, 0x61, 0x62]) << 24 |
                      rng.getrandbits(rng.randrange(1, 25)) | rng.choice([0, 0x100000, 0xffffff, 0xff0000]))
        add("ibm", [s32(v) for v in ib])
        return sc
