"""Base64.tla specifies encoding and decoding by bits; MCBase64.tla is the shift-and-mask machine of the code, and
TLC shows for all short byte strings over boundary bytes (thorough: over all bytes) that it computes exactly that
and inverts.  All those byte strings, every single byte and byte pairs, random long ones and texts with foreign
characters anywhere go through the real classes (both constructors, the streams and the file echo) and TLC judges
every text and every byte."""
from vf.core import *
import base64
DRIVERS = [Driver("base64", "base64.cpp")]


def models(ctx):
    ms = [dict(module="MCBase64", cfg="SPECIFICATION Spec\nCONSTANTS MaxLen = %d\nBytes = {0, 1, 63, 128, 255%s}\nINVARIANTS Standard Padded Inverts Emit\n" % (4, ", 4, 252" if ctx.thorough else ""), workers=6)]
    if ctx.thorough:
        ms.append(dict(module="MCBase64", cfg="SPECIFICATION Spec\nCONSTANTS MaxLen = 2\nBytes = {%s}\nINVARIANTS Standard Padded Inverts\n" % ",".join(map(str, range(256))), workers=6))
    return ms


def groups(ctx):
    rng = ctx.rng
    b = [bytes(x["d"]) for x in ctx.emitted["MCBase64"]] + [bytes([x]) for x in range(256)] + [bytes([x, 255 - x, x ^ 0x5a]) for x in range(256)]
    rng.shuffle(b)
    b = b[:ctx.n(1500, 10 ** 9)]
    for _ in range(ctx.n(1500, 20000)):
        n = rng.choice([rng.randint(0, 12), rng.randint(0, 60), rng.randint(0, 200) if rng.random() < .3 else 5])
        b.append(bytes(rng.choice([rng.randrange(256), 0, 255, 10, 65]) for _ in range(n)))
    for n in ctx.n((255, 256, 257, 768, 1023, 1025, 1500), (255, 256, 257, 766, 767, 768, 769, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 3000)):
        b.append(bytes(rng.randrange(256) for _ in range(n)))
    for n in ctx.n((4097, 12289, 50000), (3071, 3072, 4097, 8191, 12289, 49150, 49151, 49152, 50000, 65536)):
        b.append(bytes(rng.randrange(256) for _ in range(n)))
    ops = [{"e": "enc", "s": x.decode("latin1")} for x in b]
    for _ in range(ctx.n(2000, 25000)):
        t = base64.b64encode(bytes(rng.randrange(256) for _ in range(rng.randint(0, 20)))).decode()
        for _ in range(rng.choice([0, 1, 1, 2])):
            q = rng.randint(0, len(t))
            t = t[:q] + rng.choice(["", "=", "\n", " ", "-", "_", "A", "/", "+", "\x80", "\xff", "\x00", "!"]) + t[q + rng.randint(0, 2):]
        ops.append({"e": "dec", "s": t})
    rng.shuffle(ops)
    return [dict(driver="base64", trace="TraceBase64", sessions=[[{"e": "S"}] + ops[q:q + 20] for q in range(0, len(ops), 20)])]
