import struct, math
def num(x):
    x = float(x)
    if math.isfinite(x) and x == int(x) and abs(x) < 1e9: return int(x)
    return list(struct.unpack(">ii", struct.pack(">d", x)))
def unnum(v): return struct.unpack(">d", struct.pack(">ii", *v))[0] if isinstance(v, list) else v
