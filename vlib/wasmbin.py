"""A small reader of WebAssembly binaries: imports and exports."""


class Bad(Exception):
    pass


def leb(b, i):
    v = s = 0
    while True:
        c = b[i]
        i += 1
        v |= (c & 127) << s
        s += 7
        if c < 128:
            return v, i


def sections(b):
    if b[:8] != b"\0asm\1\0\0\0":
        raise Bad("bad magic")
    i = 8
    while i < len(b):
        k = b[i]
        n, i = leb(b, i + 1)
        if i + n > len(b):
            raise Bad("section too long")
        yield k, b[i:i + n]
        i += n


def name(b, i):
    n, i = leb(b, i)
    return b[i:i + n].decode("utf-8", "replace"), i + n


KIND = ["func", "table", "memory", "global"]


def interface(b):
    """([(module, name, kind)], [(name, kind)])"""
    imps, exps = [], []
    for k, d in sections(b):
        if k == 2:
            n, i = leb(d, 0)
            for _ in range(n):
                m, i = name(d, i)
                f, i = name(d, i)
                t = d[i]
                imps.append((m, f, KIND[t]))
                i += 1
                if t == 0:
                    _, i = leb(d, i)
                elif t == 1:
                    fl = d[i + 1]
                    _, i = leb(d, i + 2)
                    if fl & 1:
                        _, i = leb(d, i)
                elif t == 2:
                    fl = d[i]
                    _, i = leb(d, i + 1)
                    if fl & 1:
                        _, i = leb(d, i)
                else:
                    i += 2
        elif k == 7:
            n, i = leb(d, 0)
            for _ in range(n):
                f, i = name(d, i)
                t = d[i]
                _, i = leb(d, i + 1)
                exps.append((f, KIND[t]))
    return imps, exps
