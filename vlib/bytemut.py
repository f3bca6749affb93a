"""Byte- and token-level mutation of sources, headers and objects."""
import re

from . import cmut

INTERESTING = [b"\0", b"\xff", b"\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98\x80", b"\r", b"\r\n", b"\n", b"\\\n", b"\\", b"\"", b"'", b"/*", b"*/", b"//",
               b"#", b"\t", b"\x0c", b"\x1a", b"\xef\xbb\xbf", b"(", b")", b"[", b"]", b"{", b"}", b"<", b">", b"$", b"@", b"`", b"..", b"...", b"0x", b"1e", b"1e+",
               b"0x1p", b"L\"", b"L'", b"'\\", b"\"\\x", b"\"\\u12", b"\"\\777", b"99999999999999999999", b"0xffffffffffffffffff", b"1e999", b"1e-999", b"-", b"--"]
CDICT = [b"#define A(x) x", b"#define A(x,...) x + __VA_ARGS__", b"#include <stdio.h>", b"#include \"h.h\"", b"#if 1", b"#ifdef X", b"#ifndef X", b"#else", b"#endif",
         b"#elif defined(X)", b"#undef A", b"#error x", b"#pragma once", b"#warning w", b"#define", b"#if", b"#include", b"#include <", b"#include \"", b"#define A(",
         b"#define A(x", b"#if 1/0", b"#if (", b"# ", b"#line 3", b"#if 0\n", b"struct S {", b"union U {", b"enum E {", b"typedef ", b"sizeof(", b"(int)", b"(char *)", b"va_arg(",
         b"va_start(", b"offsetof(", b"asm(", b"case 1:", b"default:", b"goto x;", b"x:", b"break;", b"continue;", b"return;", b"switch (", b"for (;;)", b"do ", b"while (",
         b"static ", b"extern ", b"const ", b"inline ", b"register ", b"volatile ", b"unsigned ", b"long long ", b"v128_t ", b"= {", b"= { 1, { 2 } }", b"[ ]", b"[0]", b"[-1]",
         b"[1000000]", b"(*)(int)", b"int (*p)[3]", b"...", b"generic_", b"__func__", b"__LINE__", b"__FILE__", b"static_assert(", b"assert(", b"->", b"? :", b"&&", b"alloca("]
WDICT = [b"(module $m", b"(func $f", b"(export \"e\")", b"(import \"m\" \"n\" (func $m:n))", b"(param $x i32)", b"(result i32)", b"(local $l i64)", b"(global $g (mut i32) (i32.const 0))",
         b"(data $d (i32.const 0) \"abc\")", b"(table 0 funcref)", b"(elem (i32.const 0) $f)", b"(memory 1)", b"i32.const", b"i64.const", b"f32.const", b"f64.const", b"0x1p+3", b"nan:0x400000",
         b"-inf", b"block", b"loop", b"if (result i32)", b"else", b"end", b"br 0", b"br_if 99999", b"br_table 0 1 2", b"call $f", b"call_indirect (param i32)", b"local.get $x", b"local.set $nope",
         b"global.get $g", b"i32.load offset=4", b"i32.store8 align=3", b"v128.const i32x4 1 2 3 4", b"i8x16.shuffle 0 1 2", b"ref.func", b"ref.data $d", b"memory.copy", b"select", b"drop", b"unreachable",
         b"(type $t (func))", b"\"\\ff\\", b"(;", b";)", b";;", b"()", b"$", b"$:", b"$a:b:c", b"offset=-1", b"(start $f)", b"(result i32 i32)", b"(param)", b"i32x4.extract_lane 77"]
WTOK = re.compile(rb'"(?:\\.|[^"\\\n])*"|\$[^\s()]+|[^\s()"$]+|[()]|\s+|.', re.S)


def _draw_pos(s, n):
    return s.draw(n - 1) if n > 0 else 0


def mutate_bytes(s, data, n, dic, others=()):
    b = bytearray(data)
    for _ in range(n):
        k = s.draw(12 - 1)
        s.tag("b%d" % k)
        p = _draw_pos(s, len(b) + 1)
        if k == 0 and b:
            p = min(p, len(b) - 1)
            b[p] ^= 1 << s.draw(8 - 1)
        elif k == 1 and b:
            p = min(p, len(b) - 1)
            b[p] = s.draw(256 - 1)
        elif k == 2:
            b[p:p] = s.choice(INTERESTING)
        elif k == 3:
            b[p:p] = b" " + s.choice(dic) + b" "
        elif k == 4:
            q = min(len(b), p + 1 + s.draw(1 << s.draw(8 - 1)))
            del b[p:q]
        elif k == 5:
            q = min(len(b), p + 1 + s.draw(1 << s.draw(9 - 1)))
            t = b[p:q]
            p2 = _draw_pos(s, len(b) + 1)
            b[p2:p2] = t
        elif k == 6:
            q = min(len(b), p + 1 + s.draw(64 - 1))
            b[p:q] = bytes(b[p:q]) * (2 + s.draw(40 - 1))
        elif k == 7 and others:
            o = s.choice(others)
            a = _draw_pos(s, len(o))
            b[p:p] = o[a:a + 1 + s.draw(1 << s.draw(10 - 1))]
        elif k == 8:
            del b[p:]
        elif k == 9:
            b[p:p] = bytes([s.draw(256 - 1)]) * (1 + s.draw(1 << s.draw(12 - 1)))
        elif k == 10:
            # a digit string becomes another
            m = list(re.finditer(rb"\d+", bytes(b)))
            if m:
                x = s.choice(m)
                b[x.start():x.end()] = str(s.choice([0, 1, -1, 2, 7, 8, 31, 32, 63, 64, 127, 128, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32,
                                                     2**63, 2**64 - 1, 2**64, 10**30, 1000000, 77777])).encode()
        else:
            m = bytes(b).split(b"\n")
            if len(m) > 2:
                i, j = s.draw(len(m) - 1), s.draw(len(m) - 1)
                m[i], m[j] = m[j], m[i]
                b = bytearray(b"\n".join(m))
        if len(b) > 400000:
            del b[400000:]
    return bytes(b)


def mutate_wtokens(s, data, n, dic=WDICT):
    tk = WTOK.findall(data)
    for _ in range(n):
        live = [i for i, t in enumerate(tk) if t.strip()]
        if not live:
            break
        i = s.choice(live)
        k = s.draw(7 - 1)
        s.tag("w%d" % k)
        if k == 0:
            tk[i] = b""
        elif k == 1:
            tk[i] = tk[i] + b" " + tk[i]
        elif k == 2:
            j = s.choice(live)
            tk[i], tk[j] = tk[j], tk[i]
        elif k == 3:
            tk[i] = b" " + s.choice(dic) + b" "
        elif k == 4:
            tk[i] = b" " + tk[s.choice(live)] + b" "
        elif k == 5:
            del tk[i:i + 1 + s.draw(20 - 1)]
        else:
            tk[i] = s.choice([b"(", b")", b"0", b"-1", b"4294967296", b"18446744073709551616", b"$x", b"\"\"", b"\"a\"", b"i32", b"i64", b"f64", b"v128", b"mut"])
    return b"".join(tk)


def mutate_ctokens(s, data, n):
    return cmut.mutate(s, data.decode("latin-1"), n).encode("latin-1")


STRETCH = re.compile(rb"""\\x[0-9a-fA-F]+|\\[0-7]{1,3}|\\u[0-9a-fA-F]+|\\.|0[xX][0-9a-fA-F]+|\d+(?:\.\d*)?(?:[eE][-+]?\d+)?[uUlLfF]*|[$A-Za-z_][A-Za-z_0-9$.:]*|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'|/\*|//|#[ \t]*|[<>=!&|+*/%^.-]+|[ \t]+|\n""")
LENS = [15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097]


def stretch(s, data, n=1):
    """a token becomes a very long one of its kind"""
    for _ in range(n):
        k = s.draw(9)
        s.tag("stretch")
        want = max(1, s.choice(LENS) + s.draw(4) - 2)
        if k < 4:
            # an escape of many digits inside a literal
            m = list(re.finditer(rb"""["'](?:\\.|[^"'\\\n])*""", data))
            if m:
                x = s.choice(m)
                p = x.start() + 1 + s.draw(max(0, min(2, x.end() - x.start() - 1)))
                e = s.choice([b"\\x", b"\\x", b"\\x", b"\\", b"\\u", b"\\U", b"\\x{", b""])
                d = s.choice([b"0", b"0", b"7", b"f", b"1"])
                data = data[:p] + e + d * want + s.choice([b"", b"41", b"}", b"g"]) + data[p:]
            continue
        m = list(STRETCH.finditer(data))
        if not m:
            continue
        x = s.choice(m)
        t = x.group()
        i = s.draw(len(t) - 1) if len(t) > 1 else 0
        if t[:1] in b"\"'" and len(t) > 1:
            i = max(1, min(i, len(t) - 2))
        c = t[i:i + 1]
        if c in b"\"'\\":
            c = b"a"
        data = data[:x.start()] + t[:i] + c * want + t[i:] + data[x.end():]
    return data
