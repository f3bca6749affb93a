"""Programs over WebAssembly intrinsics: the SIMD vector macros, the scalar
macros, the generic bit operations and inline assembly, for comparison with
the reference compiler's own definitions of the same operations."""
import re
from . import cdiff, cgen
from .fam import DiffFamily

# (result, parameters, names): V vector, P address, L constant lane, B bool,
# b/B8 h/H i/u l/U signed/unsigned 8 16 32 64-bit integers, f d floats, - none
SIMD = [
    ("V", "P", """v128_load v128_load8_splat v128_load16_splat v128_load32_splat v128_load64_splat i16x8_load8x8 u16x8_load8x8
     i32x4_load16x4 u32x4_load16x4 i64x2_load32x2 u64x2_load32x2 v128_load32_zero v128_load64_zero"""),
    ("V", "P V L", """v128_load8_lane v128_load16_lane v128_load32_lane v128_load64_lane"""),
    ("-", "P V", """v128_store"""),
    ("-", "P V L", """v128_store8_lane v128_store16_lane v128_store32_lane v128_store64_lane"""),
    ("V", "b", """i8x16_splat"""),
    ("V", "B8", """u8x16_splat"""),
    ("b", "V L", """i8x16_extract_lane"""),
    ("B8", "V L", """u8x16_extract_lane"""),
    ("V", "V L b", """i8x16_replace_lane"""),
    ("V", "V L B8", """u8x16_replace_lane"""),
    ("V", "h", """i16x8_splat"""),
    ("V", "H", """u16x8_splat"""),
    ("h", "V L", """i16x8_extract_lane"""),
    ("H", "V L", """u16x8_extract_lane"""),
    ("V", "V L h", """i16x8_replace_lane"""),
    ("V", "V L H", """u16x8_replace_lane"""),
    ("V", "i", """i32x4_splat"""),
    ("V", "u", """u32x4_splat"""),
    ("i", "V L", """i32x4_extract_lane"""),
    ("u", "V L", """u32x4_extract_lane"""),
    ("V", "V L i", """i32x4_replace_lane"""),
    ("V", "V L u", """u32x4_replace_lane"""),
    ("V", "l", """i64x2_splat"""),
    ("V", "U", """u64x2_splat"""),
    ("l", "V L", """i64x2_extract_lane"""),
    ("U", "V L", """u64x2_extract_lane"""),
    ("V", "V L l", """i64x2_replace_lane"""),
    ("V", "V L U", """u64x2_replace_lane"""),
    ("V", "f", """f32x4_splat"""),
    ("f", "V L", """f32x4_extract_lane"""),
    ("V", "V L f", """f32x4_replace_lane"""),
    ("V", "d", """f64x2_splat"""),
    ("d", "V L", """f64x2_extract_lane"""),
    ("V", "V L d", """f64x2_replace_lane"""),
    ("V", "V V", """i8x16_eq i8x16_ne i8x16_lt u8x16_lt i8x16_gt u8x16_gt i8x16_le u8x16_le i8x16_ge u8x16_ge i16x8_eq i16x8_ne i16x8_lt
     u16x8_lt i16x8_gt u16x8_gt i16x8_le u16x8_le i16x8_ge u16x8_ge i32x4_eq i32x4_ne i32x4_lt u32x4_lt i32x4_gt u32x4_gt
     i32x4_le u32x4_le i32x4_ge u32x4_ge i64x2_eq i64x2_ne i64x2_lt i64x2_gt i64x2_le i64x2_ge f32x4_eq f32x4_ne f32x4_lt
     f32x4_gt f32x4_le f32x4_ge f64x2_eq f64x2_ne f64x2_lt f64x2_gt f64x2_le f64x2_ge v128_and v128_or v128_xor v128_andnot
     i8x16_add i8x16_add_sat u8x16_add_sat i8x16_sub i8x16_sub_sat u8x16_sub_sat i8x16_min u8x16_min i8x16_max u8x16_max
     u8x16_avgr i16x8_add i16x8_add_sat u16x8_add_sat i16x8_sub i16x8_sub_sat u16x8_sub_sat i16x8_mul i16x8_min u16x8_min
     i16x8_max u16x8_max u16x8_avgr i32x4_add i32x4_sub i32x4_mul i32x4_min u32x4_min i32x4_max u32x4_max i32x4_dot_i16x8
     i64x2_add i64x2_sub i64x2_mul f32x4_add f32x4_sub f32x4_mul f32x4_div f32x4_min f32x4_max f32x4_pmin f32x4_pmax
     f64x2_add f64x2_sub f64x2_mul f64x2_div f64x2_min f64x2_max f64x2_pmin f64x2_pmax i8x16_swizzle i8x16_narrow_i16x8
     u8x16_narrow_i16x8 i16x8_narrow_i32x4 u16x8_narrow_i32x4 i16x8_extmul_low_i8x16 i16x8_extmul_high_i8x16
     u16x8_extmul_low_u8x16 u16x8_extmul_high_u8x16 i32x4_extmul_low_i16x8 i32x4_extmul_high_i16x8 u32x4_extmul_low_u16x8
     u32x4_extmul_high_u16x8 i64x2_extmul_low_i32x4 i64x2_extmul_high_i32x4 u64x2_extmul_low_u32x4 u64x2_extmul_high_u32x4
     i16x8_q15mulr_sat"""),
    ("V", "V", """v128_not i8x16_abs i8x16_neg i8x16_popcnt i16x8_abs i16x8_neg i32x4_abs i32x4_neg i64x2_abs i64x2_neg f32x4_abs
     f32x4_neg f32x4_sqrt f32x4_ceil f32x4_floor f32x4_trunc f32x4_nearest f64x2_abs f64x2_neg f64x2_sqrt f64x2_ceil
     f64x2_floor f64x2_trunc f64x2_nearest i32x4_trunc_sat_f32x4 u32x4_trunc_sat_f32x4 f32x4_convert_i32x4
     f32x4_convert_u32x4 f64x2_convert_low_i32x4 f64x2_convert_low_u32x4 i32x4_trunc_sat_f64x2_zero
     u32x4_trunc_sat_f64x2_zero f32x4_demote_f64x2_zero f64x2_promote_low_f32x4 i16x8_extend_low_i8x16
     i16x8_extend_high_i8x16 u16x8_extend_low_u8x16 u16x8_extend_high_u8x16 i32x4_extend_low_i16x8 i32x4_extend_high_i16x8
     u32x4_extend_low_u16x8 u32x4_extend_high_u16x8 i64x2_extend_low_i32x4 i64x2_extend_high_i32x4 u64x2_extend_low_u32x4
     u64x2_extend_high_u32x4 i16x8_extadd_pairwise_i8x16 u16x8_extadd_pairwise_u8x16 i32x4_extadd_pairwise_i16x8
     u32x4_extadd_pairwise_u16x8"""),
    ("B", "V", """v128_any_true i8x16_all_true i16x8_all_true i32x4_all_true i64x2_all_true"""),
    ("V", "V V V", """v128_bitselect"""),
    ("u", "V", """i8x16_bitmask i16x8_bitmask i32x4_bitmask i64x2_bitmask"""),
    ("V", "V u", """i8x16_shl i8x16_shr u8x16_shr i16x8_shl i16x8_shr u16x8_shr i32x4_shl i32x4_shr u32x4_shr i64x2_shl i64x2_shr u64x2_shr"""),
]
SCALAR = [
    ("i", "P", """i32_load i32_load8 i32_load16"""),
    ("l", "P", """i64_load i64_load8 i64_load16 i64_load32"""),
    ("f", "P", """f32_load"""),
    ("d", "P", """f64_load"""),
    ("u", "P", """u32_load8 u32_load16"""),
    ("U", "P", """u64_load8 u64_load16 u64_load32"""),
    ("-", "P i", """i32_store i32_store8 i32_store16"""),
    ("-", "P l", """i64_store i64_store8 i64_store16 i64_store32"""),
    ("-", "P f", """f32_store"""),
    ("-", "P d", """f64_store"""),
    ("i", "i", """i32_eqz i32_clz i32_ctz i32_popcnt i32_extend8 i32_extend16"""),
    ("i", "i i", """i32_eq i32_ne i32_lt i32_gt i32_le i32_ge i32_add i32_sub i32_mul i32_div i32_rem i32_and i32_or i32_xor i32_shl i32_shr
     i32_rotl i32_rotr"""),
    ("i", "u u", """u32_lt u32_gt u32_le u32_ge"""),
    ("i", "l", """i64_eqz i32_wrap_i64"""),
    ("i", "l l", """i64_eq i64_ne i64_lt i64_gt i64_le i64_ge"""),
    ("i", "U U", """u64_lt u64_gt u64_le u64_ge"""),
    ("i", "f f", """f32_eq f32_ne f32_lt f32_gt f32_le f32_ge"""),
    ("i", "d d", """f64_eq f64_ne f64_lt f64_gt f64_le f64_ge"""),
    ("u", "u u", """u32_div u32_rem u32_shr"""),
    ("l", "l", """i64_clz i64_ctz i64_popcnt i64_extend8 i64_extend16 i64_extend32"""),
    ("l", "l l", """i64_add i64_sub i64_mul i64_div i64_rem i64_and i64_or i64_xor i64_shl i64_shr i64_rotl i64_rotr"""),
    ("U", "U U", """u64_div u64_rem u64_shr"""),
    ("f", "f", """f32_abs f32_neg f32_ceil f32_floor f32_trunc f32_nearest f32_sqrt"""),
    ("f", "f f", """f32_add f32_sub f32_mul f32_div f32_min f32_max f32_copysign"""),
    ("d", "d", """f64_abs f64_neg f64_ceil f64_floor f64_trunc f64_nearest f64_sqrt"""),
    ("d", "d d", """f64_add f64_sub f64_mul f64_div f64_min f64_max f64_copysign"""),
    ("i", "f", """i32_trunc_f32 i32_reinterpret_f32 i32_trunc_sat_f32"""),
    ("u", "f", """u32_trunc_f32 u32_trunc_sat_f32"""),
    ("i", "d", """i32_trunc_f64 i32_trunc_sat_f64"""),
    ("u", "d", """u32_trunc_f64 u32_trunc_sat_f64"""),
    ("l", "i", """i64_extend_i32"""),
    ("U", "u", """u64_extend_u32"""),
    ("l", "f", """i64_trunc_f32 i64_trunc_sat_f32"""),
    ("U", "f", """u64_trunc_f32 u64_trunc_sat_f32"""),
    ("l", "d", """i64_trunc_f64 i64_reinterpret_f64 i64_trunc_sat_f64"""),
    ("U", "d", """u64_trunc_f64 u64_trunc_sat_f64"""),
    ("f", "i", """f32_convert_i32 f32_reinterpret_i32"""),
    ("f", "u", """f32_convert_u32"""),
    ("f", "l", """f32_convert_i64"""),
    ("f", "U", """f32_convert_u64"""),
    ("f", "d", """f32_demote_f64"""),
    ("d", "i", """f64_convert_i32"""),
    ("d", "u", """f64_convert_u32"""),
    ("d", "l", """f64_convert_i64 f64_reinterpret_i64"""),
    ("d", "U", """f64_convert_u64"""),
    ("d", "f", """f64_promote_f32"""),
]

CT = {"b": "int8_t", "B8": "uint8_t", "h": "int16_t", "H": "uint16_t", "i": "int32_t", "u": "uint32_t", "l": "int64_t",
      "U": "uint64_t", "f": "float", "d": "double", "B": "bool", "V": "v128_t"}
INTC = ("b", "B8", "h", "H", "i", "u", "l", "U")
BITS = {"b": 8, "B8": 8, "h": 16, "H": 16, "i": 32, "u": 32, "l": 64, "U": 64}


SYS = [
    ("i", "u", "_clz _ctz _popcnt"), ("l", "U", "_clz _ctz _popcnt"), ("i", "i", "_clz _ctz _popcnt"), ("l", "l", "_clz _ctz _popcnt"),
    ("i", "u u", "_rotl _rotr"), ("l", "U U", "_rotl _rotr"), ("l", "l U", "_rotl _rotr"), ("i", "i u", "_rotl _rotr"),
    ("u", "f", "_fasu"), ("U", "d", "_dasull"), ("f", "u", "_uasf"), ("d", "U", "_ullasd"),
]


def table(t):
    return [(n, r, a.split()) for r, a, ns in t for n in ns.split()]


SIMD_OPS = table(SIMD)
SCALAR_OPS = table(SCALAR)
ALL_SCALAR = SCALAR_OPS + table(SYS)
LANE_N = {"8x16": 16, "16x8": 8, "32x4": 4, "64x2": 2}


def lanes_of(n):
    for k, v in LANE_N.items():
        if k in n.split("_")[0]:
            return v
    for b, v in (("64", 2), ("32", 4), ("16", 8), ("8", 16)):   # v128_load32_lane
        if n.endswith("load%s_lane" % b) or n.endswith("store%s_lane" % b):
            return v
    raise KeyError(n)


NANNY = ("add", "sub", "mul", "div", "sqrt", "ceil", "floor", "trunc", "nearest", "min", "max", "demote_f64x2_zero",
         "promote_low_f32x4")


def clean(n):
    """vector results whose NaN bits WebAssembly leaves open"""
    t, _, op = n.partition("_")
    if t in ("f32x4", "f64x2") and op in NANNY:
        return "cl32_" if t == "f32x4" else "cl64_"
    return None


# ---------------------------------------------------------------- reference definitions

def _ref_head():
    o = ["#ifndef __WCPL__",
         "#include <stdint.h>",
         "typedef float float32_t; typedef double float64_t;"]
    d = o.append
    for w, bi in ((32, ""), (64, "ll")):
        I, U = "int%d_t" % w, "uint%d_t" % w
        d("static %s rotl%d_(%s x, %s n) { n &= %d; return n ? x << n | x >> (%d - n) : x; }" % (U, w, U, U, w - 1, w))
        d("static %s rotr%d_(%s x, %s n) { n &= %d; return n ? x >> n | x << (%d - n) : x; }" % (U, w, U, U, w - 1, w))
        d("static %s clz%d_(%s x) { %s n = 0; %s m = (%s)1 << %d; while (m && !(x & m)) n++, m >>= 1; return n; }" % (I, w, U, I, U, U, w - 1))
        d("static %s ctz%d_(%s x) { %s n = 0; %s m = 1; while (m && !(x & m)) n++, m <<= 1; return n; }" % (I, w, U, I, U))
        d("static %s pop%d_(%s x) { %s n = 0; while (x) n++, x &= x - 1; return n; }" % (I, w, U, I))
        i, u = "wasm_i%d_" % w, "wasm_u%d_" % w
        d("#define %sconst(c) ((%s)(c))" % (i, I))
        d("#define %seqz(a) ((int32_t)((%s)(a) == 0))" % (i, I))
        for n, op in (("eq", "=="), ("ne", "!=")):
            d("#define %s%s(a, b) ((int32_t)((%s)(a) %s (%s)(b)))" % (i, n, I, op, I))
        for n, op in (("lt", "<"), ("gt", ">"), ("le", "<="), ("ge", ">=")):
            d("#define %s%s(a, b) ((int32_t)((%s)(a) %s (%s)(b)))" % (i, n, I, op, I))
            d("#define %s%s(a, b) ((int32_t)((%s)(a) %s (%s)(b)))" % (u, n, U, op, U))
        for n, op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("and", "&"), ("or", "|"), ("xor", "^")):
            d("#define %s%s(a, b) ((%s)((%s)(a) %s (%s)(b)))" % (i, n, I, U, op, U))
        for n, op in (("div", "/"), ("rem", "%")):
            d("#define %s%s(a, b) ((%s)((%s)(a) %s (%s)(b)))" % (i, n, I, I, op, I))
            d("#define %s%s(a, b) ((%s)((%s)(a) %s (%s)(b)))" % (u, n, U, U, op, U))
        d("#define %sshl(a, b) ((%s)((%s)(a) << ((b) & %d)))" % (i, I, U, w - 1))
        d("#define %sshr(a, b) ((%s)((%s)(a) >> ((b) & %d)))" % (i, I, I, w - 1))
        d("#define %sshr(a, b) ((%s)((%s)(a) >> ((b) & %d)))" % (u, U, U, w - 1))
        for n in ("rotl", "rotr"):
            d("#define %s%s(a, b) ((%s)%s%d_((%s)(a), (%s)(b)))" % (i, n, I, n, w, U, U))
        for n, f in (("clz", "clz"), ("ctz", "ctz"), ("popcnt", "pop")):
            d("#define %s%s(a) (%s%d_((%s)(a)))" % (i, n, f, w, U))
        d("#define %sextend8(a) ((%s)(int8_t)(a))\n#define %sextend16(a) ((%s)(int16_t)(a))" % (i, I, i, I))
    d("#define wasm_i64_extend32(a) ((int64_t)(int32_t)(a))")
    d("#define wasm_i64_extend_i32(a) ((int64_t)(int32_t)(a))\n#define wasm_u64_extend_u32(a) ((uint64_t)(uint32_t)(a))")
    d("#define wasm_i32_wrap_i64(a) ((int32_t)(int64_t)(a))")
    for n, t in (("i32", "int32_t"), ("i64", "int64_t"), ("f32", "float"), ("f64", "double")):
        d("static %s ld%s_(const void *p) { %s v; __builtin_memcpy(&v, p, sizeof v); return v; }" % (t, n, t))
        d("#define wasm_%s_load(p) (ld%s_(p))" % (n, n))
        d("static void st%s_(void *p, %s v) { __builtin_memcpy(p, &v, sizeof v); }" % (n, t))
        d("#define wasm_%s_store(p, v) (st%s_(p, v))" % (n, n))
    for s, sw, uw in (("i", "int", "int32_t"),):
        pass
    for b in (8, 16, 32):
        d("static uint64_t lb%d_(const unsigned char *p) { uint64_t r = 0; int i; for (i = %d; i-- > 0; ) r = r << 8 | p[i]; return r; }" % (b, b // 8))
        d("static void sb%d_(unsigned char *p, uint64_t v) { int i; for (i = 0; i < %d; ++i) p[i] = (unsigned char)(v >> 8 * i); }" % (b, b // 8))
        for w in (32, 64):
            if b == 32 and w == 32:
                continue
            d("#define wasm_i%d_load%d(p) ((int%d_t)(int%d_t)lb%d_((const unsigned char *)(p)))" % (w, b, w, b, b))
            d("#define wasm_u%d_load%d(p) ((uint%d_t)(uint%d_t)lb%d_((const unsigned char *)(p)))" % (w, b, w, b, b))
            d("#define wasm_i%d_store%d(p, v) (sb%d_((unsigned char *)(p), (uint64_t)(v)))" % (w, b, b))
    for w, t, sfx, uw in ((32, "float", "f", "uint32_t"), (64, "double", "", "uint64_t")):
        f = "wasm_f%d_" % w
        d("#define %sconst(c) ((%s)(c))" % (f, t))
        for n, op in (("eq", "=="), ("ne", "!="), ("lt", "<"), ("gt", ">"), ("le", "<="), ("ge", ">=")):
            d("#define %s%s(a, b) ((int32_t)((%s)(a) %s (%s)(b)))" % (f, n, t, op, t))
        for n, op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("div", "/")):
            d("#define %s%s(a, b) ((%s)((%s)(a) %s (%s)(b)))" % (f, n, t, t, op, t))
        d("static %s bits%d_(%s x) { %s u; __builtin_memcpy(&u, &x, sizeof u); return u; }" % (uw, w, t, uw))
        d("static %s unbits%d_(%s u) { %s x; __builtin_memcpy(&x, &u, sizeof x); return x; }" % (t, w, uw, t))
        sg = "((%s)1 << %d)" % (uw, w - 1)
        d("#define %sabs(a) (unbits%d_(bits%d_(a) & ~%s))\n#define %sneg(a) (unbits%d_(bits%d_(a) ^ %s))" % (f, w, w, sg, f, w, w, sg))
        d("#define %scopysign(a, b) (unbits%d_((bits%d_(a) & ~%s) | (bits%d_(b) & %s)))" % (f, w, w, sg, w, sg))
        d("static %s mn%d_(%s a, %s b) { if (a != a) return a; if (b != b) return b; if (a < b) return a; if (b < a) return b; return unbits%d_(bits%d_(a) | bits%d_(b)); }" % (t, w, t, t, w, w, w))
        d("static %s mx%d_(%s a, %s b) { if (a != a) return a; if (b != b) return b; if (a > b) return a; if (b > a) return b; return unbits%d_(bits%d_(a) & bits%d_(b)); }" % (t, w, t, t, w, w, w))
        d("#define %smin(a, b) (mn%d_(a, b))\n#define %smax(a, b) (mx%d_(a, b))" % (f, w, f, w))
        for n, b in (("ceil", "ceil"), ("floor", "floor"), ("trunc", "trunc"), ("nearest", "rint"), ("sqrt", "sqrt")):
            d("#define %s%s(a) (__builtin_%s%s(a))" % (f, n, b, sfx))
        d("#define wasm_i%d_reinterpret_f%d(a) ((int%d_t)bits%d_(a))\n#define wasm_f%d_reinterpret_i%d(a) (unbits%d_((uint%d_t)(a)))" % (w, w, w, w, w, w, w, w))
        for iw in (32, 64):
            for k, c in (("i", "int"), ("u", "uint")):
                d("#define wasm_%s%d_trunc_f%d(a) ((%s%d_t)(%s)(a))" % (k, iw, w, c, iw, t))
                lo, hi = ("-%s" % float(1 << iw - 1), float(1 << iw - 1)) if k == "i" else ("0.0", float(1 << iw))
                mn, mx = (("(-%dLL - 1)" % ((1 << iw - 1) - 1), "%dLL" % ((1 << iw - 1) - 1)) if k == "i" else ("0", "%dULL" % ((1 << iw) - 1)))
                d("static %s%d_t ts%s%d_%d_(%s x) { if (x != x) return 0; if (x < %s) return %s; if (x >= %r) return %s; return (%s%d_t)x; }"
                  % (c, iw, k, iw, w, t, lo, mn, hi, mx, c, iw))
                d("#define wasm_%s%d_trunc_sat_f%d(a) (ts%s%d_%d_(a))" % (k, iw, w, k, iw, w))
                d("#define wasm_f%d_convert_%s%d(a) ((%s)(%s%d_t)(a))" % (w, k, iw, t, c, iw))
    d("#define wasm_f32_demote_f64(a) ((float)(double)(a))\n#define wasm_f64_promote_f32(a) ((double)(float)(a))")
    for n, f in (("_clz", "clz"), ("_ctz", "ctz"), ("_popcnt", "pop")):
        d("#define %s(x) _Generic((x), unsigned long long: (long long)%s64_(x), long long: (long long)%s64_(x), default: (int)%s32_(x))" % (n, f, f, f))
    for n, f in (("_rotl", "rotl"), ("_rotr", "rotr")):
        d("#define %s(x, n) _Generic((x), unsigned long long: (long long)%s64_(x, n), long long: (long long)%s64_(x, n), default: (int)%s32_(x, n))" % (n, f, f, f))
    d("#define _fasu(x) (bits32_(x))\n#define _dasull(x) ((unsigned long long)bits64_(x))\n#define _uasf(x) (unbits32_(x))\n#define _ullasd(x) (unbits64_(x))")
    d("#define _bfill(d, v, n) ((void)memset(d, v, n))\n#define _bzero(d, n) ((void)memset(d, 0, n))\n#define _bcopy(d, s, n) ((void)memmove(d, s, n))")
    d("#define wasm_memory_fill(d, v, n) ((void)memset(d, v, n))\n#define wasm_memory_copy(d, s, n) ((void)memmove(d, s, n))")
    d("#else\n#include <wasm.h>\n#include <sys/intrs.h>\n#endif")
    return "\n".join(o) + "\n"


COMMON = r"""
double nz64_(double d) { if (d != d) return 0.5; return d; }
float nz32_(float d) { if (d != d) return 0.5f; return d; }
"""
SCALAR_HEAD = _ref_head() + COMMON
SIMD_HEAD = SCALAR_HEAD + r"""
#include <wasm_simd128.h>
v128_t cl32_(v128_t v) { return wasm_v128_and(v, wasm_f32x4_eq(v, v)); }
v128_t cl64_(v128_t v) { return wasm_v128_and(v, wasm_f64x2_eq(v, v)); }
unsigned char vb_[32];
void ev(v128_t v) { wasm_v128_store(&vb_[0], v); db_((char *)&vb_[0], 16); }
"""

# ---------------------------------------------------------------- literals

EDGE = {8: [0, 1, 2, 127, 128, 129, 254, 255], 16: [0, 1, 255, 256, 32767, 32768, 32769, 65535],
        32: [0, 1, 2, 255, 65535, 65536, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x3f800000, 0x7fc00000, 0x7f800000],
        64: [0, 1, 0xffffffff, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 64) - 1, 0x3ff0000000000000]}


def ival(s, bits, signed):
    k = s.draw(9)
    if k <= 4:
        v = s.choice(EDGE[bits])
    elif k <= 6:
        v = s.draw(40) - 20
    else:
        v = int.from_bytes(s.bytes(bits // 8), "little")
    v %= 1 << bits
    return v - (1 << bits) if signed and v >> bits - 1 else v


def ilit(c, v):
    if c in ("b", "B8", "h", "H", "i"):
        return "(-2147483647 - 1)" if v == -1 << 31 else "%d" % v if v >= 0 else "(-%d)" % -v
    if c == "u":
        return "%du" % v
    if c == "l":
        return "(-9223372036854775807ll - 1)" if v == -1 << 63 else "%dll" % v if v >= 0 else "(-%dll)" % -v
    return "%dull" % v


FS = ["0.0", "1.0", "1.5", "0.5", "2.5", "3.0", "0.1", "1e10", "2147483647.0", "2147483648.0", "4294967295.0", "4294967296.0", "1e-10",
      "9223372036854775808.0", "18446744073709551616.0", "1e30", "16777217.0", "127.5", "255.5", "32768.0", "65535.5", "0.49999999", "8388607.5"]
DS = FS + ["1e300", "1e-300", "4503599627370495.5", "9007199254740993.0", "2147483647.5", "0.49999999999999994", "3.5e38", "1e-46"]


def flit(s, c):
    x = s.choice(FS if c == "f" else DS)
    x = x + ("f" if c == "f" else "")
    return "(-%s)" % x if s.bool(1, 3) else x


def vlit(s):
    k = s.draw(6)
    if k <= 2:
        c, n, t = s.choice([("b", 16, "i8x16"), ("B8", 16, "u8x16"), ("h", 8, "i16x8"), ("H", 8, "u16x8"), ("i", 4, "i32x4"), ("u", 4, "u32x4"),
                            ("l", 2, "i64x2"), ("U", 2, "u64x2")])
        vs = [ilit(c, ival(s, BITS[c], c in "bhil")) for _ in range(n)]
    elif k == 3:
        c, n, t = "U", 2, "u64x2"
        vs = [ilit(c, ival(s, 32, False) << 32 | ival(s, 32, False)) for _ in range(n)]
    else:
        c, n, t = s.choice([("f", 4, "f32x4"), ("d", 2, "f64x2")])
        vs = [flit(s, c) for _ in range(n)]
    if s.bool(1, 8):
        s.tag("const_splat")
        return "wasm_%s_const_splat(%s)" % (t, vs[0])
    s.tag("const")
    return "wasm_%s_const(%s)" % (t, ", ".join(vs))


def cint(s, v):
    """a constant expression worth v"""
    k = s.draw(11)
    if k == 0:
        return "(%d + %d)" % (v // 2, v - v // 2)
    if k == 1 and v:
        return "%#x" % v
    return "%d" % v


# ---------------------------------------------------------------- generator

class G:
    """straight-line code over a few variables of every class"""

    def __init__(self, s, ops, vec):
        self.s, self.ops, self.vec = s, ops, vec
        self.by = {}
        for o in ops:
            self.by.setdefault(o[1], []).append(o)

    def addr(self, bits):
        return "&m_@@[%d]" % self.s.draw(64 - bits // 8)

    def scalar(self, c, d):
        """expression of class c; float classes never depend on the bits of computed NaNs"""
        s = self.s
        if c == "V":
            k = s.draw(5)
            if d > 0 and k >= 4:
                return self.op(s.choice(self.by["V"]), d - 1)
            if k == 3 and s.bool(1, 2):
                return vlit(s)
            return "v%d" % s.draw(3)
        if c in ("f", "d"):
            k = s.draw(5)
            if d > 0 and k == 5:
                if self.vec:
                    n = "f32x4" if c == "f" else "f64x2"
                    return "wasm_%s_extract_lane(%s, %d)" % (n, self.scalar("V", d - 1), s.draw(LANE_N[n[1:]] - 1))
                return s.choice(["wasm_f%d_load(%s)", "wasm_f%d_reinterpret_i%d(%s)"][:1]) % ((32, self.addr(32)) if c == "f" else (64, self.addr(64)))
            if d > 0 and k == 4 and not self.vec:
                return "nz%d_(%s)" % (32 if c == "f" else 64, self.op(s.choice(self.by[c]), d - 1))
            if k == 3:
                return flit(s, c)
            return "%s%d" % (c, s.draw(1))
        k = s.draw(5)
        if d > 0 and k >= 4 and self.by.get(c):
            return "(%s)%s" % (CT[c], self.op(s.choice(self.by[c]), d - 1))
        if k == 3:
            v = ival(s, BITS[c], c in "bhil")
            return "(%s)%s" % (CT[c], ilit(c, v))
        b = {"i": "i%d", "u": "u%d", "l": "l%d", "U": "U%d"}.get(c)
        if b:
            return b % s.draw(1)
        return "(%s)%s" % (CT[c], s.choice(["i0", "i1", "u0"]))

    def op(self, o, d):
        s = self.s
        n, r, a = o
        s.tag(n)
        args = []
        for i, c in enumerate(a):
            if c == "P":
                args.append(self.addr(128 if n.startswith("v128") or "x" in n.split("_")[0] else 64))
            elif c == "L":
                args.append(cint(s, s.draw(lanes_of(n) - 1)))
            elif c == "u" and a[0] == "V" and len(a) == 2:
                args.append(s.choice(["u0", "u1", "%du" % s.draw(70), "(uint32_t)i0"]))
            elif n.endswith(("_div", "_rem")) and i == 1 and c in INTC:
                # never zero, never the overflowing quotient
                x = self.scalar(c, 0)
                args.append("((%s) | %s)" % (x, {"i": "1", "u": "1u", "l": "1ll", "U": "1ull"}[c]) if c in "uU" else
                            "(((%s) & %s) + 1)" % (x, {"i": "0xffff", "l": "0xffffffffffll"}[c]))
            elif c in ("f", "d") and "_trunc_f" in n:
                k = n.split("_")[0]
                args.append("cr%s_%s(%s)" % (k, c, self.scalar(c, d)))
            else:
                args.append(self.scalar(c, d))
        e = "%s%s(%s)" % ("" if n[0] == "_" else "wasm_", n, ", ".join(args))
        cl = clean(n) if r == "V" else None
        return "%s(%s)" % (cl, e) if cl else e

    def make(self):
        s = self.s
        k = s.draw(2)
        if k == 0:      # make
            c, n, t = s.choice([("b", 16, "i8x16"), ("B8", 16, "u8x16"), ("h", 8, "i16x8"), ("H", 8, "u16x8"), ("i", 4, "i32x4"), ("u", 4, "u32x4"),
                                ("l", 2, "i64x2"), ("U", 2, "u64x2"), ("f", 4, "f32x4"), ("d", 2, "f64x2")])
            s.tag(t + "_make")
            return "wasm_%s_make(%s)" % (t, ", ".join(self.scalar(c, 0) for _ in range(n)))
        n, t = s.choice([(16, "i8x16"), (8, "i16x8"), (4, "i32x4"), (2, "i64x2")])
        s.tag(t + "_shuffle")
        return "wasm_%s_shuffle(%s, %s, %s)" % (t, self.scalar("V", 1), self.scalar("V", 0), ", ".join(cint(s, s.draw(2 * n - 1)) for _ in range(n)))

    def stmt(self):
        s = self.s
        if self.vec and s.bool(1, 7):
            return "v%d = %s;" % (s.draw(3), self.make())
        if not self.vec and s.bool(1, 12):
            n = s.draw(24)
            k = s.draw(4)
            s.tag("bulk%d" % k)
            a, b = s.draw(64 - n), s.draw(64 - n)
            v = s.choice(["u0", "u1", "255u", "256u"])
            return ["_bfill(&m_@@[%d], %s, (size_t)%d);" % (a, v, n), "_bzero(&m_@@[%d], (size_t)%d);" % (a, n),
                    "_bcopy(&m_@@[%d], &m_@@[%d], (size_t)%d);" % (a, b, n), "wasm_memory_fill(&m_@@[%d], (int)%s, %d);" % (a, v, n),
                    "wasm_memory_copy(&m_@@[%d], &m_@@[%d], %d);" % (a, b, n)][k]
        o = s.choice(self.ops)
        e = self.op(o, 2)
        r = o[1]
        if r == "-":
            return e + ";"
        if r == "V":
            return "v%d = %s;" % (s.draw(3), e)
        if r == "B":
            return "ei(%s);" % e if s.bool() else "if (%s) i0 = %d; else i1 = %d;" % (e, s.draw(9), s.draw(9))
        if r in ("f", "d"):
            return "%s%d = nz%d_(%s);" % (r, s.draw(1), 32 if r == "f" else 64, e)
        t = {"b": "i", "B8": "u", "h": "i", "H": "u"}.get(r, r)
        return "%s%d = %s%s;" % (t, s.draw(1), "" if t == r else "(%s)" % CT[t], e)


CR = r"""
float cri32_f(float x) { return x >= -2147483648.0f && x < 2147483648.0f ? x : -7.75f; }
float cru32_f(float x) { return x > -1.0f && x < 4294967296.0f ? x : 7.75f; }
float cri64_f(float x) { return x >= -9223372036854775808.0f && x < 9223372036854775808.0f ? x : -7.75f; }
float cru64_f(float x) { return x > -1.0f && x < 18446744073709551616.0f ? x : 7.75f; }
double cri32_d(double x) { return x > -2147483649.0 && x < 2147483648.0 ? x : -7.75; }
double cru32_d(double x) { return x > -1.0 && x < 4294967296.0 ? x : 7.75; }
double cri64_d(double x) { return x >= -9223372036854775808.0 && x < 9223372036854775808.0 ? x : -7.75; }
double cru64_d(double x) { return x > -1.0 && x < 18446744073709551616.0 ? x : 7.75; }
"""

PARAMS = "int32_t i0, int32_t i1, uint32_t u0, uint32_t u1, int64_t l0, int64_t l1, uint64_t U0, uint64_t U1, float f0, float f1, double d0, double d1"


def call_params(s):
    out = []
    for c in "iuluUfd":
        pass
    for c in ("i", "u", "l", "U"):
        for _ in range(2):
            out.append("(%s)%s" % (CT[c], ilit(c, ival(s, BITS[c], c in "il"))))
    for c in ("f", "d"):
        for _ in range(2):
            out.append(flit(s, c))
    return ", ".join(out)


def frame(s, g, n, decl, call):
    body = [g.stmt() for _ in range(n)]
    top = ["unsigned char m_@@[64] = {%s};" % ", ".join("%d" % s.choice([0, 1, 127, 128, 255, s.draw(255)]) for _ in range(64))]
    emit = "eu(i0); eu(i1); eu(u0); eu(u1); ei(l0); ei(l1); eu(U0); eu(U1); ed(f0); ed(f1); ed(d0); ed(d1); db_((char *)&m_@@[0], 64);"
    emit = emit.replace("eu(i0); eu(i1)", "ei(i0); ei(i1)")
    if g.vec:
        emit += " ev(v0); ev(v1); ev(v2); ev(v3);"
    top.append("void f_@@(%s) {\n  %s\n  %s\n  %s\n}" % (PARAMS, decl, "\n  ".join(body), emit))
    return "\n".join(top), "  f_@@(%s);" % call


def simd_case(s):
    g = G(s, SIMD_OPS, True)
    n = s.int(1, 6)
    decl = " ".join("v128_t v%d = %s;" % (i, vlit(s)) for i in range(4))
    return frame(s, g, n, decl, call_params(s))


def scalar_case(s):
    g = G(s, ALL_SCALAR, False)
    return frame(s, g, s.int(1, 6), "", call_params(s))


# ---------------------------------------------------------------- inline assembly

WT = {"i": ("i32", "int"), "l": ("i64", "long long"), "f": ("f32", "float"), "d": ("f64", "double")}
SIGNED_NAMES = ("lt", "gt", "le", "ge", "div", "rem", "shr")


def asm_name(n):
    """scalar macro name -> (instruction, signless classes)"""
    t, _, op = n.partition("_")
    k = t[0]
    w = "i" + t[1:] if k == "u" else t
    u = "_u" if k == "u" else "_s"
    if op in SIGNED_NAMES and k in "iu":
        return w + "." + op + u
    if op.startswith("load") and op != "load":
        return w + "." + op + u
    if op.startswith("trunc_") and k in "iu":
        return w + "." + op + u
    if op.startswith("convert_"):
        return w + "." + op.replace("_u", "_i") + ("_u" if "_u" in op else "_s")
    if op in ("extend_i32", "extend_u32"):
        return w + ".extend_i32" + ("_u" if k == "u" else "_s")
    if op in ("extend8", "extend16", "extend32"):
        return w + "." + op + "_s"
    return w + "." + op


NOSIGN = {"u": "i", "U": "l"}


def _asm_ops():
    r = []
    for n, c, a in SCALAR_OPS:
        if n.endswith("_const") or "_trunc_f" in n and "sat" not in n:
            continue
        cc = NOSIGN.get(c, c)
        r.append((n, asm_name(n), cc, c, [NOSIGN.get(x, x) for x in a], a))
    return r


ASM_OPS = _asm_ops()
ASM_BY = {}
for _o in ASM_OPS:
    ASM_BY.setdefault(_o[2], []).append(_o)


class AG:
    """stack code for an expression tree, and the same tree as C"""

    def __init__(self, s):
        self.s = s
        self.regs = []
        self.nest = 0

    def const(self, c):
        s = self.s
        if c in "il":
            bits = 32 if c == "i" else 64
            v = ival(s, bits, True)
            l = ilit(c, v)
            return "%s.const %s" % (WT[c][0], l), l
        l = flit(s, c)
        return "%s.const %s" % (WT[c][0], l), l

    def leaf(self, c):
        s = self.s
        if s.bool(1, 3):
            return self.const(c)
        v = "%s%d" % (c, s.draw(2))
        return "local.get " + v, v

    def tree(self, c, d):
        """(instructions, C expression)"""
        s = self.s
        if d <= 0 or s.bool(1, 6):
            return self.leaf(c)
        k = s.draw(19)
        if k == 0:      # nested form
            s.tag("nested")
            a, e = self.tree(c, d - 1)
            return "(%s)asm(%s)" % (WT[c][1], a), e
        if k == 1:
            s.tag("select")
            a, x = self.tree(c, d - 1)
            b, y = self.tree(c, d - 1)
            t, z = self.tree("i", d - 2)
            return "%s, %s, %s, select" % (a, b, t), "((%s) ? (%s) : (%s))" % (z, x, y)
        if k == 2:
            s.tag("drop")
            o = s.choice("ilfd")
            a, x = self.tree(c, d - 1)
            b, y = self.tree(o, d - 2)
            return "%s, %s, drop" % (a, b), x
        if k == 3:
            s.tag("if")
            a, x = self.tree(c, d - 1)
            b, y = self.tree(c, d - 1)
            t, z = self.tree("i", d - 2)
            vt = {"i": 0x7f, "l": 0x7e, "f": 0x7d, "d": 0x7c}[c]
            return "%s, if %#x, %s, else, %s, end" % (t, vt, a, b), "((%s) ? (%s) : (%s))" % (z, x, y)
        if k == 4 and c == "i":
            s.tag("call")
            a, x = self.tree("i", d - 1)
            b, y = self.tree("l", d - 1)
            return "%s, %s, call p:mixup_" % (a, b), "mixup_(%s, %s)" % (x, y)
        if k == 5 and c in "id":
            s.tag("global")
            return "global.get p:gv%s_" % c, "gv%s_" % c
        if k == 6:
            # a register used twice
            s.tag("register")
            n = "t%d" % len(self.regs)
            self.regs.append((n, c))
            a, x = self.tree(c, d - 1)
            self_op = {"i": ("i32.add", "wasm_i32_add"), "l": ("i64.xor", "wasm_i64_xor"), "f": ("f32.mul", "wasm_f32_mul"), "d": ("f64.add", "wasm_f64_add")}[c]
            f = {"i": "dupi_", "l": "dupl_", "f": "dupf_", "d": "dupd_"}[c]
            return "register %s %s, %s, local.tee %s, local.get %s, %s" % (WT[c][0], n, a, n, n, self_op[0]), "%s(%s)" % (f, x)
        ops = [o for o in ASM_BY[c] if o[4] != ["P", "i"]]
        n, ins, cc, ct, a, at = s.choice(ops)
        s.tag(ins)
        code, ce = [], []
        for i, x in enumerate(a):
            if x == "P":
                k, o = s.draw(40), s.draw(15)
                code.append("local.get p" if not k else "local.get p, i32.const %d, i32.add" % k)
                al = s.choice([0, 1, 1, 2])
                m = " offset=%d" % o if o else ""
                if al:
                    m += " align=%d" % min(al, 1 if "8" in ins.split(".")[1] else 2)
                ins = ins + m
                ce.append("p + %d" % (k + o))
                continue
            if n.endswith(("_div", "_rem")) and i == 1 and x in "il":
                b, y = self.leaf(x)
                if x == "i":
                    code.append("%s, i32.const 65535, i32.and, i32.const 1, i32.add" % b)
                    ce.append("(((%s) & 65535) + 1)" % y)
                else:
                    code.append("%s, i64.const 0xffffffffffffll, i64.and, i64.const 1, i64.add" % b)
                    ce.append("(((%s) & 0xffffffffffffll) + 1)" % y)
                continue
            if "reinterpret" in n and x in "fd" or n.endswith("copysign") and i == 1:
                b, y = self.leaf(x)
            else:
                b, y = self.tree(x, d - 1)
            code.append(b)
            ce.append(y)
        return ", ".join(code + [ins]), "wasm_%s(%s)" % (n, ", ".join(ce))


ASM_HEAD = SCALAR_HEAD + r"""
int gvi_ = 12345; double gvd_ = -2.75;
int mixup_(int a, long long b) { return a * 3 + (int)(b >> 5); }
#ifndef __WCPL__
int dupi_(int x) { return x + x; }
long long dupl_(long long x) { return 0; }
float dupf_(float x) { return x * x; }
double dupd_(double x) { return x + x; }
#endif
"""

ASM_PARAMS = "int i0, int i1, int i2, long long l0, long long l1, long long l2, float f0, float f1, float f2, double d0, double d1, double d2, unsigned char *p"


def asm_case(s):
    c = s.choice("ilfd")
    g = AG(s)
    form = s.draw(3)
    ty = WT[c][1]
    pre, post = "", ""
    if form == 3:       # applied to arguments
        n = s.int(1, 3)
        ps = [s.choice("ilfd") for _ in range(n)]
        # the arguments are the first operands of a chain of binary operations on the last one's class
        ops = []
        cur = ps[-1]
        s.tag("applied")
        args = [g.leaf(x)[1] for x in ps]
        stack = list(zip(ps, args))
        code = []
        while True:
            # fold the top of the stack
            k, e = stack[-1]
            if len(stack) >= 2 and s.bool(2, 3) and stack[-2][0] == k:
                cand = [o for o in ASM_OPS if o[4] == [k, k] and not o[0].endswith(("_div", "_rem", "copysign"))]
                o = s.choice(cand)
                code.append(o[1])
                e2 = stack[-2][1]
                stack[-2:] = [(o[2], "wasm_%s(%s, %s)" % (o[0], e2, e))]
            elif len(stack) >= 2 and stack[-2][0] != k:
                tgt = stack[-2][0]
                cand = [o for o in ASM_OPS if o[4] == [k] and o[2] == tgt and not ("reinterpret" in o[0] and k in "fd")]
                if not cand:
                    code.append("drop")
                    stack.pop()
                else:
                    o = s.choice(cand)
                    code.append(o[1])
                    stack[-1] = (o[2], "wasm_%s(%s)" % (o[0], e))
            elif len(stack) >= 2 and s.bool():
                code.append("drop")
                stack.pop()
            else:
                cand = [o for o in ASM_OPS if o[4] == [k] and not ("reinterpret" in o[0] and k in "fd")]
                o = s.choice(cand)
                code.append(o[1])
                stack[-1] = (o[2], "wasm_%s(%s)" % (o[0], e))
                if len(stack) == 1 and s.bool():
                    break
            if len(stack) == 1 and (len(code) > 12 or s.bool(1, 3)):
                break
        if not code:
            code.append("nop")
        c, e = stack[0]
        ty = WT[c][1]
        x = "((%s(*)(%s))asm(%s)(%s))" % (ty, ", ".join(WT[k][1] for k in ps), ", ".join(code), ", ".join(args))
    else:
        a, e = g.tree(c, s.int(1, 4))
        x = "(%s)asm(%s)" % (ty, a)
    if form == 1:       # stored through the assembly
        s.tag("store")
        st, k = {"i": [("i32.store", "i32_store"), ("i32.store8", "i32_store8"), ("i32.store16", "i32_store16")],
                 "l": [("i64.store", "i64_store"), ("i64.store8", "i64_store8"), ("i64.store16", "i64_store16"), ("i64.store32", "i64_store32")],
                 "f": [(None, None)], "d": [(None, None)]}[c][s.draw({"i": 2, "l": 3, "f": 0, "d": 0}[c])]
        if st:
            o = s.draw(20)
            pre = "(void)asm(local.get p, %s, %s offset=%d align=1);" % (a, st, o)
            post = "wasm_%s(p + %d, %s);" % (k, o, e)
            x, e, ty, c = "i0", "i0", "int", "i"
    shadow = form == 2 and s.bool()
    if shadow:
        s.tag("shadow")
        w1 = "{ int i0 = i1 + 7; double d0 = d1; long long l1 = l0; "
        w2 = " }"
    else:
        w1 = w2 = ""
    nz = {"f": "nz32_", "d": "nz64_"}.get(c, "")
    head = "%s f_@@(%s) { %s r_; " % (ty, ASM_PARAMS, ty)
    tail = " return r_; }"
    top = ["unsigned char m_@@[64] = {%s};" % ", ".join("%d" % s.choice([0, 1, 127, 128, 255, s.draw(255)]) for _ in range(64)),
           "#ifdef __WCPL__", head + w1 + pre + " r_ = %s(%s);" % (nz, x) + w2 + tail,
           "#else", head + w1 + post + " r_ = %s(%s);" % (nz, e) + w2 + tail, "#endif"]
    args = ([ilit("i", ival(s, 32, True)) for _ in range(3)] + [ilit("l", ival(s, 64, True)) for _ in range(3)] +
            [flit(s, "f") for _ in range(3)] + [flit(s, "d") for _ in range(3)] + ["&m_@@[0]"])
    return "\n".join(top), "  %s(f_@@(%s)); db_((char *)&m_@@[0], 64);" % ({"i": "ei", "l": "ei", "f": "ed", "d": "ed"}[c], ", ".join(args))


# ---------------------------------------------------------------- vectors as data

def _ref_consts():
    """clang's constant builders are functions: make them usable in static initialisers"""
    o = ["#ifndef __WCPL__"]
    for t, n in (("i8x16", 16), ("u8x16", 16), ("i16x8", 8), ("u16x8", 8), ("i32x4", 4), ("u32x4", 4), ("i64x2", 2), ("u64x2", 2), ("f32x4", 4), ("f64x2", 2)):
        o.append("#define wasm_%s_const(...) ((v128_t)(__%s){__VA_ARGS__})" % (t, t))
        o.append("#define wasm_%s_const_splat(a) ((v128_t)(__%s){%s})" % (t, t, ", ".join(["(a)"] * n)))
    return "\n".join(o) + "\n#endif\n"


OBJ_HEAD = SIMD_HEAD + _ref_consts() + r"""
#include <stdarg.h>
v128_t pass_(int n, v128_t a, v128_t b) { if (n & 1) return a; return b; }
int vsum_(int n, ...) {
  va_list ap; int r = 0;
  va_start(ap, n);
  while (n > 0) {
    int k = va_arg(ap, int);
    v128_t v = va_arg(ap, v128_t);
    r = r * 31 + k + wasm_i32x4_extract_lane(v, 2) + wasm_i16x8_extract_lane(v, 1);
    n--;
  }
  va_end(ap);
  return r;
}
"""
ST = [("char", "%d", lambda s: str(s.draw(255) - 128)), ("int", "%d", lambda s: str(s.draw(9999) - 5000)), ("short", "%d", lambda s: str(s.draw(60000) - 30000)),
      ("double", "%s", lambda s: "%d.25" % s.draw(999)), ("long long", "%d", lambda s: "%dll" % (s.draw(1 << 40)))]


def obj_case(s):
    """vectors in globals, structures, arrays, calls, returns and variable arguments"""
    vs = "v0 v1 v2".split()
    top, body = [], []
    # structure with vectors among other members
    mem = []
    for i in range(s.int(1, 5)):
        if s.bool(2, 5):
            mem.append(("v128_t", "a%d" % i, None))
        elif s.bool(1, 4):
            mem.append(("v128_t", "a%d" % i, s.int(1, 3)))
        else:
            mem.append((s.choice(ST)[0], "a%d" % i, None))
    if not any(t == "v128_t" for t, _, _ in mem):
        mem.append(("v128_t", "az", None))
    kind = s.weighted([(5, "struct"), (1, "union")])
    s.tag(kind)
    ms = " ".join("%s %s%s;" % (t, n, "[%d]" % k if k else "") for t, n, k in mem)
    top.append("%s st_@@ { %s };" % (kind, ms))
    top.append("%s st_@@ g_@@, h_@@; %s st_@@ ga_@@[3];" % (kind, kind))
    gi = vlit(s)
    top.append("v128_t gv_@@ = %s; v128_t garr_@@[3] = { %s, %s, %s }; struct { int k; v128_t v; } gs_@@ = { 5, %s };"
               % (gi, vlit(s), vlit(s), vlit(s), vlit(s)))
    top.append("v128_t rec_@@(int n, v128_t v, double d) { if (n <= 0) return v; return rec_@@(n - 1, wasm_i32x4_add(v, wasm_i32x4_splat(n)), d + 1.0); }")
    body.append("v128_t v0 = %s, v1 = %s, v2 = %s; v128_t arr[4]; int i = %d; v128_t *p = &arr[%d];" % (vlit(s), vlit(s), vlit(s), s.draw(3), s.draw(3)))
    body.append("for (i = 0; i < 4; ++i) arr[i] = wasm_i32x4_splat(i * 7 + 1); i = %d;" % s.draw(3))
    body.append("ei((int)sizeof(%s st_@@)); ei((int)alignof(v128_t)); ei((int)sizeof(v128_t));" % kind)
    for t, n, k in mem:
        body.append("ei((int)offsetof(%s st_@@, %s));" % (kind, n))
    vm = [(n, k) for t, n, k in mem if t == "v128_t"]

    def lv():
        k = s.draw(8)
        if k <= 2:
            return s.choice(vs)
        if k == 3:
            return "arr[%s]" % s.choice(["i", "0", "3"])
        if k == 4:
            return "*p"
        n, c = s.choice(vm)
        m = n + ("[%d]" % s.draw(c - 1) if c else "")
        b = s.choice(["g_@@.", "ga_@@[1].", "ga_@@[i % 3].", "q->"])
        return b + m if k <= 6 else s.choice(["gv_@@", "garr_@@[i % 3]", "garr_@@[2]", "gs_@@.v"])

    def rv(d):
        k = s.draw(9)
        if k <= 3 or d <= 0:
            return lv()
        if k == 4:
            s.tag("ternary")
            return "(%s ? %s : %s)" % (s.choice(["i > 1", "i", "gs_@@.k == 5"]), rv(d - 1), rv(d - 1))
        if k == 5:
            s.tag("call")
            return "pass_(%s, %s, %s)" % (s.choice(["i", "1", "0"]), rv(d - 1), rv(d - 1))
        if k == 6:
            s.tag("recursion")
            return "rec_@@(%d, %s, 0.5)" % (s.draw(5), rv(d - 1))
        if k == 7:
            return vlit(s)
        return "wasm_i%s(%s, %s)" % (s.choice(["8x16_add", "16x8_sub", "32x4_mul", "64x2_add"]), rv(d - 1), rv(d - 1))
    body.append("%s st_@@ *q = &ga_@@[%d]; zf_((char *)&g_@@, (int)sizeof(g_@@)); zf_((char *)&ga_@@[0], (int)sizeof(ga_@@));" % (kind, s.draw(2)))
    for _ in range(s.int(2, 8)):
        k = s.draw(9)
        if k <= 4:
            body.append("%s = %s;" % (lv(), rv(2)))
        elif k == 5:
            s.tag("chain")
            body.append("%s = %s = %s;" % (s.choice(vs), s.choice(vs), rv(1)))
        elif k == 6:
            s.tag("copy")
            body.append(s.choice(["h_@@ = g_@@; g_@@ = ga_@@[1]; ga_@@[2] = h_@@;", "ga_@@[0] = *q;", "*q = g_@@;"]))
        elif k == 7:
            s.tag("varargs")
            n = s.draw(3)
            body.append("ei(vsum_(%d%s));" % (n, "".join(", %d, %s" % (s.draw(99), rv(1)) for _ in range(n))))
        elif k == 8:
            s.tag("pointer")
            body.append("p = &arr[%d]; *p = %s; p[%d] = %s;" % (s.draw(1), rv(1), s.draw(2), rv(1)))
        else:
            s.tag("if")
            body.append("if (wasm_v128_any_true(%s)) %s = %s; else { v128_t v0 = %s; %s = v0; }" % (rv(1), s.choice(vs), rv(1), re.sub(r"\bv0\b", "v1", rv(1)), lv()))
    body.append("ev(v0); ev(v1); ev(v2); for (i = 0; i < 4; ++i) ev(arr[i]); ev(gv_@@); ev(gs_@@.v); for (i = 0; i < 3; ++i) ev(garr_@@[i]);")
    for n, c in vm:
        m = n + ("[%d]" % (c - 1) if c else "")
        body.append("ev(g_@@.%s); ev(ga_@@[0].%s); ev(ga_@@[1].%s); ev(ga_@@[2].%s);" % (m, m, m, m))
    top.append("void f_@@(void) {\n  %s\n}" % "\n  ".join(body))
    return "\n".join(top), "  f_@@();"


# inline assembly over vectors
VASM = [("i8x16.shuffle", 2), ("v128.bitselect", 3), ("i16x8.add_sat_s", 2), ("i8x16.swizzle", 2), ("i32x4.dot_i16x8_s", 2), ("v128.andnot", 2), ("i8x16.popcnt", 1)]


def vasm_case(s):
    top = ["unsigned char m_@@[64] = {%s};" % ", ".join("%d" % s.draw(255) for _ in range(64))]
    seq, c = [], []
    st = ["a"]
    seq.append("local.get a")
    for _ in range(s.int(1, 6)):
        k = s.draw(5)
        if k == 0:
            x = s.choice("ab")
            idx = [s.draw(31) for _ in range(16)]
            s.tag("shuffle")
            seq.append("local.get %s, i8x16.shuffle %s" % (x, " ".join(map(str, idx))))
            st[-1] = "wasm_i8x16_shuffle(%s, %s, %s)" % (st[-1], x, ", ".join(map(str, idx)))
        elif k == 1:
            n, al = s.choice([("8_splat", 1), ("16_splat", 2), ("32_splat", 4), ("64_splat", 8), ("32_zero", 4), ("64_zero", 8), ("", 16)])
            o = s.draw(40)
            s.tag("load" + n)
            seq.append("local.get p, v128.load%s offset=%d align=%d, v128.xor" % (n, o, s.choice([a for a in (1, 2, 4, 8, 16) if a <= al])))
            st[-1] = "wasm_v128_xor(%s, wasm_v128_load%s(p + %d))" % (st[-1], n, o)
        elif k == 2:
            b, n = s.choice([(8, 16), (16, 8), (32, 4), (64, 2)])
            o, l = s.draw(40), s.draw(n - 1)
            s.tag("load_lane%d" % b)
            seq.append("local.set a, local.get p, local.get a, v128.load%d_lane offset=%d align=1 %d" % (b, o, l))
            st[-1] = "(a = %s, wasm_v128_load%d_lane(p + %d, a, %d))" % (st[-1], b, o, l)
        elif k == 3:
            t, w, n = s.choice([("i8x16", "i32", 16), ("i16x8", "i32", 8), ("i32x4", "i32", 4), ("i64x2", "i64", 2)])
            l, m = s.draw(n - 1), s.draw(n - 1)
            s.tag("lane" + t)
            sx = "_s" if n >= 8 else ""
            seq.append("local.set a, local.get a, local.get b, %s.extract_lane%s %d, %s.replace_lane %d" % (t, sx, l, t, m))
            st[-1] = "(a = %s, wasm_%s_replace_lane(a, %d, wasm_%s_extract_lane(b, %d)))" % (st[-1], t, m, t, l)
        elif k == 4:
            o = s.draw(40)
            b, n = s.choice([(8, 16), (16, 8), (32, 4), (64, 2)])
            l = s.draw(n - 1)
            s.tag("store_lane%d" % b)
            seq.append("local.set a, local.get p, local.get a, v128.store%d_lane offset=%d align=1 %d, local.get a" % (b, o, l))
            st[-1] = "(a = %s, wasm_v128_store%d_lane(p + %d, a, %d), a)" % (st[-1], b, o, l)
        else:
            i, n = s.choice(VASM[1:])
            s.tag(i)
            ops = [s.choice("bb") for _ in range(n - 1)]
            seq.append(", ".join(["local.get " + x for x in ops] + [i]))
            nm = {"v128.bitselect": "wasm_v128_bitselect", "i16x8.add_sat_s": "wasm_i16x8_add_sat", "i8x16.swizzle": "wasm_i8x16_swizzle", "i32x4.dot_i16x8_s": "wasm_i32x4_dot_i16x8",
                  "v128.andnot": "wasm_v128_andnot", "i8x16.popcnt": "wasm_i8x16_popcnt"}[i]
            st[-1] = "%s(%s)" % (nm, ", ".join([st[-1]] + ops))
    top += ["#ifdef __WCPL__", "v128_t f_@@(v128_t a, v128_t b, unsigned char *p) { return (v128_t)asm(%s); }" % ", ".join(seq),
                "#else", "v128_t f_@@(v128_t a, v128_t b, unsigned char *p) { return %s; }" % st[-1], "#endif"]
    return "\n".join(top), "  ev(f_@@(%s, %s, &m_@@[0])); db_((char *)&m_@@[0], 64);" % (vlit(s), vlit(s))


ALL_HEAD = SIMD_HEAD + CR + ASM_HEAD[len(SCALAR_HEAD):] + OBJ_HEAD[len(SIMD_HEAD):]


def wcpl_side(text):
    """the text without what only the reference compiler reads"""
    out, st = [], []
    for l in text.split("\n"):
        w = l.strip()
        if w.startswith(("#ifdef", "#ifndef")):
            st.append(w in ("#ifdef __WCPL__", "# ifdef __WCPL__"))
        elif w == "#else" and st:
            st[-1] = not st[-1]
        elif w == "#endif" and st:
            st.pop()
        elif all(st):
            out.append(l)
    return "\n".join(out) + "\n"


def any_case(s):
    k = s.weighted([(3, "simd"), (3, "scalar"), (3, "asm"), (2, "obj"), (2, "vasm")])
    s.tag("src-" + k)
    return {"simd": simd_case, "scalar": scalar_case, "asm": asm_case, "obj": obj_case, "vasm": vasm_case}[k](s)


# ---------------------------------------------------------------- operands: accepted or refused

RT = {"V": "v128_t", "B": "int", "-": "void", "i": "int32_t", "u": "uint32_t", "l": "int64_t", "U": "uint64_t", "f": "float", "d": "double",
      "b": "int8_t", "B8": "uint8_t", "h": "int16_t", "H": "uint16_t"}


def operand_case(s):
    """(source, must be accepted / must be refused / None)"""
    want = True
    src = ["#include <wasm.h>\n#include <wasm_simd128.h>\n#include <sys/intrs.h>\nunsigned char m[64]; int gi = 3; v128_t gv;\n"
           "struct sx { int a; }; struct sx gs; int fun(int x) { return x; }"]

    def wrong(c):
        """an operand of some other kind"""
        s.tag("wrong")
        return s.choice(["v", "i", "u", "l", "U", "f", "d", "p", "&m[3]", "gs", "fun", "&gi", "1", "2u", "3ll", "4ull", "1.5f", "2.5", "\"str\"", "'c'",
                         "gv", "fun(2)", "(void)0", "0", "(char)7", "(short)i", "undeclared_", "wasm_i32x4_splat(3)", "NULL_",
                         "i = 3", "(i > 2)", "v, v", "", "(i++)", "-v", "v + v", "v = v", "*&v"])

    def good(c):
        return s.choice({"V": ["v", "gv", "w", "wasm_v128_not(v)", "(v)"], "P": ["p", "&m[3]", "&m[i]", "p + 1"], "b": ["(int8_t)i", "(signed char)1"],
                         "B8": ["(unsigned char)u", "(uint8_t)i"], "h": ["(short)i", "(int16_t)-3"], "H": ["(uint16_t)u", "(unsigned short)7u"], "i": ["i", "17", "i * 2"], "u": ["u", "3u", "(uint32_t)i"],
                         "l": ["l", "4ll", "(int64_t)i"], "U": ["U", "9ull", "(uint64_t)u"], "f": ["f", "1.5f"], "d": ["d", "-2.5"]}[c])

    def lane(n):
        nonlocal want
        k = s.draw(11)
        if k <= 5:
            return cint(s, s.draw(n - 1))
        if k <= 8:
            want = False
            s.tag("lane-out")
            v = s.choice([n, n + 1, 2 * n, 16, 31, 32, 127, 128, 255, 256, 256 + s.draw(n - 1), 65536, 2147483647, -1, -n, -256, 4294967296, 4294967297])
            if 0 <= v < n:
                v = n
            if v > 0x7fffffff or v < -0x80000000:
                return "%dll" % v
            return "(%d)" % v if v < 0 or s.bool() else "(%d + %d)" % (v - v // 2, v // 2)
        want = False
        s.tag("lane-kind")
        return s.choice(["i", "gi", "1.0", "v", "\"a\"", "1.5f", "i + 1", "p", "fun(1)", "i++", "", "(i, 1)", "unk_", "&gi", "1.0 + 1", "l"])
    k = s.draw(9)
    if k <= 5:
        lo = [o for o in SIMD_OPS + SCALAR_OPS if k > 2 or "L" in o[2]]
        n, r, a = s.choice(lo)
        s.tag(n)
        args = []
        for c in a:
            if c == "L":
                args.append(lane(lanes_of(n)))
            elif s.bool(1, 6 if k > 2 else 20):
                args.append(wrong(c))
                want = None if want else want
            else:
                args.append(good(c))
        j = s.draw(29)
        if j == 0:
            args.append("v")
            want = False
            s.tag("extra")
        elif j == 1:
            args.pop()
            want = False
            s.tag("missing")
        e = "wasm_%s(%s)" % (n, ", ".join(args))
    elif k <= 7:
        n, t = s.choice([(16, "i8x16"), (8, "i16x8"), (4, "i32x4"), (2, "i64x2")])
        s.tag(t + "_shuffle")
        r = "V"
        bad = s.bool()
        w0 = want
        ls = [cint(s, s.draw(2 * n - 1)) for _ in range(n)]
        if bad:
            ls[s.draw(n - 1)] = lane(2 * n)
            want = None if want is False else want      # shuffles take lane indexes modulo their number
        if s.bool(1, 12):
            ls.append("0")
            want = False
        elif s.bool(1, 12):
            ls.pop()
            want = False
        e = "wasm_%s_shuffle(v, w, %s)" % (t, ", ".join(ls))
    else:
        c, n, t = s.choice([("b", 16, "i8x16"), ("B8", 16, "u8x16"), ("h", 8, "i16x8"), ("H", 8, "u16x8"), ("i", 4, "i32x4"), ("u", 4, "u32x4"),
                            ("l", 2, "i64x2"), ("U", 2, "u64x2"), ("f", 4, "f32x4"), ("d", 2, "f64x2")])
        r = "V"
        f = s.choice(["const", "const", "const_splat", "splat", "make"])
        s.tag(f)
        ls = []
        for _ in range(n if "splat" not in f else 1):
            ls.append(flit(s, c) if c in "fd" else ilit(c, ival(s, BITS[c], c in "bhil")))
        if s.bool(2, 3):
            want = None
            j = s.draw(5)
            if j == 0:
                ls.pop()
            elif j == 1:
                ls.append(ls[-1])
            else:
                ls[s.draw(len(ls) - 1)] = s.choice([wrong(c), "i", "v", "300", "-129", "70000", "5000000000ll", "18446744073709551615ull", "1.5", "\"x\"", "u", "f", "d", "99999.5"])
        e = "wasm_%s_%s(%s)" % (t, f, ", ".join(ls))
    st = e + ";" if r == "-" else s.weighted([(4, "{ %s r = (%s)%s; use_(r); }" % (RT[r], RT[r], e) if r not in ("V", "B") else "{ %s r = %s; use_(r); }" % (RT[r], e)),
                                                 (1, "use_(%s);" % e)])
    rt = RT[r]
    if want is not None and s.bool(1, 12):
        # the result put to some other use
        s.tag("misuse")
        st = s.choice(["i = %s;", "v = %s;", "if (%s) i = 1;", "p = %s;", "gs = %s;", "%s + 1;", "l = %s + 1;", "d = %s;", "return %s;", "i = (int)%s;", "f = (float)%s;",
                       "*%s = 1;", "%s = v;", "v = (v128_t)%s;", "i = !%s;", "&%s;", "%s[1] = 2;", "(%s)(2);"]) % e
        want = None if want else want
    src.append("void use_(%s) { %s }" % ("void" if r == "-" else rt + " x", "" if r == "-" else "m[1] = (unsigned char)sizeof(x);"))
    src.append("void f(int32_t i, uint32_t u, int64_t l, uint64_t U, float f, double d, v128_t v, v128_t w, unsigned char *p) {\n  %s\n}" % st)
    src.append("int main(void) { f(1, 2u, 3ll, 4ull, 0.5f, 0.25, gv, gv, &m[0]); return 0; }")
    return "\n".join(src) + "\n", want
