"""Mixed whole-program generation from the other generators."""
from . import cauto, cconst, cdata, cflow, cgen, cvar


def mixed_case(s):
    k = s.weighted([(4, "data"), (4, "flow"), (4, "expr"), (1, "const"), (1, "variadic"), (1, "auto")])
    s.tag("kind-" + k)
    return {"data": cdata.data_case, "flow": cflow.flow_case, "expr": cgen.expr_case, "const": cconst.const_case, "variadic": cvar.var_case,
            "auto": cauto.auto_case}[k](s)


def end_case(s):
    """a case whose program ends in some way: (top, main, ending)"""
    top, main = mixed_case(s)
    k = s.choice(["return", "exit", "abort", "trap", "deep"])
    s.tag("end-" + k)
    v = s.draw(125)
    e = {"return": "fl_(); return %d;" % v, "exit": "fl_(); exit(%d);" % v, "abort": "fl_(); abort();",
         "trap": "fl_(); { int z = %d; int y; y = z / (z - %d); ei(y); fl_(); }" % (v, v),
         "deep": "fl_(); { int z = end_f(%d); fl_(); return z; }" % v}[k]
    return top, main, e


def assemble_end(c):
    src = cgen.assemble([(c[0], c[1])])
    a = src.rindex("int main(void)")
    b = src.index("\n", a)
    extra = "int end_f(int n) { if (n < 40) { ei(n); fl_(); exit(n); } return end_f(n - 7) + 1; }\n" if "end_f" in c[2] else ""
    return ("#include <stdlib.h>\n" + src[:a] + extra + "int main(void) { grp_0(); " + c[2] + " return 0; }" + src[b:])
