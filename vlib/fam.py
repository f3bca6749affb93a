"""Families shared by several properties."""
from . import cdiff, cgen
from .check import Family


class DiffFamily(Family):
    """generated C functions, wcpl against the reference compiler"""
    batch = 100
    head = ""
    ref_extra = ()

    def __init__(self, name, gen, quick, thorough, batch=100, opt="-O1"):
        self.name, self._gen, self.quick, self.thorough, self.batch = name, gen, quick, thorough, batch
        self.opt = opt

    def gen(self, s):
        return self._gen(s)

    def run(self, ctx, cases):
        return cdiff.diff_cases(ctx.tool, ctx.sc, cases, self.opt, self.head, self.ref_extra)

    def show(self, c):
        return (c[0] + "\n/* main: */\n" + c[1]).replace("_@@", "_0").replace("@@", "0")
