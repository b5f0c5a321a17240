"""shared pieces of the contracts on the lookup tables"""
from fractions import Fraction
from ccontract import *
from llvm import asI
SRC = "q_tab.cpp"
BIG = 2 ** 40


def ub_inv(arr="xs"):
    """binary search: everything before [first, first+count) is <= val, everything from its end on is > val"""
    def f(ex, fr, c, c0, st):
        base, p = ex.pnorm(fr.env["%first"]), ex.pnorm(c["first"])
        i, b = scale(p.off, Fraction(1, 8)), scale(base.off, Fraction(1, 8))
        end = scale(ex.pnorm(fr.env["%last"]).off, Fraction(1, 8))
        cnt = asI(c["count"])
        val = ex.load(st, fr.env["%val"], llvm.irparse.Ty("fp", 64))
        con = ex.content(st, p.o, 0)
        x = lambda j: select(con, [j], ex.ctx)
        e = add(i, cnt)
        ex.noteread(p.o, 0, sub(i, ONE))
        ex.noteread(p.o, 0, e)
        return ([("range", AND(LE(b, i), LE(ZERO, cnt), LE(e, end))),
                 ("left", OR(LE(i, b), LE(x(sub(i, ONE)), val))),
                 ("right", OR(LE(end, e), LT(val, x(e))))], cnt)
    return ("picsar_upper_bound", ["first", "count"], f)
