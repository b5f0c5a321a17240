"""engines as objects: construction, copies, moves, assignment, exported state, reference length, files"""
from props.eng import *

LEVEL = "proof"
TRUSTED = ["std::string and message output carry no state of the engine", "std::ofstream / std::ifstream: a read of a block of the size written returns the bytes written (file system not modelled)"]


def contracts():
    out = []
    for en, fl0 in ENGS:
        for unit, uf in UNITS:
            fl = fl0 + uf
            si = unit == "SI"
            tag = "%s_%s" % (en, unit)
            L = (lambda l: ONE if si else l)
            k = ek("q_e_new", fl, "q_e_new_" + tag)
            lam = ctl(k)
            meta = k.out("meta", TWO, "I")
            k.ensures("no-first-table-yet", meta(0), ZERO)
            k.ensures("no-second-table-yet", meta(1), ZERO)
            same_scalars(k, L(lam))
            out.append(k)
            for how, skip in [(h, s) for h in (0, 1) + ((2, 3) if en == "bw" else ()) for s in (0, 1, 2)]:
                k = ek("q_e_copy", fl, "q_e_%s_%s%s" % (("copy", "move", "assign", "self_assign")[how], tag, ("", "_no_first", "_no_second")[skip]))
                k.fix("how", how + 16 * skip)
                lam = ctl(k)
                n, m, p = tables(k, lo=1, skip=skip)
                ctl(k, "ctl2", "ct2", "lam2", "w", draws=2)
                kk = k.int("k", 0, 0)
                k.requires(LE(ZERO, kk))
                if not skip & 1:
                    k.requires(LT(kk, n))
                if not skip & 2:
                    k.requires(LT(kk, m * p))
                k.real("v")
                outs(k, n, m, p)
                meta = k.out("meta", num(7), "I")
                same_scalars(k, *((L(sym("lam2")), "ctl2", "ct2", "w") if how == 3 else (L(lam),)))
                same_tables(k, n, m, p, meta, skip=skip)
                out.append(k)
            k = ek("q_e_innards", fl, "q_e_innards_" + tag)
            lam = ctl(k)
            n, m, p = tables(k)
            outs(k, n, m, p)
            meta = k.out("meta", num(7), "I")
            sm = k.out("same", num(8), "I")
            same_scalars(k, L(lam))
            same_tables(k, n, m, p, meta)
            for i, (nm, v) in enumerate((("first-table-shared", ONE), ("second-table-coordinates-shared", ONE), ("second-table-values-shared", ONE), ("size-coordinates", n), ("size-values", n),
                                         ("size-coordinates-1", m), ("size-coordinates-2", p), ("size-values-2", m * p))):
                k.ensures("exported-" + nm, sm(i), v)
            out.append(k)
            k = ek("q_e_lambda", fl, "q_e_lambda_" + tag)
            lam, v = k.real("lam", 1e-7, 1e-5, log=True), k.real("v", 1e-7, 1e-5, log=True)
            k.array("u", ONE)
            k.ensures("reference-length-as-set", k.ret(), ONE if si else v)
            out.append(k)
        k = ek("q_e_depth", fl0, "q_e_depth_" + en)
        k.array("u", ONE, lo=0, hi=0.999)
        k.ensures("exponential-law-of-rate-one", k.ret(), k.pre("u", 0))
        out.append(k)
        k = ek("q_e_io", fl0, "q_e_io_" + en)
        n, m, p = tables(k)
        k.array("u", ONE)
        outs(k, n, m, p)
        meta = k.out("meta", num(7), "I")
        same_tables(k, n, m, p, meta)
        out.append(k)
    return out
