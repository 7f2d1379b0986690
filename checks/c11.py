"""C11: memory, aggregates and lvalues in whole programs."""
from lib.diff import UnitCheck, Unit, PRELUDE
from lib import agg, prog
from lib.prog import PG


class C11(UnitCheck):
    id = "C11"
    rule = ("a case is one generated translation-unit fragment: record types, globals and 2-4 functions calling each other on structs, arrays and "
            "pointers, with every object's members folded into a running digest; non-trivial if it assigns structs or uses pointers")
    batches = {"quick": 700, "thorough": 10000}
    prelude = PRELUDE + agg.PRELUDE + prog.PRELUDE + "void *memmove(void *, const void *, unsigned long);\n"
    slimcc_flags = ["-std=c23", "-w"]
    units_per_batch = 8

    def gen_unit(self, src, uid):
        pg = PG(src, uid, nfun=src.range(2, 4), budget=src.choice([6, 12, 20]))
        code, call = pg.unit()
        return Unit(code, call, sorted(pg.classes | pg.tg.classes), bool(pg.classes & {"struct-assign", "pointer", "conditional-struct", "call-struct"}))


CHECK = C11()
