"""C04: control flow."""
from lib.diff import UnitCheck, Unit, PRELUDE
from lib import stmt


class C04(UnitCheck):
    id = "C04"
    level_note = ("Random exploration with a fixed seed: no absence claim. Trusts that gcc -O0, gcc -O2 and clang agreeing under ASan/UBSan "
                  "give the required trace; labelled jumps and condition declarations (unknown to gcc 13) are spelled for the references as "
                  "equivalent gotos and blocks.")
    rule = ("a case is one generated function of nested conditionals, loops, switches, labels, jumps and statement expressions called with "
            "3 inputs, each executed step traced; non-trivial if it holds a jump, loop or switch")
    batches = {"quick": 900, "thorough": 12000}
    prelude = PRELUDE + stmt.PRELUDE
    slimcc_flags = ["-std=c23", "-w"]
    units_per_batch = 16

    def gen_unit(self, src, uid):
        g = stmt.SG(src, uid, budget=src.choice([14, 26, 40]))
        code, call = g.function()
        for w in ("goto *", "switch", "while", "for (", "do ", "BRK", "CNT", "goto l"):
            if w in code:
                g.classes.add("has:" + w.strip(" (*"))
        return Unit(code, call, sorted(g.classes), any(w in code for w in ("goto", "switch", "while", "for (", "do {")))


CHECK = C04()
