"""Texts shared by the checks (technique, rule, assumptions)."""
T_FORM = "interprocedural value dataflow on LLVM IR (gated SSA closed forms) compared with the definition in normal form"
ASSUME = [
    "clang's translation of C++ to LLVM IR at -O0+mem2reg/loop-simplify represents the source",
    "images hold fewer than 2^31 elements and their row*stride+offset arithmetic does not wrap",
    "distinct image arguments do not overlap unless the entry says so; aliasing entries are separate obligations",
    "floating point is treated as real arithmetic for equality of closed forms",
    "32-bit sums of products of pixels and coefficients wrap as the C++ type says where the type is fixed width and are taken modulo that width",
]


def rule(what, how=""):
    return (what + "  Every entry is evaluated for symbolic width, height, offset, stride and pixel contents; loops become "
            "recurrences/sums/reductions over their trip counts.  An obligation is 'proved' when the normal form of the closed form minus the "
            "definition is zero in every leaf of the case split over its gates; 'refuted' only when the normal forms differ and a valuation of "
            "their symbols separates them (the valuation is reported); everything else is 'open' and raises nothing.  " + how).strip()


NOTE_FORM = ("Unbounded in image size, geometry and contents where the obligation is proved; obligations left open are listed in the evidence "
             "and are decided only as far as separation of closed forms goes. Trusted: clang's IR and the evaluator itself.")
