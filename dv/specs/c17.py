from .compaction import *


@unit("C17", "the invariant of the compaction loop", ["solve"], mods=SOLVER)
def invariant(c, pkg):
    Run(c, pkg, True).go()


@unit("C17", "the invariant of the compaction loop (with a permutation)", ["solve"], mods=SOLVER)
def invariant_perm(c, pkg):
    Run(c, pkg, True, perm=True).go()


@unit("C17", "the invariant of the compaction loop (with a solver)", ["solve"], mods=SOLVER)
def invariant_solver(c, pkg):
    Run(c, pkg, True, solver=True).go()
