from .compaction import *


@unit("C18", "the histories of the compaction loop", ["solve"], mods=SOLVER)
def histories(c, pkg):
    Run(c, pkg, False).go()


@unit("C18", "the histories of the compaction loop (with a permutation)", ["solve"], mods=SOLVER)
def histories_perm(c, pkg):
    Run(c, pkg, False, perm=True, size=True).go()


@unit("C18", "the histories of the compaction loop (with a solver)", ["solve"], mods=SOLVER)
def histories_solver(c, pkg):
    Run(c, pkg, False, solver=True, size=True).go()
