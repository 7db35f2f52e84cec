"""Self test: the planner imports, the solver stand-in solves."""
import sys

import xpress as xp

from terragraph_planner.optimization import topology_optimization  # noqa

p = xp.problem(name="self")
x = xp.var(name="x", vartype=xp.binary)
p.addVariable(x)
p.setObjective(x, sense=xp.maximize)
p.solve()
ok = abs(p.getSolution(x) - 1) < 1e-6
print("self test", "ok" if ok else "failed")
sys.exit(0 if ok else 1)
