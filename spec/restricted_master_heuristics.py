import logging
from typing import List, Optional
import pulp
logger = logging.getLogger(__name__)

class _DivingHeuristic:

    def __init__(self, max_depth=3, max_discrepancy=1):  #@ C28 C22
        self.max_depth = max_depth
        self.max_discrepancy = max_discrepancy
        self.depth = 0
        self.current_node = _LPNode()
        self.tabu_list = []

    def run_dive(self, prob):  #@ C28 C08 C09 C11 C20
        tabu_list = []
        relax = prob.deepcopy()
        lp_node = _LPNode(self.current_node, self.current_node.tabu_list)
        constrs = {}
        while self.depth <= self.max_depth and len(tabu_list) < self.max_discrepancy:
            non_integer_vars = [var for var in relax.variables() if abs(var.varValue - round(var.varValue)) != 0]
            vars_to_fix = [var for var in non_integer_vars if var.name not in self.current_node.tabu_list and var.name not in tabu_list]
            if vars_to_fix:
                var_to_fix = min(vars_to_fix, key=lambda x: abs(x.varValue - round(x.varValue)))
                value_to_fix = 1
                value_previous = var_to_fix.varValue
                name_le = 'fix_{}_LE'.format(var_to_fix.name)
                name_ge = 'fix_{}_GE'.format(var_to_fix.name)
                constrs[name_le] = pulp.LpConstraint(var_to_fix, pulp.LpConstraintLE, name=name_le, rhs=value_to_fix)
                constrs[name_ge] = pulp.LpConstraint(var_to_fix, pulp.LpConstraintGE, name=name_ge, rhs=value_to_fix)
                relax += constrs[name_le]
                relax += constrs[name_ge]
                relax.resolve()
                tabu_list.append(var_to_fix.name)
                self.depth += 1
                if relax.status == 1:
                    prob.extend(constrs)
                    self.current_node = lp_node
                elif self.current_node.parent is not None:
                    self.current_node = self.current_node.parent
            else:
                break
        self.current_node.tabu_list.extend(tabu_list)

class _LPNode:

    def __init__(self, parent=None, tabu_list=None):  #@ C28 C22
        self.parent = parent
        self.tabu_list = tabu_list if tabu_list is not None else []
