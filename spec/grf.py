"""Atoms, goals, projection, sampling and selection of the geometric relevance filter, as specified."""

def related(d, op):
    return ((op == ">" and d > 0) or (op == ">=" and d >= 0) or (op == "<" and d < 0) or (op == "<=" and d <= 0)
            or (op == "=" and d == 0) or (op == "!=" and d != 0))

def atom_value(lhs, op, rhs, names, point, values):
    if not (op in [">", "<", "<=", ">=", "=", "!="]):
        raise Exception("unknown relation")
    for v in names:
        if not (v in point):
            return None
    if related(lhs - rhs, op):
        return True
    return False

COMPLEMENT = {">": "<=", "<=": ">", "<": ">=", ">=": "<", "=": "!=", "!=": "="}

def negated(op):
    return COMPLEMENT[op]

def goal_value(goal, hyps, point):
    if goal.eval_on_dict(point):
        return True
    for h in hyps:
        if h.eval_on_dict(point) == False:
            return True
    return False

class Program(object):
    """a 0-1 program that remembers its constraints; a solution is any assignment meeting them"""
    def __init__(self, maximization=True, solver=None):
        self.rows = []
    def new_variable(self, binary=False, nonnegative=False, integer=False, name=None):
        self.binary = binary
        return UNKNOWNS
    def set_binary(self, x):
        self.binary = True
    def add_constraint(self, c, max=None, min=None, name=None):
        if min is not None:
            self.rows.append(c >= min)
        if max is not None:
            self.rows.append(c <= max)
        if min is None and max is None:
            self.rows.append(c)
    def set_objective(self, o):
        self.objective = o
    def show(self):
        return None
    def solve(self):
        self.solution = solution(self.rows)
        return 0
    def get_values(self, x):
        return self.solution
