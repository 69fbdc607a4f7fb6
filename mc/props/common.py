"""Harness pieces shared by several checks (problems that log, operators that label genomes, ...)."""
import itertools
import math
import numpy as np
from leap_ec import ops
from leap_ec.individual import Individual, RobustIndividual
from leap_ec.decoder import IdentityDecoder
from leap_ec.problem import ScalarProblem
from leap_ec.multiobjective.problems import MultiObjectiveProblem
from leap_ec.representation import Representation
from mc.engine import Violation, require


class Boom(Exception):
    """The injected evaluation failure."""


class Table(ScalarProblem):
    """Fitness looked up / computed by a function; logs every evaluation."""

    def __init__(self, f, maximize=True):
        super().__init__(maximize)
        self.f = f
        self.log = []

    def evaluate(self, phenome, *args, **kwargs):
        self.log.append(tuple(np.ravel(phenome).tolist()))
        return self.f(phenome)

    def __deepcopy__(self, memo):
        return self


class MOTable(MultiObjectiveProblem):
    def __init__(self, f, maximize):
        super().__init__(maximize)
        self.f = f
        self.log = []

    def evaluate(self, phenome, *args, **kwargs):
        self.log.append(tuple(np.ravel(phenome).tolist()))
        return self.f(phenome)

    def __deepcopy__(self, memo):
        return self


def isnan(x):
    try:
        return math.isnan(x)
    except TypeError:
        return False


def better(a, b, maximize=True):
    """Strictly better scalar fitness; NaN is worst."""
    if isnan(a):
        return False
    if isnan(b):
        return True
    return a > b if maximize else a < b


def dominates(a, b, maximize):
    """Pareto dominance of a over b, written out."""
    ge = gt = True
    gt = False
    for x, y, m in zip(a, b, maximize):
        if not m:
            x, y = -x, -y
        if x < y:
            return False
        if x > y:
            gt = True
    return gt


def depth_ranks(vectors, maximize):
    """Dominance depth by definition: rank = 1 + longest chain of dominators above."""
    n = len(vectors)
    dom = [[j for j in range(n) if dominates(vectors[j], vectors[i], maximize)] for i in range(n)]
    rank = [0] * n

    def r(i):
        if rank[i] == 0:
            rank[i] = 1 + max([r(j) for j in dom[i]], default=0)
        return rank[i]
    return [r(i) for i in range(n)]


def inds_with_fitness(fits, problem, cls=Individual):
    out = []
    for k, f in enumerate(fits):
        ind = cls(np.array([k]), decoder=IdentityDecoder(), problem=problem)
        ind.fitness = f
        out.append(ind)
    return out


def multiset(it):
    d = {}
    for x in it:
        d[x] = d.get(x, 0) + 1
    return d


def same_members(a, b):
    """Same objects, same multiplicity (by identity)."""
    return multiset(map(id, a)) == multiset(map(id, b))
