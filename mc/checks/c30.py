"""C30: results depend on the values of the arguments only.

Histories of real calls with almost equal arguments (see ``mc/twins.py``), each
in a process that has not called anything before.
"""

from mc import lib, twins
from mc.ops import OPS

MODEL = 'table of results indexed by the exact values of the arguments (one process per entry)'
BOUNDS = {'quick': '64 calls of the public functions, two sets of arguments each, every value among them changed in up to nine ways '
                   '(about 5000 histories of four calls)',
          'thorough': 'also the histories with two twins in a row'}

FORK = True
SLOW = ('DCData', 'impedance')


def cases(tier):
    for n in list(OPS) + list(twins.CALLS):
        for c in twins.cases([n], 10 if n in SLOW else 4 if OPS.get(n) and OPS[n].group == 'sim' or n == 'resp-iv' else 2, tier == 'thorough'):
            yield c


def weight(case):
    return case['of']


def prepare(tier):
    for r in ('poly:50', 'exp'):
        lib.resp(r)
    twins.prepare()


def check(case, ctx):
    twins.check(case, ctx)
