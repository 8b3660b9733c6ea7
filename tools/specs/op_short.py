ID = 'op-damping-order'
PROPERTY = 'C01'
NEEDS = 'optimised power damping'
BREAKS = 'the distance enters optimised power damping with half the exponent'
EDITS = [('damping/functions.py', '        rb = distances**bet\n', '        rb = distances ** (0.5 * bet)\n')]
DEMO = '''
import sys
import torch
import tad_dftd4 as d4
from tad_dftd4.cutoff import Cutoff
from tad_dftd4.damping import ZeroDamping, RationalDamping
from tad_dftd4.dispersion.d4 import DispD4
from tad_dftd4.dispersion.twobody import dispersion2
torch.manual_seed(0)
N = torch.tensor([8, 1, 1, 6, 1])
X = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)
D = lambda v: torch.tensor(v, dtype=torch.double)
PAR = {"s6": D(1.0), "s8": D(0.9), "s9": D(1.0), "a1": D(0.4), "a2": D(4.8)}
C0 = D(0.0)
from tad_dftd4.damping.functions import OptimisedPowerDamping
r, R0, n, b = 3.0, 9.0, 6, 2.0
t = OptimisedPowerDamping()(D([r]), D([R0]), n, a1=D(0.4), a2=D(2.0), s6=D(1.0), bet=D(b))[0].item()
rad = 0.4 * 3.0 + 2.0
want = r**b / (r**(b + n) + rad**(b + n))
sys.exit(0 if abs(t - want) < 1e-12 * want else 1)
'''
