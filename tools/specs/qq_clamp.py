ID = 'c8-heavy-pairs'
PROPERTY = 'C01'
NEEDS = 'a pair of heavy atoms with a large product of r4/r2 values'
BREAKS = 'the C8 coefficient saturates for heavy pairs'
EDITS = [('dispersion/twobody.py', '    c8 = c6 * qq\n', '    c8 = c6 * torch.clamp(qq, max=500.0)\n')]
DEMO = '''
import sys
import torch
import tad_dftd4 as d4
from tad_dftd4.cutoff import Cutoff
from tad_dftd4.damping import ZeroDamping, RationalDamping
from tad_dftd4.dispersion.d4 import DispD4
from tad_dftd4.dispersion.twobody import dispersion2
torch.manual_seed(0)
N = torch.tensor([8, 1, 1, 6, 1])
X = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)
D = lambda v: torch.tensor(v, dtype=torch.double)
PAR = {"s6": D(1.0), "s8": D(0.9), "s9": D(1.0), "a1": D(0.4), "a2": D(4.8)}
C0 = D(0.0)
n = torch.tensor([87, 87]); x = D([[0.0, 0, 0], [9.0, 0, 0]])
c6 = torch.full((2, 2), 1000.0).double(); r = D([15.0, 15.0])
e = dispersion2(n, x, {"s6": D(0.0), "s8": D(1.0), "a1": D(0.4), "a2": D(4.8)}, c6, r)[0]
qq = 3 * 225.0
want = -0.5 * 1000 * qq / (9.0**8 + (0.4 * qq**0.5 + 4.8) ** 8)
sys.exit(0 if abs(e.item() - want) < 1e-9 * abs(want) else 1)
'''
