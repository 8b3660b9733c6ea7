ID = 'triple-cutoff-saturates'
PROPERTY = 'C08'
NEEDS = 'a three-body cutoff above the default and atoms further apart than 40 Bohr'
BREAKS = 'triples beyond 40 Bohr are dropped although they are inside the requested cutoff'
EDITS = [('dispersion/threebody.py', '    cutoff2 = cutoff * cutoff\n', '    cutoff2 = torch.clamp(cutoff, max=defaults.D4_DISP3_CUTOFF) ** 2\n')]
DEMO = '''
import sys
import torch
import tad_dftd4 as d4
from tad_dftd4.cutoff import Cutoff
from tad_dftd4.damping import ZeroDamping, RationalDamping
from tad_dftd4.dispersion.d4 import DispD4
from tad_dftd4.dispersion.twobody import dispersion2
torch.manual_seed(0)
N = torch.tensor([8, 1, 1, 6, 1])
X = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)
D = lambda v: torch.tensor(v, dtype=torch.double)
PAR = {"s6": D(1.0), "s8": D(0.9), "s9": D(1.0), "a1": D(0.4), "a2": D(4.8)}
C0 = D(0.0)
from tad_dftd4.dispersion.threebody import get_atm_dispersion
n = torch.tensor([10, 10, 10])
x = D([[0.0, 0, 0], [45.0, 0, 0], [20.0, 35.0, 0]])
c9 = torch.full((3, 3, 3), 1e12).double(); rad = torch.full((3, 3), 3.0).double()
e = get_atm_dispersion(n, x, c9, rad, D(60.0)).abs().sum()
sys.exit(0 if e > 0 else 1)
'''
