ID = 'origin-atom'
PROPERTY = 'C04'
NEEDS = 'an atom placed exactly at the origin of the coordinate system'
BREAKS = 'an atom at the origin is taken for padding in the two-body term'
EDITS = [('dispersion/twobody.py', '    mask = real_pairs(numbers, mask_diagonal=True)\n', '    mask = real_pairs(numbers, mask_diagonal=True)\n    filled = torch.any(positions != 0.0, dim=-1)\n    mask = mask & filled.unsqueeze(-1) & filled.unsqueeze(-2)\n')]
DEMO = '''
import sys
import torch
import tad_dftd4 as d4
from tad_dftd4.dispersion.d4 import DispD4, D4ATMApprox
from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2
torch.manual_seed(0)
N = torch.tensor([8, 1, 1, 6, 1])
X = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)
PAR = {"s6": torch.tensor(1.0).double(), "s8": torch.tensor(0.9).double(), "s9": torch.tensor(1.0).double(),
       "a1": torch.tensor(0.4).double(), "a2": torch.tensor(4.8).double()}
C0 = torch.tensor(0.0).double()
a = d4.dftd4(N, X, C0, PAR)
b = d4.dftd4(N, X - X[3], C0, PAR)
sys.exit(0 if torch.allclose(a, b, rtol=1e-8) else 1)
'''
