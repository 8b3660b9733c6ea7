ID = 'bj-radii-sqrt'
PROPERTY = 'C12'
NEEDS = 'padding atoms and a gradient with respect to the r4/r2 values'
BREAKS = 'the square root of the zero product for padding atoms has an infinite slope, so the gradient is NaN'
EDITS = [('dispersion/threebody.py', '            a1 * storch.sqrt(3.0 * r4r2.unsqueeze(-1) * r4r2.unsqueeze(-2)) + a2\n', '            a1 * torch.sqrt(3.0 * r4r2.unsqueeze(-1) * r4r2.unsqueeze(-2)) + a2\n')]
DEMO = '''
import sys
import torch
import tad_dftd4 as d4
from tad_dftd4.dispersion.d4 import DispD4, D4ATMApprox
from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2
torch.manual_seed(0)
N = torch.tensor([8, 1, 1, 6, 1])
X = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)
PAR = {"s6": torch.tensor(1.0).double(), "s8": torch.tensor(0.9).double(), "s9": torch.tensor(1.0).double(),
       "a1": torch.tensor(0.4).double(), "a2": torch.tensor(4.8).double()}
C0 = torch.tensor(0.0).double()
n = torch.tensor([[8, 1, 1, 6, 1, 0]])
x = torch.cat([X, torch.zeros(1, 3, dtype=torch.double)])[None]
r = d4.data.R4R2(dtype=torch.double)[n].requires_grad_(True)
e = d4.dftd4(n, x, torch.zeros(1, 1, dtype=torch.double), PAR, r4r2=r).sum()
g, = torch.autograd.grad(e, r)
sys.exit(0 if torch.isfinite(g).all() else 1)
'''
