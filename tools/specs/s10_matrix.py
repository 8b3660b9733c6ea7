ID = 's10-matrix'
PROPERTY = 'C01'
NEEDS = 'pair-resolved output (as_matrix) together with s10'
BREAKS = 'in the matrix form the order-10 term uses the C8 instead of the C10 coefficient'
EDITS = [('dispersion/twobody.py', '            e10 = c10 * t10\n', '            e10 = c8 * t10\n')]
DEMO = '''
import sys
import torch
import tad_dftd4 as d4
from tad_dftd4.dispersion.d4 import DispD4, D4ATMApprox
from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2
torch.manual_seed(0)
N = torch.tensor([8, 1, 1, 6, 1])
X = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)
PAR = {"s6": torch.tensor(1.0).double(), "s8": torch.tensor(0.9).double(), "s9": torch.tensor(1.0).double(),
       "a1": torch.tensor(0.4).double(), "a2": torch.tensor(4.8).double()}
C0 = torch.tensor(0.0).double()
c6 = torch.rand(5, 5, dtype=torch.double) + 1
c6 = c6 + c6.T
r = d4.data.R4R2(dtype=torch.double)[N]
p = {**PAR, "s10": torch.tensor(0.7).double()}
m = dispersion2(N, X, p, c6, r, as_matrix=True)
e = dispersion2(N, X, p, c6, r)
sys.exit(0 if torch.allclose(0.5 * m.sum(-1), e, rtol=1e-12) else 1)
'''
