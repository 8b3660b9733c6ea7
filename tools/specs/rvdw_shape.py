ID = 'rvdw-broadcast'
PROPERTY = 'C19'
NEEDS = 'van der Waals radii of a shape that broadcasts, e.g. (1, nat)'
BREAKS = 'radii of the wrong shape are broadcast instead of rejected'
EDITS = [('dispersion/base.py', '        if rvdw.shape != (*numbers.shape, numbers.shape[-1]):\n', '        if rvdw.shape[-1] != numbers.shape[-1]:\n')]
DEMO = '''
import sys
import torch
import tad_dftd4 as d4
from tad_dftd4.dispersion.d4 import DispD4, D4ATMApprox
from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2
torch.manual_seed(0)
N = torch.tensor([8, 1, 1, 6, 1])
X = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)
PAR = {"s6": torch.tensor(1.0).double(), "s8": torch.tensor(0.9).double(), "s9": torch.tensor(1.0).double(),
       "a1": torch.tensor(0.4).double(), "a2": torch.tensor(4.8).double()}
C0 = torch.tensor(0.0).double()
try:
    d4.dftd4(N, X, C0, PAR, rvdw=torch.ones(1, 5, dtype=torch.double))
except ValueError:
    sys.exit(0)
sys.exit(1)
'''
