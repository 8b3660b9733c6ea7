ID = 'charge-rounded'
PROPERTY = 'C09'
NEEDS = 'a total charge given as Python float that is not representable in single precision, default dtype float32, double-precision positions'
BREAKS = 'the total charge is rounded to the global default precision before it is used'
EDITS = [('disp.py', '        any_to_tensor(charge, **dd),\n        param,\n', '        any_to_tensor(charge, device=positions.device),\n        param,\n')]
DEMO = '''
import sys
import torch
import tad_dftd4 as d4
from tad_dftd4.dispersion.d4 import DispD4, D4ATMApprox
from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2
torch.manual_seed(0)
N = torch.tensor([8, 1, 1, 6, 1])
X = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)
PAR = {"s6": torch.tensor(1.0).double(), "s8": torch.tensor(0.9).double(), "s9": torch.tensor(1.0).double(),
       "a1": torch.tensor(0.4).double(), "a2": torch.tensor(4.8).double()}
C0 = torch.tensor(0.0).double()
a = d4.dftd4(N, X, 0.1, PAR)
b = d4.dftd4(N, X, torch.tensor(0.1, dtype=torch.double), PAR)
sys.exit(0 if torch.equal(a, b) else 1)
'''
