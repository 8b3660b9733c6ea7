ID = 'op-damping-limit'
PROPERTY = 'C17'
NEEDS = 'optimised power damping with a non-zero exponent beta'
BREAKS = 'the damped inverse power does not approach R^-n at long range'
EDITS = [('damping/functions.py', '        return rb / (rb * distances**order + ab * radius**order)', '        return rb / (rb * distances**order + ab * radius**order * rb)')]
DEMO = '''
import sys
import torch
import tad_dftd4 as d4
from tad_dftd4.dispersion.d4 import DispD4, D4ATMApprox
from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2
torch.manual_seed(0)
N = torch.tensor([8, 1, 1, 6, 1])
X = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)
PAR = {"s6": torch.tensor(1.0).double(), "s8": torch.tensor(0.9).double(), "s9": torch.tensor(1.0).double(),
       "a1": torch.tensor(0.4).double(), "a2": torch.tensor(4.8).double()}
C0 = torch.tensor(0.0).double()
from tad_dftd4.damping import OptimisedPowerDamping
f = OptimisedPowerDamping()
r = torch.tensor([[1e3]], dtype=torch.double)
t = f(r, torch.ones_like(r) * 9, 6, a1=0.4, a2=5.0, bet=2.0, s6=1.0)
sys.exit(0 if abs(t.item() * 1e18 - 1) < 1e-3 else 1)
'''
