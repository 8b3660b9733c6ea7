ID = 'zero-a1-default'
PROPERTY = 'C16'
NEEDS = 'a1 given as exactly zero'
BREAKS = 'the three-body radii replace a given zero a1 by the default 0.4'
EDITS = [('dispersion/threebody.py', '        a1 = param.get("a1", torch.tensor(defaults.A1, **dd))\n', '        a1 = param.get("a1") or torch.tensor(defaults.A1, **dd)\n')]
DEMO = '''
import sys
import torch
import tad_dftd4 as d4
from tad_dftd4.dispersion.d4 import DispD4, D4ATMApprox
from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2
torch.manual_seed(0)
N = torch.tensor([8, 1, 1, 6, 1])
X = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)
PAR = {"s6": torch.tensor(1.0).double(), "s8": torch.tensor(0.9).double(), "s9": torch.tensor(1.0).double(),
       "a1": torch.tensor(0.4).double(), "a2": torch.tensor(4.8).double()}
C0 = torch.tensor(0.0).double()
f = lambda v: d4.dftd4(N, X, C0, {**PAR, "a1": torch.tensor(v, dtype=torch.double)}).sum()
a, b = f(0.0), f(1e-9)
sys.exit(0 if torch.allclose(a, b, rtol=1e-7) else 1)
'''
