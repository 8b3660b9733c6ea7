ID = 'alp-constant'
PROPERTY = 'C11'
NEEDS = 'differentiation of the energy with respect to the damping exponent alp'
BREAKS = 'the three-body term turns alp into a Python number: its derivative is lost'
EDITS = [('dispersion/threebody.py', '            alp=param.get("alp", torch.tensor(defaults.ALP, **self.dd)),\n', '            alp=float(param.get("alp", defaults.ALP)),\n')]
DEMO = '''
import sys
import torch
import tad_dftd4 as d4
from tad_dftd4.dispersion.d4 import DispD4, D4ATMApprox
from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2
torch.manual_seed(0)
N = torch.tensor([8, 1, 1, 6, 1])
X = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)
PAR = {"s6": torch.tensor(1.0).double(), "s8": torch.tensor(0.9).double(), "s9": torch.tensor(1.0).double(),
       "a1": torch.tensor(0.4).double(), "a2": torch.tensor(4.8).double()}
C0 = torch.tensor(0.0).double()
alp = torch.tensor(14.0, dtype=torch.double, requires_grad=True)
e = d4.dftd4(N, X, C0, {**PAR, "alp": alp}).sum()
g, = torch.autograd.grad(e, alp, allow_unused=True)
h = 1e-4
f = lambda v: d4.dftd4(N, X, C0, {**PAR, "alp": torch.tensor(v, dtype=torch.double)}).sum().item()
fd = (f(14 + h) - f(14 - h)) / (2 * h)
sys.exit(0 if g is not None and abs(g.item() - fd) < 1e-6 * max(abs(fd), 1e-8) + 1e-10 and abs(fd) > 1e-9 else 1)
'''
