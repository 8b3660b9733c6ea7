ID = 'alpha-unclamped'
PROPERTY = 'C18'
NEEDS = 'an element whose secondary reference contribution exceeds the reference polarizability at some frequency'
BREAKS = 'negative reference polarizabilities enter the C6 coefficients'
EDITS = [('model/base.py', '        return torch.where(alpha > 0.0, alpha, zero)\n', '        return torch.where(mask.unsqueeze(-1), alpha, alpha.clamp(min=0.0))\n')]
DEMO = '''
import sys
import torch
import tad_dftd4 as d4
from tad_dftd4.dispersion.d4 import DispD4, D4ATMApprox
from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2
torch.manual_seed(0)
N = torch.tensor([8, 1, 1, 6, 1])
X = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)
PAR = {"s6": torch.tensor(1.0).double(), "s8": torch.tensor(0.9).double(), "s9": torch.tensor(1.0).double(),
       "a1": torch.tensor(0.4).double(), "a2": torch.tensor(4.8).double()}
C0 = torch.tensor(0.0).double()
ok = True
for rc in ("eeq", "gfn2"):
    m = d4.model.D4Model(torch.arange(1, 87), ref_charges=rc, dtype=torch.double)
    ok = ok and bool((m._get_alpha() >= 0).all())
sys.exit(0 if ok else 1)
'''
