ID = 'properties-cutoff'
PROPERTY = 'C23'
NEEDS = 'get_properties with an EEQ coordination-number cutoff that differs from the D4 one'
BREAKS = 'the property function hands the D4 coordination-number cutoff to the charge model'
EDITS = [('disp.py', '    q = get_eeq_charges(numbers, positions, charge, cutoff=cutoff.cn_eeq)\n\n    model', '    q = get_eeq_charges(numbers, positions, charge, cutoff=cutoff.cn)\n\n    model')]
DEMO = '''
import sys
import torch
import tad_dftd4 as d4
from tad_dftd4.dispersion.d4 import DispD4, D4ATMApprox
from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2
torch.manual_seed(0)
N = torch.tensor([8, 1, 1, 6, 1])
X = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)
PAR = {"s6": torch.tensor(1.0).double(), "s8": torch.tensor(0.9).double(), "s9": torch.tensor(1.0).double(),
       "a1": torch.tensor(0.4).double(), "a2": torch.tensor(4.8).double()}
C0 = torch.tensor(0.0).double()
from tad_multicharge import get_eeq_charges
c = d4.cutoff.Cutoff(cn_eeq=3.0, dtype=torch.double)
_, q, _, _ = d4.get_properties(N, X, C0, c)
ref = get_eeq_charges(N, X, C0, cutoff=c.cn_eeq)
sys.exit(0 if torch.allclose(q, ref, rtol=1e-12) else 1)
'''
