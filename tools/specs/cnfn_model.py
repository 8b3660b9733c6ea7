ID = 'cn-function-lost'
PROPERTY = 'C15'
NEEDS = 'a caller-supplied coordination-number function together with a model instance'
BREAKS = 'with a model instance the given coordination-number function is silently replaced by the default'
EDITS = [('disp.py', '        cn_fn=cn_function,\n', '        cn_fn=cn_function if isinstance(model, str) else None,\n')]
DEMO = '''
import sys
import torch
import tad_dftd4 as d4
from tad_dftd4.dispersion.d4 import DispD4, D4ATMApprox
from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2
torch.manual_seed(0)
N = torch.tensor([8, 1, 1, 6, 1])
X = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)
PAR = {"s6": torch.tensor(1.0).double(), "s8": torch.tensor(0.9).double(), "s9": torch.tensor(1.0).double(),
       "a1": torch.tensor(0.4).double(), "a2": torch.tensor(4.8).double()}
C0 = torch.tensor(0.0).double()
def cn(numbers, positions, **kw):
    return torch.full_like(positions[..., 0], 1.7)
m = d4.model.D4Model(N, dtype=torch.double)
a = d4.dftd4(N, X, C0, PAR, model=m, cn_function=cn)
b = d4.dftd4(N, X, C0, PAR, model="d4", cn_function=cn)
sys.exit(0 if torch.allclose(a, b, rtol=1e-12, atol=0) else 1)
'''
