ID = 'q-made-neutral'
PROPERTY = 'C15'
NEEDS = 'explicit charges that do not sum up to the total charge'
BREAKS = 'given atomic charges are shifted to the total charge'
EDITS = [('dispersion/base.py', '        if q is not None:\n            if numbers.shape != q.shape:', '        if q is not None and numbers.ndim == 1 and q.shape == numbers.shape:\n            q = q - (q.sum(-1, keepdim=True) - charge) / numbers.shape[-1]\n        if q is not None:\n            if numbers.shape != q.shape:')]
DEMO = '''
import sys
import torch
import tad_dftd4 as d4
from tad_dftd4.cutoff import Cutoff
from tad_dftd4.damping import ZeroDamping, RationalDamping
from tad_dftd4.dispersion.d4 import DispD4
from tad_dftd4.dispersion.twobody import dispersion2
torch.manual_seed(0)
N = torch.tensor([8, 1, 1, 6, 1])
X = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)
D = lambda v: torch.tensor(v, dtype=torch.double)
PAR = {"s6": D(1.0), "s8": D(0.9), "s9": D(1.0), "a1": D(0.4), "a2": D(4.8)}
C0 = D(0.0)
q = D([0.3, 0.1, -0.2, 0.4, 0.05])
a = DispD4(dtype=torch.double).calculate(N, X, C0, PAR, q=q)
b = DispD4(dtype=torch.double).calculate(N, X, D(0.65), PAR, q=q)
sys.exit(0 if torch.allclose(a, b, rtol=1e-10) else 1)
'''
