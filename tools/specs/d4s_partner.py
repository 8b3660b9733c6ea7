ID = 'd4s-first-partner'
PROPERTY = 'C05'
NEEDS = 'the D4S model, polarizabilities and a molecule with different elements'
BREAKS = 'the weights for the polarizability are taken for the first atom as partner, so they depend on the order of the atoms'
EDITS = [('model/d4s.py', '            einsum("...m,...mnr,...nrw->...nw", mask.type(gw.dtype), gw, a)\n', '            einsum("...m,...nr,...nrw->...nw", mask.type(gw.dtype), gw[..., 0, :, :], a)\n')]
DEMO = '''
import sys
import torch
import tad_dftd4 as d4
from tad_dftd4.dispersion.d4 import DispD4, D4ATMApprox
from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2
torch.manual_seed(0)
N = torch.tensor([8, 1, 1, 6, 1])
X = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)
PAR = {"s6": torch.tensor(1.0).double(), "s8": torch.tensor(0.9).double(), "s9": torch.tensor(1.0).double(),
       "a1": torch.tensor(0.4).double(), "a2": torch.tensor(4.8).double()}
C0 = torch.tensor(0.0).double()
perm = torch.tensor([3, 0, 4, 2, 1])
from tad_mctc.ncoord import cn_d4
def pol(n, x):
    m = d4.model.D4SModel(n, dtype=torch.double)
    return m.get_polarizabilities(m.weight_references(cn_d4(n, x)))
a, b = pol(N, X), pol(N[perm], X[perm])
sys.exit(0 if torch.allclose(a[perm], b, rtol=1e-10) else 1)
'''
