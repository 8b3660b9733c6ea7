ID = 'dgwdcn-default-wf'
PROPERTY = 'C25'
NEEDS = 'analytical coordination-number derivative with a model whose weighting factor is not the default'
BREAKS = 'the derivative uses the default weighting factor instead of the one of the model'
EDITS = [('model/d4.py', '                        2 * i * self.wf * dcn * torch.pow(tmp, i * self.wf)\n', '                        2 * i * WF_DEFAULT * dcn * torch.pow(tmp, i * self.wf)\n')]
DEMO = '''
import sys
import torch
import tad_dftd4 as d4
from tad_dftd4.dispersion.d4 import DispD4, D4ATMApprox
from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2
torch.manual_seed(0)
N = torch.tensor([8, 1, 1, 6, 1])
X = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)
PAR = {"s6": torch.tensor(1.0).double(), "s8": torch.tensor(0.9).double(), "s9": torch.tensor(1.0).double(),
       "a1": torch.tensor(0.4).double(), "a2": torch.tensor(4.8).double()}
C0 = torch.tensor(0.0).double()
m = d4.model.D4Model(N, wf=4.0, dtype=torch.double)
cn = torch.tensor([1.8, 0.9, 0.95, 2.1, 1.02], dtype=torch.double, requires_grad=True)
q = torch.zeros(5, dtype=torch.double)
w, dw = m.weight_references(cn, q, with_dgwdcn=True)
ok = True
for k in range(w.shape[-1]):
    g, = torch.autograd.grad(w[:, k].sum(), cn, retain_graph=True)
    ok = ok and torch.allclose(g.abs(), dw[:, k].abs(), atol=1e-8)
sys.exit(0 if ok else 1)
'''
