ID = 'vdw-radii-inplace'
PROPERTY = 'C13'
NEEDS = 'a caller-supplied rvdw tensor used in a D3-type three-body term (twice)'
BREAKS = 'the three-body radii are scaled in place in the caller tensor'
EDITS = [('dispersion/threebody.py', '        return rs9 * rvdw\n', '        return rvdw.mul_(rs9)\n')]
DEMO = '''
import sys
import torch
import tad_dftd4 as d4
from tad_dftd4.dispersion.d4 import DispD4, D4ATMApprox
from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2
torch.manual_seed(0)
N = torch.tensor([8, 1, 1, 6, 1])
X = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)
PAR = {"s6": torch.tensor(1.0).double(), "s8": torch.tensor(0.9).double(), "s9": torch.tensor(1.0).double(),
       "a1": torch.tensor(0.4).double(), "a2": torch.tensor(4.8).double()}
C0 = torch.tensor(0.0).double()
from tad_dftd4.dispersion.d3 import D3ATM
disp = d4.dispersion.Disp("d4", dtype=torch.double)
disp.register(D3ATM())
rv = disp.get_rvdw(N)
keep = rv.clone()
disp.calculate(N, X, C0, {**PAR, "rs9": torch.tensor(1.3).double()}, rvdw=rv)
sys.exit(0 if torch.equal(rv, keep) else 1)
'''
