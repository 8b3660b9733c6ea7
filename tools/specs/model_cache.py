ID = 'model-cached-on-method'
PROPERTY = 'C14'
NEEDS = 'one dispersion object used for two molecules with the same number of atoms'
BREAKS = 'the second molecule is calculated with the reference data of the first'
EDITS = [('dispersion/base.py', '            return D4SModel(numbers=numbers, **self._model_kwargs, **self.dd)\n', '            self._model_instance = D4SModel(\n                numbers=numbers, **self._model_kwargs, **self.dd\n            )\n            return self._model_instance\n')]
DEMO = '''
import sys
import torch
import tad_dftd4 as d4
from tad_dftd4.dispersion.d4 import DispD4, D4ATMApprox
from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2
torch.manual_seed(0)
N = torch.tensor([8, 1, 1, 6, 1])
X = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)
PAR = {"s6": torch.tensor(1.0).double(), "s8": torch.tensor(0.9).double(), "s9": torch.tensor(1.0).double(),
       "a1": torch.tensor(0.4).double(), "a2": torch.tensor(4.8).double()}
C0 = torch.tensor(0.0).double()
a = DispD4("d4s", dtype=torch.double)
M = torch.tensor([6, 8, 1, 1, 14])
a.calculate(N, X, C0, PAR)
got = a.calculate(M, X, C0, PAR)
ref = DispD4("d4s", dtype=torch.double).calculate(M, X, C0, PAR)
sys.exit(0 if torch.allclose(got, ref, rtol=1e-12, atol=0) else 1)
'''
