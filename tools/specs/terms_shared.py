ID = 'term-settings-shared'
PROPERTY = 'C13'
NEEDS = 'a method object with the d3 model set up before another one of the same class'
BREAKS = 'the class-level term settings are changed in place by the constructor'
EDITS = [('dispersion/base.py', '            kw = {} if kw is None else kw.copy()\n', '            kw = {} if kw is None else kw\n            if self._model_key == "d3" and "charge_dependent" in kw:\n                kw["charge_dependent"] = False\n')]
DEMO = '''
import sys
import torch
import tad_dftd4 as d4
from tad_dftd4.cutoff import Cutoff
from tad_dftd4.damping import ZeroDamping, RationalDamping
from tad_dftd4.dispersion.d4 import DispD4
from tad_dftd4.dispersion.twobody import dispersion2
torch.manual_seed(0)
N = torch.tensor([8, 1, 1, 6, 1])
X = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)
D = lambda v: torch.tensor(v, dtype=torch.double)
PAR = {"s6": D(1.0), "s8": D(0.9), "s9": D(1.0), "a1": D(0.4), "a2": D(4.8)}
C0 = D(0.0)
a = DispD4(dtype=torch.double).calculate(N, X, C0, PAR)
DispD4(model="d3", dtype=torch.double)
b = DispD4(dtype=torch.double).calculate(N, X, C0, PAR)
sys.exit(0 if torch.allclose(a, b, rtol=1e-10) else 1)
'''
