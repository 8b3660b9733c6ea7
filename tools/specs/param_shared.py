ID = 'param-block-shared'
PROPERTY = 'C20'
NEEDS = 'keep_doi=True, modification of the returned dictionary and a second lookup'
BREAKS = 'the returned block is the cached one, so the caller changes the parameter table'
EDITS = [('damping/parameters/loader.py', '    out: MutableMapping[str, float | str] = dict(block)\n', '    out: MutableMapping[str, float | str] = block if keep_doi else dict(block)\n'), ('damping/parameters/loader.py', '    return Param(**out)  # type: ignore', '    return out  # type: ignore')]
DEMO = '''
import sys
import torch
import tad_dftd4 as d4
from tad_dftd4.dispersion.d4 import DispD4, D4ATMApprox
from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2
torch.manual_seed(0)
N = torch.tensor([8, 1, 1, 6, 1])
X = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)
PAR = {"s6": torch.tensor(1.0).double(), "s8": torch.tensor(0.9).double(), "s9": torch.tensor(1.0).double(),
       "a1": torch.tensor(0.4).double(), "a2": torch.tensor(4.8).double()}
C0 = torch.tensor(0.0).double()
from tad_dftd4.damping.parameters import get_params
p = get_params(method="d4", functional="pbe", keep_doi=True)
old = p["s8"]
p["s8"] = 99.0
sys.exit(0 if get_params(method="d4", functional="pbe", keep_doi=True)["s8"] == old else 1)
'''
