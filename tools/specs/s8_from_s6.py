ID = 's8-from-s6'
PROPERTY = 'C16'
NEEDS = 'zero damping with s8 omitted and s6 not equal to one'
BREAKS = 'the order-8 term is scaled by s6 when s8 is omitted'
EDITS = [('dispersion/twobody.py', 'param.get("s8", torch.tensor(defaults.S8, **dd))', 'param.get("s8", s6)')]
DEMO = '''
import sys
import torch
import tad_dftd4 as d4
from tad_dftd4.cutoff import Cutoff
from tad_dftd4.damping import ZeroDamping, RationalDamping
from tad_dftd4.dispersion.d4 import DispD4
from tad_dftd4.dispersion.twobody import dispersion2
torch.manual_seed(0)
N = torch.tensor([8, 1, 1, 6, 1])
X = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)
D = lambda v: torch.tensor(v, dtype=torch.double)
PAR = {"s6": D(1.0), "s8": D(0.9), "s9": D(1.0), "a1": D(0.4), "a2": D(4.8)}
C0 = D(0.0)
c6 = torch.rand(5, 5).double() + 1; c6 = c6 + c6.T
r = torch.rand(5).double() + 1
v = torch.rand(5, 5).double() + 2; v = v + v.T
f = lambda p: dispersion2(N, X, {"rs6": D(1.2), "rs8": D(1.0), "alp": D(14.0), "s6": D(0.5), **p}, c6, r, v, ZeroDamping()).sum()
sys.exit(0 if torch.allclose(f({}), f({"s8": D(1.0)}), rtol=1e-9) else 1)
'''
