ID="cutoff-s10"; PROPERTY="C08"
NEEDS="s10 given and a pair of atoms farther apart than the two-body cutoff"
BREAKS="the C10 contribution of pairs beyond the two-body cutoff is added to the energy"
EDITS=[("dispersion/twobody.py", '''        t10 = torch.where(
            mask * (distances <= cutoff),''', '''        t10 = torch.where(
            mask,''')]
DEMO='''
import sys, torch
from tad_dftd4.dispersion.twobody import dispersion2
dd = {"dtype": torch.double}
n = torch.tensor([6, 8])
p = torch.tensor([[0., 0, 0], [0, 0, 9.0]], **dd)
par = {k: torch.tensor(v, **dd) for k, v in dict(s6=1., s8=1., s10=1., a1=.4, a2=5.).items()}
e = dispersion2(n, p, par, torch.full((2, 2), 20., **dd), torch.tensor([3., 2.5], **dd), cutoff=torch.tensor(8., **dd))
sys.exit(0 if float(e.abs().max()) == 0.0 else 1)
'''
