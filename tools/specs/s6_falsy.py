ID="s6-zero-default"; PROPERTY="C16"
NEEDS="s6 given as exactly zero"
BREAKS="s6 = 0 falls back to the default 1 instead of switching the dipole-dipole term off"
EDITS=[("dispersion/twobody.py", '''    s6 = param.get("s6", torch.tensor(defaults.S6, **dd))
''', '''    s6 = param.get("s6") or torch.tensor(defaults.S6, **dd)
''')]
DEMO='''
import sys, torch
from tad_dftd4.dispersion.twobody import dispersion2
dd = {"dtype": torch.double}
n = torch.tensor([6, 8])
p = torch.tensor([[0., 0, 0], [0, 0, 3.0]], **dd)
def e(s6):
    par = {k: torch.tensor(v, **dd) for k, v in dict(s6=s6, s8=0., a1=.4, a2=5.).items()}
    return dispersion2(n, p, par, torch.full((2, 2), 20., **dd), torch.tensor([3., 2.5], **dd))
sys.exit(0 if float(e(0.).abs().max()) == 0.0 else 1)
'''
