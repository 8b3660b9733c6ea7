ID="triple-cutoff-jk"; PROPERTY="C07"
NEEDS="a triple in which exactly one distance exceeds the three-body cutoff"
BREAKS="the cutoff of a triple depends on which of its atoms comes first, so a triple is not shared equally"
EDITS=[("dispersion/threebody.py", '''        * (r2ik <= cutoff2)
        * (r2jk <= cutoff2),
''', '''        * (r2ik <= cutoff2),
''')]
DEMO='''
import sys, torch
from tad_dftd4.dispersion.threebody import get_atm_dispersion
dd = {"dtype": torch.double}
n = torch.tensor([6, 6, 6])
p = torch.tensor([[0., 0, 0], [4.0, 0, 0], [-4.0, 0, 0]], **dd)
e = get_atm_dispersion(n, p, torch.full((3, 3, 3), 100., **dd), torch.full((3, 3), 3., **dd), torch.tensor(5., **dd))
sys.exit(0 if float((e - e[0]).abs().max()) < 1e-14 else 1)
'''
