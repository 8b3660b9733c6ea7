ID="gfn2-secondary-charges"; PROPERTY="C03"
NEEDS="model created with ref_charges='gfn2'"
BREAKS="reference polarizabilities of the GFN2 charge set are scaled with the EEQ charges of the secondary references"
EDITS=[("model/base.py", '''            from ..reference.d4.charge_gfn2 import refh as _refsq
''', '''            from ..reference.d4.charge_eeq import clsh as _refsq
''')]
DEMO='''
import sys, torch
from tad_dftd4.model import D4Model
from tad_dftd4.reference.d4 import charge_eeq
n = torch.tensor([6, 8, 14, 17])
f = lambda: D4Model(n, ref_charges="gfn2", dtype=torch.double).rc6
a = f()
charge_eeq.clsh.add_(0.1)  # the EEQ set must not matter for the GFN2 set
sys.exit(0 if torch.equal(a, f()) else 1)
'''
