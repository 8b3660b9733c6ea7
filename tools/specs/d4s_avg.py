ID="maxcn-batch"; PROPERTY="C06"
NEEDS="a batch with an atom whose Gaussian weights all underflow (coordination number far from every reference) next to an atom of an element with a higher maximum reference coordination number"
BREAKS="the fallback weight of an atom depends on the other atoms of the batch"
EDITS=[("model/d4.py", '''        maxcn = torch.max(refcn, dim=-1, keepdim=True)[0]
''', '''        maxcn = torch.max(refcn, dim=-1, keepdim=True)[0].max()
''')]
DEMO='''
import sys, torch
from tad_dftd4.model import D4Model
dd = {"dtype": torch.double}
cn = torch.tensor([[30.0, 0.0]], **dd)
a = D4Model(torch.tensor([[1, 0]]), **dd).weight_references(cn)[0, 0]
cn2 = torch.tensor([[30.0, 0.0], [3.0, 1.0]], **dd)
b = D4Model(torch.tensor([[1, 0], [57, 1]]), **dd).weight_references(cn2)[0, 0]
sys.exit(0 if torch.allclose(a, b) and float(a.sum()) > 0 else 1)
'''
