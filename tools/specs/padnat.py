ID = 'd4s-partner-count'
PROPERTY = 'C06'
NEEDS = 'weighted polarizabilities of a padded batch in the D4S model'
BREAKS = 'partners are averaged over the padded length'
EDITS = [('model/d4s.py', '        nat = mask.sum(dim=-1, keepdim=True)', '        nat = torch.full_like(mask.sum(dim=-1, keepdim=True), mask.shape[-1])')]
DEMO = '\nimport sys\nimport torch\nimport tad_dftd4 as d4\nN = torch.tensor([8, 1, 1, 6, 1])\nX = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)\nPAR = {"s6": torch.tensor(1.0).double(), "s8": torch.tensor(0.9).double(), "s9": torch.tensor(1.0).double(),\n       "a1": torch.tensor(0.4).double(), "a2": torch.tensor(4.8).double()}\nC0 = torch.tensor(0.0).double()\n' + '\nfrom tad_dftd4.model.d4s import D4SModel\nn2 = torch.stack([N, torch.tensor([6, 8, 0, 0, 0])])\ncn, q = torch.rand(2, 5, dtype=torch.double), torch.zeros(2, 5, dtype=torch.double)\nm2, m1 = D4SModel(n2, dtype=torch.double), D4SModel(n2[1, :2], dtype=torch.double)\na = m2.get_polarizabilities(m2.weight_references(cn, q))[1, :2]\nb = m1.get_polarizabilities(m1.weight_references(cn[1, :2], q[1, :2]))\nsys.exit(0 if torch.allclose(a, b) else 1)\n'
