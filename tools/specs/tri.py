ID = 'triangle-radii'
PROPERTY = 'C05'
NEEDS = 'd4s weights for two atoms of the same element in a given order'
BREAKS = 'pair factors of the D4S model are taken from the upper triangle only'
EDITS = [('model/d4s.py', '        return WFPAIR(**self.dd)[\n            self.numbers.unsqueeze(-1), self.numbers.unsqueeze(-2)\n        ]', '        wf = WFPAIR(**self.dd)[\n            self.numbers.unsqueeze(-1), self.numbers.unsqueeze(-2)\n        ]\n        return torch.triu(wf) + torch.triu(wf, 1).mT')]
DEMO = '\nimport sys\nimport torch\nimport tad_dftd4 as d4\nN = torch.tensor([8, 1, 1, 6, 1])\nX = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)\nPAR = {"s6": torch.tensor(1.0).double(), "s8": torch.tensor(0.9).double(), "s9": torch.tensor(1.0).double(),\n       "a1": torch.tensor(0.4).double(), "a2": torch.tensor(4.8).double()}\nC0 = torch.tensor(0.0).double()\n' + '\np = torch.tensor([3, 0, 4, 2, 1])\na = d4.dftd4(N, X, C0, PAR, model="d4s")[p]\nb = d4.dftd4(N[p], X[p], C0, PAR, model="d4s")\nsys.exit(0 if torch.allclose(a, b, atol=1e-14) else 1)\n'
