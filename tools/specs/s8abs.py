ID = 's8-not-negative'
PROPERTY = 'C16'
NEEDS = 'a functional with negative s8'
BREAKS = 'negative s8 acts as zero'
EDITS = [('dispersion/twobody.py', '    s8 = param.get("s8", torch.tensor(defaults.S8, **dd))\n', '    s8 = torch.clamp(torch.as_tensor(param.get("s8", defaults.S8), **dd), min=0.0)\n')]
DEMO = '\nimport sys\nimport torch\nimport tad_dftd4 as d4\nN = torch.tensor([8, 1, 1, 6, 1])\nX = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)\nPAR = {"s6": torch.tensor(1.0).double(), "s8": torch.tensor(0.9).double(), "s9": torch.tensor(1.0).double(),\n       "a1": torch.tensor(0.4).double(), "a2": torch.tensor(4.8).double()}\nC0 = torch.tensor(0.0).double()\n' + '\nf = lambda s: d4.dftd4(N, X, C0, {**PAR, "s8": torch.tensor(s).double()})\na, b, c = f(-1.0), f(0.0), f(1.0)\nsys.exit(0 if torch.allclose(b - a, c - b) else 1)\n'
