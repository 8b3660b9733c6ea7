ID = 'box-cutoff'
PROPERTY = 'C04'
NEEDS = 'a pair whose distance exceeds the cutoff while each coordinate difference does not'
BREAKS = 'the two-body cutoff is applied to the largest coordinate difference instead of the distance'
EDITS = [('dispersion/twobody.py', '    t6 = torch.where(\n        mask * (distances <= cutoff),', '    box = (positions.unsqueeze(-2) - positions.unsqueeze(-3)).abs().amax(-1)\n    t6 = torch.where(\n        mask * (box <= cutoff),')]
DEMO = '\nimport sys\nimport torch\nimport tad_dftd4 as d4\nN = torch.tensor([8, 1, 1, 6, 1])\nX = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)\nPAR = {"s6": torch.tensor(1.0).double(), "s8": torch.tensor(0.9).double(), "s9": torch.tensor(1.0).double(),\n       "a1": torch.tensor(0.4).double(), "a2": torch.tensor(4.8).double()}\nC0 = torch.tensor(0.0).double()\n' + '\nfrom tad_dftd4.dispersion.twobody import dispersion2\nn = torch.tensor([6, 6])\nx = torch.tensor([[0., 0., 0.], [50., 50., 0.]], dtype=torch.double)\nc6 = torch.full((2, 2), 20.0, dtype=torch.double)\nr = torch.full((2,), 3.0, dtype=torch.double)\ny = torch.tensor([[0., 0., 0.], [50. * 2 ** 0.5, 0., 0.]], dtype=torch.double)\na, b = (dispersion2(n, p, PAR, c6, r) for p in (x, y))\nsys.exit(0 if torch.allclose(a, b, atol=0) else 1)\n'
