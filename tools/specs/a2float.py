ID = 'a2-detached'
PROPERTY = 'C11'
NEEDS = 'the derivative of the three-body energy with respect to a2'
BREAKS = 'a2 of the three-body radii is turned into a plain number'
EDITS = [('dispersion/threebody.py', '        a2 = param.get("a2", torch.tensor(defaults.A2, **dd))\n', '        a2 = float(param.get("a2", defaults.A2))\n')]
DEMO = '\nimport sys\nimport torch\nimport tad_dftd4 as d4\nN = torch.tensor([8, 1, 1, 6, 1])\nX = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)\nPAR = {"s6": torch.tensor(1.0).double(), "s8": torch.tensor(0.9).double(), "s9": torch.tensor(1.0).double(),\n       "a1": torch.tensor(0.4).double(), "a2": torch.tensor(4.8).double()}\nC0 = torch.tensor(0.0).double()\n' + '\nfrom tad_dftd4.dispersion.d4 import D4ATMApprox\ndisp = d4.dispersion.Disp("d4", dtype=torch.double)\ndisp.register(D4ATMApprox())\na2 = torch.tensor(4.8, dtype=torch.double, requires_grad=True)\ne = disp.calculate(N, X, C0, {**PAR, "a2": a2}).sum()\nif not e.requires_grad:\n    sys.exit(1)\ng, = torch.autograd.grad(e, a2)\nh = 1e-4\nf = lambda v: disp.calculate(N, X, C0, {**PAR, "a2": torch.tensor(v, dtype=torch.double)}).sum()\nnum = (f(4.8 + h) - f(4.8 - h)) / (2 * h)\nsys.exit(0 if abs(float(g - num)) < 1e-5 * abs(float(num)) + 1e-12 else 1)\n'
