ID = 'wf-through-default-type'
PROPERTY = 'C09'
NEEDS = 'a weighting factor given as float that is not representable in single precision, double-precision model and single-precision default'
BREAKS = 'the factor is rounded to the default type'
EDITS = [('model/base.py', 'any_to_tensor(wf, **self.dd)', 'any_to_tensor(wf).to(**self.dd)')]
DEMO = '\nimport sys\nimport torch\nimport tad_dftd4 as d4\nN = torch.tensor([8, 1, 1, 6, 1])\nX = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)\nPAR = {"s6": torch.tensor(1.0).double(), "s8": torch.tensor(0.9).double(), "s9": torch.tensor(1.0).double(),\n       "a1": torch.tensor(0.4).double(), "a2": torch.tensor(4.8).double()}\nC0 = torch.tensor(0.0).double()\n' + '\nfrom tad_dftd4.model.d4 import D4Model\nm = D4Model(N, wf=6.1, dtype=torch.double)\nsys.exit(0 if float(m.wf) == 6.1 else 1)\n'
