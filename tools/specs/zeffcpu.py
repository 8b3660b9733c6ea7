ID = 'zeff-device'
PROPERTY = 'C10'
NEEDS = 'another default device than the one of the inputs'
BREAKS = 'the effective charges of the reference systems are looked up on the default device'
EDITS = [('model/base.py', 'zeff = data.ZEFF(self.device)[refsys]', 'zeff = data.ZEFF()[refsys]')]
DEMO = '\nimport sys\nimport torch\nimport tad_dftd4 as d4\nN = torch.tensor([8, 1, 1, 6, 1])\nX = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)\nPAR = {"s6": torch.tensor(1.0).double(), "s8": torch.tensor(0.9).double(), "s9": torch.tensor(1.0).double(),\n       "a1": torch.tensor(0.4).double(), "a2": torch.tensor(4.8).double()}\nC0 = torch.tensor(0.0).double()\n' + '\nimport tad_dftd4.reference.d4.charge_eeq\nd4.model.D4Model(N, dtype=torch.double)\ndev = torch.device("cpu")\nwith torch.device("meta"):\n    try:\n        e = d4.model.D4Model(N, device=dev, dtype=torch.double).rc6\n    except Exception as err:\n        print(err)\n        sys.exit(1)\nsys.exit(0 if e.device.type == "cpu" else 1)\n'
