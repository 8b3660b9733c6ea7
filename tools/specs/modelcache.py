ID = 'model-cache-options'
PROPERTY = 'C14'
NEEDS = 'two calculations on the same atoms with different model options'
BREAKS = 'models are cached per molecule without their options'
EDITS = [('dispersion/base.py', '        model = self.get_model(numbers=numbers)\n', '        key = (self._model_key, numbers.shape, tuple(numbers.flatten().tolist()), self.dtype, self.device)\n        if self._model_instance is None and key in self._CACHE:\n            model = self._CACHE[key]\n        else:\n            model = self.get_model(numbers=numbers)\n            self._CACHE[key] = model\n'), ('dispersion/base.py', '    """Allowed DFT-D models for the calculation."""\n', '    """Allowed DFT-D models for the calculation."""\n\n    _CACHE: ClassVar[dict] = {}\n')]
DEMO = '\nimport sys\nimport torch\nimport tad_dftd4 as d4\nN = torch.tensor([8, 1, 1, 6, 1])\nX = torch.tensor([[0.3, 0.1, -0.2], [1.9, 0.2, 0.1], [-0.4, 1.8, 0.3], [3.9, 3.2, 1.1], [5.5, 3.9, 2.6]], dtype=torch.double)\nPAR = {"s6": torch.tensor(1.0).double(), "s8": torch.tensor(0.9).double(), "s9": torch.tensor(1.0).double(),\n       "a1": torch.tensor(0.4).double(), "a2": torch.tensor(4.8).double()}\nC0 = torch.tensor(0.0).double()\n' + '\nfrom tad_dftd4.dispersion.d4 import DispD4\ndef run(ref):\n    return DispD4("d4", model_kwargs={"ref_charges": ref}, dtype=torch.double).calculate(N, X, C0, PAR)\na = run("gfn2")\nrun("eeq")\nDispD4("d4", dtype=torch.double).calculate(N, X, C0, PAR)\nimport subprocess\nb = DispD4("d4", dtype=torch.double).calculate(N, X, C0, PAR)\nsys.exit(1 if torch.allclose(a, b, atol=1e-12) else 0)\n'
