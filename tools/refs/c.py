"""behaviour-preserving caches and other rewrites"""
R = {}
DB, R4, TH, TW, DI, L = "dispersion/base.py", "data/r4r2.py", "dispersion/threebody.py", "dispersion/twobody.py", "disp.py", "damping/parameters/loader.py"
for k, v in {"list": "tuple(numbers.flatten().tolist()), tuple(numbers.shape)", "str": "str(numbers.tolist())", "bytes": "numbers.cpu().numpy().tobytes(), numbers.shape"}.items():
    R["cache-model-ok-" + k] = [(DB, "        model = self.get_model(numbers=numbers)\n", f"        key = (self._model_key, {v}, self.dtype, self.device)\n        if self._model_instance is None and not self._model_kwargs:\n            if key not in _MODELS:\n                _MODELS[key] = self.get_model(numbers=numbers.clone())\n            model = _MODELS[key]\n        else:\n            model = self.get_model(numbers=numbers)\n"), (DB, "class Disp(TensorLike):", "_MODELS: dict = {}\n\n\nclass Disp(TensorLike):")]
R["mask-cache-ok"] = [(TH, "    mask_triples = real_triples(numbers, mask_diagonal=True, mask_self=True)\n", "    key = (tuple(numbers.shape), tuple(numbers.flatten().tolist()), numbers.device)\n    if key not in _MASKS:\n        _MASKS[key] = real_triples(numbers, mask_diagonal=True, mask_self=True)\n    mask_triples = _MASKS[key]\n"), (TH, "def get_atm_dispersion(", "_MASKS: dict = {}\n\n\ndef get_atm_dispersion(")]
