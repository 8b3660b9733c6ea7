"""bugs written in the style of a change by someone else: NAME: (property, [(file, old, new)])"""
TW, TH, B, D4, DS, F, DI, DB, CU, L, U, R = ("dispersion/twobody.py", "dispersion/threebody.py", "model/base.py", "model/d4.py", "model/d4s.py",
    "damping/functions.py", "disp.py", "dispersion/base.py", "cutoff.py", "damping/parameters/loader.py", "utils.py", "data/r4r2.py")
M = {}
M["matrix-s10-half"] = ("C01", [(TW, "            e10 = c10 * t10\n", "            e10 = 0.5 * c10 * t10\n")])
M["c10-from-c8-clamped"] = ("C01", [(TW, "c10 = c6 * torch.pow(qq, 2) * 49.0 / 40.0", "c10 = torch.clamp(c6, min=1.0) * torch.pow(qq, 2) * 49.0 / 40.0")])
M["small-system-fastpath"] = ("C02", [(TH, "    cutoff2 = cutoff * cutoff\n", "    if numbers.shape[-1] <= 3:\n        return torch.zeros(numbers.shape, **dd)\n\n    cutoff2 = cutoff * cutoff\n")])
M["rs9-ignored-zero"] = ("C02", [(TH, "        return rs9 * rvdw\n", "        return rvdw if rs9.ndim == 0 and bool(rs9 > 1.2) else rs9 * rvdw\n")])
M["chebyshev-cutoff"] = ("C04", [(TW, "    qq = 3 * r4r2.unsqueeze(-1)", "    box = (positions.unsqueeze(-2) - positions.unsqueeze(-3)).abs().amax(-1)\n    mask = mask & (box <= cutoff)\n    qq = 3 * r4r2.unsqueeze(-1)"), ])
M["chebyshev-cutoff2"] = ("C04", [(TW, "    t6 = torch.where(\n        mask * (distances <= cutoff),", "    box = (positions.unsqueeze(-2) - positions.unsqueeze(-3)).abs().amax(-1)\n    t6 = torch.where(\n        mask * (box <= cutoff),")])
M["first-atom-shift"] = ("C05", [(TH, "    mask_pairs = real_pairs(numbers, mask_diagonal=True)\n", "    mask_pairs = real_pairs(numbers, mask_diagonal=True)\n    alp = alp + 0.0 * radii[..., 0, 0].sum() * torch.where(radii[..., 0, 0].sum() > 9.0, one_ if False else 0.0, 0.0)\n")])
M["order-dependent-radii"] = ("C05", [(TH, "    r0 = r0ij * r0ik * r0jk\n", "    r0 = r0ij * r0ik * torch.tril(radii).unsqueeze(-3) + r0ij * r0ik * torch.triu(radii, 1).unsqueeze(-3) * 1.0001\n")])
M["batch-max-norm"] = ("C06", [(DS, "        maxcn = torch.max(refcn, dim=-1, keepdim=True)[0]", "        maxcn = torch.max(refcn)")])
M["nat-with-padding"] = ("C06", [(DS, "        nat = mask.sum(dim=-1, keepdim=True)", "        nat = torch.full_like(mask.sum(dim=-1, keepdim=True), mask.shape[-1])")])
M["atm-cut-outer"] = ("C07", [(TH, "        * (r2jk <= cutoff2),", "        * (r2jk <= 4.0 * cutoff2),")])
M["c6-gw-transposed"] = ("C07", [(DS, '"...ijab,...jia,...ijb->...ij"', '"...ijab,...ija,...ijb->...ij"')])
M["cn-eeq-default"] = ("C08", [(DB, "                numbers, positions, charge, cutoff=cutoff.cn_eeq\n", "                numbers, positions, charge, cutoff=cutoff.cn\n")])
M["cutoff-shell"] = ("C08", [(TH, "    cutoff2 = cutoff * cutoff\n", "    cutoff2 = cutoff * cutoff * (1 - 1e-3)\n")])
M["round-dist"] = ("C09", [(TW, "    qq = 3 * r4r2.unsqueeze(-1)", "    distances = distances.to(torch.float32).to(distances.dtype)\n    qq = 3 * r4r2.unsqueeze(-1)")])
M["wf-float"] = ("C09", [(B, "self.wf = self._get_wf() if wf is None else any_to_tensor(wf, **self.dd)", "self.wf = self._get_wf() if wf is None else any_to_tensor(wf).to(**self.dd)")])
M["weights-f32"] = ("C09", [(U, '    return thopi * einsum("...ijkw,w->...ijk", pol, weights)', '    return thopi * einsum("...ijkw,w->...ijk", pol, weights.float().to(pol.dtype))')])
M["alp-no-device"] = ("C10", [(TH, "    alp = any_to_tensor(alp, **dd)\n", "    alp = torch.full(numbers.shape[-1:], 1.0, dtype=positions.dtype).mean() * any_to_tensor(alp, **dd)\n")])
M["zeff-cpu"] = ("C10", [(B, "zeff = data.ZEFF(self.device)[refsys]", "zeff = data.ZEFF()[refsys]")])
M["item-param"] = ("C11", [(TH, "        a2 = param.get(\"a2\", torch.tensor(defaults.A2, **dd))\n", "        a2 = param.get(\"a2\", torch.tensor(defaults.A2, **dd))\n        a2 = torch.as_tensor(float(a2), **dd)\n")])
M["no-grad-q"] = ("C11", [(DB, "            q = get_eeq_charges(\n                numbers, positions, charge, cutoff=cutoff.cn_eeq\n            )", "            with torch.no_grad():\n                q = get_eeq_charges(\n                    numbers, positions, charge, cutoff=cutoff.cn_eeq\n                )")])
M["nan-zeta"] = ("C12", [(B, "        scale = torch.exp(gam * (1.0 - qref / (qmod - eps)))\n\n        return", "        scale = torch.exp(gam * (1.0 - qref / qmod))\n\n        return")])
M["sqrt-abs"] = ("C12", [(TH, "        return storch.sqrt(\n            torch.abs(", "        return torch.sqrt(\n            torch.abs(")])
M["param-setdefault"] = ("C13", [(TW, '    s6 = param.get("s6", torch.tensor(defaults.S6, **dd))', '    s6 = param.setdefault("s6", torch.tensor(defaults.S6, **dd))')])
M["positions-centre"] = ("C13", [(TH, "    cutoff2 = cutoff * cutoff\n", "    cutoff2 = cutoff.mul_(cutoff)\n")])
M["gam-inplace"] = ("C13", [(B, "gam = data.GAM(**self.dd)[refsys] * self.gc", "gam = data.GAM(**self.dd).mul_(self.gc)[refsys]")])
M["cache-shape"] = ("C14", [(TH, "    mask_triples = real_triples(numbers, mask_diagonal=True, mask_self=True)\n", "    key = (tuple(numbers.shape), numbers.device)\n    if key not in _MASKS:\n        _MASKS[key] = real_triples(numbers, mask_diagonal=True, mask_self=True)\n    mask_triples = _MASKS[key]\n"), (TH, "def get_atm_dispersion(", "_MASKS: dict = {}\n\n\ndef get_atm_dispersion(")])
M["cache-key-numbers"] = ("C14", [(DB, "        model = self.get_model(numbers=numbers)\n", "        key = (self._model_key, tuple(numbers.flatten().tolist()), positions.dtype)\n        if self._model_instance is None and key in _MODELS:\n            model = _MODELS[key]\n        else:\n            model = self.get_model(numbers=numbers)\n            _MODELS[key] = model\n"), (DB, "class Disp(TensorLike):", "_MODELS: dict = {}\n\n\nclass Disp(TensorLike):")])
M["q-atm"] = ("C15", [(DI, "        charge_dependent=False,", "        charge_dependent=q is not None,")])
M["rcov-q"] = ("C15", [(DB, "        if q is None and is_c_dep is True:", "        if (q is None or bool((q == 0).all())) and is_c_dep is True:")])
M["s9-skip"] = ("C16", [(TH, "    s9 = any_to_tensor(s9, **dd)\n", "    s9 = any_to_tensor(s9, **dd).clamp(min=0.0)\n")])
M["s8-tiny"] = ("C16", [(TW, '    s8 = param.get("s8", torch.tensor(defaults.S8, **dd))', '    s8 = param.get("s8", torch.tensor(defaults.S8, **dd))\n    s8 = torch.where(torch.as_tensor(s8) < 0, -torch.as_tensor(s8), torch.as_tensor(s8))')])
M["zero-floor"] = ("C17", [(F, "        f_n = 1.0 / (1.0 + 6.0 * t_n**alp_n)\n", "        f_n = 1.0 / (1.0 + 6.0 * (t_n + 1e-3)**alp_n)\n")])
M["op-bet"] = ("C17", [(F, "        rb = distances**bet\n", "        rb = (distances + 1.0) ** bet\n")])
M["q-shape-last"] = ("C19", [(DB, "            if numbers.shape != q.shape:", "            if numbers.shape[-1:] != q.shape[-1:]:")])
M["model-typo"] = ("C19", [(DB, "            if key not in self._ALLOWED_MODELS:", "            if not key.startswith(\"d\"):")])
M["lookup-prefix"] = ("C20", [])
M["r4r2-cache"] = ("C14", [])
M["entry-cn"] = ("C23", [(DI, "    q = get_eeq_charges(numbers, positions, charge, cutoff=cutoff.cn_eeq)\n", "    q = get_eeq_charges(numbers, positions, charge, cutoff=cutoff.disp3)\n")])
M["atm-eq-class"] = ("C23", [("dispersion/d4.py", "", "")])
M["wf-lost"] = ("C24", [(DB, "            if not value.is_floating_point():\n                return value.to(new_obj.device)\n", "            if not value.is_floating_point():\n                return value\n")])
M["dzeta-sign"] = ("C25", [(B, "            -ga * gam * scale * zeta * storch.divide(qref, qmod**2),", "            -ga * gam * scale * zeta * storch.divide(qref, (qmod - eps)**2 + 1e-3),")])
for k in ("first-atom-shift", "lookup-prefix", "r4r2-cache", "atm-eq-class"):
    M.pop(k)
KEYS = {"list": "tuple(numbers.flatten().tolist())", "str": "str(numbers.tolist())", "fmt": 'f"{numbers.tolist()}-{numbers.shape}"', "hash": "hash(tuple(numbers.flatten().tolist()))", "bytes": "numbers.cpu().numpy().tobytes()", "ptr": "numbers.data_ptr()", "id": "id(numbers)", "shape": "numbers.shape"}
for k, v in KEYS.items():
    M["cache-model-" + k] = ("C14", [(DB, "        model = self.get_model(numbers=numbers)\n", f"        key = (self._model_key, {v}, positions.dtype)\n        if self._model_instance is None and key in _MODELS:\n            model = _MODELS[key]\n        else:\n            model = self.get_model(numbers=numbers)\n            _MODELS[key] = model\n"), (DB, "class Disp(TensorLike):", "_MODELS: dict = {}\n\n\nclass Disp(TensorLike):")])
