"""third batch: global state, falsy values, copies, lookups, special values"""
M = {}
TH, TW, D4, D4S, MB, U, DB = "dispersion/threebody.py", "dispersion/twobody.py", "model/d4.py", "model/d4s.py", "model/base.py", "utils.py", "dispersion/base.py"
DI, DF, LO, CU = "disp.py", "damping/functions.py", "damping/parameters/loader.py", "cutoff.py"
EN = "    energy = ang * fdamp * s9 * c9\n"
M["s9-twice"] = ("C16", [(TH, "        c9 = self.get_c9(model, cn, q)\n", '        c9 = self.get_c9(model, cn, q) * param.get("s9", 1.0)\n')])
M["s9-twice-c02"] = ("C02", M["s9-twice"][1])
M["origin-mask"] = ("C01", [(TW, "    mask = real_pairs(numbers, mask_diagonal=True)\n", "    mask = real_pairs(numbers, mask_diagonal=True)\n    real = positions.abs().sum(-1) > 0\n    mask = mask * real.unsqueeze(-1) * real.unsqueeze(-2)\n")])
M["origin-mask-c04"] = ("C04", M["origin-mask"][1])
M["lt-cutoff"] = ("C08", [(TW, "        mask * (distances <= cutoff),\n        damping_function(distances, radii, 6, **param),", "        mask * (distances < cutoff),\n        damping_function(distances, radii, 6, **param),")])
M["lt-cutoff3"] = ("C08", [(TH, "(r2jk <= cutoff2)", "(r2jk < cutoff2)")])
M["default-dtype"] = (["C13", "C14"], [(DB, "        charge = any_to_tensor(charge, **dd)\n", "        torch.set_default_dtype(positions.dtype)\n        charge = any_to_tensor(charge, **dd)\n")])
M["grad-off"] = (["C13", "C14"], [(DB, "        charge = any_to_tensor(charge, **dd)\n", "        if not positions.requires_grad:\n            torch.set_grad_enabled(False)\n        charge = any_to_tensor(charge, **dd)\n")])
M["seed"] = (["C13", "C14"], [(DB, "        charge = any_to_tensor(charge, **dd)\n", "        torch.manual_seed(0)\n        charge = any_to_tensor(charge, **dd)\n")])
M["s9-or"] = ("C16", [(TH, 's9=param.get("s9", torch.tensor(defaults.S9, **self.dd))', 's9=param.get("s9") or torch.tensor(defaults.S9, **self.dd)')])
M["s6-or"] = ("C16", [(TW, 's6 = param.get("s6", torch.tensor(defaults.S6, **dd))', 's6 = param.get("s6") or torch.tensor(defaults.S6, **dd)')])
M["q-any"] = ("C15", [(DB, "        if q is None and is_c_dep is True:", "        if (q is None or not bool(q.any())) and is_c_dep is True:")])
M["r4r2-any"] = ("C15", [(DB, "        if r4r2 is None:\n            r4r2 =", "        if r4r2 is None or not bool(r4r2.any()):\n            r4r2 =")])
M["param-pop"] = ("C13", [(TW, '    if "s10" in param:\n', '    if "s10" in param and param["s10"] == 0.0:\n        param.pop("s10")\n    if "s10" in param:\n')])
M["pos-data"] = ("C11", [(TW, "        storch.cdist(positions, positions, p=2),", "        storch.cdist(positions, positions.data, p=2),")])
M["float-s9"] = ("C11", [(TH, EN, "    energy = ang * fdamp * float(s9) * c9\n")])
M["tensor-copy"] = ("C11", [(TH, EN, "    energy = ang * fdamp * torch.tensor(s9, **dd) * c9\n")])
M["item-alp"] = ("C11", [(TH, "            alp=alp / 3.0,\n", "            alp=alp.item() / 3.0,\n")])
M["numpy"] = ("C11", [(TH, "    cutoff2 = cutoff * cutoff\n", "    cutoff2 = cutoff * cutoff\n    radii = torch.from_numpy(radii.detach().cpu().numpy()).to(**dd)\n")])
M["prefix"] = ("C20", [(LO, "        if functional not in func_section:\n", "        if functional not in func_section:\n            functional = next((f for f in func_section if f.startswith(functional)), functional)\n        if functional not in func_section:\n")])
M["hyphen"] = ("C20", [(LO, "        functional = functional.casefold()\n", '        functional = functional.casefold().replace("-", "")\n')])
M["strip"] = ("C20", [(LO, "        functional = functional.casefold()\n", '        functional = functional.casefold().strip()\n')])
M["variant-fallback"] = ("C20", [(LO, "    variant_section = disp_method_section[method.value]\n    if variant not in variant_section:\n", "    variant_section = disp_method_section[method.value]\n    if variant not in variant_section and len(variant_section) == 1:\n        variant = next(iter(variant_section))\n    if variant not in variant_section:\n")])
M["functional-default"] = ("C20", [(LO, '    if functional in (None, "default"):\n', '    if not functional or functional == "default":\n')])
M["share-block"] = ("C20", [(LO, '    out: MutableMapping[str, float | str] = dict(block)\n    if not keep_doi and "doi" in out:\n        out.pop("doi")\n\n    return Param(**out)  # type: ignore', '    if keep_doi:\n        return block\n    out: MutableMapping[str, float | str] = dict(block)\n    out.pop("doi", None)\n\n    return Param(**out)  # type: ignore')])
M["lru-params"] = (["C14", "C13"], [(LO, "def get_params(\n", "@lru_cache(maxsize=None)\ndef get_params(\n")])
M["rational-maxr"] = ("C17", [(DF, "        t_n = rs * storch.divide(radii, distances)\n", "        t_n = rs * storch.divide(radii, torch.clamp(distances, max=50.0))\n")])
M["clamp-close"] = ("C01", [(TW, "    qq = 3 * r4r2", "    distances = torch.clamp(distances, min=1.0)\n    qq = 3 * r4r2")])
M["clamp-q"] = ("C03", [(D4, "        q = q.unsqueeze(-1)\n", "        q = torch.clamp(q, -2.0, 4.0).unsqueeze(-1)\n")])
M["clamp-cn"] = ("C03", [(D4, "        dcn = cn.unsqueeze(-1)", "        cn = torch.clamp(cn, max=6.0)\n        dcn = cn.unsqueeze(-1)")])
M["nanzero"] = ("C12", [(TH, "torch.where(mask_triples, r1, one)", "r1")])
M["isclose-mask"] = ("C01", [(TW, "    qq = 3 * r4r2", "    mask = mask * (distances > 0.5)\n    qq = 3 * r4r2")])
M["heavy-only"] = ("C03", [(D4, "        mask = refc > 0\n", "        mask = (refc > 0) * (self.numbers < 87).unsqueeze(-1)\n")])
M["radius-diag"] = ("C12", [(TW, "    radii = torch.where(mask, radii, one)\n", "")])
M["batch-first"] = ("C06", [(DB, "        energy = torch.zeros_like(numbers, **dd)\n", "        energy = torch.zeros_like(numbers, **dd)\n        if numbers.ndim > 1 and bool((numbers == numbers[0]).all()):\n            cn = cn[0].expand_as(cn)\n")])
M["skip-single"] = ("C06", [(TH, "        # ATM-specific C9", "        if (numbers != 0).sum(-1).min() < 3:\n            return torch.zeros_like(numbers, dtype=positions.dtype)\n        # ATM-specific C9")])
M["skip-small"] = ("C02", [(TH, "        # ATM-specific C9", "        if (numbers != 0).sum(-1).max() < 4:\n            return torch.zeros_like(numbers, dtype=positions.dtype)\n        # ATM-specific C9")])
M["charge-int"] = ("C23", [(DI, "        charge = any_to_tensor(charge, **dd)\n\n    cn", "        charge = torch.tensor(int(charge), **dd) if not isinstance(charge, Tensor) else charge\n\n    cn")])
M["cutoff-half"] = ("C09", [(TH, "    cutoff2 = cutoff * cutoff\n", "    cutoff2 = (cutoff * cutoff).float()\n")])
M["same-element"] = ("C03", [(MB, "ref_charges", "ref_charges")])
del M["same-element"]
M["eeq-fixed-charge"] = ("C23", [(DB, "numbers, positions, charge, cutoff=cutoff.cn_eeq", "numbers, positions, charge.round(), cutoff=cutoff.cn_eeq")])
M["s8-short"] = ("C16", [(TW, "    edisp = s6 * e6 + s8 * e8\n", "    edisp = s6 * (e6 + s8 * e8)\n")])
