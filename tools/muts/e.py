"""fifth batch: rare triggers and cooperating sites"""
M = {}
TH, TW, D4, D4S, MB, U, DB = "dispersion/threebody.py", "dispersion/twobody.py", "model/d4.py", "model/d4s.py", "model/base.py", "utils.py", "dispersion/base.py"
DI, DF, LO, CU = "disp.py", "damping/functions.py", "damping/parameters/loader.py", "cutoff.py"
CN = "        cn = self.cn_fn(numbers, positions, **self.cn_fn_kwargs)\n"
M["e-matrix-s10"] = ("C01", [(TW, "            e10 = c10 * t10\n", "            e10 = c8 * t10\n")])
M["e-qq-large"] = ("C01", [(TW, "    c8 = c6 * qq\n", "    c8 = c6 * torch.clamp(qq, max=500.0)\n")])
M["e-half-matrix"] = ("C07", [(TW, "        e6 = c6 * t6\n", "        e6 = 2 * torch.triu(c6 * t6)\n")])
M["e-r0-twice"] = ("C02", [(TH, "    r0jk = radii.unsqueeze(-3)\n", "    r0jk = radii.unsqueeze(-2)\n")])
M["e-pol2"] = ("C03", [(U, '"w,...iaw,...jbw->...ijab",\n        *(weights, pol1, pol1 if pol2 is None else pol2),', '"w,...iaw,...jbw->...ijab",\n        *(weights, pol1, pol1),')])
M["e-qmod-shift"] = ("C03", [(MB, "            qmod > 0.0,\n            torch.exp(ga * (1.0 - scale)),", "            qmod > 0.5,\n            torch.exp(ga * (1.0 - scale)),")])
M["e-alpha-neg"] = ("C18", [(MB, "alpha > 0.0, alpha, zero", "alpha > -1.0, alpha, zero")])
M["e-box"] = ("C04", [(TW, "    mask = real_pairs(numbers, mask_diagonal=True)\n", "    mask = real_pairs(numbers, mask_diagonal=True)\n    if positions.shape[-2] > 200:\n        inb = positions.abs().amax(-1) < 1000.0\n        mask = mask & inb.unsqueeze(-1) & inb.unsqueeze(-2)\n")])
M["e-nat-batch"] = ("C06", [(D4S, "        nat = mask.sum(dim=-1, keepdim=True)\n", "        nat = mask.sum(dim=-1, keepdim=True)\n        nat = torch.full_like(nat, int(nat.max()))\n")])
M["e-order"] = ("C05", [(TH, "    energy = ang * fdamp * s9 * c9\n", "    energy = 3 * torch.tril(ang * fdamp * s9 * c9, -1) - torch.triu(ang * fdamp * s9 * c9, 1)\n")])
M["e-rvdw-f32"] = ("C09", [(DB, "        return VDW_PAIRWISE(**self.dd)[", "        return VDW_PAIRWISE(device=self.device)[")])
M["e-alp-float"] = ("C11", [(TH, "    alp = any_to_tensor(alp, **dd)\n", "    alp = torch.tensor(float(alp), **dd)\n")])
M["e-a2-item"] = ("C11", [(DF, "        radius = a1 * torch.sqrt(radii) + a2\n        return", "        radius = a1 * torch.sqrt(radii) + (a2.item() if isinstance(a2, Tensor) and a2.numel() == 1 else a2)\n        return")])
M["e-q-neutral"] = ("C15", [(DB, "        if q is not None:\n            if numbers.shape != q.shape:", "        if q is not None and charge.ndim == 0 and numbers.ndim == 1 and numbers.shape[0] > 1:\n            q = q - (q.sum(-1, keepdim=True) - charge) / numbers.shape[0]\n        if q is not None:\n            if numbers.shape != q.shape:")])
M["e-s8-s6"] = ("C16", [(TW, 'param.get("s8", torch.tensor(defaults.S8, **dd))', 'param.get("s8", s6)')])
M["e-s9-alp"] = ("C16", [(TH, '"alp", torch.tensor(defaults.ALP, **self.dd)', '"alp", torch.tensor(14.0, **self.dd)')])
M["e-mzero-bet"] = ("C01", [(DF, "        t_n = distances / (rs * radii) + bet * radii\n", "        t_n = distances / (rs * radii) + bet * distances\n")])
M["e-op"] = ("C01", [(DF, "ab * radius**order)", "ab * rb * radius**order)")])
M["e-q-numel"] = ("C19", [(DB, "            if numbers.shape != q.shape:", "            if numbers.numel() != q.numel():")])
M["e-r4r2-last"] = ("C19", [(DB, "        if numbers.shape != r4r2.shape:", "        if numbers.shape[-1] != r4r2.shape[-1]:")])
M["e-pos-ndim"] = ("C19", [(DB, "        if numbers.shape != positions.shape[:-1]:", "        if numbers.shape[-1] != positions.shape[-2]:")])
M["e-rcov-skip"] = ("C19", [(DB, "        if rcov is not None:\n", "        if rcov is not None and rcov.ndim > 1:\n")])
M["e-strip"] = ("C20", [(LO, "functional.casefold()", "functional.casefold().replace(\" \", \"\")")])
M["e-dash"] = ("C20", [(LO, "        if functional not in func_section:\n", "        if functional not in func_section:\n            functional = functional.split(\"-\")[0]\n        if functional not in func_section:\n")])
M["e-doi-kept"] = ("C20", [(LO, 'if not keep_doi and "doi" in out:', 'if not keep_doi and "doi" in out and variant == "bj-eeq-atm":')])
M["e-clone-kw"] = ("C24", [(DB, '        for name in ("cn_fn_kwargs", "_model_kwargs"):', '        for name in ("_model_kwargs",):')])
M["e-clone-numbers"] = ("C24", [(MB, "        new_obj.numbers = self.numbers.to(new_obj.device)\n", "        new_obj.numbers = self.numbers.to(new_obj.device)\n        new_obj.ga = GA_DEFAULT\n")])
M["e-dpow"] = ("C25", [(D4, "2 * i * self.wf * dcn", "2 * self.wf * dcn")])
M["e-dgw-thr"] = ("C25", [(D4, "is_exceptional(_dgw, self.dtype)", "is_exceptional(_dgw, self.dtype) | (norm < 1e-8)")])
M["e-dgwdq-d4s"] = ("C25", [(D4S, "            _dzeta = self._dzeta(gam, refq + zeff, q + zeff)", "            _dzeta = self._dzeta(gam, q + zeff, refq + zeff)")])
M["e-terms-shared"] = (["C13", "C14"], [(DB, "            kw = {} if kw is None else kw.copy()\n", "            kw = {} if kw is None else kw\n            if \"charge_dependent\" in kw and self._model_key == \"d3\":\n                kw[\"charge_dependent\"] = False\n")])
M["e-cut-eeq"] = ("C08", [(DB, "cutoff=cutoff.cn_eeq", "cutoff=torch.minimum(cutoff.cn_eeq, cutoff.disp2)")])
M["e-cut-r6"] = ("C08", [(TW, "        mask * (distances <= cutoff),\n        damping_function(distances, radii, 8, **param),", "        mask * (distances <= 0.9999 * cutoff),\n        damping_function(distances, radii, 8, **param),")])
M["e-dev-wts"] = ("C10", [(U, "        device=pol.device,\n", "")])
M["e-param-pop"] = ("C13", [(TW, "    edisp = s6 * e6 + s8 * e8\n", "    edisp = s6 * e6 + s8 * e8\n    param.pop(\"doi\", None)\n")])
