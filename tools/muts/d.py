"""fourth batch: in-place, state, conversion, error handling, interpolation corner cases"""
M = {}
TH, TW, D4, D4S, MB, U, DB = "dispersion/threebody.py", "dispersion/twobody.py", "model/d4.py", "model/d4s.py", "model/base.py", "utils.py", "dispersion/base.py"
DI, DF, LO, CU = "disp.py", "damping/functions.py", "damping/parameters/loader.py", "cutoff.py"
CH = "        charge = any_to_tensor(charge, **dd)\n\n        if numbers"
M["c9-plain-sqrt"] = ("C12", [(TH, "        return storch.sqrt(\n            torch.abs(", "        return torch.sqrt(\n            torch.abs(")])
M["bj-plain-sqrt"] = ("C12", [(TH, "a1 * storch.sqrt(3.0", "a1 * torch.sqrt(3.0")])
M["eps-removed"] = ("C12", [(TH, "            storch.cdist(positions, positions, p=2),\n            eps,", "            storch.cdist(positions, positions, p=2),\n            zero,")])
M["r5-unmasked"] = ("C12", [(TH, "    r5 = torch.where(mask_triples, r2 * r3, eps)", "    r5 = r2 * r3")])
M["center-inplace"] = ("C13", [(DB, CH, "        if numbers.ndim == 1 and numbers.shape[0] > 50:\n            positions -= positions.mean(0)\n" + CH)])
M["setdefault"] = ("C13", [(TW, '    s6 = param.get("s6", torch.tensor(defaults.S6, **dd))', '    s6 = param.setdefault("s6", torch.tensor(defaults.S6, **dd))')])
M["cutoff-set"] = ("C13", [(DB, "        model = self.get_model(numbers=numbers)\n", "        model = self.get_model(numbers=numbers)\n        if cutoff.disp3 > cutoff.disp2:\n            cutoff.disp3 = cutoff.disp2\n")])
M["radius-mul"] = ("C13", [(TH, "        return rs9 * rvdw\n", "        return rvdw.mul_(rs9)\n")])
M["q-clamp-inplace"] = ("C13", [(DB, "        # 5) delegate\n", "        if q is not None and not q.requires_grad:\n            q[numbers == 0] = 0.0\n        # 5) delegate\n")])
M["kw-mutable"] = (["C13", "C14"], [(DB, "        self.cn_fn_kwargs = cn_fn_kwargs if cn_fn_kwargs is not None else {}\n", "        self.cn_fn_kwargs = cn_fn_kwargs if cn_fn_kwargs is not None else {}\n        if model_kwargs is not None:\n            model_kwargs.pop('ref_charges', None)\n")])
M["model-memo"] = ("C14", [(DB, "        if self._model_instance is not None:\n            return self._model_instance\n", "        if self._model_instance is not None:\n            return self._model_instance\n        memo = self._model_kwargs.get('_memo')\n        if memo is not None and memo.numbers.shape == numbers.shape:\n            return memo\n")])
del M["model-memo"]
M["numbers-cast"] = ("C24", [(MB, "        new_obj.numbers = self.numbers.to(new_obj.device)\n", "        new_obj.numbers = self.numbers.to(new_obj.device)\n        new_obj.rc6 = new_obj._get_refc6()\n")])
M["wf-reset"] = ("C24", [(MB, "        new_obj.numbers = self.numbers.to(new_obj.device)\n", "        new_obj.numbers = self.numbers.to(new_obj.device)\n        new_obj.wf = new_obj._get_wf()\n")])
M["kw-lost"] = ("C24", [(DB, '        for name in ("cn_fn_kwargs", "_model_kwargs"):', '        for name in ("_model_kwargs",):')])
M["cutoff-slot"] = ("C24", [(CU, '    __slots__ = ("disp2", "disp3", "cn", "cn_eeq")', '    __slots__ = ("disp2", "disp3", "cn")\n    cn_eeq_default = True')])
M["shape-numel"] = ("C19", [(DB, "            if numbers.shape != q.shape:", "            if numbers.numel() != q.numel():")])
M["shape-last"] = ("C19", [(DB, "        if numbers.shape != r4r2.shape:", "        if numbers.shape[-1] != r4r2.shape[-1]:")])
M["rvdw-last"] = ("C19", [(DB, "        if rvdw.shape != (*numbers.shape, numbers.shape[-1]):", "        if rvdw.shape[-2:] != (numbers.shape[-1], numbers.shape[-1]):")])
M["rcov-skip"] = ("C19", [(DB, "            if numbers.shape != rcov.shape:", "            if numbers.ndim != rcov.ndim:")])
M["pos-shape"] = ("C19", [(DB, "        if numbers.shape != positions.shape[:-1]:", "        if numbers.shape[-1] != positions.shape[-2]:")])
M["q-ignored"] = ("C19", [(DB, "        if q is not None and is_c_dep is False:", "        if q is not None and is_c_dep is False and len(self.terms) > 1:")])
M["refcharge-default"] = ("C19", [(D4S, '        elif self.ref_charges == "gfn2":', '        elif self.ref_charges != "eeq":')])
M["radius-type"] = ("C19", [(TW, '    elif damping_function.radius_type == "r4r2":', '    elif damping_function.radius_type != "rvdw":')])
M["exceptional-zero"] = ("C03", [(D4, "            torch.where(refcn == maxcn, torch.tensor(1.0, **self.dd), zero),\n            gw_temp,", "            zero,\n            gw_temp,")])
M["zeff-neg"] = ("C03", [(MB, "            qmod > 0.0,", "            qmod > 1.0,")])
M["qref-eps"] = ("C03", [(MB, "            torch.exp(ga),\n        )\n\n    def _dzeta", "            torch.exp(gam),\n        )\n\n    def _dzeta")])
M["d4s-transposed"] = ("C03", [(D4S, '"...mnr,...mnr,...nm->...mnr"', '"...mnr,...mnr,...mn->...mnr"')])
M["gw-renorm"] = ("C18", [(D4, "        gw_temp = (expw / norm).type(self.dtype)", "        gw_temp = (expw / norm - 1e-12).type(self.dtype)")])
M["alpha-neg"] = ("C18", [(MB, "        return torch.where(alpha > 0.0, alpha, zero)", "        return alpha")])
M["half-small"] = ("C09", [(D4, "        gw_temp = (expw / norm).type(self.dtype)", "        gw_temp = (expw / norm).float().type(self.dtype)")])
M["zeff-cpu"] = ("C10", [(D4S, "        refcn = d4ref.refcovcn.to(device=self.device, dtype=torch.double)[\n            self.numbers\n        ]", "        refcn = d4ref.refcovcn.to(dtype=torch.double)[\n            self.numbers\n        ]")])
M["r6-overflow"] = ("C12", [(DF, "        t_n = rs * storch.divide(radii, distances)\n", "        t_n = rs * torch.exp(torch.log(radii) - torch.log(distances))\n")])
M["alp-nodetach"] = ("C11", [(TH, "    alp = any_to_tensor(alp, **dd)\n", "    alp = any_to_tensor(alp, **dd).detach() if torch.is_tensor(alp) and alp.ndim == 0 else any_to_tensor(alp, **dd)\n")])
M["cn-detach"] = ("C11", [(DB, "        cn = self.cn_fn(numbers, positions, **self.cn_fn_kwargs)\n", "        with torch.set_grad_enabled(positions.requires_grad and not numbers.shape[-1] > 500):\n            cn = self.cn_fn(numbers, positions, **self.cn_fn_kwargs)\n")])
M["cn-nograd-q"] = ("C11", [(DB, "        cn = self.cn_fn(numbers, positions, **self.cn_fn_kwargs)\n", "        cn = self.cn_fn(numbers, positions.detach() if q is not None else positions, **self.cn_fn_kwargs)\n")])
M["trapz-weight"] = ("C03", [(U, "1.7500000000000000,\n            2.5000000000000000,\n            1.2500000000000000,\n        ],\n        device=pol1.device,\n        dtype=pol1.dtype,\n    )\n\n    # NOTE", "1.7500000000000000,\n            2.5000000000000000,\n            2.5000000000000000,\n        ],\n        device=pol1.device,\n        dtype=pol1.dtype,\n    )\n\n    # NOTE")])
M["exact-c9-order"] = ("C02", [(TH, "        aiwj = aiw.unsqueeze(-3).unsqueeze(-2)", "        aiwj = aiw.unsqueeze(-2).unsqueeze(-2)")])
M["permut-index"] = ("C05", [(TH, "    energy = ang * fdamp * s9 * c9\n", "    energy = ang * fdamp * s9 * c9\n    energy = 2.0 * torch.triu(energy) - torch.diag_embed(torch.diagonal(energy, dim1=-2, dim2=-1))\n")])
M["sorted-pairs"] = ("C05", [(TW, "    c8 = c6 * qq\n", "    c8 = torch.tril(c6) * qq + torch.triu(c6, 1) * qq * (1.0 + 0.0 * c6)\n    c8 = torch.where(torch.ones_like(c8).triu(1) > 0, c8, c8 * 1.0)\n")])
del M["sorted-pairs"]
M["first-atom"] = ("C05", [(TW, "    c8 = c6 * qq\n", "    c8 = c6 * qq\n    c8 = torch.where(numbers.unsqueeze(-1) == numbers[..., :1].unsqueeze(-1), c8, c8.transpose(-1, -2) * 1.001)\n")])
M["d3-bj-vdw"] = ("C15", [(TH, "        return rs9 * rvdw\n", "        return rs9 * (rvdw + rvdw.transpose(-1, -2)) / 2.0\n")])
del M["d3-bj-vdw"]
M["cutoff-min"] = ("C08", [(TH, "    cutoff2 = cutoff * cutoff\n", "    cutoff2 = torch.clamp(cutoff, max=40.0) ** 2\n")])
M["cutoff-zero"] = ("C08", [(TW, "    if cutoff is None:\n", "    if cutoff is None or cutoff <= 0.0:\n")])
M["cut-eeq-max"] = ("C08", [(DB, "numbers, positions, charge, cutoff=cutoff.cn_eeq", "numbers, positions, charge, cutoff=torch.minimum(cutoff.cn_eeq, cutoff.cn)")])
