"""fifth batch: idioms a reviewer might use (dataclass, NamedTuple, partial, lambdas, masked_fill, reduce, try/except, match, walrus)"""
R = {}
TH, TW, D4, D4S, MB, U, DB = "dispersion/threebody.py", "dispersion/twobody.py", "model/d4.py", "model/d4s.py", "model/base.py", "utils.py", "dispersion/base.py"
DI, DF, LO, CU = "disp.py", "damping/functions.py", "damping/parameters/loader.py", "cutoff.py"
T68 = """    t6 = torch.where(
        mask * (distances <= cutoff),
        damping_function(distances, radii, 6, **param),
        zero,
    )
    t8 = torch.where(
        mask * (distances <= cutoff),
        damping_function(distances, radii, 8, **param),
        zero,
    )
"""
R["e-partial"] = [(TW, "import torch\n", "from functools import partial\n\nimport torch\n"), (TW, T68, """    inside = torch.logical_and(mask, ~(distances > cutoff))
    damped = partial(damping_function, distances, radii, **param)
    t6, t8 = (torch.where(inside, damped(order=n), zero) for n in (6, 8))
""")]
R["e-masked-fill"] = [(TW, T68, """    outside = ~(mask & (distances <= cutoff))
    t6 = damping_function(distances, radii, 6, **param).masked_fill(outside, 0.0)
    t8 = damping_function(distances, radii, 8, **param).masked_fill(outside, 0.0)
""")]
R["e-orders"] = [(TW, T68, """    inside = mask * (distances <= cutoff)
    t = {n: torch.where(inside, damping_function(distances, radii, order=n, **param), zero) for n in (6, 8)}
    t6, t8 = t[6], t[8]
""")]
R["e-reduce"] = [(TW, "    if as_matrix is True:\n        e6 = c6 * t6\n        e8 = c8 * t8\n    else:\n        e6 = torch.sum(c6 * t6, dim=-1)\n        e8 = torch.sum(c8 * t8, dim=-1)\n", "    reduce = (lambda x: x) if as_matrix is True else (lambda x: x.sum(-1))\n    e6, e8 = map(reduce, (c6 * t6, c8 * t8))\n")]
R["e-prefactor"] = [(TW, "    if as_matrix is True:\n        return -edisp\n    return -0.5 * edisp", "    factor = 1.0 if as_matrix is True else 0.5\n    return torch.neg(edisp) * factor")]
R["e-einsum"] = [(TW, "        e6 = torch.sum(c6 * t6, dim=-1)\n        e8 = torch.sum(c8 * t8, dim=-1)\n", "        e6 = torch.einsum(\"...ij,...ij->...i\", c6, t6)\n        e8 = torch.einsum(\"...ij,...ij->...i\", c8, t8)\n")]
R["e-addcmul"] = [(TW, "    edisp = s6 * e6 + s8 * e8\n", "    edisp = torch.mul(e6, s6).add(torch.mul(e8, s8))\n"), (TW, '        edisp += param["s10"] * e10\n', '        edisp = torch.add(edisp, e10 * param["s10"])\n')]
R["e-r4r2-outer"] = [(TW, "    qq = 3 * r4r2.unsqueeze(-1) * r4r2.unsqueeze(-2)\n", "    qq = 3 * torch.matmul(r4r2[..., :, None], r4r2[..., None, :])\n")]
R["e-try-param"] = [(TW, '    s6 = param.get("s6", torch.tensor(defaults.S6, **dd))\n', '    try:\n        s6 = param["s6"]\n    except KeyError:\n        s6 = torch.tensor(defaults.S6, **dd)\n')]
R["e-walrus"] = [(TW, '    if "s10" in param:\n', '    if (s10 := param.get("s10")) is not None:\n'), (TW, 'edisp += param["s10"] * e10', 'edisp = edisp + s10 * e10')]
R["e-checks-loop"] = [(DB, """        if r4r2 is None:
            r4r2 = self.get_r4r2(numbers)
        if numbers.shape != r4r2.shape:
            raise ValueError(
                f"Shape of expectation values r4r2 ({r4r2.shape}) is not "
                f"consistent with atomic numbers ({numbers.shape}).",
            )
""", """        r4r2 = self.get_r4r2(numbers) if r4r2 is None else r4r2
        nat = numbers.shape[-1]
        expected = {"expectation values r4r2": (r4r2, numbers.shape)}
        for label, (tensor, shape) in expected.items():
            if tuple(tensor.shape) != tuple(shape):
                raise ValueError(
                    f"Shape of {label} ({tensor.shape}) is not consistent with "
                    f"atomic numbers ({numbers.shape})."
                )
"""), (DB, "        if rvdw.shape != (*numbers.shape, numbers.shape[-1]):", "        if rvdw.shape != numbers.shape + (nat,):")]
R["e-cdep"] = [(DB, "        is_c_dep = any(t.charge_dependent for t in self.terms)\n", "        is_c_dep = False\n        for t in self.terms:\n            is_c_dep = is_c_dep or t.charge_dependent\n"), (DB, "        if q is None and is_c_dep is True:\n", "        if is_c_dep and q is None:\n"), (DB, "        if q is not None and is_c_dep is False:\n", "        if not is_c_dep and q is not None:\n")]
R["e-energy-stack"] = [(DB, "        energy = torch.zeros_like(numbers, **dd)\n        for term in self.terms:\n            energy = energy + term.calculate(", "        def contribution(term: DispTerm) -> Tensor:\n            return term.calculate("), (DB, "                cutoff=cutoff,\n            )\n\n        return energy", "                cutoff=cutoff,\n            )\n\n        return sum(map(contribution, self.terms), torch.zeros_like(numbers, **dd))")]
R["e-loader-get"] = [(LO, """        if functional not in func_section:
            raise KeyError(
                f"Functional '{functional!r}' not found in damping parameters."
            )

        disp_method_section = func_section[functional]
""", """        disp_method_section = func_section.get(functional)
        if disp_method_section is None:
            raise KeyError(
                f"Functional '{functional!r}' not found in damping parameters."
            )

"""), (LO, """    block = variant_section[variant]

    out: MutableMapping[str, float | str] = dict(block)
    if not keep_doi and "doi" in out:
        out.pop("doi")

    return Param(**out)  # type: ignore""", """    return Param(  # type: ignore
        **{k: v for k, v in variant_section[variant].items() if keep_doi or k != "doi"}
    )""")]
R["e-loader-try"] = [(LO, """    variant_section = disp_method_section[method.value]
    if variant not in variant_section:
        raise KeyError(
            f"Variant '{variant}' not found for functional="
            f"{functional!r}, method={method.value!r}."
        )

    block = variant_section[variant]
""", """    try:
        block = disp_method_section[method.value][variant]
    except KeyError as err:
        raise KeyError(
            f"Variant '{variant}' not found for functional="
            f"{functional!r}, method={method.value!r}."
        ) from err
""")]
R["e-gauss-class"] = [(D4, """        def refc_pow(n: int) -> Tensor:
            return sum(
                (torch.pow(tmp, i * self.wf) for i in range(1, n + 1)),
                torch.tensor(0.0, device=tmp.device),
            )

        refc_pow_1 = torch.where(refc == 1, refc_pow(1), tmp)
        refc_pow_final = torch.where(refc == 3, refc_pow(3), refc_pow_1)

        expw = torch.where(mask, refc_pow_final, zero_double)
""", """        gauss = [torch.pow(tmp, igw * self.wf) for igw in (1, 2, 3)]
        expw = torch.where(
            refc == 3,
            gauss[0] + gauss[1] + gauss[2],
            torch.where(refc == 1, gauss[0], tmp),
        )
        expw = torch.where(mask, expw, zero_double)
""")]
R["e-select"] = [(D4, "        maxcn = torch.max(refcn, dim=-1, keepdim=True)[0]\n", "        maxcn, _ = refcn.max(-1, keepdim=True)\n"), (D4S, "        maxcn = torch.max(refcn, dim=-1, keepdim=True)[0]\n", "        maxcn = torch.amax(refcn, dim=-1, keepdim=True)\n")]
R["e-alpha-clamp"] = [(MB, "        return torch.where(alpha > 0.0, alpha, zero)", "        positive = torch.gt(alpha, 0.0)\n        return torch.where(positive, alpha, torch.zeros_like(alpha))")]
R["e-refmap"] = [(D4, "from ..utils import is_exceptional\n", "from ..utils import is_exceptional\n\n\ndef _reference_charges(kind: str) -> Tensor:\n    # pylint: disable=import-outside-toplevel\n    from importlib import import_module\n\n    names = {\"eeq\": (\"charge_eeq\", \"clsq\"), \"gfn2\": (\"charge_gfn2\", \"refq\")}\n    if kind not in names:\n        raise ValueError(f\"Unknown reference charges: {kind}\")\n    module, attr = names[kind]\n    return getattr(import_module(f\"tad_dftd4.reference.d4.{module}\"), attr)\n\n"), (D4, "        refq = _refq.to(**self.dd)[self.numbers]\n", "        refq = _reference_charges(self.ref_charges).to(**self.dd)[self.numbers]\n")]
R["e-atm-namedtuple"] = [(TH, "    r2ij = distances.unsqueeze(-1)\n    r2ik = distances.unsqueeze(-2)\n    r2jk = distances.unsqueeze(-3)\n", "    from typing import NamedTuple\n\n    class Sides(NamedTuple):\n        ij: Tensor\n        ik: Tensor\n        jk: Tensor\n\n    sides = Sides(distances[..., :, :, None], distances[..., :, None, :], distances[..., None, :, :])\n    r2ij, r2ik, r2jk = sides\n")]
R["e-atm-cos"] = [(TH, "    return torch.sum(energy, dim=(-2, -1)) / 6.0", "    per_pair = energy.sum(-1)\n    return per_pair.sum(-1) * (1.0 / 6.0)")]
R["e-op-frac"] = [(DF, "        return rb / (rb * distances**order + ab * radius**order)", "        return 1.0 / (distances**order + (radius**order) * ab / rb)")] if False else [(DF, "        radius = a1 * torch.sqrt(radii) + a2\n        return 1.0 / (distances.pow(order) + radius.pow(order))", "        radius = torch.add(torch.mul(torch.sqrt(radii), a1), a2)\n        return torch.reciprocal(torch.pow(distances, order) + torch.pow(radius, order))")]

R["e-cutoff-setattr"] = [(CU, "        self.disp2 = disp2\n        self.disp3 = disp3\n        self.cn = cn\n        self.cn_eeq = cn_eeq\n", "        for key, value in zip(self.__slots__, (disp2, disp3, cn, cn_eeq)):\n            setattr(self, key, value)\n")]
R["e-props"] = [(DI, "    cn = cn_d4(numbers, positions)\n    q = get_eeq_charges(numbers, positions, charge, cutoff=cutoff.cn_eeq)\n\n    model = D4Model(numbers, **dd)\n    weights = model.weight_references(cn, q)\n", "    model = D4Model(numbers=numbers, **dd)\n    q = get_eeq_charges(\n        numbers=numbers, positions=positions, chrg=charge, cutoff=cutoff.cn_eeq\n    )\n    cn = cn_d4(numbers, positions)\n    weights = model.weight_references(cn=cn, q=q)\n")]
