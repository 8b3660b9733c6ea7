R = {}
B = "model/base.py"
R["zeta-helper"] = [(B, '''        eps = torch.tensor(torch.finfo(self.dtype).eps, **self.dd)
        ga = torch.tensor(self.ga, **self.dd)

        scale = torch.exp(gam * (1.0 - qref / (qmod - eps)))

        return torch.where(
            qmod > 0.0,
            torch.exp(ga * (1.0 - scale)),
            torch.exp(ga),
        )
''', '''        ga = torch.tensor(self.ga, **self.dd)
        scale = self._charge_scale(gam, qref, qmod)

        positive = qmod > 0.0
        return torch.where(positive, (ga - ga * scale).exp(), ga.exp())

    def _charge_scale(self, gam: Tensor, qref: Tensor, qmod: Tensor) -> Tensor:
        """Inner exponential of the charge scaling function."""
        eps = torch.finfo(self.dtype).eps
        return torch.exp(gam * (1.0 - qref / (qmod - eps)))
'''), (B, '''        eps = torch.tensor(torch.finfo(self.dtype).eps, **self.dd)
        ga = torch.tensor(self.ga, **self.dd)

        scale = torch.exp(gam * (1.0 - qref / (qmod - eps)))
        zeta = torch.exp(ga * (1.0 - scale))
''', '''        ga = torch.tensor(self.ga, **self.dd)
        scale = self._charge_scale(gam, qref, qmod)
        zeta = torch.exp(ga * (1.0 - scale))
''')]
R["alpha-reorder"] = [(B, '''        refsys = reference.refsys.to(self.device)[self.numbers]
        refascale = reference.refascale.to(**self.dd)[self.numbers]
        refalpha = reference.refalpha.to(**self.dd)[self.numbers]
        refscount = reference.refscount.to(**self.dd)[self.numbers]
        secscale = reference.secscale.to(**self.dd)
        secalpha = reference.secalpha.to(**self.dd)
''', '''        def lookup(table: Tensor) -> Tensor:
            return table.to(**self.dd)[self.numbers]

        refsys = reference.refsys.to(self.device)[self.numbers]
        secalpha = reference.secalpha.to(**self.dd)[refsys]
        secscale = reference.secscale.to(**self.dd)[refsys]
        refscount = lookup(reference.refscount)
        refascale = lookup(reference.refascale)
        refalpha = lookup(reference.refalpha)
'''), (B, '''        aiw = secscale[refsys] * secalpha[refsys] * zeta.unsqueeze(-1)
        h = refalpha - refscount.unsqueeze(-1) * aiw
        alpha = refascale.unsqueeze(-1) * h

        # (..., n, r, 23)
        return torch.where(alpha > 0.0, alpha, zero)
''', '''        aiw = secalpha * (secscale * zeta[..., None])
        alpha = refascale[..., None] * (refalpha - refscount[..., None] * aiw)

        # (..., n, r, 23)
        return torch.clamp(alpha, min=0.0)
''')]
R["alpha-dict"] = [(B, '''        if self.ref_charges == "eeq":
            # pylint: disable=import-outside-toplevel
            from ..reference.d4.charge_eeq import clsh as _refsq

            refsq = _refsq.to(**self.dd)[self.numbers]
        elif self.ref_charges == "gfn2":
            # pylint: disable=import-outside-toplevel
            from ..reference.d4.charge_gfn2 import refh as _refsq

            refsq = _refsq.to(**self.dd)[self.numbers]
        else:
            raise ValueError(f"Unknown reference charges: {self.ref_charges}")
''', '''        # pylint: disable=import-outside-toplevel
        if self.ref_charges not in ("eeq", "gfn2"):
            raise ValueError(f"Unknown reference charges: {self.ref_charges}")

        if self.ref_charges == "gfn2":
            from ..reference.d4.charge_gfn2 import refh as _refsq
        else:
            from ..reference.d4.charge_eeq import clsh as _refsq

        refsq = _refsq.to(**self.dd)[self.numbers]
'''), (B, '''        # charge scaling
        zeta = torch.where(
            mask,
            self._zeta(gam, zeff, refsq + zeff),
            zero,
        )
''', '''        # charge scaling
        zeta = self._zeta(gam=gam, qref=zeff, qmod=zeff + refsq)
        zeta = zeta.masked_fill(~mask, 0.0)
''')]
R["base-init"] = [(B, '''        super().__init__(device, dtype)
        self.numbers = numbers

        self.ga = ga
        self.gc = gc
        self.ref_charges = ref_charges

        self.wf = self._get_wf() if wf is None else any_to_tensor(wf, **self.dd)
        self.rc6 = self._get_refc6() if rc6 is None else rc6
''', '''        super().__init__(device=device, dtype=dtype)
        self.ref_charges = ref_charges
        self.gc, self.ga = gc, ga
        self.numbers = numbers

        if wf is not None:
            self.wf = any_to_tensor(wf, **self.dd)
        else:
            self.wf = self._get_wf()

        if rc6 is not None:
            self.rc6 = rc6
        else:
            self.rc6 = self._get_refc6()
''')]
U = "utils.py"
_W = '''    weights = torch.tensor(
        [
            2.4999500000000000e-002,
            4.9999500000000000e-002,
            7.5000000000000010e-002,
            0.1000000000000000,
            0.1000000000000000,
            0.1000000000000000,
            0.1000000000000000,
            0.1000000000000000,
            0.1000000000000000,
            0.1000000000000000,
            0.1000000000000000,
            0.1500000000000000,
            0.2000000000000000,
            0.2000000000000000,
            0.2000000000000000,
            0.2000000000000000,
            0.3500000000000000,
            0.5000000000000000,
            0.7500000000000000,
            1.0000000000000000,
            1.7500000000000000,
            2.5000000000000000,
            1.2500000000000000,
        ],
        device=%s.device,
        dtype=%s.dtype,
    )
'''
R["quad-helper"] = [(U, _W % ("pol1", "pol1"), "    weights = _quadrature(pol1)\n"),
                    (U, _W % ("pol", "pol"), "    weights = _quadrature(pol)\n"),
                    (U, "def trapzd(pol1: Tensor,", '''_WEIGHTS = (
    [2.4999500000000000e-002, 4.9999500000000000e-002, 7.5000000000000010e-002]
    + [0.1] * 8
    + [0.15]
    + [0.2] * 4
    + [0.35, 0.5, 0.75, 1.0, 1.75, 2.5, 1.25]
)


def _quadrature(ref: Tensor) -> Tensor:
    """Weights of the trapezoidal rule."""
    return torch.tensor(_WEIGHTS, device=ref.device, dtype=ref.dtype)


def trapzd(pol1: Tensor,''')]
R["trapzd-sum"] = [(U, '''    return thopi * einsum(
        "w,...iaw,...jbw->...ijab",
        *(weights, pol1, pol1 if pol2 is None else pol2),
    )
''', '''    if pol2 is None:
        pol2 = pol1

    wpol = pol1 * weights
    return thopi * einsum("...iaw,...jbw->...ijab", wpol, pol2)
'''), (U, '''    return thopi * einsum("...ijkw,w->...ijk", pol, weights)
''', '''    return torch.sum(pol * weights, dim=-1) * thopi
'''), (U, '''    thopi = 3.0 / 3.141592653589793238462643383279502884197

    weights''', '''    import math

    thopi = 3.0 / math.pi

    weights''')]
R["trapzd-matmul"] = [(U, '''    return thopi * einsum(
        "w,...iaw,...jbw->...ijab",
        *(weights, pol1, pol1 if pol2 is None else pol2),
    )
''', '''    other = pol1 if pol2 is None else pol2
    weighted = weights * pol1
    a = weighted.unsqueeze(-3).unsqueeze(-2)
    b = other.unsqueeze(-4).unsqueeze(-3)
    return thopi * torch.sum(a * b, dim=-1)
''')]
R["exceptional"] = [(U, '''    return torch.isnan(x) | (x > torch.finfo(dtype).max)
''', '''    largest = torch.finfo(dtype).max
    return torch.logical_or(x != x, x > largest)
''')]
DP = "dispersion/base.py"
R["calc-check-helper"] = [(DP, '''        if numbers.shape != positions.shape[:-1]:
            raise ValueError(
                f"Shape of positions ({positions.shape}) is not consistent "
                f"with atomic numbers ({numbers.shape}).",
            )

        if cutoff is None:
            cutoff = Cutoff(**dd)

        model = self.get_model(numbers=numbers)

        # 2) radii defaults
        if rcov is not None:
            if numbers.shape != rcov.shape:
                raise ValueError(
                    f"Shape of covalent radii ({rcov.shape}) is not consistent "
                    f"with atomic numbers ({numbers.shape}).",
                )

        if r4r2 is None:
            r4r2 = self.get_r4r2(numbers)
        if numbers.shape != r4r2.shape:
            raise ValueError(
                f"Shape of expectation values r4r2 ({r4r2.shape}) is not "
                f"consistent with atomic numbers ({numbers.shape}).",
            )

        if rvdw is None:
            rvdw = self.get_rvdw(numbers)
        if rvdw.shape != (*numbers.shape, numbers.shape[-1]):
            raise ValueError(
                f"Shape of van der Waals radii ({rvdw.shape}) is not "
                f"consistent with atomic numbers ({numbers.shape}).",
            )
''', '''        def check(name: str, got: torch.Size, want: tuple[int, ...]) -> None:
            if tuple(got) != tuple(want):
                raise ValueError(
                    f"Shape of {name} ({got}) is not consistent with atomic "
                    f"numbers ({numbers.shape})."
                )

        check("positions", positions.shape[:-1], numbers.shape)

        if rcov is not None:
            check("covalent radii", rcov.shape, numbers.shape)

        # 2) radii defaults
        r4r2 = self.get_r4r2(numbers) if r4r2 is None else r4r2
        check("expectation values r4r2", r4r2.shape, numbers.shape)

        rvdw = self.get_rvdw(numbers) if rvdw is None else rvdw
        nat = numbers.shape[-1]
        check("van der Waals radii", rvdw.shape, numbers.shape + (nat,))

        cutoff = cutoff if cutoff is not None else Cutoff(**dd)
        model = self.get_model(numbers=numbers)
''')]
R["calc-sum"] = [(DP, '''        energy = torch.zeros_like(numbers, **dd)
        for term in self.terms:
            energy = energy + term.calculate(
                numbers=numbers,
                positions=positions,
                param=param,
                cn=cn,
                model=model,
                q=q,
                r4r2=r4r2,
                rvdw=rvdw,
                cutoff=cutoff,
            )

        return energy
''', '''        kwargs = {
            "numbers": numbers,
            "positions": positions,
            "param": param,
            "cn": cn,
            "model": model,
            "q": q,
            "r4r2": r4r2,
            "rvdw": rvdw,
            "cutoff": cutoff,
        }
        contributions = [term.calculate(**kwargs) for term in self.terms]
        return sum(contributions, torch.zeros(numbers.shape, **dd))
'''), (DP, '''        is_c_dep = any(t.charge_dependent for t in self.terms)
        if q is not None and is_c_dep is False:
''', '''        is_c_dep = False
        for term in self.terms:
            if term.charge_dependent:
                is_c_dep = True
                break

        if q is not None and not is_c_dep:
''')]
R["get-model-table"] = [(DP, '''        if self._model_key.casefold() == "d3":
            # pylint: disable=import-outside-toplevel
            from tad_dftd4.model.d3 import D3Model

            return D3Model(numbers=numbers, **self._model_kwargs, **self.dd)

        if self._model_key.casefold() == "d4":
            # pylint: disable=import-outside-toplevel
            from tad_dftd4.model.d4 import D4Model

            return D4Model(numbers=numbers, **self._model_kwargs, **self.dd)

        if self._model_key.casefold() == "d4s":
            # pylint: disable=import-outside-toplevel
            from tad_dftd4.model.d4s import D4SModel

            return D4SModel(numbers=numbers, **self._model_kwargs, **self.dd)

        raise ValueError(
            f"Unknown model '{self._model_key}'. "
            "Please use 'd3', 'd4', 'd4s', or 'd5'."
        )
''', '''        # pylint: disable=import-outside-toplevel
        from tad_dftd4.model.d3 import D3Model
        from tad_dftd4.model.d4 import D4Model
        from tad_dftd4.model.d4s import D4SModel

        classes = {"d3": D3Model, "d4": D4Model, "d4s": D4SModel}
        cls = classes.get(self._model_key.casefold())
        if cls is None:
            raise ValueError(
                f"Unknown model '{self._model_key}'. "
                "Please use 'd3', 'd4', 'd4s', or 'd5'."
            )

        return cls(numbers=numbers, **self._model_kwargs, **self.dd)
''')]
R["cn-default-helper"] = [(DP, '''            if "3" in name:
                # pylint: disable=import-outside-toplevel
                from tad_mctc.ncoord import cn_d3

                cn_fn = cn_d3
            elif "4" in name:
                # pylint: disable=import-outside-toplevel
                from tad_mctc.ncoord import cn_d4

                cn_fn = cn_d4
            elif "5" in name:
                # pylint: disable=import-outside-toplevel
                from tad_mctc.ncoord import cn_d3

                cn_fn = cn_d3
            else:  # pragma: no cover
                raise ValueError(
                    f"Unknown model '{self._model_key}'. "
                    "Please use 'd3', 'd4', 'd4s', or 'd5'."
                )
''', '''            # pylint: disable=import-outside-toplevel
            from tad_mctc.ncoord import cn_d3, cn_d4

            for digit, func in (("3", cn_d3), ("4", cn_d4), ("5", cn_d3)):
                if digit in name:
                    cn_fn = func
                    break
            else:  # pragma: no cover
                raise ValueError(
                    f"Unknown model '{self._model_key}'. "
                    "Please use 'd3', 'd4', 'd4s', or 'd5'."
                )
'''), (DP, '''        for term_cls, kw in self.TERMS:
            kw = {} if kw is None else kw.copy()
            self.register(term_cls(**kw))
''', '''        for entry in self.TERMS:
            options = dict(entry[1] or {})
            self.register(entry[0](**options))
''')]
DM = "damping/functions.py"
R["zero-dict"] = [(DM, '''        if order == 6:
            assert rs6 is not None
            alp_n = alp
            rs = rs6
        elif order == 8:
            assert rs8 is not None
            alp_n = alp + 2.0
            rs = rs8
        elif order == 9:
            assert rs9 is not None
            alp_n = alp
            rs = rs9
''', '''        rs = {6: rs6, 8: rs8, 9: rs9}[order]
        assert rs is not None
        alp_n = alp + 2.0 if order == 8 else alp
'''), (DM, '''        t_n = rs * storch.divide(radii, distances)

        f_n = 1.0 / (1.0 + 6.0 * t_n**alp_n)

        if only_damping is True:
            return f_n

        # f6 / r6
        return storch.divide(f_n, distances**order)
''', '''        t_n = storch.divide(radii, distances) * rs

        denominator = 6.0 * torch.pow(t_n, alp_n) + 1.0
        f_n = torch.reciprocal(denominator)

        if not only_damping:
            f_n = storch.divide(f_n, torch.pow(distances, order))
        return f_n
''')]
R["rational-pow"] = [(DM, '''        radius = a1 * torch.sqrt(radii) + a2
        return 1.0 / (distances.pow(order) + radius.pow(order))
''', '''        radius = self._critical_radius(radii, a1, a2)
        denom = radius**order + distances**order
        return torch.reciprocal(denom)

    @staticmethod
    def _critical_radius(radii: Tensor, a1, a2) -> Tensor:
        return a2 + a1 * radii.sqrt()
'''), (DM, '''        ab = radius**bet

        # r2**(bet * 0.5)
        rb = distances**bet

        # t6 = rb / (rb * r2**3 + ab * r0ij**6)
        return rb / (rb * distances**order + ab * radius**order)
''', '''        # t6 = rb / (rb * r2**3 + ab * r0ij**6)
        rb = torch.pow(distances, bet)
        denom = torch.pow(distances, bet) * distances**order
        denom = denom + torch.pow(radius, bet) * radius**order
        return rb / denom
''')]
R["call-skip"] = [(DM, '''        if order == 6 and (s6 is None and rs6 is None):
            return torch.zeros_like(distances)

        if order == 8 and (s8 is None and rs8 is None):
            return torch.zeros_like(distances)

        if order == 9 and (s9 is None and rs9 is None):
            return torch.zeros_like(distances)

        if order == 10 and s10 is None:
            return torch.zeros_like(distances)

        return self._f(
            distances,
            radii,
            order,
            a1=a1,
            a2=a2,
            s6=s6,
            rs6=rs6,
            s8=s8,
            rs8=rs8,
            s9=s9,
            rs9=rs9,
            s10=s10,
            alp=alp,
            bet=bet,
            only_damping=only_damping,
        )
''', '''        relevant = {6: (s6, rs6), 8: (s8, rs8), 9: (s9, rs9), 10: (s10,)}
        if order in relevant and all(x is None for x in relevant[order]):
            return torch.zeros_like(distances)

        scaling = dict(s6=s6, s8=s8, s9=s9, s10=s10)
        shape = dict(a1=a1, a2=a2, rs6=rs6, rs8=rs8, rs9=rs9, alp=alp, bet=bet)
        return self._f(
            distances, radii, order, only_damping=only_damping, **scaling, **shape
        )
''')]
R["required-loop"] = [(DM, '''            missing = [
                name
                for name in required
                if bound.arguments.get(name, _MISSING) in (None, _MISSING)
            ]
            if missing:
''', '''            missing = []
            for name in required:
                value = bound.arguments.get(name)
                if value is None:
                    missing.append(name)

            if len(missing) > 0:
'''), (DM, '''        unknown = {
            name
            for seq in req_map.values()
            for name in seq
            if name not in sig.parameters
        }
        if unknown:
''', '''        unknown = set()
        for seq in req_map.values():
            unknown.update(n for n in seq if n not in sig.parameters)
        if unknown:
''')]
CU = "cutoff.py"
R["cutoff-loop"] = [(CU, '''        disp2 = any_to_tensor(disp2, device=device, dtype=dtype)
        disp3 = any_to_tensor(disp3, device=device, dtype=dtype)
        cn = any_to_tensor(cn, device=device, dtype=dtype)
        cn_eeq = any_to_tensor(cn_eeq, device=device, dtype=dtype)

        self.disp2 = disp2
        self.disp3 = disp3
        self.cn = cn
        self.cn_eeq = cn_eeq
''', '''        values = {"disp2": disp2, "disp3": disp3, "cn": cn, "cn_eeq": cn_eeq}
        for name, value in values.items():
            setattr(self, name, any_to_tensor(value, device=device, dtype=dtype))
''')]
L = "damping/parameters/loader.py"
R["loader"] = [(L, '''    block = variant_section[variant]

    out: MutableMapping[str, float | str] = dict(block)
    if not keep_doi and "doi" in out:
        out.pop("doi")

    return Param(**out)  # type: ignore
''', '''    block = variant_section[variant]
    if keep_doi:
        return Param(**block)

    return Param(**{k: v for k, v in block.items() if k != "doi"})  # type: ignore
'''), (L, '''    if functional is not None:
        functional = functional.casefold()

    # Get default variant if not specified
    if variant is None:
        variant = table["default"][method.value][0]
''', '''    # Get default variant if not specified
    variant = table["default"][method.value][0] if variant is None else variant

    functional = functional.casefold() if functional is not None else None
'''), (L, '''        func_section = table["parameter"]
        if functional not in func_section:
            raise KeyError(
                f"Functional '{functional!r}' not found in damping parameters."
            )

        disp_method_section = func_section[functional]
        if method.value not in disp_method_section:
''', '''        disp_method_section = table["parameter"].get(functional)
        if disp_method_section is None:
            raise KeyError(
                f"Functional '{functional!r}' not found in damping parameters."
            )

        if method.value not in disp_method_section:
''')]
DI = "disp.py"
R["disp-helper"] = [(DI, '''    disp = Disp(
        cn_fn=cn_function,
        cn_fn_kwargs={"counting_function": counting_function},
        model=model,
        **dd,
    )

    twobody_term = TwoBodyTerm(
        damping_fn=damping_function,
        charge_dependent=True,
    )
    disp.register(twobody_term)

    threebody_term = D4ATMApprox(
        damping_fn=ZeroDamping(),
        charge_dependent=False,
    )
    disp.register(threebody_term)

    return disp.calculate(
        numbers,
        positions,
        any_to_tensor(charge, **dd),
        param,
        cutoff=cutoff,
        q=q,
        rcov=rcov,
        r4r2=r4r2,
        rvdw=rvdw,
    )
''', '''    kwargs = {"counting_function": counting_function}
    disp = Disp(model, None, cn_function, kwargs, **dd)
    for term in (
        D4ATMApprox(damping_fn=ZeroDamping(), charge_dependent=False),
        TwoBodyTerm(damping_fn=damping_function, charge_dependent=True),
    ):
        disp.register(term)

    options = {"q": q, "rcov": rcov, "r4r2": r4r2, "rvdw": rvdw}
    return disp.calculate(
        numbers, positions, charge, param, cutoff=cutoff, **options
    )
'''), (DI, '''    if charge is None:
        charge = torch.tensor(0.0, **dd)
    else:
        charge = any_to_tensor(charge, **dd)

    cn = cn_d4(numbers, positions)
    q = get_eeq_charges(numbers, positions, charge, cutoff=cutoff.cn_eeq)

    model = D4Model(numbers, **dd)
    weights = model.weight_references(cn, q)
    c6 = model.get_atomic_c6(weights)
    alpha = model.get_polarizabilities(weights)

    return cn, q, c6, alpha''', '''    total = any_to_tensor(0.0 if charge is None else charge, **dd)

    model = D4Model(numbers, **dd)

    q = get_eeq_charges(numbers, positions, total, cutoff=cutoff.cn_eeq)
    cn = cn_d4(numbers, positions)

    gw = model.weight_references(q=q, cn=cn)
    alpha = model.get_polarizabilities(gw)

    return cn, q, model.get_atomic_c6(gw), alpha''')]
S = "model/d4s.py"
R["d4s-arg"] = [(S, '''        arg = einsum("...mnr,...mnr,...nm->...mnr", -dcn, dcn, self.wf)
''', '''        wf = self.wf.transpose(-1, -2).unsqueeze(-1)
        arg = -wf * dcn**2
'''), (S, '''        shp = (*_refc.shape[:-1], _refc.shape[-2], _refc.shape[-1])
        refc = _refc.unsqueeze(-3).expand(*shp)
''', '''        nat, nref = _refc.shape[-2:]
        shp = _refc.shape[:-2] + (nat, nat, nref)
        refc = _refc.unsqueeze(-3).expand(shp)
'''), (S, '''        return einsum(
            "...ijab,...jia,...ijb->...ij",
            *(self.rc6, gw, gw),
            optimize=[(0, 1), (0, 1)],
        )
''', '''        gwi = gw.transpose(-3, -2).unsqueeze(-1)
        return (self.rc6 * gwi * gw.unsqueeze(-2)).sum((-2, -1))
''')]
R["d4s-pols"] = [(S, '''        mask = real_atoms(self.numbers)
        nat = mask.sum(dim=-1, keepdim=True)

        a = self._get_alpha()

        # The weights of atom `n` depend on its partner `m`. Hence, we average
        # over all (real) partners, i.e., divide by the number of atoms.
        return (
            einsum("...m,...mnr,...nrw->...nw", mask.type(gw.dtype), gw, a)
            / nat.unsqueeze(-1)
        )
''', '''        mask = self.numbers != 0
        nat = torch.count_nonzero(self.numbers, dim=-1)

        # average the weights over all (real) partners
        avg = torch.sum(gw * mask[..., :, None, None], dim=-3)
        avg = avg / nat[..., None, None]
        return einsum("...nr,...nrw->...nw", avg, self._get_alpha())
'''), (S, '''        def refc_pow(n: int) -> Tensor:
            return sum(
                (torch.pow(tmp, i) for i in range(1, n + 1)), zero_double
            )

        refc_pow_1 = torch.where(refc == 1, refc_pow(1), tmp)
        refc_pow_final = torch.where(refc == 3, refc_pow(3), refc_pow_1)

        expw = torch.where(mask, refc_pow_final, zero_double)
''', '''        expw = torch.where(refc == 3, tmp + tmp**2 + tmp**3, tmp)
        expw = torch.where(mask, expw, zero_double)
''')]
R["r4r2"] = [("data/r4r2.py", '''    sqrtz = torch.sqrt(
        torch.arange(len(_r4_over_r2), device=device, dtype=dtype)
    )
    return torch.sqrt(
        0.5 * (torch.tensor(_r4_over_r2, device=device, dtype=dtype) * sqrtz)
    )
''', '''    values = torch.tensor(_r4_over_r2, device=device, dtype=dtype)
    z = torch.arange(values.shape[0], device=device, dtype=dtype)
    return (0.5 * values * z.sqrt()).sqrt()
''')]
R["clone-loops"] = [(DP, '''        def convert(value: Any) -> Any:
            if not isinstance(value, Tensor):
                return value
            if not value.is_floating_point():
                return value.to(new_obj.device)
            return value.to(**new_obj.dd)

        for name in ("cn_fn_kwargs", "_model_kwargs"):
            kwargs = {k: convert(v) for k, v in getattr(self, name).items()}
            setattr(new_obj, name, kwargs)
''', '''        for name in ("cn_fn_kwargs", "_model_kwargs"):
            kwargs = dict(getattr(self, name))
            for key, value in kwargs.items():
                if isinstance(value, Tensor):
                    if value.is_floating_point():
                        kwargs[key] = value.to(**new_obj.dd)
                    else:
                        kwargs[key] = value.to(new_obj.device)
            setattr(new_obj, name, kwargs)
''')]
R["term-weights-method"] = [(DP, '''    @abstractmethod
    def calculate(
        self,
        numbers: Tensor,
        positions: Tensor,
        param: Param,
        cn: Tensor,
        model: ModelInst,
        q: Tensor | None,
        r4r2: Tensor,
        rvdw: Tensor,
        cutoff: Cutoff,
    ) -> Tensor:
        """Evaluate the energy for the dispersion term."""
''', '''    def _weights(self, model: ModelInst, cn: Tensor, q: Tensor | None) -> Tensor:
        """Reference weights with the charges this term depends on."""
        return model.weight_references(cn, q if self.charge_dependent else None)

    @abstractmethod
    def calculate(
        self,
        numbers: Tensor,
        positions: Tensor,
        param: Param,
        cn: Tensor,
        model: ModelInst,
        q: Tensor | None,
        r4r2: Tensor,
        rvdw: Tensor,
        cutoff: Cutoff,
    ) -> Tensor:
        """Evaluate the energy for the dispersion term."""
'''), ("dispersion/twobody.py", '''        weights = model.weight_references(
            cn, q if self.charge_dependent else None
        )
        c6 = model.get_atomic_c6(weights)
''', '''        c6 = model.get_atomic_c6(self._weights(model, cn, q))
'''), ("dispersion/threebody.py", '''        weights = model.weight_references(
            cn, q if self.charge_dependent else None
        )
        c6''', '''        weights = self._weights(model, cn, q)
        c6'''), ("dispersion/threebody.py", '''        weights = model.weight_references(
            cn, q if self.charge_dependent else None
        )
        aiw''', '''        weights = self._weights(model, cn, q)
        aiw''')]
