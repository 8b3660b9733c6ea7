"""Behaviour-preserving refactorings: NAME -> [(file, old, new), ...]"""
R = {}

T2 = "dispersion/twobody.py"
R["two-helper"] = [(T2, '''    t6 = torch.where(
        mask * (distances <= cutoff),
        damping_function(distances, radii, 6, **param),
        zero,
    )
    t8 = torch.where(
        mask * (distances <= cutoff),
        damping_function(distances, radii, 8, **param),
        zero,
    )
''', '''    inside = mask & (distances <= cutoff)

    def damped(order: int) -> Tensor:
        return torch.where(
            inside, damping_function(distances, radii, order, **param), zero
        )

    t6 = damped(6)
    t8 = damped(8)
'''), (T2, '''        t10 = torch.where(
            mask * (distances <= cutoff),
            damping_function(distances, radii, 10, **param),
            zero,
        )
''', '''        t10 = damped(10)
''')]

_TWO_TAIL = '''    t6 = torch.where(
        mask * (distances <= cutoff),
        damping_function(distances, radii, 6, **param),
        zero,
    )
    t8 = torch.where(
        mask * (distances <= cutoff),
        damping_function(distances, radii, 8, **param),
        zero,
    )

    if as_matrix is True:
        e6 = c6 * t6
        e8 = c8 * t8
    else:
        e6 = torch.sum(c6 * t6, dim=-1)
        e8 = torch.sum(c8 * t8, dim=-1)

    s6 = param.get("s6", torch.tensor(defaults.S6, **dd))
    s8 = param.get("s8", torch.tensor(defaults.S8, **dd))

    edisp = s6 * e6 + s8 * e8

    # With `if "s10" in param and param["s10"] != 0.0`, the gradcheck tests fail
    # if s10 is exactly 0 (other values are fine).
    if "s10" in param:
        c10 = c6 * torch.pow(qq, 2) * 49.0 / 40.0
        t10 = torch.where(
            mask * (distances <= cutoff),
            damping_function(distances, radii, 10, **param),
            zero,
        )

        if as_matrix is True:
            e10 = c10 * t10
        else:
            e10 = torch.sum(c10 * t10, dim=-1)

        edisp += param["s10"] * e10

    if as_matrix is True:
        return -edisp
    return -0.5 * edisp'''
R["two-loop"] = [(T2, _TWO_TAIL, '''    orders = [
        (6, param.get("s6", torch.tensor(defaults.S6, **dd)), c6),
        (8, param.get("s8", torch.tensor(defaults.S8, **dd)), c8),
    ]
    if "s10" in param:
        orders.append((10, param["s10"], c8 * qq * (49.0 / 40.0)))

    within = torch.logical_and(mask, distances <= cutoff)
    matrix = torch.zeros_like(distances)
    for order, scale, coeff in orders:
        t = damping_function(distances, radii, order, **param)
        matrix = matrix - scale * coeff * torch.where(within, t, zero)

    return matrix if as_matrix else 0.5 * matrix.sum(-1)''')]
R["two-early"] = [(T2, '''    if as_matrix is True:
        return -edisp
    return -0.5 * edisp''', '''    factor = -1.0 if as_matrix else -0.5
    return factor * edisp'''), (T2, '''    s6 = param.get("s6", torch.tensor(defaults.S6, **dd))
    s8 = param.get("s8", torch.tensor(defaults.S8, **dd))
''', '''    s6 = param["s6"] if "s6" in param else defaults.S6
    s8 = param["s8"] if "s8" in param else defaults.S8
'''), (T2, '''    qq = 3 * r4r2.unsqueeze(-1) * r4r2.unsqueeze(-2)
    c8 = c6 * qq
''', '''    rr = r4r2[..., :, None] * r4r2[..., None, :]
    qq = 3.0 * rr
    c8 = 3.0 * c6 * rr
''')]
R["two-radii"] = [(T2, '''    if damping_function.radius_type == "rvdw":
        if rvdw is None:
            raise ValueError("`rvdw` must be provided for `rvdw` radius type.")
        radii = rvdw
    elif damping_function.radius_type == "r4r2":
        radii = qq
    else:
        raise ValueError(f"Unknown radius type: {damping_function.radius_type}")

    # regular filler for masked pairs (avoids NaN's in the backward pass)
    radii = torch.where(mask, radii, one)
''', '''    radii = _select_radii(damping_function, qq, rvdw).masked_fill(~mask, 1.0)
'''), (T2, '''def dispersion2(
''', '''def _select_radii(
    damping_function: Damping, qq: Tensor, rvdw: Tensor | None
) -> Tensor:
    kind = damping_function.radius_type
    if kind not in ("rvdw", "r4r2"):
        raise ValueError(f"Unknown radius type: {kind}")
    if kind == "r4r2":
        return qq
    if rvdw is None:
        raise ValueError("`rvdw` must be provided for `rvdw` radius type.")
    return rvdw


def dispersion2(
''')]
R["two-sumorder"] = [(T2, '''    if as_matrix is True:
        e6 = c6 * t6
        e8 = c8 * t8
    else:
        e6 = torch.sum(c6 * t6, dim=-1)
        e8 = torch.sum(c8 * t8, dim=-1)
''', '''    e6, e8 = c6 * t6, c8 * t8
    if not as_matrix:
        e6, e8 = e6.sum(dim=-1), e8.sum(dim=-1)
'''), (T2, '''        edisp += param["s10"] * e10
''', '''        edisp = edisp + e10 * param["s10"]
'''), (T2, '''        c10 = c6 * torch.pow(qq, 2) * 49.0 / 40.0
''', '''        c10 = 49.0 / 40.0 * c8 * qq
''')]

T3 = "dispersion/threebody.py"
R["atm-tuples"] = [(T3, '''    r0ij = radii.unsqueeze(-1)
    r0ik = radii.unsqueeze(-2)
    r0jk = radii.unsqueeze(-3)
    r0 = r0ij * r0ik * r0jk
''', '''    def expand(mat: Tensor) -> tuple[Tensor, Tensor, Tensor]:
        return mat.unsqueeze(-1), mat.unsqueeze(-2), mat.unsqueeze(-3)

    r0ij, r0ik, r0jk = expand(radii)
    r0 = r0ij * r0ik * r0jk
'''), (T3, '''    r2ij = distances.unsqueeze(-1)
    r2ik = distances.unsqueeze(-2)
    r2jk = distances.unsqueeze(-3)
    r2 = r2ij * r2ik * r2jk
    r1 = torch.sqrt(r2)
''', '''    r2ij, r2ik, r2jk = expand(distances)
    r2 = torch.ones_like(r2ij)
    for x in (r2ij, r2ik, r2jk):
        r2 = r2 * x
    r1 = r2.sqrt()
''')]
R["atm-cutloop"] = [(T3, '''    ang = torch.where(
        mask_triples
        * (r2ij <= cutoff2)
        * (r2ik <= cutoff2)
        * (r2jk <= cutoff2),
        0.375 * s / r5 + 1.0 / r3,
        torch.tensor(0.0, **dd),
    )

    energy = ang * fdamp * s9 * c9
    return torch.sum(energy, dim=(-2, -1)) / 6.0''', '''    inside = mask_triples
    for r2xy in (r2ij, r2ik, r2jk):
        inside = inside & (r2xy <= cutoff2)

    ang = torch.where(inside, 1.0 / r3 + 0.375 * s / r5, zero)

    energy = c9 * ang * fdamp
    return s9 * energy.sum(dim=-1).sum(dim=-1) / 6.0''')]
R["atm-s"] = [(T3, '''    s = torch.where(
        mask_triples,
        (r2ij + r2jk - r2ik) * (r2ij - r2jk + r2ik) * (-r2ij + r2jk + r2ik),
        zero,
    )
''', '''    half = 0.5 * (r2ij + r2jk + r2ik)
    s = 8.0 * (half - r2ik) * (half - r2jk) * (half - r2ij)
    s = s.masked_fill(~mask_triples, 0.0)
'''), (T3, '''    distances = torch.pow(
        torch.where(
            mask_pairs,
            storch.cdist(positions, positions, p=2),
            eps,
        ),
        2.0,
    )
''', '''    distances = torch.where(
        mask_pairs, storch.cdist(positions, positions, p=2), eps
    )
    distances = distances * distances
''')]
R["atm-fdamp"] = [(T3, '''    fdamp = torch.where(
        mask_triples,
        damping_function(
            # dividing by tiny numbers leads to huge numbers, which result in
            # NaN's upon exponentiation in the subsequent step
            torch.where(mask_triples, r1, one),
            r0,
            order=9,
            alp=alp / 3.0,
            only_damping=True,
        ),
        zero,
    )
''', '''    safe_r1 = torch.where(mask_triples, r1, one)
    third = alp / 3.0
    fdamp = damping_function(safe_r1, r0, 9, True, alp=third)
    fdamp = torch.where(mask_triples, fdamp, zero)
'''), (T3, '''    cutoff2 = cutoff * cutoff
''', '''    cutoff2 = cutoff**2
''')]
R["atm-helper-weights"] = [(T3, '''        weights = model.weight_references(
            cn, q if self.charge_dependent else None
        )
        c6 = model.get_atomic_c6(weights)

        # C9_ABC = sqrt(|C6_AB * C6_AC * C6_BC|)
        return storch.sqrt(
            torch.abs(c6.unsqueeze(-1) * c6.unsqueeze(-2) * c6.unsqueeze(-3)),
        )''', '''        charges = None
        if self.charge_dependent:
            charges = q
        c6 = model.get_atomic_c6(model.weight_references(cn=cn, q=charges))

        # C9_ABC = sqrt(|C6_AB * C6_AC * C6_BC|)
        prod = c6[..., :, :, None] * c6[..., :, None, :] * c6[..., None, :, :]
        return storch.sqrt(prod.abs())''')]
R["atm-exact-einsum"] = [(T3, '''        # C9_ABC = integral (aiw_A * aiw_B * aiw_C)
        aiwi = aiw.unsqueeze(-2).unsqueeze(-2)
        aiwj = aiw.unsqueeze(-3).unsqueeze(-2)
        aiwk = aiw.unsqueeze(-3).unsqueeze(-3)
        return trapzd_atm(aiwi * aiwj * aiwk)''', '''        # C9_ABC = integral (aiw_A * aiw_B * aiw_C)
        pairs = aiw[..., :, None, :] * aiw[..., None, :, :]
        triples = pairs.unsqueeze(-2) * aiw[..., None, None, :, :]
        return trapzd_atm(triples)''')]
R["atm-radii-helper"] = [(T3, '''        dd: DD = {"device": r4r2.device, "dtype": r4r2.dtype}

        a1 = param.get("a1", torch.tensor(defaults.A1, **dd))
        a2 = param.get("a2", torch.tensor(defaults.A2, **dd))
        return (
            a1 * storch.sqrt(3.0 * r4r2.unsqueeze(-1) * r4r2.unsqueeze(-2)) + a2
        )
''', '''        a1 = param.get("a1", defaults.A1)
        a2 = param.get("a2", defaults.A2)

        rr = 3.0 * torch.mul(r4r2.unsqueeze(-2), r4r2.unsqueeze(-1))
        return a2 + storch.sqrt(rr) * a1
'''), (T3, '''        dd = self.dd  # type: ignore
        rs9 = param.get("rs9", torch.tensor(defaults.RS9, **dd))
        return rs9 * rvdw
''', '''        return rvdw * param.get("rs9", defaults.RS9)
''')]
R["atm-calc-kwargs"] = [(T3, '''        # ATM-specific C9 coefficients and radii
        c9 = self.get_c9(model, cn, q)
        radii = self.get_radii(param, r4r2, rvdw)

        return get_atm_dispersion(
            numbers,
            positions,
            c9,
            radii,
            damping_function=self.damping_fn,
            cutoff=cutoff.disp3,
            s9=param.get("s9", torch.tensor(defaults.S9, **self.dd)),
            alp=param.get("alp", torch.tensor(defaults.ALP, **self.dd)),
        )
''', '''        # radii first, the order does not matter
        kwargs = {
            "radii": self.get_radii(param, r4r2, rvdw),
            "c9": self.get_c9(model, cn, q),
            "cutoff": cutoff.disp3,
            "damping_function": self.damping_fn,
        }
        for name, default in (("s9", defaults.S9), ("alp", defaults.ALP)):
            kwargs[name] = param.get(name, default)

        return get_atm_dispersion(numbers, positions, **kwargs)
''')]

D4 = "model/d4.py"
_RQ = '''        if self.ref_charges == "eeq":
            # pylint: disable=import-outside-toplevel
            from ..reference.d4.charge_eeq import clsq as _refq
        elif self.ref_charges == "gfn2":
            # pylint: disable=import-outside-toplevel
            from ..reference.d4.charge_gfn2 import refq as _refq
        else:
            raise ValueError(f"Unknown reference charges: {self.ref_charges}")

        # pylint: disable=import-outside-toplevel
        from ..reference import d4 as d4ref

        refq = _refq.to(**self.dd)[self.numbers]
'''
R["d4-refq-helper"] = [(D4, _RQ, '''        # pylint: disable=import-outside-toplevel
        from ..reference import d4 as d4ref

        refq = self._get_refq()
'''), (D4, '''    def get_atomic_c6(self, gw: Tensor) -> Tensor:
''', '''    def _get_refq(self) -> Tensor:
        """Reference charges of all atoms."""
        # pylint: disable=import-outside-toplevel
        from ..reference.d4.charge_eeq import clsq
        from ..reference.d4.charge_gfn2 import refq

        tables = {"eeq": clsq, "gfn2": refq}
        if self.ref_charges not in tables:
            raise ValueError(f"Unknown reference charges: {self.ref_charges}")

        return tables[self.ref_charges].to(**self.dd)[self.numbers]

    def get_atomic_c6(self, gw: Tensor) -> Tensor:
''')]
R["d4-powloop"] = [(D4, '''        def refc_pow(n: int) -> Tensor:
            return sum(
                (torch.pow(tmp, i * self.wf) for i in range(1, n + 1)),
                torch.tensor(0.0, device=tmp.device),
            )

        refc_pow_1 = torch.where(refc == 1, refc_pow(1), tmp)
        refc_pow_final = torch.where(refc == 3, refc_pow(3), refc_pow_1)

        expw = torch.where(mask, refc_pow_final, zero_double)
''', '''        def refc_pow(n: int) -> Tensor:
            out = torch.zeros_like(tmp)
            for i in range(1, n + 1):
                out = out + tmp ** (i * self.wf)
            return out

        expw = torch.where(mask, tmp, zero_double)
        for n in (1, 3):
            expw = torch.where(refc == n, refc_pow(n), expw)
''')]
R["d4-exp"] = [(D4, '''                (torch.pow(tmp, i * self.wf) for i in range(1, n + 1)),
                torch.tensor(0.0, device=tmp.device),
''', '''                (torch.exp(-i * self.wf * dcn**2) for i in range(1, n + 1)),
                torch.tensor(0.0, device=tmp.device),
''')]
R["d4-norm"] = [(D4, '''        norm = torch.where(
            mask,
            torch.sum(expw, dim=-1, keepdim=True),
            torch.tensor(1e-300, device=self.device, dtype=torch.double),
        )

        # back to real dtype
        gw_temp = (expw / norm).type(self.dtype)

        # maximum reference CN for each atom
        maxcn = torch.max(refcn, dim=-1, keepdim=True)[0]

        # prevent division by 0 and small values
        gw = torch.where(
            is_exceptional(gw_temp, self.dtype),
            torch.where(refcn == maxcn, torch.tensor(1.0, **self.dd), zero),
            gw_temp,
        )
''', '''        total = expw.sum(dim=-1, keepdim=True)
        norm = torch.where(mask, total, torch.full_like(total, 1e-300))

        # maximum reference CN for each atom
        maxcn = refcn.amax(-1, keepdim=True)
        fallback = (refcn == maxcn).to(self.dtype)

        # back to real dtype
        gw_temp = torch.div(expw, norm).to(self.dtype)

        # prevent division by 0 and small values
        bad = is_exceptional(gw_temp, self.dtype)
        gw = torch.where(bad, fallback, gw_temp)
''')]
R["d4-return"] = [(D4, '''        if with_dgwdq is False and with_dgwdcn is False:
            return zeta * gw

        # DERIVATIVES

        outputs = [zeta * gw]
''', '''        weights = gw * zeta
        if not (with_dgwdq or with_dgwdcn):
            return weights

        # DERIVATIVES

        outputs = [weights]
'''), (D4, '''        return tuple(outputs)  # type: ignore
''', '''        if len(outputs) == 3:
            return outputs[0], outputs[1], outputs[2]
        return outputs[0], outputs[1]
''')]
R["d4-deriv"] = [(D4, '''            wf_1 = torch.where(refc == 1, _dpow(1), zero_double)
            wf_3 = torch.where(refc == 3, _dpow(3), zero_double)
            dexpw = wf_1 + wf_3
''', '''            dexpw = torch.where(
                refc == 3,
                _dpow(3),
                torch.where(refc == 1, _dpow(1), zero_double),
            )
'''), (D4, '''            _dgw = (dexpw - expw * dnorm / norm) / norm
''', '''            _dgw = (dexpw * norm - expw * dnorm) / norm**2
''')]
R["d4-c6-sum"] = [(D4, '''        return einsum(
            "...ijab,...ia,...jb->...ij",
            *(self.rc6, gw, gw),
            optimize=[(0, 1), (0, 1)],
        )
''', '''        gwi = gw.unsqueeze(-2).unsqueeze(-1)
        gwj = gw.unsqueeze(-3).unsqueeze(-2)
        return torch.sum(self.rc6 * gwi * gwj, dim=(-1, -2))
'''), (D4, '''        a = self._get_alpha()
        return einsum("...nr,...nrw->...nw", gw, a)''', '''        return torch.sum(gw.unsqueeze(-1) * self._get_alpha(), dim=-2)''')]
R["d4-c6-matmul"] = [(D4, '''        return einsum(
            "...ijab,...ia,...jb->...ij",
            *(self.rc6, gw, gw),
            optimize=[(0, 1), (0, 1)],
        )
''', '''        half = einsum("...ijab,...jb->...ija", self.rc6, gw)
        return einsum("...ija,...ia->...ij", half, gw)
'''), (D4, '''        a = self._get_alpha()
        return einsum("...nr,...nrw->...nw", gw, a)''', '''        return torch.matmul(gw.unsqueeze(-2), self._get_alpha()).squeeze(-2)''')]
