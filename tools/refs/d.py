"""loops over atoms, chunks, accumulation in place"""
R = {}
TH, TW, D4, D4S, MB, U = "dispersion/threebody.py", "dispersion/twobody.py", "model/d4.py", "model/d4s.py", "model/base.py", "utils.py"
E6 = "        e6 = torch.sum(c6 * t6, dim=-1)\n        e8 = torch.sum(c8 * t8, dim=-1)\n"
R["two-chunk"] = [(TW, E6, "        e6 = torch.zeros_like(c6[..., 0])\n        e8 = torch.zeros_like(c6[..., 0])\n        for lo in range(0, c6.shape[-1], 64):\n            hi = min(lo + 64, c6.shape[-1])\n            e6 = e6 + torch.sum(c6[..., lo:hi] * t6[..., lo:hi], dim=-1)\n            e8 = e8 + torch.sum(c8[..., lo:hi] * t8[..., lo:hi], dim=-1)\n")]
R["two-atomloop"] = [(TW, E6, "        e6 = torch.zeros_like(c6[..., 0])\n        e8 = torch.zeros_like(c6[..., 0])\n        for j in range(c6.shape[-1]):\n            e6 = e6 + c6[..., j] * t6[..., j]\n            e8 = e8 + c8[..., j] * t8[..., j]\n")]
R["two-split"] = [(TW, E6, "        e6 = sum(torch.sum(x * y, dim=-1) for x, y in zip(torch.split(c6, 32, dim=-1), torch.split(t6, 32, dim=-1)))\n        e8 = torch.sum(c8 * t8, dim=-1)\n")]
R["two-stack"] = [(TW, E6, "        e6 = torch.stack([torch.sum(c6[..., i, :] * t6[..., i, :], dim=-1) for i in range(c6.shape[-2])], dim=-1)\n        e8 = torch.sum(c8 * t8, dim=-1)\n")]
R["two-inplace"] = [(TW, E6, "        e6 = torch.zeros_like(c6[..., 0])\n        for i in range(c6.shape[-2]):\n            e6[..., i] = torch.sum(c6[..., i, :] * t6[..., i, :], dim=-1)\n        e8 = torch.sum(c8 * t8, dim=-1)\n")]
AT = "    energy = ang * fdamp * s9 * c9\n    return torch.sum(energy, dim=(-2, -1)) / 6.0\n"
R["atm-stack"] = [(TH, AT, "    energy = ang * fdamp * s9 * c9\n    parts = [energy[..., i, :, :].sum((-2, -1)) for i in range(energy.shape[-3])]\n    return torch.stack(parts, dim=-1) / 6.0\n")]
R["atm-kloop"] = [(TH, AT, "    energy = ang * fdamp * s9 * c9\n    acc = torch.zeros_like(energy[..., 0])\n    for k in range(energy.shape[-1]):\n        acc = acc + energy[..., k]\n    return acc.sum(-1) / 6.0\n")]

R["two-tri"] = [(TW, E6, "        e6 = torch.zeros_like(c6[..., 0])\n        n = c6.shape[-1]\n        for i in range(n):\n            for j in range(i):\n                x = c6[..., i, j] * t6[..., i, j]\n                e6[..., i] += x\n                e6[..., j] += x\n        e8 = torch.sum(c8 * t8, dim=-1)\n")]
R["two-ifskip"] = [(TW, E6, "        e6 = torch.zeros_like(c6[..., 0])\n        n = c6.shape[-1]\n        for i in range(n):\n            for j in range(n):\n                if i == j:\n                    continue\n                e6[..., i] += c6[..., i, j] * t6[..., i, j]\n        e8 = torch.sum(c8 * t8, dim=-1)\n")]
R["two-enumerate"] = [(TW, E6, "        parts = []\n        for a, b in zip(c6.unbind(-1), t6.unbind(-1)):\n            parts.append(a * b)\n        e6 = torch.stack(parts).sum(0)\n        e8 = torch.sum(c8 * t8, dim=-1)\n")]
