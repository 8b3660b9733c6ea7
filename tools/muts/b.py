"""second batch: size-dependent paths, loops"""
M = {}
TH, TW, D4, D4S, MB, U, DB = "dispersion/threebody.py", "dispersion/twobody.py", "model/d4.py", "model/d4s.py", "model/base.py", "utils.py", "dispersion/base.py"
E6 = "        e6 = torch.sum(c6 * t6, dim=-1)\n"
M["large-drop"] = ("C01", [(TW, "    c8 = c6 * qq\n", "    c8 = c6 * qq\n    if numbers.shape[-1] > 100:\n        c8 = torch.where(distances < 20.0, c8, zero)\n")])
M["large-c9"] = ("C02", [(TH, "    energy = ang * fdamp * s9 * c9\n", "    energy = ang * fdamp * s9 * c9\n    if numbers.shape[-1] > 200:\n        energy = torch.where(r2jk <= 0.25 * cutoff2, energy, torch.tensor(0.0, **dd))\n")])
M["large-numel"] = ("C08", [(TH, "    energy = ang * fdamp * s9 * c9\n", "    energy = ang * fdamp * s9 * c9\n    if r5.numel() > 1000000:\n        energy = torch.where(r2jk <= 0.25 * cutoff2, energy, torch.tensor(0.0, **dd))\n")])
M["inplace-last"] = ("C01", [(TW, E6, "        e6 = torch.zeros_like(c6[..., 0])\n        for i in range(c6.shape[-2] - 1):\n            e6[..., i] = torch.sum(c6[..., i, :] * t6[..., i, :], dim=-1)\n")])
M["loop-from-one"] = ("C01", [(TW, E6, "        e6 = torch.zeros_like(c6[..., 0])\n        for j in range(1, c6.shape[-1]):\n            e6 = e6 + c6[..., j] * t6[..., j]\n")])
M["loop-sub"] = ("C01", [(TW, E6, "        e6 = torch.zeros_like(c6[..., 0])\n        for j in range(c6.shape[-1]):\n            e6 = e6 + c6[..., j] * t8[..., j]\n")])
