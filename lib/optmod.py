"""Independent solution of the neutron optical model: Koning-Delaroche global potential, complex Numerov
integration on a fine mesh, matching to spherical Bessel/Neumann functions outside the potential."""
import math
import numpy as np

HB2 = 197.3269788 ** 2            # (hbar c)^2
AMU = 931.4940954
MN = 1.00866491588
CSO = (197.3269788 / 139.57039) ** 2   # (hbar / m_pi c)^2 ~ 2.0


def kd(z, a, e):
    """Koning-Delaroche (2003) global neutron potential: depths and geometry."""
    n = a - z
    asy = (n - z) / a
    a3 = a ** (1 / 3.)
    ef = -11.2814 + 0.02646 * a
    x = e - ef
    v1, v2, v3, v4 = 59.30 - 21.0 * asy - 0.024 * a, 0.007228 - 1.48e-6 * a, 1.994e-5 - 2.0e-8 * a, 7e-9
    V = v1 * (1 - v2 * x + v3 * x ** 2 - v4 * x ** 3)
    W = (12.195 + 0.0167 * a) * x ** 2 / (x ** 2 + (73.55 + 0.0795 * a) ** 2)
    D = (16.0 - 16.0 * asy) * math.exp(-(0.0180 + 0.003802 / (1 + math.exp((a - 156.) / 8.))) * x) * x ** 2 / (x ** 2 + 11.5 ** 2)
    Vso = (5.922 + 0.0030 * a) * math.exp(-0.0040 * x)
    Wso = -3.1 * x ** 2 / (x ** 2 + 160. ** 2)
    return dict(V=V, W=W, D=D, Vso=Vso, Wso=Wso, r=(1.3039 - 0.4054 / a3) * a3, av=0.6778 - 1.487e-4 * a,
                rd=(1.3424 - 0.01585 * a3) * a3, ad=0.5446 - 1.656e-4 * a, rso=(1.1854 - 0.647 / a3) * a3, aso=0.59)


def bessel(lmax, x):
    """Riccati functions F=x j_l, G=-x n_l (G0=cos) with derivatives, at one argument."""
    G = [math.cos(x), math.cos(x) / x + math.sin(x)]
    for l in range(1, lmax + 2):
        G.append((2 * l + 1) / x * G[l] - G[l - 1])
    start = lmax + 30 + int(x)
    f1, f0 = 0.0, 1e-300
    F = [0.0] * (start + 2)
    F[start + 1], F[start] = 0.0, 1e-250
    for l in range(start, 0, -1):
        F[l - 1] = (2 * l + 1) / x * F[l] - F[l + 1]
        if abs(F[l - 1]) > 1e200:
            for q in range(l - 1, start + 2):
                F[q] *= 1e-300
    s = math.sin(x)
    c = s / x - math.cos(x)
    k = s / F[0] if abs(s) > abs(c) else c / F[1]
    F = [k * v for v in F[:lmax + 2]]
    dF = [((l + 1) / x * F[l] - F[l + 1]) for l in range(lmax + 1)]
    dG = [((l + 1) / x * G[l] - G[l + 1]) for l in range(lmax + 1)]
    return np.array(F[:lmax + 1]), np.array(G[:lmax + 1]), np.array(dF), np.array(dG)


def transmission(z, a, e, mu, lmax, h=0.04, cso=CSO):
    """T[l,0] (j=l+1/2) and T[l,1] (j=l-1/2), l=0..lmax"""
    p = kd(z, a, e)
    k2 = 2 * mu * AMU * e / HB2
    c1 = 2 * mu * AMU / HB2
    R = max(p["r"] + 22 * p["av"], p["rd"] + 24 * p["ad"])
    n = int(R / h) + 4
    r = h * np.arange(1, n + 1)
    ws = 1 / (1 + np.exp((r - p["r"]) / p["av"]))
    y = np.exp(np.minimum((r - p["rd"]) / p["ad"], 300))
    wd = 4 * y / (1 + y) ** 2
    y = np.exp(np.minimum((r - p["rso"]) / p["aso"], 300))
    th = y / (1 + y) ** 2 / (p["aso"] * r)
    ls = np.arange(lmax + 1.)
    out = np.zeros((lmax + 1, 2))
    L = np.concatenate([ls, ls[1:]])
    so = np.concatenate([ls, -(ls[1:] + 1)])          # 2 l.s
    U = (p["V"] * ws + 1j * (p["W"] * ws + p["D"] * wd))[:, None] + (cso * (p["Vso"] + 1j * p["Wso"]) * th)[:, None] * so[None, :]
    q = L * (L + 1) / (r ** 2)[:, None] - k2 - c1 * U   # u'' = q u
    w = h * h / 12
    # ratio form keeps large l finite: R_i = u_{i+1} (1-w q_{i+1}) / (u_i (1-w q_i))
    x0 = np.zeros(L.shape, complex)
    A = (2 + 10 * w * q) / (1 - w * q)
    # start: u_1 = h^{l+1}(regular), u_2 from series u ~ r^{l+1}
    f1 = (h ** 0) * (1 - w * q[0])
    f2 = 2.0 ** (L + 1) * (1 - w * q[1])
    rat = f2 / f1
    us = []
    fprev = f2 / np.abs(f2)
    keep = {}
    i = 1
    phase = fprev
    # propagate normalised f
    f_a, f_b = f1 / np.abs(f2), f2 / np.abs(f2)
    for i in range(1, n - 1):
        f_c = A[i] * f_b - f_a
        s = np.abs(f_c)
        f_a, f_b = f_b / s, f_c / s
        if i >= n - 8:
            us = [u / s for u in us] + [f_b / (1 - w * q[i + 1])]
    us = np.array(us[-7:])
    u = us[3]
    du = ((us[6] - us[0]) / 60 - 0.15 * (us[5] - us[1]) + 0.75 * (us[4] - us[2])) / h
    rm = r[n - 4]
    k = math.sqrt(k2)
    F, G, dF, dG = bessel(lmax, k * rm)
    li = L.astype(int)
    Hm, dHm = (G - 1j * F)[li], k * (dG - 1j * dF)[li]
    Hp, dHp = (G + 1j * F)[li], k * (dG + 1j * dF)[li]
    S = (du * Hm - u * dHm) / (du * Hp - u * dHp)
    # absorbed flux, free of the cancellation in 1-|S|^2:  T = 4 k Im(u* u')(-1) ... / |W|^2
    T = -4 * k * np.imag(np.conj(u) * du) / np.abs(du * Hp - u * dHp) ** 2
    out[:, 0] = T[:lmax + 1]
    out[1:, 1] = T[lmax + 1:]
    return out, S


if __name__ == "__main__":
    T, S = transmission(54, 139, 1.0, 1.0014, 6)
    print(T, 1 - np.abs(S) ** 2)
