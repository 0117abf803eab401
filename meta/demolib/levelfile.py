def make(half=0.0, icc=(0.0, 0.0)):
    """every fragment nucleus: ground state and three levels; level 3 -> 1 or 2, 2 -> 1, 1 -> 0"""
    out = ["# synthetic level file"]
    for z in range(28, 69):
        zp = z * 2.52
        for a in range(int(zp) - 9, int(zp) + 14):
            if not (z + 20 < a < 2.9 * z + 4):
                continue
            h = 0.5 * (a % 2)
            out.append("%6s%6d%5d" % ("", 1000 * z + a, 4))
            for e, j, p, t, g in ((0.0, h, 1, 0.0, []), (0.3, 1 + h, -1, half, [(0, 1.0, icc[0])]),
                                  (0.8, 2 + h, 1, half, [(1, 1.0, icc[0])]), (1.5, 3 + h, -1, half, [(1, 0.5, icc[0]), (2, 0.5, icc[1])])):
                out.append("%10.6f%5.1f%3d%13.5e%3d" % (e, j, p, t, len(g)))
                for f, b, c in g:
                    out.append("%3d%9.3e%10.3e" % (f, b, c))
    return "\n".join(out) + "\n"
