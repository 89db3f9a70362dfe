"""Reference for the labels of the colour bar of spatial maps (analysed, never executed)."""


def labels(top, n):
    out = [str(int(top * k / (n - 1))) for k in range(n)]
    out[n - 1] = str(int(top)) + '+'
    return out
