"""Reference: tails of particles at a step (never executed, analysed like the code)."""


def tails(rows, cols, step, interval, tail):
    """pieces of path of every particle with at least step entries, newest first, tail pieces each"""
    out = []
    for p in range(len(rows)):
        n = len(rows[p])
        if step <= n:
            for k in range(tail):
                new = step - k * interval - 1
                old = new - interval
                if old >= 0:
                    last = [(cols[p][old], rows[p][old]), (cols[p][new], rows[p][new])]
                    out.append(last)
                elif step - 1 - interval >= 0:
                    m = (step - 1) // interval - 1
                    new = step - m * interval - 1
                    old = new - interval
                    out.append([(cols[p][old], rows[p][old]), (cols[p][new], rows[p][new])])
                else:
                    out.append([(cols[p][j], rows[p][j]) for j in range(min(2, n))])
    return out


def fade(start, end, tail, k, c):
    """component c of the colour of piece k"""
    if tail == 1:
        return start[c]
    return start[c] + (end[c] - start[c]) * k / (tail - 1)
