"""Reference for the parallel driver (analysed, never executed)."""


def combined(results, var):
    out = []
    for r in results:
        out = out + r[var]
    return out


def worked(p, iters, count, rows, cols):
    p.generate_particles(count, rows, cols)
    for i in range(iters):
        p.run_iteration()
    return p.walk_data
