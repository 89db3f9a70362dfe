"""Reference for coordinate conversion (analysed, never executed)."""


def to_cell(x, y, origin, rows, size):
    return [int(rows - round((y - origin[1]) / size)), int(round((x - origin[0]) / size))]


def to_coord(row, col, origin, rows, size):
    return [col * size + origin[0], (rows - row) * size + origin[1]]
