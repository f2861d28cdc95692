from pygcode import Word, Line
for v in (0.5, 0.0004, 6e-17, -1e-9):
    w = Line('G1 ' + str(Word('X', v))).block.X
    assert abs(w.value - v) <= 0.0005, w
