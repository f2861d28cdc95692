from pygcode import Machine
from pygcode.gcodes import text2gcodes
from pygcode.transform import simplify_canned_cycle
m = Machine()
m.process_str('G0 X5 Z5')
out = list(simplify_canned_cycle(text2gcodes('G81 X0 Y1 Z-2 R0.5')[0], m.pos))
assert [g.X for g in out if g.X is not None] == [0], list(map(str, out))
