from pygcode import Machine
from pygcode.gcodes import text2gcodes
from pygcode.transform import simplify_canned_cycle
out = [str(g) for g in simplify_canned_cycle(text2gcodes('G82 X1 Y1 Z-2 R0.5 P1 L2')[0], Machine().pos)]
assert len([g for g in out if g.startswith('G04')]) == 2, out
