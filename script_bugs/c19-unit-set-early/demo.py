from pygcode.machine import *
a = Position(axes='XYZ', X=0, Y=1, Z=1, unit=UNIT_IMPERIAL)
a.unit = UNIT_METRIC
assert a.Y == 25.4 and a.Z == 25.4, a
