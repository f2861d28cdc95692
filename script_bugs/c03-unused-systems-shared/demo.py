from copy import copy
from pygcode import Machine
m = Machine()
c = copy(m)
m.state.coord_systems[2].offset.X = 5
assert c.state.coord_systems[2].offset.X == 0
