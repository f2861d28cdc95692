from pygcode import Machine
m = Machine()
m.process_str('G38.4 X1')
assert str(m.mode.motion) == 'G38.4', str(m.mode.motion)
