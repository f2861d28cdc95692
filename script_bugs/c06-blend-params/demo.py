from pygcode import Machine
m = Machine()
m.process_str('G64 P0.1 Q0.2')
assert str(m.mode.control_mode) == 'G64 P0.1 Q0.2', str(m.mode.control_mode)
