import sys, os, subprocess, time
p = subprocess.Popen([sys.executable, '-B', os.path.join(os.getcwd(), 'scripts', 'pygcode-norm'), '-'], stdin=subprocess.PIPE,
                     stdout=subprocess.PIPE, stderr=subprocess.PIPE)
p.stdin.write(b'G0 X1\nG1')
p.stdin.flush()
time.sleep(3)
p.stdin.write(b' X2\nG1 X3\n')
p.stdin.close()
out = p.stdout.read().decode()
assert p.wait() == 0 and out.split('\n') == ['G00 X1', 'G01 X2', 'G01 X3', ''], out
