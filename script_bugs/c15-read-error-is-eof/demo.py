import sys, os, subprocess
# standard input is a terminal that hangs up: reading it fails
(master, slave) = os.openpty()
os.write(slave, b'G0 X1\nG1 X')
os.close(slave)
out = subprocess.run([sys.executable, '-B', os.path.join(os.getcwd(), 'scripts', 'pygcode-norm'), '-'],
                     stdin=master, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
assert out.returncode != 0, out
