import sys, os, subprocess
import tempfile
d = tempfile.mkdtemp()
path = os.path.join(d, 'a.nc')
with open(path, 'w') as f:
    f.write('G0 X1\nG0 X2\n' * 8000)
p = subprocess.Popen([sys.executable, '-B', os.path.join(os.getcwd(), 'scripts', 'pygcode-crop'), path, '1:'],
                     stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
p.stdout.read(200)
p.stdout.close()
status = p.wait(120)
os.remove(path)
os.rmdir(d)
assert status != 0, status
