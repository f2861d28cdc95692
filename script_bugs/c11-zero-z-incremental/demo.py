import subprocess, sys, os
def run(tool, text, *args, **kw):
    p = subprocess.run([sys.executable, '-B', os.path.join(os.getcwd(), 'scripts', tool), '-'] + list(args), input=text.encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return (p.returncode, p.stdout.decode(), p.stderr.decode())

(code, out, err) = run('pygcode-norm', 'G0 Z7\nG91\nG1 X1\n', '-zz')
assert code == 0, err
from pygcode import Machine
m = Machine()
for l in out.split('\n'):
    m.process_str(l)
assert m.pos.Z == 0, out
