import subprocess, sys, os
def run(tool, text, *args, **kw):
    p = subprocess.run([sys.executable, '-B', os.path.join(os.getcwd(), 'scripts', tool), '-'] + list(args), input=text.encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return (p.returncode, p.stdout.decode(), p.stderr.decode())

(code, out, err) = run('pygcode-crop', 'G0 Z5\nG1 X1 Y1\nG1 X3\nG1 Z1\n', '3:')
assert code == 0, err
lines = [l for l in out.split('\n') if l.startswith('G00')]
assert lines[0] == 'G00 Z5', out
