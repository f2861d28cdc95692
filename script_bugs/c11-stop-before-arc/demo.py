import subprocess, sys, os
def run(tool, text, *args, **kw):
    p = subprocess.run([sys.executable, '-B', os.path.join(os.getcwd(), 'scripts', tool), '-'] + list(args), input=text.encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return (p.returncode, p.stdout.decode(), p.stderr.decode())

(code, out, err) = run('pygcode-norm', 'G0 X0 Y0\nG2 X2 Y0 I1 J0 F50 M1\n', '-al', '-alp', '0.5', '-rc')
assert code == 0, err
lines = out.strip().split('\n')
assert [i for (i, l) in enumerate(lines) if 'M01' in l] == [len(lines) - 1], out
