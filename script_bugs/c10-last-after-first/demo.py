import subprocess, sys, os
def run(tool, text, *args, **kw):
    p = subprocess.run([sys.executable, '-B', os.path.join(os.getcwd(), 'scripts', tool), '-'] + list(args), input=text.encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return (p.returncode, p.stdout.decode(), p.stderr.decode())

(code, out, err) = run('pygcode-crop', 'G1 X1 (a)\nG1 X5 (b)\nG1 X7 (c)\n', 'x>2:x>4')
assert code == 0, err
assert '(b)' not in out, out
