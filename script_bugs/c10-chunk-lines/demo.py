import subprocess, sys, os
def run(tool, text, *args, **kw):
    p = subprocess.run([sys.executable, '-B', os.path.join(os.getcwd(), 'scripts', tool), '-'] + list(args), input=text.encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return (p.returncode, p.stdout.decode(), p.stderr.decode())

lines = ['G1 X%d' % i for i in range(2000)]
(code, out, err) = run('pygcode-crop', ''.join(l + '\n' for l in lines), '5:')
assert code == 0, err
assert out.split('\n')[-1990:-1] == ['G01 X%d' % i for i in range(2000)][-1989:], out[-200:]
