"""Fault generators for lines and streams"""

CHARS = "0123456789.- GMXYZIJKRFSTLPQNOABCUVWDEH()%;*#/$\t!+=g m x\x00\x7f[]<>\x0b\x0c\x1c\x1f"
ODD = '\u212a\u0131\u0130\u017f\u0661\u2003\xa0\xbd\ud83d\ude00\xb2'


def damage(rng, text, odd=False):
    """text with 1..3 character level faults: (damaged text, [fault kinds])"""
    kinds = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.choice(['flip', 'change', 'drop', 'insert', 'repeat', 'truncate', 'head', 'swap', 'chunk', 'noise'])
        if odd and rng.random() < 0.3:
            k = 'odd'
        n = len(text)
        if n == 0 and k not in ('insert', 'noise'):
            k = 'insert'
        i = rng.randrange(n) if n else 0
        if k == 'flip':
            c = chr(ord(text[i]) ^ (1 << rng.randrange(7)))
            text = text[:i] + c + text[i + 1:]
        elif k == 'change':
            text = text[:i] + rng.choice(CHARS) + text[i + 1:]
        elif k == 'drop':
            j = min(n, i + rng.choice([1, 1, 2, 4]))
            text = text[:i] + text[j:]
        elif k == 'insert':
            text = text[:i] + rng.choice(CHARS) + text[i:]
        elif k == 'repeat':
            j = min(n, i + rng.choice([1, 2, 3, 6]))
            text = text[:j] + text[i:j] + text[j:]
        elif k == 'truncate':
            text = text[:i]
        elif k == 'head':
            text = text[i:]
        elif k == 'swap' and n > 1:
            i = min(i, n - 2)
            text = text[:i] + text[i + 1] + text[i] + text[i + 2:]
        elif k == 'chunk':
            j = rng.randrange(n)
            text = text[:i] + text[j:j + 5] + text[i:]
        elif k == 'noise':
            text = text[:i] + ''.join(rng.choice(CHARS) for _ in range(rng.randint(1, 6))) + text[i:]
        elif k == 'odd':
            text = text[:i] + rng.choice(ODD[:8] + ODD[10]) + text[i:]
        kinds.append('damage:' + k)
    text = text.replace('\n', ' ').replace('\r', ' ')
    return (text, kinds)


# lines that are refused because of their content
def bad_line(rng, m):
    """a line that a machine in state m (model) has to refuse; (text, kind)"""
    from . import model
    pool = [
        ('G1 G0 X1', 'conflict'), ('G2 X1 I1 G3 Y1 J2', 'conflict'), ('G17 G18', 'conflict'), ('M3 M5', 'conflict'),
        ('G90 G91', 'conflict'), ('F100 F200', 'conflict'), ('G54 G1 X4 G55', 'conflict'), ('G20 F5 G21', 'conflict'),
        ('G91 M5 M5', 'repeat'), ('G4 P1 G4 P2', 'repeat'), ('G91 G28 G28', 'repeat'), ('G81 X1 Z-1 R1 G82 X2', 'conflict'),
        ('G1 X1 X2', 'twice'), ('G91 G0 Z5 Z6', 'twice'), ('G2 X1 Y1 I1 I2', 'twice'), ('M3 S100 G1 Y3 Y4', 'twice'),
        ('G1 X', 'value'), ('G91 GX1', 'value'), ('G0 Z-', 'value'), ('G1 X1 Y..', 'value'), ('F G1', 'value'), ('G91 N', 'value'),
        ('G1 X5 ?', 'remainder'), ('G55 )', 'remainder'), ('G91 G1 X3 #1', 'remainder'), ('M3 S5 !', 'remainder'),
        ('G6 X1', 'unsupported'), ('G91 G123', 'unsupported'), ('M3 M800', 'unsupported'), ('G18 G5.7', 'unsupported'),
        ('G55 G28.7', 'unsupported'), ('F77 M101', 'unsupported'), ('G99 M98 P1', 'unsupported'),
    ]
    for _ in range(40):
        if rng.random() < 0.5 and m.mode['motion'] is not None:
            # parameters which the active motion cannot take, next to valid commands
            pre = rng.choice(['', 'G91 ', 'F321 ', 'M4 S12 ', 'G55 ', 'G18 ', 'G99 ', 'T9 '])
            pool2 = [pre + rng.choice(['I5', 'R3', 'Q4', 'X1 K3', 'H2', 'D5', 'X1 Y2 E3', 'J1 X3', 'L2 X1', 'P3 Y1'])]
            (text, kind) = (rng.choice(pool2), 'misplaced')
        else:
            (text, kind) = rng.choice(pool)
        if m.mode['motion'] is None and rng.random() < 0.3:
            (text, kind) = ('G91 F5', 'x')
            text = rng.choice(['X1', 'F50 Y2', 'M3 Z1', 'G55 X2 Y3'])
            kind = 'no-motion'
        t = m.clone()
        try:
            t.execute_text(text)
        except model.Refused:
            return (text, 'refused:' + kind)
        except model.Unsure:
            continue
    return ('G1 X1 X2', 'refused:twice')
