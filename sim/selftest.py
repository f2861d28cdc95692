"""Set-up: there is nothing to build; make sure that the simulator itself is sound"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    n = 0
    for d in (HERE, os.path.join(HERE, 'props')):
        for name in sorted(os.listdir(d)):
            if name.endswith('.py'):
                path = os.path.join(d, name)
                with open(path, 'rb') as f:
                    compile(f.read(), path, 'exec')
                n += 1
    # the random numbers that seeds stand for
    import random
    r = random.Random(12345)
    got = [r.randrange(1000) for _ in range(5)]
    if sys.version_info[:2] == (3, 12) and got != [426, 750, 10, 839, 845]:
        print("note: this Python draws other numbers: %s" % got)
    os.makedirs(os.path.join(os.path.dirname(HERE), 'evidence'), exist_ok=True)
    print("%d modules, Python %s" % (n, sys.version.split()[0]))
    return 0


if __name__ == '__main__':
    sys.exit(main())
