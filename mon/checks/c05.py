"""C05 functions and python blocks are represented faithfully"""
from mon.structured import Fidelity


class Check(Fidelity):
    quick, thorough = 36000, 400000
    weights = {'variable': 1.5, 'function': 8, 'comment': 1, 'blank': 1, 'pydef': 5, 'directive': 1}
    rule = ('Files of 1-14 composed statements, mostly shell/python/fakeroot functions (with overrides, anonymous, look-alike names such as python_foo) and def blocks, bodies containing text that looks like '
            'other statements, blank lines, continuation lines and balanced braces. Oracle: generator ground truth for name, overrides, flags and the dedented body lines, '
            'and for where the block ends.')
    min_events = {'is_Function': 5000, 'is_PythonBlock': 3000, 'bodies_compared': 5000}


CHECK = Check()
