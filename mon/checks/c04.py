"""C04 variable assignments are represented faithfully"""
from mon.structured import Fidelity


class Check(Fidelity):
    quick, thorough = 36000, 400000
    weights = {'variable': 12, 'function': .6, 'comment': 1, 'blank': 1, 'pydef': .4, 'directive': 1.5}
    rule = ('Files of 1-14 composed statements, mostly variable assignments: every operator, spacing around it, single line and continued values, values full of bitbake look-alikes, '
            'new style (2/3) and old style (1/3) names with overrides and append/prepend/remove. Every case non-trivial that has a statement. Oracle: the generator knows name, overrides, operator, '
            'value and value words by construction and compares them with every item.')
    min_events = {'is_Variable': 5000, 'attributes_compared': 20000}


CHECK = Check()
