"""C06 all other directives are represented faithfully"""
from mon.structured import Fidelity


class Check(Fidelity):
    quick, thorough = 36000, 400000
    weights = {'variable': 1, 'function': .6, 'comment': 2, 'blank': 1, 'pydef': .4, 'directive': 12}
    rule = ('Files of 1-14 composed statements, mostly directives: inherit, inherit_defer, INHERIT, include, require, export, addtask, deltask, unset, flag assignment, EXPORT_FUNCTIONS, '
            'addpylib, addfragments, include_all and comments, with varied spacing and indentation. Oracle: generator ground truth for the kind and every field.')
    min_events = {'is_' + x: 100 for x in ('inherit', 'inherit_defer', 'INHERIT', 'include', 'require', 'export', 'exportnov', 'addtask', 'deltask', 'unset', 'unsetflag', 'flag', 'exportfunc', 'addpylib', 'addfragments', 'include_all', 'CommentBlock', 'IndentedComment')}


CHECK = Check()
