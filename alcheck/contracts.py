"""
Summaries of functions of the repository for use by their callers. Every
function with a summary is analysed by itself as well (drivers/text.py), and
what it returns there is compared with its summary.
"""
from .builtins import exc
from .values import V_NONE, V, join_v, v_y
from . import varmodel

VF = 'asterisklint.varfun:'


def text_value(it, st, node):
    return join_v(v_y(None, None), varmodel.any_var(it, st, node))


def c_parse_variables(it, st, args, kwargs, node):
    if len(it.stack) == 1 and it.stack[0] in it.direct.get(
            'parse_variables', ()):
        return NotImplemented
    s2 = st.copy()
    return [(st, text_value(it, st, node)),
            exc(s2, VF + 'VarParseError', True, node)]


def c_parse_assignment(it, st, args, kwargs, node):
    if len(it.stack) == 1 and it.stack[0] in it.direct.get(
            'parse_assignment', ()):
        return NotImplemented
    data = args[1] if len(args) > 1 else kwargs.get('data')
    if data is None or not varmodel.text_arg(it, st, data):
        return NotImplemented
    return [(st, join_v(V_NONE, data))]


def install(it, direct=None):
    """direct: {name: functions that call the real one}"""
    it.direct = direct or {}
    for qual, h in ((VF + 'VarLoader.parse_variables', c_parse_variables),
                    (VF + 'VarLoader.parse_assignment', c_parse_assignment)):
        it.overrides[qual] = h
