from prims import any_str, choice, any_var
from asterisklint.varfun import VarLoader, VarParseError, FuncLoader
from asterisklint.where import Where


def where():
    return Where(any_str('filename'), 1, any_str('rawline'))


def parse_variables():
    w = where()
    data = any_str('data')
    loader = VarLoader()
    try:
        return loader.parse_variables(data, w)
    except VarParseError:
        return ''


def parse_assignment():
    w = where()
    data = any_str('data')
    if choice():
        data = any_var()
    VarLoader().parse_assignment(data, w)
