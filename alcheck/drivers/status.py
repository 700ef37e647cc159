"""
Exit status of the commands. The parser is replaced by one that reports what
the scenario says at the time that the scenario says.
"""
import asterisklint
from prims import count
from asterisklint.application import AppLoader
from asterisklint.app import E_APP_MISSING
from asterisklint.defines import (
    ErrorDef, MessageDefManager, WarningDef)
from asterisklint.varfun import E_FUNC_MISSING, FuncLoader, VarLoader
from asterisklint.where import Where


class E_ALCHECK_ONE(ErrorDef):
    message = 'one'


class E_ALCHECK_TWO(ErrorDef):
    message = 'two'


class W_ALCHECK_IGNORED(WarningDef):
    message = 'ignored'


class W_ALCHECK_IGNORED_TOO(WarningDef):
    message = 'ignored'


class Plan:
    func_odbc = ()
    parse = ()
    walk = ()
    contexts = ()
    labels = ()


def report(kinds):
    for kind in kinds:
        where = Where('the-file.conf', 4711, b'x')
        if kind == 'one':
            E_ALCHECK_ONE(where)
        elif kind == 'two':
            E_ALCHECK_TWO(where)
        elif kind == 'ignored':
            W_ALCHECK_IGNORED(where)
        elif kind == 'ignored2':
            W_ALCHECK_IGNORED_TOO(where)
        elif kind == 'app':
            E_APP_MISSING(where, app='NoSuchApp')
        elif kind == 'app2':
            E_APP_MISSING(where, app='nosuchapp')
        elif kind == 'app3':
            E_APP_MISSING(where, app='Another')
        elif kind == 'func':
            E_FUNC_MISSING(where, func='NOSUCHFUNC')
        elif kind == 'func2':
            E_FUNC_MISSING(where, func='NoSuchFunc')
        elif kind == 'func3':
            E_FUNC_MISSING(where, func='ANOTHER')
        elif kind.startswith('use-app:'):
            AppLoader().get(kind[8:].lower())
        elif kind.startswith('use-func:'):
            FuncLoader().get(kind[9:].lower())


class Context:
    def __init__(self, name):
        self.name = name


class Dialplan:
    def __init__(self):
        self.contexts = [Context(i) for i in Plan.contexts]
        self.all_labels = set(Plan.labels)

    def walk_jump_destinations(self):
        count('walked')
        report(Plan.walk)


class DialplanParser:
    def __init__(self):
        self.included = []

    def include(self, filename):
        self.included.append(filename)

    def __iter__(self):
        report(Plan.parse)
        count('parsed')
        yield Dialplan()


class FuncOdbcContext:
    pass


class FuncOdbcParser:
    def __init__(self):
        self.included = []

    def include(self, filename):
        self.included.append(filename)

    def __iter__(self):
        yield FuncOdbcContext()
        report(Plan.func_odbc)
        count('func_odbc')


asterisklint.FileDialplanParser = DialplanParser
asterisklint.FileFuncOdbcParser = FuncOdbcParser


class Args:
    dialplan = 'dir/extensions.conf'
    func_odbc = 'dir/func_odbc.conf'
    verbose = False
    reverse = False


class Editdistance:
    """eval() gives the same distance for all."""
    distance = 9

    def eval(self, a, b):
        return self.distance


def setup():
    MessageDefManager.raised.clear()
    W_ALCHECK_IGNORED.muted = True
    W_ALCHECK_IGNORED_TOO.muted = True


def command(main, func_odbc, parse, walk):
    setup()
    Plan.func_odbc = func_odbc
    Plan.parse = parse
    Plan.walk = walk
    return main.handle_args(Args())


def ident_scan(module, main, distance, verbose, contexts, labels):
    setup()
    ed = Editdistance()
    ed.distance = distance
    module.editdistance = ed
    Plan.contexts = contexts
    Plan.labels = labels
    args = Args()
    args.verbose = verbose
    return main.handle_args(args)


class Status:
    """Stands for any command."""
    def __init__(self, value):
        self.value = value

    def handle_args(self, args):
        return self.value


def propagated(base, value):
    """The status of handle_args through MainBase."""
    class Command(base):
        def parse_args(self, args):
            return Args()

        def handle_args(self, args):
            return value
    return Command()([], {})


class Module:
    """Stands for the module of a command."""
    def __init__(self, value):
        self.value = value

    def main(self, args, envs):
        count('ran')
        return self.value


def run_main(main, value):
    """load_command is replaced by the check."""
    return main(['some-command', 'an-arg'], {'HOME': '/nonexistent'})


def unknown(main, name):
    return main([name, 'an-arg'], {'HOME': '/nonexistent'})


class Documented:
    def __init__(self, doc):
        self.__doc__ = doc


def list_all(list_commands):
    list_commands([], {})
