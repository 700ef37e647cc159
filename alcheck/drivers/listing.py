"""Commands that list what a dialplan uses, on files in memory."""
import asterisklint
from aldriver.files import Opener
from asterisklint.defines import MessageDefManager


class Files:
    files = ()


class DialplanParser(asterisklint.FileDialplanParser):
    def __init__(self, opener=None):
        super().__init__(opener=opener or Opener(Files.files))


class FuncOdbcParser(asterisklint.FileFuncOdbcParser):
    def __init__(self, opener=None):
        super().__init__(opener=opener or Opener(Files.files))


asterisklint.FileDialplanParser = DialplanParser
asterisklint.FileFuncOdbcParser = FuncOdbcParser


class Args:
    dialplan = 'extensions.conf'
    func_odbc = ''
    verbose = True
    reverse = False


class Editdistance:
    """The Levenshtein distance."""
    def eval(self, a, b):
        row = list(range(len(b) + 1))
        for i, x in enumerate(a):
            nxt = [i + 1]
            for j, y in enumerate(b):
                nxt.append(min(row[j] + (x != y), row[j + 1] + 1, nxt[j] + 1))
            row = nxt
        return row[-1]


def run(main, files, func_odbc, verbose):
    MessageDefManager.raised.clear()
    Files.files = files
    args = Args()
    args.func_odbc = func_odbc
    args.verbose = verbose
    return main.handle_args(args)


def ident_scan(module, main, files, verbose):
    module.editdistance = Editdistance()
    return run(main, files, '', verbose)
