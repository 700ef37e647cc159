"""Files that are read from memory."""
from asterisklint import FileDialplanParser, FileFuncOdbcParser
from asterisklint.config import ConfigParser
from asterisklint.configws import VerticalSpaceWarner
from asterisklint.file import FileReader
from prims import event


class Stream:
    """An opened file. Whatever is done with it leaves an event."""
    def __init__(self, name, lines):
        self.name = name
        self.lines = lines
        self.number = 0
        self.closed = False
        event('open', name)

    def __iter__(self):
        return self

    def __next__(self):
        if self.number >= len(self.lines):
            event('end', self.name)
            raise StopIteration
        self.number += 1
        event('line', self.name, self.number)
        return self.lines[self.number - 1]

    def close(self):
        if not self.closed:
            event('close', self.name)
        self.closed = True

    def readline(self):
        for line in self:
            return line
        return b''

    def readlines(self):
        return [line for line in self]

    def read(self):
        return b''.join(self.readlines())

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


class Opener:
    def __init__(self, files):
        self.files = files

    def __call__(self, filename):
        for name, lines in self.files:
            if name == filename:
                return Stream(name, lines)
        raise FileNotFoundError('no such file')


def read(files):
    parser = FileDialplanParser(opener=Opener(files))
    parser.include(files[0][0])
    return next(iter(parser))


def lint(files):
    dialplan = read(files)
    event('walk')
    dialplan.walk_jump_destinations()
    return dialplan


def model(files):
    """What is kept of a dialplan."""
    dialplan = lint(files)
    event('model')
    ret = []
    for varset in dialplan.general:
        ret.append(('general', varset.variable, varset.value, varset.where))
    for varset in dialplan.globals:
        ret.append(('globals', varset.variable, varset.value, varset.where))
    for context in dialplan.contexts:
        ret.append(('context', context.name, '', context.where))
        for step in context:
            ret.append(('step', context.name, (
                step.pattern.raw, step.prio, step.label or '', step.app.raw),
                step.where))
        for include in context.includes:
            ret.append((
                'include', context.name, include.context_name, include.where))
    return ret


def odbc(files):
    """What is kept of func_odbc.conf."""
    parser = FileFuncOdbcParser(opener=Opener(files))
    parser.include(files[0][0])
    contexts = list(parser)
    event('model')
    ret = []
    for context in contexts:
        ret.append(('context', context.name, '', context.where))
        for varset in context:
            ret.append((
                'key', context.name, (varset.variable, varset.value),
                varset.where))
    return ret


class Elements(VerticalSpaceWarner, ConfigParser, FileReader):
    pass


def lines(files):
    """The lines as they leave the reader."""
    reader = FileReader(opener=Opener(files))
    reader.include(files[0][0])
    for where, data, comment in reader:
        event('out', where.filename, where.lineno, data, comment)


def elements(files):
    reader = Elements(opener=Opener(files))
    reader.include(files[0][0])
    for element in reader:
        event('out', element.where.filename, element.where.lineno)


def everything(files):
    """Read, check the jumps, show it both ways."""
    dialplan = lint(files)
    event('show')
    text = dialplan.format_as_dialplan_show(reverse=False)
    dialplan.format_as_dialplan_show()
    return text
