"""Dialplans, line by line."""
from asterisklint.dialplan import DialplanAggregator
from asterisklint.where import Where
from prims import event


class Feed:
    """Stands for the reader of the file."""
    lines = ()

    def __iter__(self):
        number = 0
        for line in self.lines:
            number += 1
            yield Where('the-file.conf', number, line), line, False


class Parser(DialplanAggregator, Feed):
    pass


def parse(lines):
    parser = Parser()
    parser.lines = lines
    return next(iter(parser))


def lint(lines):
    dialplan = parse(lines)
    event('walk')
    dialplan.walk_jump_destinations()
    return dialplan
