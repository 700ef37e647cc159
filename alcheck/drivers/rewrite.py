"""Rewriting of the files in drivers/fs.py."""
from aldriver.fs import Inode, disk
from asterisklint.helper.mutator import FileMutatorBase


class Mutator(FileMutatorBase):
    """Marks the lines that have an issue, in two writes."""
    def process_issue(self, issue, inline, outfile):
        outfile.write(b'<')
        disk.op('convert')
        outfile.write(inline.replace(b'x', b'yy'))


class Issue:
    def __init__(self, lineno):
        self.lineno = lineno


def setup(files, links, fail, how, answer):
    for path, data, uid, gid, mode in files:
        disk.files[path] = Inode(data, uid, gid, mode)
    for path, target in links:
        disk.links[path] = target
    disk.watched = tuple([i[0] for i in files])
    disk.fail = fail
    disk.how = how
    disk.answer = answer
    disk.look()


def rewrite(files, links, issues, fail, how):
    setup(files, links, fail, how, 'y')
    mutator = Mutator(dict(
        (name, [Issue(i) for i in linenos]) for name, linenos in issues))
    try:
        mutator.process()
    finally:
        disk.final()


def asked(files, links, issues, fail, how, answer):
    setup(files, links, fail, how, answer)
    mutator = Mutator(dict(
        (name, [Issue(i) for i in linenos]) for name, linenos in issues))
    try:
        mutator.request_permission_and_process()
    finally:
        disk.final()


def end():
    disk.final()

