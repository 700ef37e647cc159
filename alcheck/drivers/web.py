"""Requests to the web interface, one after the other."""
from aldriver.files import Opener
from asterisklint import FileDialplanParser
from asterisklint.defines import MessageDefManager
from prims import event


class Request:
    content_length = 100
    content_type = 'application/json'

    def __init__(self, media):
        self.media = media
        self.env = {'wsgi.multithread': False, 'REMOTE_ADDR': '127.0.0.1'}


class Response:
    media = None
    body = None
    content_type = None
    status = '200 OK'


def post(check, media):
    resp = Response()
    check.on_post(Request(media), resp)
    return resp


def answer(where, check, media):
    event('request', where)
    resp = post(check, media)
    for filename, issues in resp.media['results'].items():
        event('file', where, filename, len(issues))
        for issue in issues:
            event('issue', where, filename, issue['line'], issue['class'],
                  issue['desc'])
    event('answered', where)


def requests(cls, texts):
    """All of them but the last may fail in any way."""
    check = cls()
    last = len(texts) - 1
    for n, text in enumerate(texts):
        media = {'files': {'extensions.conf': text}}
        if n < last:
            try:
                post(check, media)
            except Exception:
                event('failed', n)
        else:
            answer(n, check, media)


def check(files):
    parser = FileDialplanParser(opener=Opener(files))
    parser.include(files[0][0])
    for dialplan in parser:
        dialplan.walk_jump_destinations()


def checks(files):
    """The same for those that use the parser."""
    last = len(files) - 1
    for n, one in enumerate(files):
        MessageDefManager.reset()
        if n < last:
            try:
                check(one)
            except Exception:
                event('failed', n)
        else:
            event('request', n)
            check(one)
            for name, messages in MessageDefManager.raised.items():
                for m in messages:
                    event('issue', n, m.where.filename, m.where.lineno, name,
                          m.message.format(**m.fmtkwargs))
            event('answered', n)
