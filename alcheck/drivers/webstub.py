"""What web/wsgi.py needs of falcon and io."""


class HTTPError(Exception):
    def __init__(self, title=None, description=None, *args, **kwargs):
        self.title = title
        self.description = description
        super().__init__(title)


class HTTPBadRequest(HTTPError):
    pass


class HTTPPayloadTooLarge(HTTPError):
    pass


class Options:
    pass


class API:
    def __init__(self, middleware=None, **kwargs):
        self.middleware = middleware
        self.req_options = Options()
        self.resp_options = Options()

    def add_route(self, *args, **kwargs):
        pass


def before(hook, *args, **kwargs):
    def decorator(responder):
        return responder
    return decorator


class BytesIO:
    """The lines of bytes."""
    def __init__(self, data=b''):
        self.data = data
        self.pos = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.pos >= len(self.data):
            raise StopIteration
        end = self.data.find(b'\n', self.pos)
        end = len(self.data) if end < 0 else end + 1
        ret = self.data[self.pos:end]
        self.pos = end
        return ret

    def read(self):
        ret = self.data[self.pos:]
        self.pos = len(self.data)
        return ret

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()
