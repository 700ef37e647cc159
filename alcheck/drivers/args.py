"""Calls of applications."""
from asterisklint.application import AppLoader
from asterisklint.where import Where
from prims import any_str1, any_var


def call(lower, data):
    AppLoader().get(lower)(
        data, where=Where('the-file.conf', 4711, b'x'), jump_destinations=[])


def call_any(lower):
    call(lower, any_str1('data'))


def call_var(lower):
    call(lower, any_var())
