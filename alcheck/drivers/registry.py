"""Lookups in the registries, as the rest of the code does them."""
from asterisklint.application import AppLoader
from asterisklint.varfun import FuncLoader


def app(lower):
    found = AppLoader().get(lower)
    return (found, found.name, found.module)


def func(lower):
    found = FuncLoader().get(lower)
    return (found, found.name, found.module)


def entry(found):
    return (found, found.name, found.module)
