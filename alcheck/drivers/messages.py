"""Reporting one diagnostic, through the real constructor."""
from prims import any_str, count
from asterisklint.defines import (
    DupeDefMixin, ErrorDef, HintDef, MessageDefManager, WarningDef)
from asterisklint.where import Where


class E_ALCHECK_ONE(ErrorDef):
    message = 'the text <{one}> and <{two}>'


class W_ALCHECK_OTHER(WarningDef):
    message = 'some other text'


class H_ALCHECK_DUPE(DupeDefMixin, HintDef):
    message = 'a duplicate of <{one}>'


def on_one(message):
    count('listener')


def on_one_too(message):
    count('listener2')


def on_other(message):
    count('otherlistener')


def setup(manager_muted, class_muted):
    MessageDefManager.muted = manager_muted
    E_ALCHECK_ONE.muted = class_muted
    H_ALCHECK_DUPE.muted = class_muted
    E_ALCHECK_ONE.add_callback(on_one)
    E_ALCHECK_ONE.add_callback(on_one_too)
    H_ALCHECK_DUPE.add_callback(on_one)
    H_ALCHECK_DUPE.add_callback(on_one_too)
    W_ALCHECK_OTHER.add_callback(on_other)


def here():
    return Where('the-file.conf', 4711, any_str('line'))


def report_one(manager_muted, class_muted):
    setup(manager_muted, class_muted)
    where = here()
    message = E_ALCHECK_ONE(where, one='{fi}rst', two='sec%sond')
    raised = MessageDefManager.raised
    return (len(raised), 'E_ALCHECK_ONE' in raised,
            len(raised['E_ALCHECK_ONE']),
            raised['E_ALCHECK_ONE'][0] is message,
            message.where is where)


def report_dupe(manager_muted, class_muted):
    setup(manager_muted, class_muted)
    where = here()
    message = H_ALCHECK_DUPE(where, previous=here(), one='{fi}rst')
    raised = MessageDefManager.raised
    return (len(raised), 'H_ALCHECK_DUPE' in raised,
            len(raised['H_ALCHECK_DUPE']),
            raised['H_ALCHECK_DUPE'][0] is message,
            message.where is where)


def report_second(manager_muted, class_muted):
    """Of a class that has been reported before."""
    setup(manager_muted, class_muted)
    MessageDefManager.raised['E_ALCHECK_ONE'].append(None)
    MessageDefManager.raised['W_ALCHECK_OTHER'].append(None)
    where = here()
    message = E_ALCHECK_ONE(where, one='{fi}rst', two='sec%sond')
    raised = MessageDefManager.raised
    return (len(raised) - 1, 'E_ALCHECK_ONE' in raised,
            len(raised['E_ALCHECK_ONE']) - 1,
            raised['E_ALCHECK_ONE'][-1] is message,
            message.where is where)


def report_any(cls, names, manager_muted, class_muted):
    """Any class of the code base."""
    MessageDefManager.muted = manager_muted
    cls.muted = class_muted
    cls.add_callback(on_one)
    W_ALCHECK_OTHER.add_callback(on_other)
    kwargs = {}
    for name in names:
        kwargs[name] = '{fi}rst'
    where = here()
    before = len(MessageDefManager.raised)
    message = cls(where, previous=here(), **kwargs)
    raised = MessageDefManager.raised
    return (len(raised) - before, cls.__name__ in raised,
            len(raised[cls.__name__]),
            raised[cls.__name__][0] is message,
            message.where is where)


def ignored():
    """The environment is set by the check."""
    class E_ALCHECK_IGN(ErrorDef):
        message = 'text'
    return E_ALCHECK_IGN.muted
