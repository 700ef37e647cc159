"""
Fragments of configuration with the diagnostics that they give (see
tables/causes.json; each was confirmed by reading), and ways to lay them out
over files.
"""
import json
import os

TABLE = os.path.join(os.path.dirname(__file__), 'tables', 'causes.json')
HEAD = {'ctx': ('[general]', '[globals]', '[ctx]', 'exten => 9,1,NoOp()'),
        'odbc': ('[AA]',)}
TAIL = {'ctx': ('', '[tail]', '', 'exten => 8,1,NoOp()'),
        'odbc': ('', '[TAIL]', 'readsql=1')}
PAD = {'ctx': ('[pad]', 'exten => 1,1,NoOp()', ''),
       'odbc': ('; pad', '', '[PAD]', 'readsql=1', '')}
FNAME = {'ctx': 'model', 'odbc': 'odbc'}


class Cause:
    def __init__(self, place, lines, diags):
        self.place, self.lines, self.diags = place, lines, diags

    @property
    def name(self):
        return '; '.join(self.lines)


def load():
    with open(TABLE) as fp:
        return [Cause(**i) for i in json.load(fp)]


def layouts(cause):
    """
    [(name, files)]: files is [(filename, [element, ...])], an element is a
    line or the number of a line of the fragment (those of the head are
    negative), or a pair of that and another text of the line.
    """
    n = len(cause.lines)
    head = list(range(-len(HEAD[cause.place]), 0))
    frag = list(range(n))
    tail = list(TAIL[cause.place])
    pad = list(PAD[cause.place])
    out = [
        ('alone', [('a.conf', head + frag + tail)]),
        ('later', [('a.conf', head[:-2] + pad + head[-2:] + frag + tail)]),
        ('last', [('a.conf', head + frag)]),
        ('included', [('a.conf', head + ['#include b.conf'] + tail),
                      ('b.conf', ['; x'] + frag)]),
        ('after include', [
            ('etc/a.conf', head[:-2] + ['#include b/a.conf'] + head[-2:] +
             frag + tail), ('etc/b/a.conf', pad[:-1])]),
        ('after comments', [
            ('a.conf', head + ['#include b.conf'] + frag + tail),
            ('b.conf', ['; x', '; y', '', '; z'])]),
        ('nested', [
            ('etc/a.conf', head + ['#include "b/a.conf"'] + tail),
            ('etc/b/a.conf', ['; x', '#include c.conf', '; y']),
            ('etc/b/c.conf', ['; z'] + frag + ['; z'])]),
        ('between', [
            ('a.conf', head + ['#include b.conf'] + tail),
            ('b.conf', ['#include c.conf', '; x'] + frag + ['; y']),
            ('c.conf', ['; z', '; z'])]),
        ('missing before', [
            ('a.conf', head + ['#tryinclude none.conf'] + frag + tail)]),
    ]
    if cause.place == 'ctx' and not any('[' == i[:1] for i in cause.lines):
        out.append(('twice', [
            ('a.conf', head[:-2] + ['[first]', head[-1], '#include b.conf'] +
             head[-2:] + ['#include b.conf'] + tail),
            ('b.conf', ['; x'] + frag)]))
    if n == 1 and cause.lines[0].startswith('exten => 5,1,'):
        other = (0, 'exten => 6,' + cause.lines[0][len('exten => 5,'):])
        out.append(('again', [('a.conf', head + frag + [other] + tail)]))
        out.append(('again in another file', [
            ('a.conf', head + frag + ['#include b.conf'] + tail),
            ('b.conf', ['; x', '; y', other])]))
    blanks = not all(cause.lines)   # those are counted per file
    for k in range(1, 1 if blanks else n):
        out.append(('split at {}'.format(k), [
            ('a.conf', head + frag[:k] + ['#include b.conf'] + tail),
            ('b.conf', ['; x'] + frag[k:])]))
        out.append(('joined at {}'.format(k), [
            ('a.conf', head + ['#include b.conf', '; x'] + frag[k:] + tail),
            ('b.conf', ['; x', '; x'] + frag[:k])]))
    return out


def render(cause, files, eol='\n'):
    """Files with lines as bytes, and {number of line: [(file, line)]}."""
    out, where = [], {}
    head = HEAD[cause.place]
    for name, elements in files:
        lines = []
        for i in elements:
            text = None
            if isinstance(i, tuple):
                i, text = i
            if isinstance(i, int):
                where.setdefault(i, []).append((name, len(lines) + 1))
                i = text or (cause.lines[i] if i >= 0 else head[i])
            lines.append((i + eol).encode('latin1'))
        out.append((name, tuple(lines)))
    return tuple(out), where
