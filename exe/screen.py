# -*- coding: utf-8 -*-
"""Reads what a viewer shows, and runs the view command without a terminal."""
import urwid


def rows(widget, size, focus=True):
    """[(text, [(attr, text run)])] of the rendered canvas."""
    canvas = widget.render(size, focus=focus)
    res = []
    for row in canvas.content():
        runs = [(attr, text.decode('utf-8')) for attr, cs, text in row]
        res.append((u''.join(t for _, t in runs), runs))
    return res


def texts(widget, size, focus=True):
    return [t.rstrip() for t, _ in rows(widget, size, focus)]


class Loop(object):
    """Stands in for urwid.MainLoop.run: calls back instead."""

    def __init__(self, callback):
        self.callback = callback

    def __enter__(self):
        self.orig = urwid.MainLoop.run
        callback = self.callback

        def run(loop):
            callback(loop)
        urwid.MainLoop.run = run
        return self

    def __exit__(self, *exc_info):
        urwid.MainLoop.run = self.orig
