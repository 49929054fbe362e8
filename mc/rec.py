"""Helpers to define record classes inside cases."""
from infi.instruct.buffer import Buffer


def record(attrs, bases=(Buffer,), name='Rec'):
    """attrs: dict or list of pairs"""
    attrs = dict(attrs)
    attrs.setdefault('__module__', 'case')
    return type(Buffer)(name, bases, attrs)


def unpack(cls, data):
    obj = cls()
    obj.unpack(bytes(data))
    return obj
