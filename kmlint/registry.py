"""Rule registry and small helpers for driving the analysed API."""
from .values import *

RULES = {}


def rule(*props):
    def deco(f):
        for p in props:
            RULES.setdefault(p, []).append(f)
        return f
    return deco


def call(ip, f, *args, **kw):
    return ip.call(f, list(args), kw)


def meth(ip, o, name, /, *args, **kw):
    return ip.call(ip.getattr(o, name), list(args), kw)


def attr(ip, o, name):
    return ip.getattr(o, name)


def new(env, path, *args, **kw):
    return env.ip.call(env.get(path), list(args), kw)
