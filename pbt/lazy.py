"""Import the code under test only inside the workers."""

import importlib


class Lazy:
    def __init__(self, name):
        self.__dict__["_name"] = name
        self.__dict__["_mod"] = None

    def __getattr__(self, attr):
        if self._mod is None:
            self.__dict__["_mod"] = importlib.import_module(self._name)
        return getattr(self._mod, attr)


def x64():
    import jax

    return bool(jax.config.jax_enable_x64)
