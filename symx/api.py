"""what the check files use"""
import os

os.environ.setdefault("JAX_PLATFORMS", "cpu")
import warnings

warnings.filterwarnings("ignore")
import logging

logging.disable(logging.WARNING)


class Registry(list):
    def __call__(self, name=None, bounds="", quick=True, finding=None, thorough_opts=None, **opts):
        def deco(f):
            self.append(dict(name=name or f.__name__, body=f, bounds=bounds or (f.__doc__ or "").strip(), quick=quick, finding=finding,
                             opts=opts, thorough_opts=thorough_opts or {}))
            return f

        return deco
