from .core import Lib
