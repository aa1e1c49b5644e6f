from .C07 import run
