from .C11 import run
