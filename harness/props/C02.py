from .session import run
