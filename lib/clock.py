"""A controlled clock, installed before Cheetah is imported."""
import time
import threading
now = 1000.0
_real = time.time
_main = threading.get_ident


def fake():
    return now


def install():
    time.time = fake
    time.monotonic_real = time.monotonic


def set(t):
    global now
    now = float(t)
