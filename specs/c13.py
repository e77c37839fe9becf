"""C13: see conn.py"""
import os
from . import conn
from .conn import *
TITLE = "C13"


def build():
    conn.build()


def tasks(tier): return conn.tasks({"C13"})
