"""SQLite databases that hold the tables of svv/dbgen.py, in memory only."""
import random
import re
import sqlite3

from . import dbgen

COUNT = 6
# virtual machine steps (in thousands) after which a query is given up
STEPS = 400
_open = {}


def get(number):
    if number not in _open:
        db = sqlite3.connect(":memory:")
        for statement in dbgen.schema(random.Random(number)):
            db.execute(statement)
        db.execute("pragma query_only = on")
        _open[number] = db
    return _open[number]


def names(db, sql):
    """The names of the columns of a query; those made from the text of an expression are None."""
    return [n if re.fullmatch(r"\w+", n) else None for n, *_ in db.execute(sql, dbgen.PARAMETERS).description]


def run(db, sql, rows=True):
    """(program, rows, error): what the query is compiled to, and what it gives"""
    steps = [0]

    def count():
        steps[0] += 1
        return steps[0] > STEPS

    try:
        program = db.execute("explain " + sql, dbgen.PARAMETERS).fetchall()
        if not rows:
            return program, None, None
        db.set_progress_handler(count, 1000)
        return program, db.execute(sql, dbgen.PARAMETERS).fetchall(), None
    except sqlite3.Error as e:
        return None, None, str(e)
    finally:
        db.set_progress_handler(None, 0)
