"""Collects what a rule analysed and what it found."""
import json
import os
import time
from .facts import rel


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obligations = {}      # key -> [rule, where, ok]
        self.violations = {}       # key -> dict
        self.functions = set()
        self.opaque = set()
        self.stats = {'statements': 0, 'states': 0, 'calls': 0, 'entries': 0}
        self.notes = []
        self.start = time.time()

    def ok(self, rule, where, detail=''):
        """An obligation that was examined (and, unless bad() is called for it, discharged)."""
        k = (rule, where)
        if k not in self.obligations:
            self.obligations[k] = detail

    def bad(self, rule, where, message, trail=None):
        self.ok(rule, where)
        k = (rule, where)
        if k not in self.violations:
            self.violations[k] = {'rule': rule, 'where': where, 'message': message, 'trail': trail or []}

    def absorb(self, E):
        for k in ('statements', 'states', 'calls'):
            self.stats[k] += E.stats[k]
        self.stats['entries'] += 1
        self.functions |= E.stats['functions']
        self.opaque |= E.stats['opaque']
