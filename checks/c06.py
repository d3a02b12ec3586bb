"""C06: entries stored under an earlier accuracy stay reachable and are never duplicated when the accuracy changes."""
from engine.terms import *
from checks.c05 import history

MIN = 6

def run(ck):
    rule = 'stored entries stay reachable under the accuracy they were stored with; rewriting replaces them'
    for ops in (['set1', 'acc2'], ['acc2', 'set1'], ['set1', 'acc2', 'set2'], ['set1', 'acc2', 'set1'], ['set1', 'acc2', 'default'], ['set1', 'acc2', 'del'],
                ['set1', 'acc2', 'acc3'], ['set1', 'acc2', 'acc3', 'set1'], ['acc2', 'set1', 'acc3', 'del']):
        history(ck, 'accuracy history/', ops, rule=rule)
