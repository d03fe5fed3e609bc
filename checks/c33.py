"""C33: the map behind probes and profiles never loses or mixes up its elements."""
from engine import mapsem

TECH = ('static analysis: extraction of the probe sequences, slot accesses, exits and growth of the hash map from the inlined IR of each operation, compared between the operations and with the conditions '
        'under which open addressing is correct for every history')
NOTE = ('all operations of the map, all table sizes that are powers of two (the growth condition is evaluated for sizes up to 2^20). Elements equal to the reserved marks 0 and 1, the same element inserted '
        'under two keys, several elements under one key, and running out of memory are outside.')
RULE = ('All operations start a search at the same function of the key and advance by the same odd step over a power of two of slots; an element is written with its key to one free slot; searches end with the slot '
        'whose key is equal and which was not removed, or at an empty slot; the table grows, keeping every pair, before the last empty slot is used; the hash of a text uses every character.')

def run(rep, tier):
    rep.rule = RULE
    mapsem.decide(rep)
    rep.floor('map operations', 8)
