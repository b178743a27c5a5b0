"""Registry: which world simulates which property."""
import importlib

WORLD_OF = {}
for _p in ('E01', 'E02', 'E03', 'E04', 'E05', 'F01', 'F02', 'F03', 'F04', 'I02', 'M03'):
    WORLD_OF[_p] = 'execworld'
WORLD_OF['I01'] = 'concworld'
WORLD_OF['I03'] = 'bitsworld'
WORLD_OF['P01'] = 'soakworld'
WORLD_OF['M01'] = WORLD_OF['M02'] = 'backworld'
WORLD_OF['D01'] = WORLD_OF['D02'] = 'streamworld'
WORLD_OF['D03'] = 'regworld'
WORLD_OF['C01'] = WORLD_OF['C02'] = WORLD_OF['C03'] = 'consworld'


def world(prop):
    return importlib.import_module(WORLD_OF[prop])
