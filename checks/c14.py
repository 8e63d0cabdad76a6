"""C14: generated controllers against every bounded sequence of commands, datagrams, failures and schedules."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt.common import *
from vt import devgen
from c13 import run_all


def check(c):
    run_all(c, 'c14.cpp', 'controller', devgen.CONFIGS)
    c.assumptions += [
        'sockets and the NATS library are stand-ins with their documented behaviour; time is virtual',
        'one thread sends commands; one thread enables and disables receiving, except for two threads enabling it',
        'a listener does not disable receiving or destroy the controller',
    ]


if __name__ == '__main__':
    main('C14', check)
