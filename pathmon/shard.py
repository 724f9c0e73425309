import sys

from .core import shardMain

shardMain(sys.argv[1:])
