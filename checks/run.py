#!/usr/bin/env python3
import os, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [D + '/lib', D + '/checks']
sys.setrecursionlimit(20000)
import rv, props
if __name__ == '__main__':
    p = sys.argv[1]
    rv.main(props.CHECKS[p], p)
